#!/opt/venv/bin/python
"""Check that the tools work: compile the arithmetic and parse every module."""
import os
import shutil
import subprocess
import sys
import tempfile

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'harness'))
import fw  # noqa: E402


def main():
    work = tempfile.mkdtemp(prefix='verif_setup_', dir='/tmp')
    try:
        src = os.path.join(HERE, 'java')
        subprocess.run(['javac', '-cp', fw.CP, '-d', work]
                       + [os.path.join(src, ff) for ff in os.listdir(src)],
                       check=True)
        mods = sorted(ff for ff in os.listdir(fw.SPEC) if ff.endswith('.tla'))
        run = subprocess.run(
            ['java', '-Djava.io.tmpdir=' + work, '-cp', work + ':' + fw.CP,
             '-DTLA-Library=' + fw.SPEC,
             'tla2sany.SANY'] + [os.path.join(fw.SPEC, ff) for ff in mods],
            capture_output=True, text=True, cwd=work)
        bad = run.returncode != 0 or '*** Errors' in run.stdout
        if bad:
            for part in run.stdout.split('****** SANY2'):
                if '*** Errors' in part:
                    print(part[part.find('*** Errors'):][:2000])
        print('{:d} modules: {:s}'.format(len(mods), 'bad' if bad else 'ok'))
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        return 1 if bad else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
