"""Framework of the checks: run TLC, run the real code, judge its traces.

The oracle is always the TLA+ specification.  A check (1) model checks the
specification exhaustively for small constants, (2) runs the code in /repo on
inputs and histories enumerated by TLC and on seeded random ones, recording
what it did, and (3) lets TLC decide whether each recorded event is allowed.
"""
import datetime as dt
import json
import logging
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
TLA = '/opt/veriftools/tla'
CP = ':'.join([os.path.join(TLA, 'tla2tools.jar'),
               os.path.join(TLA, 'CommunityModules-deps.jar')])
EPOCH = dt.datetime(2000, 1, 1)
NJOBS = 7
OUTSIDE = ['Attempted to', 'outside its domain', 'out of bounds',
           'tried to access', 'is not a record', 'is not a function',
           'has no field', 'not in the domain']


class Machinery(Exception):
    """The check itself failed, which says nothing about the code."""


class Hang(Exception):
    """A call into the code did not return in time."""


# -- encoding -----------------------------------------------------------------

def R(x):
    """Encode a real as the two signed halves of its binary64."""
    x = float(x)
    if x != x:
        return [2146959360, 0]
    if x == 0.0:
        return [0, 0]
    return list(struct.unpack('>ii', struct.pack('>d', x)))


def unR(p):
    return struct.unpack('>d', struct.pack('>ii', *p))[0]


def Rs(xs):
    """Encode the flattened elements of an array."""
    import numpy as np
    return [R(x) for x in np.asarray(xs, dtype=float).flatten()]


def shape(x):
    import numpy as np
    return list(np.shape(x))


def T(t):
    """Encode a datetime as [seconds, microseconds] from 2000-01-01."""
    d = t - EPOCH
    return [d.days * 86400 + d.seconds, d.microseconds]


def S(t):
    """Encode a datetime as whole seconds from 2000-01-01."""
    d = t - EPOCH
    assert d.microseconds == 0, t
    return d.days * 86400 + d.seconds


def at(sec):
    return EPOCH + dt.timedelta(seconds=int(sec))


# -- the real code ------------------------------------------------------------

def import_ocbpy(home, path=None):
    """Import the package from the working tree of the repository."""
    os.environ['HOME'] = home
    os.makedirs(os.path.join(home, 'pysatData'), exist_ok=True)
    os.environ['TZ'] = 'UTC'
    time.tzset()
    sys.dont_write_bytecode = True
    sys.path.insert(0, path or REPO)
    import warnings
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        import ocbpy
    ocbpy.logger.handlers = [logging.NullHandler()]
    ocbpy.logger.propagate = False
    ocbpy.logger.setLevel(logging.CRITICAL + 1)
    logging.getLogger('aacgmv2_logger').setLevel(logging.CRITICAL + 1)
    return ocbpy


def _alarm(signum, frame):
    raise Hang('call did not return')


def call(fn, *args, limit=20, **kwargs):
    """Call fn; return (result, None) or (None, name of the exception)."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        return fn(*args, **kwargs), None
    except Hang:
        return None, 'Hang'
    except Exception as err:
        return None, type(err).__name__
    finally:
        signal.alarm(0)


def former(rng, fn, args, kwargs=None, prob=0.15):
    """Maybe call fn before, with similar arguments; nothing may come of it.

    The arrays have the same shape and extremes in another order, or are the
    same objects with other values for that time, and what is returned is
    overwritten, as it belongs to the caller.
    """
    import numpy as np
    if rng.random() >= prob:
        return
    kwargs = kwargs or {}
    how = rng.choice(['same', 'other', 'other', 'inplace', 'inplace'])

    def other(val):
        new = np.array(val)
        if new.size > 1:
            new = new.reshape(-1)[::-1].reshape(new.shape)
        elif new.dtype.kind == 'f':
            new = new + 1.0
        return new
    ins = [vv for vv in list(args) + [kwargs[kk] for kk in sorted(kwargs)]
           if isinstance(vv, np.ndarray) and vv.dtype.kind in 'fi']
    kept = [vv.copy() for vv in ins]
    if how == 'inplace':
        for vv in ins:
            if vv.flags.writeable:
                vv[...] = other(vv)
    elif how == 'other':
        args = [other(vv) if any(vv is ii for ii in ins) else vv
                for vv in args]
        kwargs = {kk: other(vv) if any(vv is ii for ii in ins) else vv
                  for kk, vv in kwargs.items()}
    res, exc = call(fn, *args, **kwargs)
    if exc is None:
        outs = res.values() if isinstance(res, dict) else (
            res if isinstance(res, (tuple, list)) else [res])
        for out in outs:
            if isinstance(out, np.ndarray) and out.dtype.kind in 'fib' \
                    and out.flags.writeable and not any(
                        np.shares_memory(out, vv) for vv in ins):
                out[...] = 1
    for vv, old in zip(ins, kept):
        if how == 'inplace' and vv.flags.writeable:
            vv[...] = old


def probe(rng, fn, *args, **kwargs):
    """As call, maybe after a similar call."""
    former(rng, fn, args, kwargs)
    return call(fn, *args, **kwargs)


# -- the check ----------------------------------------------------------------

class Check(object):
    """One run of the check of one property."""

    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.quick = tier == 'quick'
        self.start = time.time()
        self.dir = tempfile.mkdtemp(prefix='verif_{:s}_'.format(prop),
                                    dir='/tmp')
        self.home = os.path.join(self.dir, 'home')
        os.makedirs(self.home)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.notes = {}
        self.models = []
        self.violations = []
        self.known = {}
        self._cls = None
        old = os.path.join(VERIF, 'evidence', 'replays', prop + '.json')
        if os.path.exists(old):
            os.remove(old)
        with open(os.path.join(VERIF, 'known_findings.json')) as fin:
            self.findings = [kf for kf in json.load(fin)['findings']
                             if kf['property'] == prop]

    def n(self, quick, thorough):
        """Pick a size for the tier."""
        return quick if self.quick else thorough

    # TLC

    def _classes(self):
        if self._cls is None:
            self._cls = os.path.join(self.dir, 'cls')
            os.makedirs(self._cls)
            src = os.path.join(VERIF, 'java')
            run = subprocess.run(
                ['javac', '-cp', CP, '-d', self._cls]
                + [os.path.join(src, ff) for ff in sorted(os.listdir(src))],
                capture_output=True, text=True)
            if run.returncode != 0:
                raise Machinery('javac: ' + run.stderr)
        return self._cls

    def tlc(self, module, cfg, env=None, workers=1, timeout=800, heap='2g',
            name=None, args=()):
        """Run TLC on a module of /verif/spec; return its output."""
        cls = self._classes()
        name = name or module
        work = tempfile.mkdtemp(prefix='tlc_', dir=self.dir)
        with open(os.path.join(work, 'M.cfg'), 'w') as fout:
            fout.write(cfg)
        envs = dict(os.environ)
        envs.update(env or {})
        cmd = ['java', '-XX:+UseSerialGC' if workers == 1
               else '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss16m',
               '-XX:TieredStopAtLevel=4', '-Djava.io.tmpdir=' + work,
               '-cp', cls + ':' + CP,
               '-DTLA-Library=' + SPEC, 'tlc2.TLC', '-workers', str(workers),
               '-metadir', os.path.join(work, 'meta'), '-noGenerateSpecTE',
               '-lncheck', 'final', '-config', os.path.join(work, 'M.cfg')]
        cmd += list(args) + [os.path.join(SPEC, module + '.tla')]
        try:
            run = subprocess.run(cmd, cwd=work, env=envs, capture_output=True,
                                 text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Machinery('TLC timed out on ' + name)
        out = run.stdout
        if 'Model checking completed. No error has been found.' not in out \
                and 'The number of states generated' not in out:
            lines = [ll for ll in out.splitlines()
                     if not ll.startswith(('Loading', 'Parsing', 'Semantic',
                                           'Linting'))]
            text = '\n'.join(lines)
            if len(text) > 8000:
                text = text[:3000] + '\n...\n' + text[-5000:]
            # The position in the trace, when one was being judged
            where = re.findall(r'^/\\ l = (\d+)', text, re.M)
            raise Machinery('TLC failed on {:s}:\n{:s}\n{:s}'.format(
                name, text, run.stderr[-2000:]),
                int(where[-1]) if len(where) > 0 else None)
        shutil.rmtree(work, ignore_errors=True)
        return out

    def model(self, module, cfg, workers=4, timeout=800, heap='4g', name=None,
              env=None):
        """Exhaustively model check the specification; return emitted JSON."""
        t0 = time.time()
        out = self.tlc(module, cfg, env=env, workers=workers, timeout=timeout,
                       heap=heap, name=name)
        mat = re.search(r'(\d+) states generated, (\d+) distinct states found',
                        out)
        gen, dist = int(mat.group(1)), int(mat.group(2))
        self.transitions += gen
        self.states += dist
        emitted = []
        for line in out.splitlines():
            if line.startswith('"@@'):
                emitted.append(json.loads(json.loads(line)[2:]))
        emitted.sort(key=lambda x: json.dumps(x, sort_keys=True))
        self.models.append({'model': name or module, 'states_generated': gen,
                            'distinct_states': dist,
                            'scenarios_emitted': len(emitted),
                            'wall_s': round(time.time() - t0, 1)})
        return emitted

    # Running the code

    def execute(self, fn, sces, limit=600):
        """Run fn(check, part) in child processes, each on a part of sces.

        Returns the joined JSON results, in the order of sces.  A child may be
        ended by the code under test without ending the check.
        """
        jobs = max(1, min(NJOBS, len(sces) // 40))
        cuts = [len(sces) * k // jobs for k in range(jobs + 1)]
        outs = [tempfile.mktemp(prefix='exec_', dir=self.dir)
                for k in range(jobs)]
        sys.stdout.flush()
        sys.stderr.flush()
        pids = {}
        for k in range(jobs):
            pid = os.fork()
            if pid == 0:
                self._child(fn, sces[cuts[k]:cuts[k + 1]], outs[k])
            pids[pid] = k
        t0 = time.time()
        codes = {}
        while len(pids) > 0:
            for pid in list(pids):
                done, status = os.waitpid(pid, os.WNOHANG)
                if done:
                    codes[pids.pop(pid)] = status
            if time.time() - t0 > limit:
                for pid in pids:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                self.violate({'driver': fn.__name__}, ['TheCodeDoesNotReturn'])
                break
            time.sleep(0.02)
        res = []
        for k in sorted(codes):
            if codes[k] == 0:
                with open(outs[k]) as fin:
                    res.extend(json.load(fin))
                os.remove(outs[k])
            elif os.WIFEXITED(codes[k]) and os.WEXITSTATUS(codes[k]) == 7:
                raise Machinery('driver failed')
            else:
                self.violate({'driver': fn.__name__, 'status': codes[k]},
                             ['TheCodeEndsTheDriver'])
        return res

    def _child(self, fn, sces, out):
        """Run fn in a forked child, in a directory of its own."""
        code = 1
        try:
            self.dir = tempfile.mkdtemp(prefix='run_', dir=self.dir)
            self.home = os.path.join(self.dir, 'home')
            os.makedirs(self.home)
            res = fn(self, sces)
            with open(out, 'w') as fout:
                json.dump(res, fout)
            code = 0
        except Machinery as err:
            sys.stderr.write('MACHINERY {:}\n'.format(err))
            code = 7
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)

    def judge(self, module, judge, groups, start='0', jobs=NJOBS, extra='',
              heap='2g', label=None):
        """Let TLC judge recorded events.

        groups: list of lists of events; each group is one history, judged
        from the initial specification state (a {'k': 'start'} event is put
        before it when start is not '0').
        """
        groups = [gg for gg in groups if len(gg) > 0]
        if len(groups) == 0:
            if len(self.violations) == 0:
                raise Machinery('no events to judge for ' + module)
            return
        total = sum(len(gg) for gg in groups)
        jobs = max(1, min(jobs, len(groups), total // 150 + 1))
        chunks = [[] for i in range(jobs)]
        order = sorted(range(len(groups)), key=lambda i: -len(groups[i]))
        sizes = [0] * jobs
        for i in order:
            j = sizes.index(min(sizes))
            chunks[j].append(groups[i])
            sizes[j] += len(groups[i]) + 1
        cfg = ('CONSTANTS Judge <- {:s}\n Start <- {:s}\nINIT Init\nNEXT Next\n'
               'POSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n{:s}'
               ).format(judge, start if start != '0' else 'NoState', extra)

        def run(ichunk):
            events = []
            for gg in chunks[ichunk]:
                if start != '0':
                    events.append({'k': 'start'})
                events.extend(gg)
            tin = os.path.join(self.dir, 'trace_{:}_{:d}.json'.format(
                label or judge, ichunk))
            tout = tin + '.out'
            with open(tin, 'w') as fout:
                json.dump(events, fout)
            try:
                self.tlc(module, cfg, env={'TRACE': tin, 'OUT': tout},
                         heap=heap, name='{:s}/{:s}'.format(module, judge))
            except Machinery as err:
                # An event that lies outside of what the judge is defined for
                # (such as a value of another type) cannot be a behaviour of
                # the specification, whose judges are total on those.
                where = err.args[1] if len(err.args) > 1 else None
                if where is None or not any(
                        tt in str(err) for tt in OUTSIDE):
                    raise
                sys.stderr.write(' '.join(re.findall(
                    r'Attempted[^/]*', str(err.args[0]))[:1])[:300] + '\n')
                return [(events[where - 1], ['OutsideSpecification'])]
            with open(tout) as fin:
                bad = json.load(fin)
            os.remove(tin)
            os.remove(tout)
            res = []
            for ind, clauses in bad:
                clauses = sorted(clauses)
                k = ind - 1
                first = k
                if start != '0':
                    while first > 0 and events[first].get('k') != 'start':
                        first -= 1
                res.append((events[first:k + 1] if start != '0'
                            else events[k], clauses))
            return res

        self._classes()
        with ThreadPoolExecutor(jobs) as pool:
            results = list(pool.map(run, range(jobs)))
        self.events += total
        self.traces += len(groups)
        self.states += total
        self.transitions += total
        if len(self.samples) < 6:
            for gg in (groups[0], groups[len(groups) // 2]):
                txt = json.dumps(gg[:4])
                self.samples.append({'judge': judge, 'events': json.loads(
                    txt) if len(txt) < 3000 else txt[:3000]})
        for res in results:
            for events, clauses in res:
                self.violate(events, clauses)

    def violate(self, what, clauses):
        """Record a violation, unless it is a listed finding."""
        listed = {kf['clause']: kf for kf in self.findings
                  if kf.get('status') != 'fixed'}
        new = [cc for cc in clauses if cc not in listed]
        for cc in clauses:
            if cc in listed:
                self.known[cc] = self.known.get(cc, 0) + 1
        if len(new) > 0:
            self.violations.append({'clauses': new, 'event': what})

    # Ending

    def finish(self):
        code = 0
        for cc in sorted(self.known):
            kf = [ff for ff in self.findings if ff['clause'] == cc][0]
            print('KNOWN-FINDING: property={:s} {:s} ({:d} events)'.format(
                self.prop, kf['what'], self.known[cc]))
        if len(self.violations) > 0:
            code = 1
            rdir = os.path.join(VERIF, 'evidence', 'replays')
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, '{:s}.json'.format(self.prop))
            # Up to four examples of each set of broken clauses
            count = {}
            for vv in self.violations:
                key = tuple(vv['clauses'])
                count[key] = count.get(key, 0) + 1
                vv['n'] = count[key]
            few = [vv for vv in self.violations if vv['n'] < 5][:40]
            with open(path, 'w') as fout:
                json.dump({'property': self.prop, 'seed': self.seed,
                           'tier': self.tier,
                           'violations': [decode(vv) for vv in few],
                           'raw': few[:3]}, fout, indent=1)
            names = {}
            for vv in self.violations:
                for cc in vv['clauses']:
                    names[cc] = names.get(cc, 0) + 1
            print('broken clauses: ' + ', '.join(
                '{:s} x{:d}'.format(cc, names[cc]) for cc in sorted(names)))
            print('VIOLATION property={:s} replay={:s}'.format(self.prop, path))
        self.evidence()
        return code

    def evidence(self):
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces,
               'events_judged': self.events, 'models': self.models,
               'known_findings_seen': self.known,
               'violations': len(self.violations),
               'samples': self.samples or ['none']}
        cov.update(self.notes)
        edir = os.path.join(VERIF, 'evidence')
        os.makedirs(edir, exist_ok=True)
        with open(os.path.join(edir, self.prop + '.json'), 'w') as fout:
            json.dump({'property': self.prop, 'tier': self.tier,
                       'seed': self.seed, 'level': 'model_checking',
                       'coverage': cov,
                       'wall_s': round(time.time() - self.start, 2)}, fout,
                      indent=1)

    def clean(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def decode(obj):
    """Replace encoded reals by readable numbers (heuristic, for replays)."""
    if isinstance(obj, dict):
        return {kk: decode(vv) for kk, vv in obj.items()}
    if isinstance(obj, list):
        if len(obj) == 2 and all(isinstance(ii, int) for ii in obj) \
                and (abs(obj[0]) > 10**6 or obj == [0, 0]):
            return unR(obj)
        return [decode(vv) for vv in obj]
    return obj
