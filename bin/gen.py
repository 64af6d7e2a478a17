#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py."""
import json
import os

from props import PROPS

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMD = '/opt/venv/bin/python bin/check.py {:s} {:s}'
NOTE = ('TLC explores the model exhaustively within the stated constants, and '
        'judges every recorded event of the real code against the same '
        'specification. The inputs replayed are those emitted by TLC plus '
        'seeded random ones, so the assurance for the code is bounded by '
        'them. Trusted: TLC, the binary64 arithmetic of java/Reals.java, and '
        'the recording harness. ')


def main():
    props, checks = [], []
    for prop in PROPS:
        note = prop.pop('note', '')
        props.append(prop)
        pid = prop['id']
        checks.append({
            'property': pid, 'quick_cmd': CMD.format(pid, 'quick'),
            'thorough_cmd': CMD.format(pid, 'thorough'),
            'evidence_file': 'evidence/{:s}.json'.format(pid),
            'technique': 'TLA+ specification checked with TLC; conformance '
            'by replay of TLC behaviours and trace validation',
            'level': 'model_checking', 'level_note': NOTE + note})
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fout:
        for prop in props:
            fout.write(json.dumps(prop) + '\n')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fout:
        json.dump({'version': 1,
                   'setup_cmd': '/opt/venv/bin/python bin/setup.py',
                   'checks': checks, 'not_applicable': []}, fout, indent=1)
        fout.write('\n')


if __name__ == '__main__':
    main()
