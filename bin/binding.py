#!/usr/bin/env python3
"""Show how the recorded events are bound to the specification.

Changes one recorded value in each history of a check, lets TLC judge the
changed histories, and prints for each field of the events how many of the
changes were rejected.  Changed inputs may lead to another correct behaviour
(then the recorded outputs no longer agree); a field whose changes are never
rejected is not looked at.

usage: binding.py PROPERTY [number of histories]
"""
import copy
import os
import random
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'harness'))
sys.dont_write_bytecode = True

import fw  # noqa: E402
import importlib  # noqa: E402
from registry import CHECKS  # noqa: E402

TABLE = {}


def leaves(obj, path, out):
    """List the places of all values, with the path of their field."""
    if isinstance(obj, dict):
        for kk in obj:
            leaves(obj[kk], path + (kk,), out)
    elif isinstance(obj, list) and not is_real(obj):
        for kk in range(len(obj)):
            leaves(obj[kk], path + (kk,), out)
    else:
        out.append(path)


def is_real(obj):
    return (isinstance(obj, list) and len(obj) == 2
            and all(type(ii) is int for ii in obj)
            and (abs(obj[0]) > 10**6 or obj == [0, 0]))


def other(val, rng):
    """A value of the same kind that differs visibly."""
    if isinstance(val, bool):
        return not val
    if isinstance(val, int):
        return val + rng.choice([1, -1])
    if isinstance(val, str):
        return val + 'x'
    if is_real(val):
        num = fw.unR(val)
        return fw.R(1.5 if num != num else num + rng.choice(
            [1.0, -1.0]) * max(1.0, 0.1 * abs(num)))
    return val


def get(obj, path):
    for kk in path:
        obj = obj[kk]
    return obj


def name(event, path):
    # Numbers in a path are positions, except in short fixed pairs
    return event.get('k', '-') + ':' + '.'.join(
        '#' if isinstance(kk, int) else str(kk) for kk in path)


def main():
    prop = sys.argv[1]
    num = int(sys.argv[2]) if len(sys.argv) > 2 else 1500
    rng = random.Random(7)
    judge = fw.Check.judge

    def corrupting(chk, module, jname, groups, **kwargs):
        groups = [gg for gg in groups if len(gg) > 0]
        rng.shuffle(groups)
        mut, tags = [], {}
        for gg in groups[:num] * max(1, num // max(1, len(groups))):
            gg = copy.deepcopy(gg)
            ev = rng.choice(gg)
            out = []
            leaves({kk: vv for kk, vv in ev.items() if kk != 'k'}, (), out)
            # Each field with the same chance
            fields = {}
            for path in out:
                fields.setdefault(name(ev, path), []).append(path)
            if len(fields) == 0:
                continue
            tag = rng.choice(sorted(fields))
            path = rng.choice(fields[tag])
            get(ev, path[:-1])[path[-1]] = other(get(ev, path), rng)
            for kk in range(len(gg)):
                gg[kk]['zz'] = len(mut)
            tags[len(mut)] = tag
            mut.append(gg)
        left = mut
        rejected = set()
        for again in range(60):
            chk.violations = []
            chk.findings = []
            judge(chk, module, jname, left, **kwargs)
            done = set()
            for vv in chk.violations:
                ev = vv['event']
                ev = ev[-1] if isinstance(ev, list) else ev
                rejected.add(ev['zz'])
                if 'OutsideSpecification' in vv['clauses']:
                    done.add(ev['zz'])
            if len(done) == 0:
                break
            sys.stderr = open(os.devnull, "w")
            left = [gg for gg in left if gg[0]['zz'] not in done]
        for kk, tag in tags.items():
            row = TABLE.setdefault(jname + ' ' + tag, [0, 0])
            row[0] += 1
            row[1] += kk in rejected
        chk.violations = []

    fw.Check.judge = corrupting
    chk = fw.Check(prop, 'quick', 1)
    chk.finish = lambda: 0
    try:
        mod, func = CHECKS[prop]
        getattr(importlib.import_module(mod), func)(chk)
    finally:
        chk.clean()
    for tag in sorted(TABLE):
        tot, rej = TABLE[tag]
        print('{:s} {:4d}/{:d} {:s}'.format(prop, rej, tot, tag),
              '' if rej > 0 else '   NEVER REJECTED' if tot > 2 else '')


if __name__ == '__main__':
    main()
