"""Drivers for matching data with boundaries, and for pairing boundaries."""
import datetime as dt
import os
import random

import fw
import mk
from h_records import COLS, CRITS, enc_q, write_rows

NOQ = {'hasMin': False, 'min': 0, 'hasMax': False, 'max': 0, 'crit': []}


def ms(time, base):
    d = time - base
    return (d.days * 86400 + d.seconds) * 1000 + d.microseconds // 1000


def kwargs_of(q):
    out = {cc['attr']: (cc['rel'], cc['v']) for cc in q['crit']}
    if q['hasMin']:
        out['min_merit'] = q['min']
    if q['hasMax']:
        out['max_merit'] = q['max']
    return out


def make_obj(chk, ocbpy, make, cls, inst, recs, base, hemi=1):
    """recs: dicts with ms (whole seconds or minutes), fom, r."""
    path = make.path('.' + cls)
    rows = []
    for rec in recs:
        vals = {cc: 1.0 for cc in COLS[inst]}
        vals.update({kk: float(vv) for kk, vv in rec.items() if kk in vals})
        vals['sc'] = 16
        vals['soy_frac'] = 0.0
        rows.append({'t': base + rec['ms'] // 1000, 'v': vals})
    rows.append({'t': base + 86400 * 400, 'v': dict(
        {cc: 1.0 for cc in COLS[inst]}, sc=16, soy_frac=0.0)})
    write_rows(path, inst, rows)
    ctor = ocbpy.OCBoundary if cls == 'ocb' else ocbpy.EABoundary
    obj = ctor(path, instrument=inst, hemisphere=hemi,
               etime=fw.at(base + 86400 * 300))
    os.remove(path)
    enc = [dict({cc: fw.R(row['v'][cc]) for cc in COLS[inst]},
                t=(row['t'] - base) * 1000) for row in rows[:-1]]
    return obj, enc


def rand_q(rng):
    crit = []
    if rng.random() < 0.4:
        crit.append({'attr': 'r', 'rel': rng.choice(CRITS),
                     'v': rng.choice([1, 2, 3])})
    return {'hasMin': rng.random() < 0.4, 'min': rng.choice([0, 1, 2, 3, 4]),
            'hasMax': rng.random() < 0.4, 'max': rng.choice([2, 3, 4, 5]),
            'crit': crit}


def rand_recs(rng, unit, num, start=0):
    times = [start + unit * rng.randrange(0, 4)]
    while len(times) < num:
        times.append(times[-1] + unit * rng.choice(
            [1, 1, 1, 2, 2, 3, 4, 8, 60, 1440]))
    return [{'ms': tt * 1000, 'fom': rng.choice([1, 2, 3, 4, 5, 5, 6]),
             'r': rng.choice([1, 2, 3])} for tt in times[:num]]


def rand_data(rng, recs, unit, num):
    if len(recs) == 0:
        recs = [{'ms': 0}]
    out = []
    for k in range(num):
        out.append(rng.choice(recs)['ms'] + rng.choice(
            [0, 0, 500, -500, 1000, -1000, 500 * unit, -500 * unit,
             1000 * unit, -1000 * unit, 1000 * unit + 1, -1000 * unit - 1,
             1500 * unit, 10000 * unit, rng.randrange(-10**7, 10**7)]))
    return sorted(out)


def match_scenarios(rng, num):
    out = []
    for i in range(num):
        inst = rng.choice(['image', 'image', 'ampere', 'dmsp-ssj'])
        unit = 60 if inst == 'ampere' else rng.choice([1, 10, 60])
        recs = rand_recs(rng, unit, rng.choice([0, 1, 1, 2, 3, 5, 8]))
        data = rand_data(rng, recs, unit, rng.choice([0, 1, 2, 4, 8, 12]))
        q = rng.choice([NOQ, NOQ, rand_q(rng)])
        tol = rng.choice([1, unit, unit, unit // 2 or 1, 2 * unit, 600])
        out.append({'inst': inst, 'recs': recs, 'data': data, 'q': q,
                    'tol': tol, 'base': rng.choice(
                        [0, 86400 * 365, 86400 * 425 - 120]),
                    'mode': rng.choice(['loop', 'loop', 'again', 'random']),
                    'seed': rng.randrange(10**9)})
    return out


def run_match(chk, sces):
    ocbpy = fw.import_ocbpy(chk.home)
    import numpy as np
    make = mk.Maker(chk, ocbpy)
    groups = []
    for sce in sces:
        rng = random.Random(sce.get('seed', 0))
        base = sce['base'] - sce['base'] % 60
        obj, enc = make_obj(chk, ocbpy, make, 'ocb', sce['inst'], sce['recs'],
                            base)
        data = [fw.at(base) + dt.timedelta(milliseconds=dd)
                for dd in sce['data']]
        if rng.random() < 0.5:
            data = np.array(data)
        group = [{'k': 'file', 'inst': sce['inst'], 'recs': enc,
                  'data': sce['data'], 'cur': int(obj.rec_ind)}]
        kwargs = kwargs_of(sce['q'])

        def match(idat):
            res, exc = fw.call(ocbpy.match_data_ocb, obj, data, idat=idat,
                               max_tol=sce['tol'], **kwargs)
            group.append({'k': 'match', 'idat': idat, 'tol': sce['tol'] * 1000,
                          'q': enc_q(sce['q']), 'exc': exc or '',
                          'out': -1 if res is None else int(res),
                          'cur': int(obj.rec_ind)})
            return res

        def set_cur(ind):
            obj.rec_ind = ind
            group.append({'k': 'set', 'i': ind})

        if 'calls' in sce:
            for cur, idat in sce['calls']:
                if cur != obj.rec_ind and cur >= 0:
                    set_cur(cur)
                match(idat)
        elif sce['mode'] == 'loop':
            # The way the instrument routines move through the data
            idat = 0
            for k in range(len(data) + 2):
                idat = match(idat)
                if idat is None or idat >= len(data) \
                        or obj.rec_ind >= obj.records:
                    break
                idat += 1
        else:
            for k in range(rng.randrange(1, 6)):
                if rng.random() < 0.5 or sce['mode'] == 'again':
                    set_cur(rng.randrange(-1, obj.records + 1))
                match(rng.randrange(0, len(data) + 1))
        groups.append(group)
    return groups


def check_match(chk):
    rng = random.Random(chk.seed)
    em = chk.model('MCMatch', 'CONSTANTS MaxT = {:d} MaxRecs = 3 MaxData = '
                   '{:d} MaxCalls = 3 EmitMod = {:d}\nSPECIFICATION Spec\n'
                   'INVARIANTS FindsClosest FindsAny WithinTol Forward Emit\n'
                   'CHECK_DEADLOCK FALSE\n'.format(*chk.n((4, 2, 23),
                                                          (5, 3, 41))),
                   workers=6)
    sces = []
    for hist in em:
        # One unit of the model's time is ten seconds
        sces.append({'inst': 'image', 'base': 0, 'q': NOQ,
                     'recs': [{'ms': tt * 10000, 'fom': 1 if gg else 9, 'r': 1}
                              for tt, gg in zip(hist['times'], hist['good'])],
                     'data': [dd * 10000 for dd in hist['data']],
                     'tol': hist['tol'] * 10, 'calls': hist['calls']})
    chk.notes['behaviours_replayed'] = len(sces)
    sces += match_scenarios(rng, chk.n(6000, 40000))
    chk.judge('TraceMatch', 'JudgeMatch', chk.execute(run_match, sces),
              start='NoFile')


# -- pairs --------------------------------------------------------------------

def dual_scenarios(rng, num):
    out = []
    for i in range(num):
        oinst = rng.choice(['image', 'image', 'ampere', 'dmsp-ssj'])
        einst = rng.choice(['image', 'image', 'dmsp-ssj'])
        unit = 60 if oinst == 'ampere' else rng.choice([1, 10, 60])
        orecs = rand_recs(rng, unit, rng.choice([1, 1, 2, 3, 5, 8]))
        erecs = rand_recs(rng, max(1, unit // rng.choice([1, 1, 2])),
                          rng.choice([1, 1, 2, 3, 5, 8]),
                          start=rng.choice([0, 0, unit, 5 * unit]))
        data = rand_data(rng, orecs, unit, rng.choice([1, 2, 4, 6]))
        out.append({'oinst': oinst, 'einst': einst, 'orecs': orecs,
                    'erecs': erecs, 'data': data,
                    'delta': rng.choice([0, 1, unit, unit, 2 * unit, 600]),
                    'tol': rng.choice([1, unit, 2 * unit, 600]),
                    'ocur': rng.randrange(-1, len(orecs) + 1),
                    'ecur': rng.randrange(-1, len(erecs) + 1),
                    'ohemi': rng.choice([1, 1, 1, -1]),
                    'ehemi': rng.choice([1, 1, 1, -1]),
                    'elat': rng.choice([None] * 12 + [60.0, 73.9, 80.0]),
                    'olat': rng.choice([None] * 12 + [60.0, 64.0, 76.0,
                                                      -76.0]),
                    'seed': rng.randrange(10**9)})
        if rng.random() < 0.03:
            out[-1]['delta'] = -rng.choice([1, 60])
    return out


def run_dual(chk, sces):
    ocbpy = fw.import_ocbpy(chk.home)
    make = mk.Maker(chk, ocbpy)
    groups = []
    for sce in sces:
        rng = random.Random(sce.get('seed', 0))
        ocb, oenc = make_obj(chk, ocbpy, make, 'ocb', sce['oinst'],
                             sce['orecs'], 0, sce.get('ohemi', 1))
        eab, eenc = make_obj(chk, ocbpy, make, 'eab', sce['einst'],
                             sce['erecs'], 0, sce.get('ehemi', 1))
        ocb.rec_ind = sce['ocur']
        eab.rec_ind = sce['ecur']
        data = [fw.at(0) + dt.timedelta(milliseconds=dd)
                for dd in sce['data']]
        group = []

        def log(ev, exc):
            ev['exc'] = exc or ''
            if exc is None:
                ev.update({
                    'records': int(dual.records), 'cur': int(dual.rec_ind),
                    'ocur': int(dual.ocb.rec_ind),
                    'ecur': int(dual.eab.rec_ind),
                    'pairs': [[int(ii), int(jj)] for ii, jj in
                              zip(dual.ocb_ind, dual.eab_ind)],
                    't': [ms(tt, fw.at(0)) for tt in dual.dtime]})
            else:
                ev.update({'records': 0, 'cur': 0, 'ocur': 0, 'ecur': 0,
                           'pairs': [], 't': []})
            group.append(ev)

        kwargs = {kk + '_lat': sce[kk[0] + 'lat'] for kk in ['ocb', 'eab']
                  if sce.get(kk[0] + 'lat') is not None}
        dual, exc = fw.call(ocbpy.DualBoundary, ocb=ocb, eab=eab,
                            max_delta=sce['delta'], **kwargs)
        log({'k': 'dual', 'o': oenc, 'e': eenc, 'oinst': sce['oinst'],
             'einst': sce['einst'], 'delta': sce['delta'] * 1000,
             'data': sce['data'], 'ohemi': int(ocb.hemisphere),
             'ehemi': int(eab.hemisphere),
             'hemi': int(dual.hemisphere) if exc is None else 0,
             'olat': fw.R(sce.get('olat') or 74), 'elat': fw.R(
                 sce.get('elat') or 64)}, exc)
        groups.append(group)
        if exc is not None:
            continue
        ops = sce.get('ops')
        if ops is None:
            ops = [rng.choice(['set', 'set', 'next', 'next', 'select', 'match',
                               'match', 'matchq'])
                   for k in range(rng.randrange(1, 8))]
        idat = 0
        for op in ops:
            if op == 'set':
                ind = rng.randrange(-1, dual.records + 3)
                dual.rec_ind = ind
                log({'k': 'set', 'i': ind}, None)
            elif op == 'next':
                _, exc = fw.call(dual.get_next_good_ind)
                log({'k': 'next'}, exc)
            elif op == 'select':
                qo, qe = rand_q(rng), rand_q(rng)
                ko, ke = kwargs_of(qo), kwargs_of(qe)
                kwargs = {}
                for name, kw in [('ocb', ko), ('eab', ke)]:
                    for lim in ['min', 'max']:
                        key = lim + '_merit'
                        if key in kw:
                            kwargs['_'.join([name, key])] = kw.pop(key)
                    if len(kw) > 0 or rng.random() < 0.3:
                        kwargs[name + '_kwargs'] = kw
                before = repr(kwargs)
                _, exc = fw.call(dual.set_good_ind, **kwargs)
                log({'k': 'select', 'qo': enc_q(qo), 'qe': enc_q(qe),
                     'same': repr(kwargs) == before}, exc)
            else:
                q = NOQ if op == 'match' else rand_q(rng)
                if rng.random() < 0.3:
                    idat = rng.randrange(0, len(data))
                res, exc = fw.call(ocbpy.match_data_ocb, dual, data, idat=idat,
                                   max_tol=sce['tol'], **kwargs_of(q))
                log({'k': 'match', 'q': enc_q(q), 'idat': idat,
                     'tol': sce['tol'] * 1000,
                     'out': -1 if res is None else int(res)}, exc)
                if exc is None and res is not None and res < len(data) - 1:
                    idat = int(res) + 1
            if group[-1]['exc'] != '':
                break
    return groups


def check_dual(chk):
    rng = random.Random(chk.seed)
    em = chk.model('MCPairs', 'CONSTANTS MaxT = {:d} MaxRecs = 3 EmitMod = '
                   '{:d}\nSPECIFICATION Spec\nINVARIANTS IsPairs PairsNear '
                   'PairsForward Exhaustive Emit\nCHECK_DEADLOCK FALSE\n'
                   .format(*chk.n((4, 37), (6, 53))), workers=6)
    sces = []
    for hist in em:
        sces.append({'oinst': 'image', 'einst': 'image', 'data': [0],
                     'delta': hist['delta'] * 10, 'tol': 10, 'ocur': -1,
                     'ecur': -1, 'ops': ['next', 'next', 'set'],
                     'seed': len(sces),
                     'orecs': [{'ms': tt * 10000, 'fom': 1 if gg else 9}
                               for tt, gg in zip(hist['ot'], hist['og'])],
                     'erecs': [{'ms': tt * 10000, 'fom': 1 if gg else 9}
                               for tt, gg in zip(hist['et'], hist['eg'])]})
    chk.notes['behaviours_replayed'] = len(sces)
    sces += dual_scenarios(rng, chk.n(4500, 30000))
    chk.judge('TraceMatch', 'JudgeDual', chk.execute(run_dual, sces),
              start='NoDual')
