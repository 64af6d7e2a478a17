"""Drivers for the functions of the vectors module, one by one."""
import copy
import math
import random

import fw
from h_geom import rand_lat, rand_mlt, same, size
from h_vec import rand_vec

NAN = float('nan')


def give(rng, vals, shape, whole=False):
    """Give the values the form in which a caller may provide them."""
    import numpy as np
    if shape == []:
        if float(vals[0]).is_integer() and rng.random() < 0.5:
            return rng.choice([int, np.int64])(vals[0])
        return rng.choice([vals[0], vals[0], np.array(vals[0])])
    arr = np.array(vals).reshape(shape)
    if all(float(vv).is_integer() for vv in vals) and rng.random() < 0.5:
        arr = arr.astype(int)
    if whole and rng.random() < 0.3:
        arr = arr.astype(float)
    return arr.tolist() if rng.random() < 0.3 else arr


def mix(rng, sce, cols):
    """Let some of the arguments be one for all; return them and the shape."""
    shape = sce['shape']
    num = size(shape)
    args, out = {}, {}
    one = {kk: shape != [] and rng.random() < 0.3 for kk in cols}
    if 'rc' in cols:
        one = {kk: False for kk in cols}
    if shape != [] and all(one.values()):
        one[sorted(cols)[0]] = False
    for kk, vals in cols.items():
        whole = kk in ('pq', 'vq')
        if one[kk]:
            vals = vals[:1] * num
            args[kk] = give(rng, vals, [], whole)
        else:
            args[kk] = give(rng, vals, shape, whole)
        out[kk] = list(vals) if whole else fw.Rs(vals)
    return args, out


def poke(rng, vals, prob=0.05):
    return [NAN if rng.random() < prob else vv for vv in vals]


def pair(rng):
    """Quadrant and angle of a direction."""
    quad = rng.choice([1, 2, 3, 4])
    low = 0.0 if quad < 3 else 90.0
    return quad, low + rng.choice([0.0, 90.0, 45.0, rng.uniform(0, 90),
                                   rng.uniform(0, 90), rng.uniform(0, 1e-3)])


def run_quad(chk, sces):
    fw.import_ocbpy(chk.home)
    import numpy as np
    from ocbpy import vectors
    groups = []
    for sce in sces:
        rng = random.Random(sce['seed'])
        num = size(sce['shape'])
        kind = sce['k']
        ints = rng.random() < 0.15
        if kind == 'vquad':
            vecs = [rand_vec(rng) for k in range(num)]
            cols = {'n': poke(rng, [vv[0] for vv in vecs]),
                    'e': poke(rng, [vv[1] for vv in vecs])}
            names, fun = ['n', 'e'], vectors.define_vect_quadrants
        elif kind == 'pquad':
            lts = [rand_mlt(rng) for k in range(num)]
            plts = [rng.choice([rand_mlt(rng), ll, ll + 12.0, ll - 12.0,
                                ll + 24.0, ll - 60.0]) for ll in lts]
            cols = {'lt': poke(rng, lts), 'plt': poke(rng, plts),
                    'angle': poke(rng, [rng.choice(
                        [0.0, 90.0, 180.0, rng.uniform(0, 180)])
                        for k in range(num)])}
            names, fun = ['lt', 'plt', 'angle'], vectors.define_pole_quadrants
        elif kind == 'angle':
            hemis = [rng.choice([1, -1])] * num
            if rng.random() < 0.3:
                hemis = [rng.choice([1, -1]) for k in range(num)]
            lats = [rand_lat(rng, hh, 0) or hh * 60.0 for hh in hemis]
            cols = {'lt': poke(rng, [rand_mlt(rng, False)
                                     for k in range(num)]),
                    'lat': poke(rng, lats),
                    'plt': [rand_mlt(rng, False) for k in range(num)],
                    'plat': [hh * rng.uniform(60, 89.9)
                             for hh in hemis]}
            if rng.random() < 0.2:
                cols['plt'] = [(ll + rng.choice([0.0, 12.0])) % 24
                               for ll in cols['lt']]
            names = ['lt', 'lat', 'plt', 'plat']
            fun = vectors.calc_vec_pole_angle
        elif kind == 'poleloc':
            cols = {'phi': poke(rng, [rng.choice([
                0.0, 360.0, rng.uniform(0, 360), rng.uniform(-400, 800)])
                for k in range(num)]),
                'rc': [rng.uniform(0, 30) for k in range(num)]}
            names, fun = ['phi', 'rc'], vectors.get_pole_loc
        else:
            if 'dirs' in sce:
                pairs = [((dd['pq'], fw.unR(dd['pole'])),
                          (dd['vq'], fw.unR(dd['base']))) for dd in sce['dirs']]
            else:
                pairs = [(pair(rng), pair(rng)) for k in range(num)]
            if 'dirs' not in sce and rng.random() < 0.7:
                # In one half, so that one value may go with all others
                for j in [0, 1]:
                    south = rng.random() < 0.5
                    pairs = [tuple(
                        (rng.choice([3, 4] if south else [1, 2]),
                         90.0 * south + pp[ii][1] % 90.0) if ii == j
                        else pp[ii] for ii in [0, 1]) for pp in pairs]
            cols = {'pq': [pp[0][0] for pp in pairs],
                    'vq': [pp[1][0] for pp in pairs],
                    'base': poke(rng, [pp[1][1] for pp in pairs]),
                    'pole': poke(rng, [pp[0][1] for pp in pairs])}
            if rng.random() < 0.1:
                which = rng.choice(['pq', 'vq'])
                cols[which] = [qq if rng.random() < 0.4 else 0
                               for qq in cols[which]]
            names = ['pq', 'vq', 'base', 'pole']
            fun = vectors.calc_dest_polar_angle if kind == 'dest' \
                else vectors.calc_dest_vec_sign
        if ints and 'dirs' not in sce:
            cols = {kk: [vv if vv != vv else type(vv)(round(vv)) for vv in vals]
                    for kk, vals in cols.items()}
        if 'dirs' in sce:
            # Keep quadrants and angles together
            args = {kk: give(rng, vv, sce['shape'], kk in ('pq', 'vq'))
                    for kk, vv in cols.items()}
            enc = {kk: list(vv) if kk in ('pq', 'vq') else fw.Rs(vv)
                   for kk, vv in cols.items()}
        else:
            args, enc = mix(rng, sce, cols)
        kwargs = {}
        ev = dict(enc, k=kind, num=num, shape=sce['shape'], oshape=[], out=[],
                  out2=[])
        if kind == 'sign':
            ev['north'], ev['east'] = rng.choice(
                [(True, True), (True, False), (False, True), (False, False)])
            kwargs = {kk: ev[kk] for kk in ['north', 'east']
                      if ev[kk] or rng.random() < 0.3}
        vals = [args[nn] for nn in names]
        before = copy.deepcopy(vals)
        res, exc = fw.probe(rng, fun, *vals, **kwargs)
        ev['exc'] = exc or ''
        ev['same'] = all(np.array_equal(np.asarray(aa), np.asarray(bb),
                                        equal_nan=True)
                         and type(aa) is type(bb)
                         for aa, bb in zip(before, vals))
        if exc is None:
            if kind == 'sign':
                ev['out2'] = [int(vv) for vv in
                              np.asarray(res['east']).flatten()]
                res = res['north']
            elif kind == 'poleloc':
                ev['out2'] = fw.Rs(res[1])
                exc = 'Shapes' if fw.shape(res[1]) != fw.shape(res[0]) \
                    else None
                ev['exc'] = exc or ''
                res = res[0]
            ev['oshape'] = fw.shape(res)
            ev['out'] = [int(vv) for vv in np.asarray(res).flatten()] \
                if kind in ('sign', 'vquad', 'pquad') else fw.Rs(res)
        groups.append([ev])
    return groups


MODEL = '''SPECIFICATION Spec
CONSTANTS
 Step = {:d}
 EmitMod = {:d}
INVARIANT Defined
INVARIANT QuadrantsAgree
INVARIANT DirectionsKept
INVARIANT Components
INVARIANT Aligned
INVARIANT ByQuadrant
INVARIANT Emit
CHECK_DEADLOCK FALSE
'''


def check_quad(chk):
    rng = random.Random(chk.seed)
    em = chk.model('MCQuadrants', MODEL.format(*chk.n((5, 7), (3, 5))))
    rng.shuffle(em)
    sces = []
    while len(em) > 0:
        num = rng.choice([1, 1, 3, 4, 6])
        dirs, em = em[:num], em[num:]
        shape = rng.choice([[], [1]]) if len(dirs) == 1 else [len(dirs)]
        sces.append({'k': rng.choice(['dest', 'sign']), 'dirs': dirs,
                     'shape': shape, 'seed': rng.randrange(10**9)})
    chk.notes['behaviours_replayed'] = len(sces)
    for i in range(chk.n(9000, 40000)):
        sces.append({'k': ['vquad', 'pquad', 'dest', 'sign', 'angle', 'dest',
                           'sign', 'poleloc'][i % 8],
                     'shape': rng.choice([[], [], [1], [2], [3], [5], [7],
                                          [2, 3]]),
                     'seed': rng.randrange(10**9)})
    chk.judge('TraceQuadrants', 'JudgeQuadrants', chk.execute(run_quad, sces))
