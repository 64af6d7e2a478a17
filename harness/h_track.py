"""Drivers for satellite tracks and for radius corrections."""
import copy
import math
import random

import fw
from h_geom import as_input, pair_inputs, rand_f, rand_mlt, rand_shape, size


def flat(val):
    import numpy as np
    return [bool(vv) for vv in np.asarray(val).flatten()]


def from_plane(pnt, hemi):
    """Latitude and local time of a location in the plane."""
    return (hemi * (90.0 - math.hypot(*pnt)),
            (6.0 + math.degrees(math.atan2(pnt[1], pnt[0])) / 15.0) % 24.0)


def run_track(chk, sces):
    fw.import_ocbpy(chk.home)
    from ocbpy import cycle_boundary
    groups = []
    for sce in sces:
        rng = random.Random(sce['seed'])
        hemi = rng.choice([1, -1])
        if 'p' in sce:
            step = rng.choice([2.0, 5.0, 3.3])
            pa, pb = [[step * vv for vv in sce[kk]] for kk in ['a', 'b']]
            dx, dy, past = [step * sce[kk] for kk in ['dx', 'dy', 'past']]
        else:
            pa, pb = [[rng.choice([rng.uniform(-25, 25), rng.uniform(-12, 12),
                                   0.0, -8.0]) for k in range(2)]
                      for j in range(2)]
            pick = rng.random()
            if pick < 0.15:
                pb[0] = pa[0]
            elif pick < 0.3:
                pb[1] = pa[1]
            elif pick < 0.65:
                # Falls with x
                pb = [pa[0] + rng.uniform(0.1, 25), pa[1]
                      - rng.uniform(0.1, 25)]
            if pa == pb:
                pb[0] += 3.0
            dx, dy = [rng.choice([1.0, 1.0, 0.0, 5.0, 2, rng.uniform(0, 6)])
                      for k in range(2)]
            past = rng.choice([5.0, 5.0, 0.0, 20, rng.uniform(0, 15)])
            pick = rng.random()
            if pick < 0.03:
                dx = -rng.uniform(0.01, 3)
            elif pick < 0.06:
                dy = -rng.uniform(0.01, 3)
            elif pick < 0.09:
                past = -rng.uniform(0.01, 3)
        known = rng.random() > 0.03
        shape = rand_shape(rng)
        num = size(shape)
        lats, mlts = [], []
        for k in range(num):
            pick = rng.random()
            if pick < 0.6:
                # Close to the line
                tt = rng.choice([rng.uniform(0, 1), rng.uniform(-1, 2)])
                pnt = [pa[j] + tt * (pb[j] - pa[j]) + rng.uniform(-1, 1) * (
                    1 + abs([dx, dy][j])) for j in range(2)]
                lat, mlt = from_plane(pnt, hemi)
            elif pick < 0.9:
                lat, mlt = hemi * rng.uniform(50, 89.9), rand_mlt(rng)
            else:
                lat, mlt = -hemi * rng.uniform(5, 89), rand_mlt(rng)
                if rng.random() < 0.5:
                    # On the extended line
                    tt = rng.uniform(-10, 10)
                    pnt = [pa[j] + tt * (pb[j] - pa[j]) for j in range(2)]
                    lat, mlt = from_plane(pnt, hemi)
            if rng.random() < 0.02:
                lat = float('nan')
            lats.append(lat)
            mlts.append(mlt)
        if 'p' in sce:
            lats[0], mlts[0] = from_plane([step * vv for vv in sce['p']], hemi)
        lats, mlts, alat, amlt = pair_inputs(rng, lats, mlts, shape)
        before = copy.deepcopy([alat, amlt])
        kwargs = {}
        for key, val, dflt in [('del_x', dx, 1.0), ('del_y', dy, 1.0),
                               ('past_bound', past, 5.0)]:
            if val != dflt or rng.random() < 0.5:
                kwargs[key] = val
        harg = (rng.choice([hemi, float(hemi)]) if known
                else rng.choice([0, 2, -3, 0.5]))
        res, exc = fw.probe(rng, cycle_boundary.satellite_track, alat, amlt, pa[0],
                           pa[1], pb[0], pb[1], harg, **kwargs)
        ev = {'a': fw.Rs(pa), 'b': fw.Rs(pb), 'dx': fw.R(dx), 'dy': fw.R(dy),
              'past': fw.R(past), 'hemi': hemi, 'known': known,
              'lat': fw.Rs(lats), 'mlt': fw.Rs(mlts), 'exc': exc or '',
              'want': shape, 'same': repr(before) == repr([alat, amlt])}
        if exc is None:
            ev['shape'] = fw.shape(res)
            ev['good'] = flat(res)
        groups.append([ev])
    return groups


TRACK = '''INIT Init
NEXT Next
CONSTANTS
 Size = {:d}
 EmitMod = {:d}
INVARIANT CrossingsOn
INVARIANT EitherWay
INVARIANT Mirrored
INVARIANT Exchanged
INVARIANT Turned
INVARIANT Wider
INVARIANT NarrowInside
INVARIANT Poleward
INVARIANT Emit
CHECK_DEADLOCK FALSE
'''


def check_track(chk):
    emitted = chk.model('MCTrack', TRACK.format(chk.n(1, 2), chk.n(5, 211)),
                        workers=6, heap='8g')
    rng = random.Random(chk.seed)
    rng.shuffle(emitted)
    sces = [dict(sc, seed=rng.randrange(10**9))
            for sc in emitted[:chk.n(4500, 15000)]]
    sces += [{'seed': rng.randrange(10**9)} for k in range(chk.n(12000, 60000))]
    groups = chk.execute(run_track, sces)
    chk.judge('TraceTrack', 'JudgeTrack', groups)


def run_correction(chk, sces):
    fw.import_ocbpy(chk.home)
    import numpy as np
    from ocbpy import ocb_correction
    groups = []
    for sce in sces:
        rng = random.Random(sce['seed'])
        f = rand_f(rng)
        shape = rand_shape(rng)
        mlts = [rand_mlt(rng) for k in range(size(shape))]
        if 'f' in sce:
            f = {kk: sce['f'][kk] for kk in ['name', 'inst', 'method']}
            f['add'] = -sce['f']['add'] / 10.0
            f['kw'] = ({'r_add': f['add']} if f['name'] == 'circular' else
                       {'instrument': f['inst'], 'method': f['method']})
            mlts[0] = 24.0 * sce['k'] / sce['steps']
        elif f['name'] != 'circular' and rng.random() < 0.15:
            key = rng.choice(['inst', 'method'])
            f[key] = rng.choice(['median', 'ocb', 'eab', 'gaussian', 'wic',
                                 'ampere', 'si12', 'dmsp-ssj', 'none', ''])
            f['kw'] = {'instrument': f['inst'], 'method': f['method']}
        kw = dict(f['kw'])
        for key in ['instrument', 'method']:
            if key in kw and rng.random() < 0.25:
                kw[key] = rng.choice([kw[key].upper(), kw[key].capitalize()])
        if rng.random() < 0.03:
            mlts[-1] = float('nan')
        arg = as_input(rng, mlts, shape)
        before = copy.deepcopy(arg)
        fun = getattr(ocb_correction, f['name'])
        res, exc = fw.probe(rng, fun, arg, **kw)
        ev = {'f': {'name': f['name'], 'inst': f['inst'],
                    'method': f['method'], 'add': fw.R(f['add'])},
              'mlt': fw.Rs(mlts), 'want': shape, 'exc': exc or '',
              'same': repr(before) == repr(arg)}
        if exc is None:
            ev['shape'] = fw.shape(res)
            ev['out'] = fw.Rs(res)
            turn = rng.choice([24.0, -24.0, 48.0])
            ev['later'] = fw.Rs(fun(np.asarray(arg) + turn, **kw))
        groups.append([ev])
    return groups


CORR = '''INIT Init
NEXT Next
CONSTANTS
 Steps = {:d}
INVARIANT Periodic
INVARIANT Bounded
INVARIANT Continuous
INVARIANT EllipseInside
INVARIANT Emit
CHECK_DEADLOCK FALSE
'''


def check_correction(chk):
    steps = chk.n(48, 480)
    emitted = chk.model('MCCorrection', CORR.format(steps))
    rng = random.Random(chk.seed)
    sces = [dict(sc, steps=steps, seed=rng.randrange(10**9))
            for sc in emitted]
    sces += [{'seed': rng.randrange(10**9)} for k in range(chk.n(12000, 60000))]
    groups = chk.execute(run_correction, sces)
    chk.judge('TraceTrack', 'JudgeCorrection', groups)
