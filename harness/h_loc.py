"""Drivers for the conversion of locations between coordinate systems."""
import random

import fw
import mk
from h_geom import rand_mlt
from h_vec import make_bound, rand_vec

COORDS = ['magnetic', 'geodetic', 'geocentric']


def chain(old, new):
    """The conversions, for which the judge checks that they are these."""
    if old == new:
        return []
    if 'magnetic' in (old, new):
        return [['A2G', new] if old == 'magnetic' else ['G2A', old]]
    return [['G2A', old], ['A2G', new]]


def references(aacgmv2, lat, slt, height, time, old, new):
    """What AACGM answers to each of the conversions of a location."""
    import numpy as np
    ut = time.hour + time.minute / 60.0 + time.second / 3600.0
    out = []
    for kind, sys in chain(old, new):
        code = 'ALLOWTRACE' + ('|GEOCENTRIC' if sys == 'geocentric' else '')
        if kind == 'G2A':
            lon = (slt - ut) * 15.0
            lat, _, slt = aacgmv2.get_aacgm_coord(lat, lon, height, time, code)
            out.append({'sys': [kind, sys], 'lon': lon, 'lat': lat, 'lt': slt,
                        'outlon': 0.0})
        else:
            lon = float(np.asarray(aacgmv2.convert_mlt(
                slt, time, m2a=True)).flatten()[0])
            lat, olon, _ = aacgmv2.convert_latlon(lat, lon, height, time,
                                                  code + '|A2G')
            slt = olon / 15.0 + ut
            out.append({'sys': [kind, sys], 'lon': lon, 'lat': lat, 'lt': slt,
                        'outlon': olon})
    for ref in out:
        for key in ['lon', 'lat', 'lt', 'outlon']:
            ref[key] = fw.R(ref[key])
    return out


def snapshot(vec):
    return repr([getattr(vec, nn) for nn in [
        'dat_ind', 'ocb_ind', 'vect_n', 'vect_e', 'vect_z', 'vect_coord',
        'ocb_lat', 'ocb_mlt']])


def run_loc(chk, sces):
    ocbpy = fw.import_ocbpy(chk.home)
    import aacgmv2
    import numpy as np
    from ocbpy import ocb_scaling
    make = mk.Maker(chk, ocbpy)
    groups = []
    for sce in sces:
        rng = random.Random(sce['seed'])
        bnd, recs, hemi, _, times, _ = make_bound(ocbpy, make, rng, sce)
        n0 = sce['n0']
        size = max(n0, 1)
        lats = [hemi * rng.uniform(50, 83) for k in range(size)]
        lts = [rand_mlt(rng, False) for k in range(size)]
        heights = [rng.choice([350.0, 110.0, 700.0])] * size
        if n0 and rng.random() < 0.4:
            heights = [rng.uniform(100, 800) for k in range(size)]
        vecs = [rand_vec(rng) for k in range(size)]
        vect = rng.choice([sce['start'], 'magnetic', rng.choice(COORDS)])
        ind = rng.randrange(len(recs))

        def sh(vals, scalar):
            return vals[0] if scalar else np.array(vals)
        args = [sh(list(range(size)), n0 == 0), ind, sh(lats, n0 == 0),
                sh(lts, n0 == 0)]
        kwargs = {'vect_n': sh([vv[0] for vv in vecs], n0 == 0),
                  'vect_e': sh([vv[1] for vv in vecs], n0 == 0),
                  'vect_z': sh([5.0] * size, n0 == 0),
                  'height': heights[0] if len(set(heights)) == 1
                  else np.array(heights),
                  'loc_coord': sce['start'], 'vect_coord': vect}
        vec, exc = fw.call(ocb_scaling.VectorData, *args, **kwargs)
        if exc is not None:
            # Mixed geographic systems are refused when making the object
            groups.append([{'k': 'set', 'exc': exc, 'making': True,
                            'loc': sce['start'],
                            'vect': vect, 'out': [], 'new': [],
                            'lat': fw.R(0), 'aloc': '', 'avect': ''}])
            if vect in ('magnetic', sce['start']):
                continue
            kwargs['vect_coord'] = vect = 'magnetic'
            vec = ocb_scaling.VectorData(*args, **kwargs)
        group = []
        grown = False
        for step in sce['hist']:
            old = vec.loc_coord
            num = step['times']
            base = times[ind]
            tlist = [base] * max(num, 1)
            if num:
                tlist = [times[rng.randrange(len(times))] for k in range(num)]
            nn = 0 if vec.lat.shape == () else len(vec.lat)
            ev = {'k': 'convert', 'from': old, 'to': step['to'], 'n': nn,
                  'times': num, 'lat': fw.Rs(vec.lat), 'lt': fw.Rs(vec.lt),
                  'ut': [fw.R(tt.hour + tt.minute / 60.0 + tt.second / 3600.0)
                         for tt in tlist], 'refs': []}
            if nn == 0 or num == 0 or nn == num:
                tot = max(nn, num, 1)
                flat = [np.broadcast_to(vv, (tot,)) for vv in
                        [vec.lat, vec.lt, vec.height]]
                for i in range(tot):
                    ev['refs'].append(references(
                        aacgmv2, float(flat[0][i]), float(flat[1][i]),
                        float(flat[2][i]), tlist[i if num else 0], old,
                        step['to']))
                grown = grown or (nn == 0 and num > 0 and old != step['to'])
            before = snapshot(vec)
            coord = step['to']
            if rng.random() < 0.2:
                coord = rng.choice([coord.upper(), coord.capitalize()])
            kws = {'coord': coord}
            if coord == 'magnetic' and rng.random() < 0.5:
                kws = {}
            arg = tlist[0] if num == 0 else rng.choice(
                [tlist, np.array(tlist)])
            _, exc = fw.call(vec.update_loc_coords, arg, **kws)
            ev.update({'exc': exc or '', 'label': vec.loc_coord,
                       'shape': fw.shape(vec.lat), 'shape2': fw.shape(vec.lt),
                       'alat': fw.Rs(vec.lat), 'alt': fw.Rs(vec.lt),
                       'others': snapshot(vec) == before})
            group.append(ev)
        if not grown:
            # Use the locations, and those of a new object
            ev = {'k': 'set', 'making': False, 'loc': vec.loc_coord, 'vect': vec.vect_coord,
                  'aloc': '', 'avect': '', 'out': [], 'new': [],
                  'lat': fw.R(np.max(np.abs(vec.lat)))}
            kwargs.update({'loc_coord': vec.loc_coord})
            args[2], args[3] = np.array(vec.lat), np.array(vec.lt)
            new, nexc = fw.call(ocb_scaling.VectorData, *args, **kwargs)
            _, exc = fw.call(vec.set_ocb, bnd)
            ev['exc'] = exc or ''
            if nexc is None:
                nexc = fw.call(new.set_ocb, bnd)[1]
            if nexc is None and exc is None:
                names = ['ocb_lat', 'ocb_n', 'ocb_e', 'ocb_z', 'ocb_mag']
                for key, obj in [('out', vec), ('new', new)]:
                    ev[key] = [vv for nn in names
                               for vv in fw.Rs(getattr(obj, nn))]
                ev['aloc'], ev['avect'] = vec.loc_coord, vec.vect_coord
            group.append(ev)
        groups.append(group)
    return groups


MODEL = '''SPECIFICATION Spec
CONSTANTS
 MaxLen = {:d}
 Sizes = {{0, 1, 2, 3}}
INVARIANT Labelled
INVARIANT Arrives
INVARIANT AtMostTwo
INVARIANT Emit
PROPERTY KeepsArrays
PROPERTY Settles
CHECK_DEADLOCK FALSE
'''


def check_loc(chk):
    emitted = chk.model('MCLocation', MODEL.format(chk.n(2, 3)))
    rng = random.Random(chk.seed)
    rng.shuffle(emitted)
    emitted = emitted[:chk.n(5400, 20000)]
    groups = chk.execute(run_loc, [dict(sc, seed=rng.randrange(10**9))
                                   for sc in emitted])
    chk.judge('TraceLocation', 'JudgeLocation', groups)
