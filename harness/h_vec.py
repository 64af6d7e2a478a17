"""Drivers for vectors: rotation, scaling and the VectorData object."""
import copy
import random

import fw
import mk
from h_geom import (as_input, build, full, rand_hemi, rand_lat, rand_mlt,
                    rand_pair, rand_rec, same, size)


def rand_comp(rng):
    return rng.choice([0.0, rng.uniform(-500, 500), rng.uniform(-500, 500),
                       rng.uniform(-1, 1), 100.0, -100.0])


def rand_vec(rng):
    pick = rng.random()
    if pick < 0.05:
        return 0.0, 0.0
    if pick < 0.2:
        return rng.choice([(100.0, 0.0), (-100.0, 0.0), (0.0, 100.0),
                           (0.0, -100.0)])
    return rand_comp(rng), rand_comp(rng)


def bcast(vals, num):
    return list(vals) * num if len(vals) == 1 and num > 1 else list(vals)


def run_adjust(chk, sces):
    fw.import_ocbpy(chk.home)
    import numpy as np
    from ocbpy import vectors
    groups = []
    for sce in sces:
        rng = random.Random(sce['seed'])
        if 'loc' in sce:
            shape, kind = rng.choice([[], [1]]), 'all'
            lats, lts = [[vv] for vv in sce['loc']]
            plats, plts = [[vv] for vv in sce['pole']]
            vn, ve = [[vv] for vv in sce['v']]
        else:
            shape = rng.choice([[], [1], [2], [4], [7]])
            # Which of location, vector and pole are one for all
            kind = rng.choice(['all', 'all', 'onepole', 'onevec']) \
                if shape != [] else 'all'
            num = size(shape)
            hemi = rand_hemi(rng)
            one = 1 if kind == 'onevec' else num
            pone = 1 if kind == 'onepole' else num
            lats = [rand_lat(rng, hemi, 0) for k in range(one)]
            lats = [ll if ll != 0.0 else hemi * 60.0 for ll in lats]
            lts = [rand_mlt(rng, False) for k in range(one)]
            plats = [hemi * rng.choice([rng.uniform(60, 90), 86.0, 74.5])
                     for k in range(pone)]
            plts = [rand_mlt(rng, False) for k in range(pone)]
            for k in range(pone):
                # On, and close to, the meridian of the location
                if rng.random() < 0.25:
                    plts[k] = (lts[min(k, one - 1)] + rng.choice(
                        [0, 12, 12, 6, 1e-7, -1e-7, 12.0000001, 1e-4])) % 24
            vecs = [rand_vec(rng) for k in range(one)]
            vn = [vv[0] for vv in vecs]
            ve = [vv[1] for vv in vecs]
            if kind == 'all' and rng.random() < 0.4:
                # Any of the components may be one for all
                vn, ve = [vv[:1] if rng.random() < 0.3 else vv
                          for vv in [vn, ve]]
        vz = [rand_comp(rng) for k in range(len(lats))]
        if rng.random() < 0.1:
            vz = vz[:1]
        vals = [lats, lts, plats, plts, vn, ve, vz]
        args = [np.array(vv).reshape(shape) if len(vv) > 1 or shape == [1]
                else vv[0] for vv in vals]
        before = copy.deepcopy(args)
        lat, lt, plat, plt, ven, vee, vez = args
        num = size(shape)

        def run():
            angle = vectors.calc_vec_pole_angle(lt, lat, plt, plat)
            pquad = vectors.define_pole_quadrants(lt, plt, angle)
            vquad = vectors.define_vect_quadrants(ven, vee)
            if rng.random() < 0.2:
                # Let the quadrants be found
                pquad, vquad = pquad * 0, vquad * 0
            every = [lt, lat, ven, vee, vez, vquad, plt, plat, angle, pquad]
            fw.former(rng, vectors.adjust_vector, every)
            return [angle] + list(vectors.adjust_vector(*every))
        res, exc = fw.call(run)
        ev = {'k': 'adjust', 'shape': shape, 'exc': exc or '',
              'same': same(before, args), 'oshape': [], 'angle': [], 'dn': [],
              'de': [], 'dz': []}
        for name, val in zip(['lat', 'lt', 'plat', 'plt', 'n', 'e', 'z'], vals):
            ev[name] = fw.Rs(bcast(val, num))
        if exc is None:
            ev['oshape'] = fw.shape(res[1])
            for name, val in zip(['angle', 'dn', 'de', 'dz'], res):
                ev[name] = full(val, num)
        groups.append([ev])
    return groups


def make_bound(ocbpy, make, rng, sce):
    """A boundary, its records and the pair of each boundary index."""
    hemi = rand_hemi(rng)
    nrec = rng.choice([1, 2, 4])
    ob = rng.choice([74.0, 74.0, 70.0, 77.0])
    t0 = rng.randrange(0, 86400 * 365 * 12)
    if rng.random() < 0.3:
        recs = []
        olist, elist = [], []
        for k in range(nrec):
            o, e = rand_pair(rng, True)
            olist.append(dict(o, t=t0 + 3600 * k))
            elist.append(dict(e, t=t0 + 3600 * k))
            # A record that is not in a pair makes the indices differ
            if rng.random() < 0.5:
                olist.append(dict(rand_rec(rng), t=t0 + 3600 * k + 1800))
            recs.append(o)
        obj = ocbpy.DualBoundary(
            ocb=build(make, olist, hemi, ob),
            eab=build(make, elist, hemi, 64.0, True))
        recs = [olist[ii] for ii in obj.ocb_ind]
        nrec = len(recs)
        times = [obj.dtime[ii] for ii in range(nrec)]
        return obj, recs, hemi, ob, times, True
    recs = [rand_rec(rng) for k in range(nrec)]
    for rec in recs:
        if rng.random() < 0.1:
            rec['r_cent'] = rng.uniform(7, 20)
    obj = build(make, recs, hemi, ob, rng.random() < 0.2, t0=t0, step=3600)
    return obj, recs, hemi, ob, [obj.dtime[ii] for ii in range(nrec)], False


def vector_data(rng, hemi, nrec, kinds):
    """Random input of a VectorData object."""
    kind = rng.choice(kinds)
    dnum = 1 if kind[0] == 's' else rng.choice([1, 2, 3, 5])
    onum = 1 if kind[1] == 's' else (dnum if kind[0] == 'a'
                                     else rng.choice([1, 2, 3]))
    wrong = rng.choice([0, 0, 0.2])
    lats = [rand_lat(rng, hemi, wrong) or hemi * 70.0 for k in range(dnum)]
    lts = [rand_mlt(rng, False) for k in range(dnum)]
    vecs = [rand_vec(rng) for k in range(dnum)]
    return {'kind': kind, 'dnum': dnum, 'onum': onum, 'lat': lats, 'lt': lts,
            'n': [vv[0] for vv in vecs], 'e': [vv[1] for vv in vecs],
            'z': [rand_comp(rng) for k in range(dnum)],
            'ocb_ind': [rng.randrange(nrec) for k in range(onum)]}


def shaped(vals, kind):
    import numpy as np
    return vals[0] if kind == 's' else np.array(vals)


def unknown(rng, kind, num):
    """Boundary locations that are given, but not all of them known."""
    import numpy as np
    names = ['ocb_lat', 'ocb_mlt', 'r_corr']
    one = np.full(num, np.nan)
    lost = rng.choice(names)
    out = {}
    for name in names:
        val = np.nan
        if name != lost and rng.random() < 0.3:
            val = rng.choice([0, 1, 60])
        if kind != 'ss' and rng.random() < 0.6:
            if val != val:
                val = rng.choice([one, one.copy()])
            else:
                val = np.full(num, val)
        if name == lost or rng.random() < 0.8:
            out[name] = val
    return out


def run_vdata(chk, sces):
    ocbpy = fw.import_ocbpy(chk.home)
    import aacgmv2
    import numpy as np
    from ocbpy import ocb_scaling
    make = mk.Maker(chk, ocbpy)
    groups = []
    for sce in sces:
        rng = random.Random(sce['seed'])
        obj, recs, hemi, blat, times, dual = make_bound(ocbpy, make, rng, sce)
        for k in range(3):
            loc = rng.choice(['magnetic'] * 3 + ['geodetic', 'geocentric'])
            vec = loc if rng.random() < 0.6 else rng.choice(
                ['magnetic', 'geodetic', 'geocentric'] if loc == 'magnetic'
                else ['magnetic'])
            inp = vector_data(rng, hemi, len(recs), sce.get('kinds') or [
                'ss', 'as', 'aa', 'sa'])
            inp['lat'] = [ll if abs(ll) > 40 or loc == vec == 'magnetic'
                          else hemi * 71.5 for ll in inp['lat']]
            if inp['dnum'] > 1 and rng.random() < 0.2 \
                    and not loc == vec == 'magnetic':
                # AACGM may not be defined here
                inp['lat'][rng.randrange(inp['dnum'])] = hemi * rng.uniform(
                    0, 8)
            kind = inp['kind']
            num = max(inp['dnum'], inp['onum'])
            inds = bcast(inp['ocb_ind'], num)
            heights = bcast([rng.choice([350.0, 350.0, 110.0])], num)
            if kind[0] == 'a' and rng.random() < 0.3 and loc == vec:
                heights = [rng.uniform(100, 800) for k in range(num)]
            lats, lts, vn, ve, vz = [bcast(inp[kk], num)
                                     for kk in ['lat', 'lt', 'n', 'e', 'z']]
            # Reference locations
            ev = {'k': 'vdata', 'hemi': hemi, 'geo': vec != 'magnetic',
                  'conv': not loc == vec == 'magnetic',
                  'shape': [] if kind == 'ss' else [num],
                  'n': fw.Rs(vn), 'e': fw.Rs(ve), 'z': fw.Rs(vz)}
            glat, glt, mlat, mlt, pglat, pglt = [[] for kk in range(6)]
            sys = loc if loc != 'magnetic' else vec
            code = 'ALLOWTRACE|GEOCENTRIC' if sys == 'geocentric' \
                else 'ALLOWTRACE'
            for i in range(num):
                time = times[inds[i]]
                if loc == 'magnetic':
                    mlat.append(lats[i])
                    mlt.append(lts[i])
                    if vec != 'magnetic':
                        lon = float(np.asarray(aacgmv2.convert_mlt(
                            lts[i], time, m2a=True)).flatten()[0])
                        out = aacgmv2.convert_latlon(
                            lats[i], lon, heights[i], time, code + '|A2G')
                        glat.append(out[0])
                        glt.append(slt(out[1], time))
                else:
                    glat.append(lats[i])
                    glt.append(lts[i])
                    out = aacgmv2.get_aacgm_coord(
                        lats[i], (lts[i] - slt(0.0, time)) * 15.0, heights[i],
                        time, code)
                    mlat.append(out[0])
                    mlt.append(out[2])
                if vec != 'magnetic':
                    out = aacgmv2.convert_latlon(hemi * 90.0, 0.0, heights[i],
                                                 time, code + '|A2G')
                    pglat.append(out[0])
                    pglt.append(slt(out[1], time))
            rlat, rmlt = [], []
            for i in range(num):
                obj.rec_ind = inds[i]
                out = obj.normal_coord(mlat[i], mlt[i])
                rlat.append(float(out[0]))
                rmlt.append(float(out[1]))
            obj.rec_ind = rng.choice([-1, 0, len(recs)])
            for name, val in [('glat', glat), ('glt', glt), ('mlat', mlat),
                              ('mlt', mlt), ('pglat', pglat), ('pglt', pglt),
                              ('reflat', rlat), ('refmlt', rmlt)]:
                ev[name] = fw.Rs(val)
            ev['rcent'] = fw.Rs([recs[ii]['r_cent'] for ii in inds])
            ev['phi'] = fw.Rs([recs[ii]['phi_cent'] for ii in inds])
            args = [shaped(list(range(inp['dnum'])), kind[0]),
                    shaped(inp['ocb_ind'], kind[1]),
                    shaped(inp['lat'], kind[0]), shaped(inp['lt'], kind[0])]
            kwargs = {'vect_' + kk: shaped(inp[kk], kind[0])
                      for kk in ['n', 'e', 'z']}
            for kk in ['n', 'e', 'z']:
                if kind[0] == 's' and inp[kk] == [0.0] and rng.random() < 0.5:
                    del kwargs['vect_' + kk]
            if heights[0] != 350.0 or rng.random() < 0.3:
                kwargs['height'] = heights[0] if len(set(heights)) == 1 \
                    else np.array(heights)
            if loc != 'magnetic' or rng.random() < 0.3:
                kwargs['loc_coord'] = rng.choice([loc, loc.upper()])
            if vec != 'magnetic' or rng.random() < 0.3:
                kwargs['vect_coord'] = rng.choice([vec, vec.capitalize()])
            if rng.random() < 0.25:
                # Unknown boundary locations, which may be the same object
                kwargs.update(unknown(rng, kind, num))
            ins = args + [kwargs[kk] for kk in sorted(kwargs)]
            before = copy.deepcopy(ins)

            def run():
                out = ocb_scaling.VectorData(*args, **kwargs)
                out.set_ocb(obj)
                str(out)
                return out
            res, exc = fw.call(run)
            ev.update({'exc': exc or '', 'same': same(before, ins)})
            for name, attr in [('on', 'ocb_n'), ('oe', 'ocb_e'),
                               ('oz', 'ocb_z'), ('omag', 'ocb_mag'),
                               ('vmag', 'vect_mag'), ('vlat', 'lat'),
                               ('vlt', 'lt'), ('olat', 'ocb_lat'),
                               ('omlt', 'ocb_mlt')]:
                ev[name] = [] if exc else full(getattr(res, attr), num)
            ev['oshape'] = [] if exc else fw.shape(res.ocb_n)
            ev['in'] = [kind, loc, vec, dual]
            groups.append([ev])
    return groups


def slt(lon, time):
    """Solar local time of a longitude (hours)."""
    return (lon / 15.0 + time.hour + time.minute / 60.0
            + time.second / 3600.0) % 24.0


MC_VEC = ('CONSTANTS Lats = {:s} Lts = {:s} PLats = {:s} PLts = {:s} Dirs = '
          '{:s} EmitMod = {:d}\nSPECIFICATION Spec\nINVARIANTS '
          'KeepsMagnitude TurnsBack UnitNorth AlongIsNorth NoShift '
          'MirrorVector AngleIsTurn Handed ScaleLaws Emit\n'
          'CHECK_DEADLOCK FALSE\n')


def vec_model(chk, mod):
    quick = ('{50, 70, 80, 86}', '{0, 13, 40, 77}', '{72, 86, 89}',
             '{0, 13, 24, 61, 88}', '{0, 2, 6, 7, 11, 12, 16, 18, 20}', mod)
    deep = ('{40, 50, 65, 70, 75, 80, 86, 89}', '{0, 13, 24, 40, 61, 77}',
            '{60, 72, 80, 86, 89}', '{0, 5, 13, 24, 37, 48, 61, 72, 88}',
            '{0, 1, 2, 4, 6, 7, 9, 11, 12, 14, 16, 18, 20, 22}', mod * 6)
    em = chk.model('MCVectors', MC_VEC.format(*chk.n(quick, deep)), workers=7)
    # The last vector is the first one again
    sces = [{'seed': i, 'loc': [fw.unR(vv) for vv in hist['loc']],
             'pole': [fw.unR(vv) for vv in hist['pole']],
             'v': [fw.unR(vv) for vv in hist['v']]}
            for i, hist in enumerate(em)]
    chk.notes['behaviours_replayed'] = len(sces)
    return sces


def check_rotate(chk):
    rng = random.Random(chk.seed)
    sces = vec_model(chk, 5)
    sces += [{'seed': rng.randrange(10**9)} for i in range(chk.n(9000, 40000))]
    chk.judge('TraceVectors', 'JudgeAdjust', chk.execute(run_adjust, sces))
    sces = [{'seed': rng.randrange(10**9)} for i in range(chk.n(2700, 12000))]
    chk.judge('TraceVectors', 'JudgeVData', chk.execute(run_vdata, sces))


# -- scaling ------------------------------------------------------------------

def run_scale(chk, sces):
    ocbpy = fw.import_ocbpy(chk.home)
    import numpy as np
    from ocbpy import ocb_scaling
    make = mk.Maker(chk, ocbpy)
    funs = {'evar': ocb_scaling.normal_evar,
            'curl': ocb_scaling.normal_curl_evar}
    groups = []
    for sce in sces:
        rng = random.Random(sce['seed'])
        obj, recs, hemi, blat, times, dual = make_bound(ocbpy, make, rng, sce)
        for k in range(3):
            inp = vector_data(rng, hemi, len(recs), ['ss', 'as', 'aa', 'sa'])
            kind = inp['kind']
            num = max(inp['dnum'], inp['onum'])
            inds = bcast(inp['ocb_ind'], num)
            fun = rng.choice(['evar', 'curl'])
            args = [shaped(list(range(inp['dnum'])), kind[0]),
                    shaped(inp['ocb_ind'], kind[1]),
                    shaped(inp['lat'], kind[0]), shaped(inp['lt'], kind[0])]
            kwargs = {'vect_' + kk: shaped(inp[kk], kind[0])
                      for kk in ['n', 'e', 'z']}
            where = rng.choice(['init', 'set'])

            def run():
                plain = ocb_scaling.VectorData(*args, **kwargs)
                plain.set_ocb(obj)
                more = {'scale_func': funs[fun]} if where == 'init' else {}
                out = ocb_scaling.VectorData(*args, **dict(kwargs, **more))
                out.set_ocb(obj, **({} if where == 'init'
                                    else {'scale_func': funs[fun]}))
                return plain, out
            res, exc = fw.call(run)
            ev = {'k': 'scale', 'fun': fun, 'exc': exc or '',
                  'blat': fw.R(blat), 'in': [kind, dual, where]}
            rcorr = []
            for i in range(num):
                obj.rec_ind = inds[i]
                lat, lt = [bcast(inp[kk], num)[i] for kk in ['lat', 'lt']]
                nout = obj.normal_coord(lat, lt)
                # Outside of the hemisphere there is no polar cap radius
                rcorr.append(float(nout[-1]) if float(nout[0]) == nout[0]
                             else np.nan)
            ev['rcorr'] = fw.Rs(rcorr)
            ev['r'] = fw.Rs([recs[ii]['r'] for ii in inds])
            for pre, iobj in [('u', 0), ('s', 1)]:
                for nn in ['n', 'e', 'z', 'mag']:
                    ev[pre + nn] = [] if exc else full(
                        getattr(res[iobj], 'ocb_' + nn), num)
            nope = exc or not hasattr(res[1], 'unscaled_r')
            ev['unscaled'] = fw.Rs([np.nan] * num) if nope else full(
                res[1].unscaled_r, num)
            ev['scaled'] = fw.Rs([np.nan] * num) if nope else full(
                res[1].scaled_r, num)
            if nope:
                ev['rcorr'] = fw.Rs([np.nan] * num)
            groups.append([ev])
        # The functions alone
        shape = rng.choice([[], [1], [3], [2, 2]])
        num = size(shape)
        vals = [[rand_comp(rng) for k in range(num)],
                [rng.uniform(1, 40) for k in range(num)],
                [rng.uniform(1, 40) for k in range(num)]]
        if num > 1 and rng.random() < 0.5:
            vals[2] = vals[2][:1]
        args = [vv[0] if len(vv) == 1 and shape != [1]
                else np.array(vv).reshape(shape) for vv in vals]
        before = copy.deepcopy(args)
        fun = rng.choice(['evar', 'curl'])
        res, exc = fw.probe(rng, funs[fun], *args)
        groups.append([{'k': 'fun', 'fun': fun, 'exc': exc or '',
                        'same': same(before, args),
                        'v': fw.Rs(vals[0]), 'u': fw.Rs(vals[1]),
                        's': fw.Rs(bcast(vals[2], num)),
                        'out': [] if exc else fw.Rs(res)}])
        angs = [rng.choice([0.0, rng.uniform(-7, 7), rng.uniform(0, 3.14),
                            np.pi, 1e-9, float('nan')]) for k in range(num)]
        arr = angs[0] if shape == [] else np.array(angs).reshape(shape)

        def hav():
            one = ocb_scaling.hav(arr)
            return one, ocb_scaling.archav(one)
        res, exc = fw.call(hav)
        groups.append([{'k': 'hav', 'exc': exc or '', 'a': fw.Rs(angs),
                        'h': [] if exc else fw.Rs(res[0]),
                        'back': [] if exc else fw.Rs(res[1])}])
    return groups


def check_scale(chk):
    rng = random.Random(chk.seed)
    vec_model(chk, 10**6)
    sces = [{'seed': rng.randrange(10**9)} for i in range(chk.n(2100, 10000))]
    chk.judge('TraceVectors', 'JudgeScale', chk.execute(run_scale, sces))


# -- histories of a VectorData object -----------------------------------------

OUTS = ['ocb_n', 'ocb_e', 'ocb_z', 'ocb_mag', 'pole_angle', 'ocb_quad',
        'vec_quad', 'ocb_aacgm_lat', 'ocb_aacgm_mlt', 'unscaled_r',
        'scaled_r']
LOCS = ['ocb_lat', 'ocb_mlt', 'r_corr']


def code(val):
    import numpy as np
    sh = np.shape(val)
    return 0 if sh == () else (sh[0] if len(sh) == 1 else -1)


def run_hist(chk, sces):
    ocbpy = fw.import_ocbpy(chk.home)
    import numpy as np
    from ocbpy import ocb_scaling
    make = mk.Maker(chk, ocbpy)
    groups = []
    menu = ['setO', 'setO', 'setD', 'setI', 'setV', 'setB', 'setB', 'setB',
            'setF', 'clear', 'redo', 'redo']
    funs = [None, ocb_scaling.normal_evar, ocb_scaling.normal_curl_evar]

    def vals(obj, names, num):
        out = []
        for nn in names:
            val = np.array(getattr(obj, nn), dtype=float)
            if nn.endswith('quad'):
                val = np.where(val == 0, np.nan, val)
            out.append(fw.Rs(bcast(val.flatten(), num)))
        return out

    for sce in sces:
        rng = random.Random(sce['seed'])
        bound, recs, hemi, blat, times, dual = make_bound(ocbpy, make, rng, {})
        more = make_bound(ocbpy, make, rng, {})
        while more[2] != hemi and rng.random() < 0.55:
            more = make_bound(ocbpy, make, rng, {})
        bounds = [bound, more[0]]
        nrec = min(len(recs), len(more[1]))
        ops = sce.get('ops')
        if ops is None:
            shapes = [0, 0, 1, 2, 2, 3]
            ops = [['new', rng.choice(shapes), rng.choice(shapes)]]
            for k in range(rng.randrange(2, 9)):
                name = rng.choice(menu)
                if name in ['setF', 'setB']:
                    ops.append([name, rng.choice([0, 0, 1, 2]),
                                rng.choice([1, 1, 1, 2])])
                    if name == 'setB' and rng.random() < 0.3:
                        ops += [['setB', 0, 2], ['redo', 0, 0]]
                else:
                    ops.append([name, rng.choice(shapes), rng.choice(shapes)])
        group, vdata = [], None
        dsh, osh, func = 0, 0, 0
        # In which of them the model's only function stands for another one
        other = rng.choice([1, 2])
        now = {}
        ever, isset = False, False
        # Locations or vectors that are to be converted, for the first data
        coords = {'loc_coord': 'magnetic', 'vect_coord': 'magnetic'}
        if rng.random() < 0.12:
            coords = rng.choice([
                {'loc_coord': 'geodetic', 'vect_coord': 'geodetic'},
                {'loc_coord': 'geocentric', 'vect_coord': 'geocentric'},
                {'loc_coord': 'geodetic', 'vect_coord': 'magnetic'},
                {'loc_coord': 'magnetic', 'vect_coord': 'geodetic'}])

        def data(num):
            nn = max(num, 1)
            lats = [rand_lat(rng, hemi, 0.05) or hemi * 70.0
                    for k in range(nn)]
            if 'geo' in coords['loc_coord'] + coords['vect_coord']:
                lats = [ll if 45 < abs(ll) < 82 else hemi * 71.0
                        for ll in lats]
            vecs = [rand_vec(rng) for k in range(nn)]
            new = {'lat': lats, 'lt': [rand_mlt(rng, False) for k in range(nn)],
                   'vect_n': [vv[0] for vv in vecs],
                   'vect_e': [vv[1] for vv in vecs],
                   'vect_z': [rand_comp(rng) for k in range(nn)]}
            now.update({kk: new[kk][0] if num == 0 else np.array(new[kk])
                        for kk in new})
            index(num)

        def index(num):
            now['dat_ind'] = rng.randrange(9) if num == 0 else np.array(
                [rng.randrange(9) for k in range(num)])

        def inds(num):
            ind = [rng.randrange(nrec) for k in range(max(num, 1))]
            now['ocb_ind'] = ind[0] if num == 0 else (
                np.array(ind) if rng.random() < 0.7 else ind)

        for name, dd, oo in ops:
            if name in ['setF', 'setB']:
                func = dd if 'ops' not in sce or dd == 0 else other
            if name == 'new':
                dsh, osh = dd, oo
                func = rng.choice([0, 0, 1, 2])
                data(dsh)
                inds(osh)

                def run():
                    return ocb_scaling.VectorData(
                        now['dat_ind'], now['ocb_ind'], now['lat'], now['lt'],
                        scale_func=funs[func], **dict(
                            coords, **{kk: now[kk] for kk in now
                                       if kk.startswith('vect')}))
                vdata, exc = fw.call(run)
            elif name == 'setO':
                inds(oo)
                osh = oo
                _, exc = fw.call(setattr, vdata, 'ocb_ind', now['ocb_ind'])
            elif name in ['setD', 'setI']:
                if name == 'setD':
                    data(dd)
                else:
                    index(dd)
                    if dsh == 0 and dd > 0:
                        now.update({kk: np.full(dd, now[kk]) for kk in now
                                    if kk[:2] in ['la', 'lt', 've']})
                keys = [kk for kk in now if kk[:2] in ['la', 'lt', 've']]
                dsh = dd

                def run():
                    if name == 'setD':
                        if dd > 0 and np.shape(vdata.height) not in [(), (dd,)]:
                            vdata.height = np.full(dd, 350.0)
                        for kk in keys:
                            setattr(vdata, kk, now[kk])
                    vdata.dat_ind = now['dat_ind']
                _, exc = fw.call(run)
            elif name == 'setV':
                for kk in ['vect_n', 'vect_e', 'vect_z']:
                    new = [rand_comp(rng) for k in range(max(dsh, 1))]
                    now[kk] = new[0] if dsh == 0 else np.array(new)

                def run():
                    for kk in ['vect_n', 'vect_e', 'vect_z']:
                        setattr(vdata, kk, now[kk])
                _, exc = fw.call(run)
            elif name == 'setF':
                _, exc = fw.call(setattr, vdata, 'scale_func', funs[func])
            elif name == 'setB':
                _, exc = fw.call(vdata.set_ocb, bounds[oo - 1], *(
                    [funs[func]] if func > 0 or rng.random() < 0.5 else []))
            elif name == 'clear':
                _, exc = fw.call(vdata.clear_data)
            elif name == 'redo':
                steps = [vdata.define_quadrants, vdata.scale_vector]
                if not isset:
                    rng.shuffle(steps)
                    steps.append(vdata.calc_vec_pole_angle)
                excs = set([fw.call(step)[1] for step in steps])
                exc = excs.pop() if len(excs) == 1 else 'Mixed'
            if name in ['setB', 'new', 'setO', 'setD', 'setI', 'clear']:
                isset = name == 'setB'
            ev = {'k': name, 'd': dd, 'o': oo, 'b': oo, 'f': func,
                  'exc': exc or ''}
            group.append(ev)
            if exc is not None and name != 'redo':
                break
            num = max(1, dsh, osh)

            def show():
                str(vdata)
                return repr(vdata)
            ev['printable'] = fw.call(show)[1] is None
            ev['shapes'] = [code(getattr(vdata, nn)) for nn in OUTS[:5]]
            ev['lshapes'] = [code(getattr(vdata, nn)) for nn in LOCS]
            ev['outs'] = vals(vdata, OUTS, num)
            ev['locs'] = vals(vdata, LOCS, num)
            ev['mag'] = fw.Rs(vdata.vect_mag)
            for kk in ['n', 'e', 'z']:
                ev[kk] = fw.Rs(now['vect_' + kk])
            geo = 'geo' in coords['loc_coord'] + coords['vect_coord']
            ever = ever or geo
            ev['geo'], ev['conv'] = ever, geo and name == 'setB'
            ev['kept'] = (geo and name == 'setB') or bool(all([
                np.array_equal(np.asarray(getattr(vdata, kk)),
                               np.asarray(now[kk]))
                for kk in now]))
            ev['func'] = funs.index(vdata.scale_func)
            # New objects with the same input
            ev['hasref'] = name in ['setB', 'setF', 'setV', 'clear', 'redo']
            ev['refouts'], ev['reflocs'] = [], []

            def fresh(bound, **kwargs):
                new = ocb_scaling.VectorData(
                    now['dat_ind'], now['ocb_ind'], now['lat'], now['lt'],
                    scale_func=vdata.scale_func, **dict(
                        kwargs, **dict(coords, **{
                            kk: now[kk] for kk in now
                            if kk.startswith('vect')})))
                new.set_ocb(bound)
                return new
            for obj in bounds if ev['hasref'] else []:
                new = fresh(obj)
                ev['reflocs'].append(vals(new, LOCS, num))
                ev['refouts'].append([])
                given = {kk: getattr(new, kk) for kk in LOCS}
                for nxt in bounds if name in ['setB', 'redo'] else []:
                    ev['refouts'][-1].append(vals(
                        new if nxt is obj else fresh(nxt, **given), OUTS, num))
            ev['hasout'] = name in ['setB', 'redo']
            if geo and name == 'setB':
                # Everything is magnetic from now on
                if dsh == 0 and osh > 0:
                    break
                coords = {kk: 'magnetic' for kk in coords}
                if vdata.loc_coord != 'magnetic' \
                        or vdata.vect_coord != 'magnetic':
                    ev['exc'] = 'NotMagnetic'
                now.update({kk: np.array(getattr(vdata, kk)) for kk in now
                            if kk[:2] in ['la', 'lt', 've']})
        groups.append(group)
    return groups


def check_history(chk):
    rng = random.Random(chk.seed)
    em = chk.model('MCVData', 'CONSTANTS Shapes = {:s} MaxOps = {:d} EmitMod = '
                   '{:d}\nSPECIFICATION Spec\nINVARIANTS Consistent ShapeLaw '
                   'LastSet RedoLaw Emit\nCHECK_DEADLOCK FALSE\n'.format(*chk.n(
                       ('{0, 1, 2}', 5, 131), ('{0, 1, 2}', 6, 997))),
                   workers=7)
    sces = [{'seed': i, 'ops': hist['ops']} for i, hist in enumerate(em)]
    chk.notes['behaviours_replayed'] = len(sces)
    sces += [{'seed': rng.randrange(10**9)} for i in range(chk.n(2700, 12000))]
    chk.judge('TraceVData', 'JudgeHistory', chk.execute(run_hist, sces),
              start='NoHistory')
