"""Drivers for the coordinates of one boundary and of two boundaries."""
import copy
import datetime as dt
import os
import random

import fw
import mk


# -- generation ---------------------------------------------------------------

def rand_f(rng, simple=False):
    kind = rng.choice(['circular', 'circular', 'elliptical', 'harmonic',
                       'harmonic'])
    f = {'name': kind, 'inst': '', 'method': '', 'add': 0.0, 'kw': {}}
    if kind == 'circular':
        f['add'] = rng.choice([0.0, 0.0, 1.5, -2.0, 3, rng.uniform(-3, 3)])
        f['kw'] = {'r_add': f['add']} if f['add'] != 0 or rng.random() < 0.3 \
            else {}
    elif kind == 'elliptical':
        f['inst'] = 'ampere'
        f['method'] = rng.choice(['median', 'gaussian'])
        f['kw'] = {'method': f['method']} if f['method'] == 'gaussian' \
            or rng.random() < 0.5 else {}
    else:
        f['inst'] = rng.choice(['ampere', 'si12', 'si13', 'wic'])
        f['method'] = rng.choice(['median', 'gaussian']
                                 if f['inst'] == 'ampere' else ['ocb', 'eab'])
        f['kw'] = {'instrument': f['inst'], 'method': f['method']}
        if f['inst'] == 'ampere' and rng.random() < 0.3:
            del f['kw']['instrument']
            if f['method'] == 'median':
                del f['kw']['method']
        elif rng.random() < 0.2:
            f['kw']['instrument'] = f['inst'].upper()
    return f


def rand_rec(rng, rmin=8.0, rmax=25.0, off=7.0):
    r_cent = rng.choice([0.0, rng.uniform(0, off), rng.uniform(0, off), 3.25])
    if rng.random() < 0.08:
        r_cent = rng.uniform(rmin, rmax + 10)
    return {'phi_cent': rng.choice([0.0, 90.0, 180.0, 270.0, 359.5,
                                    rng.uniform(0, 360),
                                    rng.uniform(0, 360)]),
            'r_cent': r_cent, 'r': rng.choice([rng.uniform(rmin, rmax),
                                               rng.uniform(rmin, rmax), 15.0]),
            'f': rand_f(rng)}


def rand_lat(rng, hemi, wrong=0.1):
    lat = rng.choice([90.0, rng.uniform(0.5, 90), rng.uniform(50, 90),
                      rng.uniform(60, 90), rng.uniform(70, 90),
                      float(rng.randrange(40, 91)), 74.0, 64.0])
    if lat == 90.0:
        lat = 89.5
    if rng.random() < wrong:
        lat *= -1
    if rng.random() < wrong / 8:
        return 0.0
    return hemi * lat


def rand_mlt(rng, wide=True):
    pick = rng.random()
    if pick < 0.3:
        return float(rng.choice([0, 6, 12, 18, 3, 21, 23.999999, 1e-9]))
    if wide and pick < 0.4:
        return rng.choice([24.0, -3.5, 27.25, 30.0, -0.25, 48.0, -24.0])
    return rng.uniform(0, 24)


def rand_hemi(rng):
    return rng.choice([1, -1])


def enc_b(rec):
    return {'r_cent': fw.R(rec['r_cent']), 'phi_cent': fw.R(rec['phi_cent']),
            'r': fw.R(rec['r']), 'f': {
                'name': rec['f']['name'], 'inst': rec['f']['inst'],
                'method': rec['f']['method'], 'add': fw.R(rec['f']['add'])}}


def build(make, recs, hemi, blat=None, eab=False, t0=0, step=60):
    import numpy as np
    from ocbpy import ocb_correction
    full = [dict(rec, t=rec.get('t', t0 + step * k))
            for k, rec in enumerate(recs)]
    rfunc = np.array([getattr(ocb_correction, rec['f']['name'])
                      for rec in recs], dtype=object)
    kwargs = np.empty(shape=len(recs), dtype=object)
    for k, rec in enumerate(recs):
        kwargs[k] = dict(rec['f']['kw'])
    return make.bound(full, hemi=hemi, blat=blat, eab=eab, rfunc=rfunc,
                      rfunc_kwargs=kwargs)


def as_input(rng, vals, shape):
    """Give the values the form in which a caller may provide them."""
    import numpy as np
    if shape == []:
        val = vals[0]
        kind = rng.choice(['float', 'float', 'np', '0d', 'int'])
        if kind == 'int' and float(val).is_integer():
            return int(val)
        if kind == 'np':
            return np.float64(val)
        if kind == '0d':
            return np.array(val)
        return val
    arr = np.array(vals).reshape(shape)
    if rng.random() < 0.25:
        return arr.tolist()
    if rng.random() < 0.2 and all(float(vv).is_integer() for vv in vals):
        return arr.astype(int)
    return arr


def rand_shape(rng, two=True):
    return rng.choice([[], [], [1], [2], [3], [5], [8]]
                      + ([[2, 2], [2, 3], [1, 2]] if two else []))


def size(shape):
    out = 1
    for ss in shape:
        out *= ss
    return out


def pair_inputs(rng, lats, mlts, shape):
    """Two inputs, one of which may be a scalar that applies to all."""
    mixed = rng.random() if shape != [] else 1.0
    if mixed < 0.12:
        lats = [lats[0]] * len(lats)
        return lats, mlts, as_input(rng, lats[:1], []), as_input(rng, mlts,
                                                                 shape)
    if mixed < 0.24:
        mlts = [mlts[0]] * len(mlts)
        return lats, mlts, as_input(rng, lats, shape), as_input(rng, mlts[:1],
                                                                [])
    return lats, mlts, as_input(rng, lats, shape), as_input(rng, mlts, shape)


def full(vals, num):
    """Encode an output, repeating a scalar."""
    out = fw.Rs(vals)
    return out * num if len(out) == 1 and num > 1 else out


def same(before, after):
    import numpy as np


    def equal(one, two):
        one, two = np.asarray(one), np.asarray(two)
        return np.array_equal(one, two, equal_nan=one.dtype.kind == 'f'
                              and two.dtype.kind == 'f')
    return all(equal(aa, bb) and type(aa) is type(bb)
               for aa, bb in zip(before, after))


# -- one boundary -------------------------------------------------------------

class One(object):
    """A boundary object with the records that it was made from."""

    def __init__(self, chk, ocbpy, make, rng, recs=None, hemi=None, blat=None):
        self.rng = rng
        self.hemi = rand_hemi(rng) if hemi is None else hemi
        self.recs = recs or [rand_rec(rng)
                             for k in range(rng.choice([1, 2, 3]))]
        self.eab = rng.random() < 0.3
        if blat is None:
            blat = rng.choice([None, 74.0, 70.0, 64.0, rng.uniform(60, 80)])
        self.obj = build(make, self.recs, self.hemi, blat, self.eab)
        if blat is None:
            blat = 64.0 if self.eab else 74.0
        self.blat = self.hemi * abs(blat)

    def alter(self):
        """Change attributes that the conversions use."""
        rng = self.rng
        what = rng.choice(['blat', 'func', 'args', 'values'])
        ind = rng.randrange(len(self.recs))
        if what == 'blat':
            self.blat = self.hemi * rng.choice([72.0, 66.0,
                                                rng.uniform(60, 80)])
            self.obj.boundary_lat = self.blat
            return
        rec = rand_rec(rng)
        if what == 'values':
            self.recs[ind] = dict(self.recs[ind], **{
                kk: rec[kk] for kk in ['r', 'r_cent', 'phi_cent']})
            for kk in ['r', 'r_cent', 'phi_cent']:
                getattr(self.obj, kk)[ind] = rec[kk]
            return
        from ocbpy import ocb_correction
        if what == 'args' and self.recs[ind]['f']['name'] == 'circular':
            add = rng.uniform(-3, 3)
            rec['f'] = dict(self.recs[ind]['f'], add=add, kw={'r_add': add})
        self.recs[ind] = dict(self.recs[ind], f=rec['f'])
        self.obj.rfunc[ind] = getattr(ocb_correction, rec['f']['name'])
        self.obj.rfunc_kwargs[ind] = dict(rec['f']['kw'])

    def cur(self):
        if self.rng.random() < 0.06:
            ind = self.rng.choice([-1, len(self.recs), len(self.recs) + 2])
        else:
            ind = self.rng.randrange(len(self.recs))
        self.obj.rec_ind = ind
        return ind, 0 <= ind < len(self.recs)

    def base(self, ind, isset, shape):
        return {'b': enc_b(self.recs[ind if isset else 0]), 'set': isset,
                'hemi': self.hemi, 'blat': fw.R(self.blat), 'shape': shape}


def normal_event(one, lats, mlts, shape, **kwargs):
    rng = one.rng
    ind, isset = one.cur()
    lats, mlts, lat, mlt = pair_inputs(rng, lats, mlts, shape)
    before = copy.deepcopy([lat, mlt])
    res, exc = fw.probe(rng, one.obj.normal_coord, lat, mlt, **kwargs)
    ev = dict(one.base(ind, isset, shape), k='normal', exc=exc or '',
              same=same(before, [lat, mlt]), lat=fw.Rs(lats), mlt=fw.Rs(mlts))
    ev.update({'oshape': [], 'olat': [], 'omlt': [], 'ocor': []})
    if exc is None:
        ev.update({'oshape': fw.shape(res[0]), 'olat': fw.Rs(res[0]),
                   'omlt': full(res[1], len(lats)),
                   'ocor': full(res[2], len(lats))})
    return ev, res, ind


def run_normal(chk, sces):
    ocbpy = fw.import_ocbpy(chk.home)
    make = mk.Maker(chk, ocbpy)
    groups = []
    for sce in sces:
        rng = random.Random(sce['seed'])
        one = One(chk, ocbpy, make, rng, sce.get('recs'), sce.get('hemi'),
                  sce.get('blat'))
        for k in range(sce.get('calls', 4)):
            if 'loc' in sce:
                lats, mlts = [[cc] for cc in sce['loc']]
                shape = rng.choice([[], [1]])
            else:
                shape = rand_shape(rng)
                wrong = rng.choice([0.0, 0.15, 0.5])
                lats = [rand_lat(rng, one.hemi, wrong)
                        for k in range(size(shape))]
                mlts = [rand_mlt(rng) for k in range(size(shape))]
            kwargs = rng.choice([{}, {}, {'coords': 'magnetic'},
                                 {'coords': 'MAGNETIC'}, {'height': 120.0},
                                 {'method': 'TRACE'}])
            if 'loc' not in sce and k > 0 and rng.random() < 0.3:
                # The same locations after a change
                lats, mlts, shape = last
                one.alter()
            last = lats, mlts, shape
            groups.append([normal_event(one, lats, mlts, shape, **kwargs)[0]])
    return groups


MC_GEOM = ('CONSTANTS Lats = {:s} Mlts = {:s} RCents = {:s} Phis = {:s} Rs = '
           '{:s} EmitMod = {:d} Fine = 0\nSPECIFICATION Spec\nINVARIANTS '
           'RoundTrip CoordsArePoint InsideIsPoleward BoundaryOnCircle '
           'BoundaryDefined Mirror Periodic Emit\nCHECK_DEADLOCK FALSE\n')


def geom_model(chk, mod):
    quick = ('{4, 6, 8, 9, 11, 12}', '{0, 13, 31, 48, 77}', '{0, 4, 19}',
             '{0, 65, 270}', '{12, 17}', mod)
    deep = ('{2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}',
            '{0, 5, 13, 24, 31, 48, 59, 72, 77, 95}', '{0, 2, 4, 8, 19, 30}',
            '{0, 45, 65, 90, 190, 270, 355}', '{8, 12, 17, 21}', mod * 5)
    em = chk.model('MCGeometry', MC_GEOM.format(*chk.n(quick, deep)),
                   workers=7)
    sces = []
    for hist in em:
        f = dict(hist['b']['f'])
        f['add'] = fw.unR(f['add'])
        f['kw'] = {'circular': {'r_add': f['add']},
                   'elliptical': {'method': f['method']},
                   'harmonic': {'instrument': f['inst'],
                                'method': f['method']}}[f['name']]
        rec = {kk: fw.unR(hist['b'][kk]) for kk in ['r', 'r_cent', 'phi_cent']}
        rec['f'] = f
        sces.append({'seed': len(sces), 'recs': [rec], 'calls': 1,
                     'hemi': hist['hemi'], 'blat': abs(fw.unR(hist['blat'])),
                     'loc': [fw.unR(hist['lat']), fw.unR(hist['mlt'])]})
    chk.notes['behaviours_replayed'] = len(sces)
    return sces


def check_normal(chk):
    rng = random.Random(chk.seed)
    sces = geom_model(chk, 11)
    sces += [{'seed': rng.randrange(10**9)} for i in range(chk.n(2100, 12000))]
    chk.judge('TraceGeometry', 'JudgeNormal', chk.execute(run_normal, sces))


def run_convert(chk, sces):
    ocbpy = fw.import_ocbpy(chk.home)
    import numpy as np
    make = mk.Maker(chk, ocbpy)
    groups = []
    for sce in sces:
        rng = random.Random(sce['seed'])
        one = One(chk, ocbpy, make, rng, sce.get('recs'), sce.get('hemi'),
                  sce.get('blat'))
        for k in range(sce.get('calls', 4)):
            if 'loc' in sce:
                lats, mlts = [[cc] for cc in sce['loc']]
                shape = rng.choice([[], [1]])
            else:
                shape = rand_shape(rng)
                lats = [rand_lat(rng, one.hemi, rng.choice([0, 0, 0.3]))
                        for k in range(size(shape))]
                mlts = [rand_mlt(rng) for k in range(size(shape))]
            if 'loc' not in sce and k > 0 and rng.random() < 0.3:
                lats, mlts, shape = last
                one.alter()
            last = lats, mlts, shape
            num = len(lats)
            if rng.random() < 0.5 or 'loc' in sce:
                # Normalise, then revert
                ev, res, ind = normal_event(one, lats, mlts, shape)
                groups.append([ev])
                if ev['exc'] != '' or not ev['set']:
                    continue
                arg = [rr if np.ndim(rr) else float(rr) for rr in res[:2]]
                back, exc = fw.call(one.obj.revert_coord, *arg,
                                    r_corr=res[2])
                ev = dict(ev, k='round', exc=exc or '', olat=[], omlt=[])
                if exc is None:
                    ev.update({'olat': fw.Rs(back[0]), 'omlt': fw.Rs(back[1])})
                groups.append([ev])
                continue
            ind, isset = one.cur()
            cors = [rng.choice([0.0, 1.5, rng.uniform(-4, 3)])
                    for k in range(num)]
            lats, mlts, lat, mlt = pair_inputs(rng, lats, mlts, shape)
            pick = rng.random()
            if pick < 0.3:
                cors, kwargs = [0.0] * num, {}
            elif pick < 0.6:
                cors = [cors[0]] * num
                kwargs = {'r_corr': as_input(rng, cors[:1], [])}
            else:
                kwargs = {'r_corr': as_input(rng, cors, shape)}
            if rng.random() < 0.3:
                kwargs['coords'] = 'magnetic'
            before = copy.deepcopy([lat, mlt, kwargs.get('r_corr')])
            res, exc = fw.probe(rng, one.obj.revert_coord, lat, mlt, **kwargs)
            ev = dict(one.base(ind, isset, shape), k='revert', exc=exc or '',
                      same=same(before, [lat, mlt, kwargs.get('r_corr')]),
                      nlat=fw.Rs(lats), nmlt=fw.Rs(mlts), corr=fw.Rs(cors),
                      oshape=[], olat=[], omlt=[])
            if exc is None:
                ev.update({'oshape': fw.shape(res[0]), 'olat': fw.Rs(res[0]),
                           'omlt': full(res[1], num)})
            groups.append([ev])
    return groups


def check_convert(chk):
    rng = random.Random(chk.seed)
    sces = geom_model(chk, 11)
    sces += [{'seed': rng.randrange(10**9)} for i in range(chk.n(2100, 12000))]
    chk.judge('TraceGeometry', 'JudgeConvert', chk.execute(run_convert, sces))


# -- stored boundaries --------------------------------------------------------

def enc_store(obj, num):
    """What is stored per record, and whether the latitude is a scalar."""
    import numpy as np
    out, scalar = [], []
    num = max([num] + [len(getattr(obj, name)) for name in [
        'aacgm_boundary_lat', 'aacgm_boundary_mlt', 'aacgm_boundary_lon']
        if hasattr(obj, name)])
    for k in range(num):
        rec = {}
        for name in ['lat', 'mlt', 'lon']:
            vals = getattr(obj, 'aacgm_boundary_' + name, None)
            val = None if vals is None or k >= len(vals) else vals[k]
            rec[name] = [] if val is None else fw.Rs(val)
            if name == 'lat':
                scalar.append(bool(val is not None and np.ndim(val) == 0))
        out.append(rec)
    return out, scalar


def reload(make, obj, recs):
    """Load other records into a boundary object."""
    import numpy as np
    from ocbpy import ocb_correction
    full = [dict(rec, t=rec.get('t', 60 * k)) for k, rec in enumerate(recs)]
    obj.filename = mk.write_image(make.path('.ocb'), full)
    obj.rfunc = np.array([getattr(ocb_correction, rec['f']['name'])
                          for rec in recs], dtype=object)
    obj.rfunc_kwargs = np.empty(shape=len(recs), dtype=object)
    for k, rec in enumerate(recs):
        obj.rfunc_kwargs[k] = dict(rec['f']['kw'])
    _, exc = fw.call(obj.load)
    os.remove(obj.filename)
    return exc


def run_store(chk, sces):
    ocbpy = fw.import_ocbpy(chk.home)
    import aacgmv2
    import numpy as np
    make = mk.Maker(chk, ocbpy)
    groups = []
    for sce in sces:
        rng = random.Random(sce['seed'])
        nrec = sce.get('nrec', rng.choice([1, 2, 3]))
        recs = [rand_rec(rng) for k in range(nrec)]
        one = One(chk, ocbpy, make, rng, recs)
        obj = one.obj
        store, _ = enc_store(obj, nrec)
        group = [{'k': 'obj', 'recs': [enc_b(rec) for rec in recs],
                  'hemi': one.hemi, 'store': store}]
        ops = sce.get('ops')
        if ops is None:
            ops = []
            for k in range(rng.randrange(1, 7)):
                pick = rng.random()
                if pick < 0.2:
                    ops.append(['other'])
                elif pick < 0.35:
                    ops.append(['reload'])
                elif pick < 0.45:
                    ops.append(['alter'])
                else:
                    ops.append(['blat', rng.choice(
                        [None, None, rng.randrange(nrec),
                         [rng.randrange(nrec)], 'all']),
                        rng.random() < 0.5, rng.random() < 0.4])
        for op in ops:
            if op[0] == 'reload':
                # Other records, not necessarily the same number of them
                if 'ops' not in sce and rng.random() < 0.6:
                    nrec = rng.choice([1, 2, 3])
                recs = [rand_rec(rng) for k in range(nrec)]
                exc = reload(make, obj, recs)
                store, _ = enc_store(obj, nrec)
                group.append({'k': 'reload', 'exc': exc or '', 'store': store,
                              'recs': [enc_b(rec) for rec in recs]})
                if exc is not None:
                    break
                continue
            if op[0] == 'alter':
                k = rng.randrange(nrec)
                recs[k] = dict(recs[k], r=round(rng.uniform(8.0, 25.0), 2),
                               phi_cent=round(rng.uniform(0.0, 359.0), 2))
                obj.r[k] = recs[k]['r']
                obj.phi_cent[k] = recs[k]['phi_cent']
                group.append({'k': 'alter',
                              'recs': [enc_b(rec) for rec in recs]})
                continue
            if op[0] == 'other':
                obj.rec_ind = rng.randrange(nrec)
                lat = [one.hemi * 80.0, one.hemi * 71.0]
                mlt = [rand_mlt(rng), 3.0]
                if rng.random() < 0.5:
                    obj.normal_coord(lat, mlt)
                else:
                    obj.revert_coord(lat, mlt)
                store, _ = enc_store(obj, nrec)
                group.append({'k': 'other', 'store': store})
                continue
            _, inds, over, set_lon = op
            if inds == 'all':
                inds = list(range(nrec))
            elif isinstance(inds, int):
                inds = inds % nrec
            elif inds is not None:
                inds = [k for k in range(nrec) if k in inds] or [nrec - 1]
            shape = rand_shape(rng, two=False)
            mlts = [rand_mlt(rng) for k in range(size(shape))]
            mlt = as_input(rng, mlts, shape)
            before = copy.deepcopy([mlt])
            kwargs = {'overwrite': over} if over or rng.random() < 0.5 else {}
            if not set_lon or rng.random() < 0.5:
                kwargs['set_lon'] = set_lon
            rinds = list(range(nrec))
            if inds is not None:
                kwargs['rec_ind'] = inds
                rinds = inds if isinstance(inds, list) else [inds]
            _, exc = fw.call(obj.get_aacgm_boundary_lat, mlt, **kwargs)
            ok = same(before, [mlt])
            store, scalar = enc_store(obj, nrec)
            lon_ref = [[] for k in range(nrec)]
            if set_lon:
                lon_ref = [fw.Rs(aacgmv2.convert_mlt(
                    np.mod(np.array(mlts, dtype=float), 24.0), obj.dtime[k],
                    m2a=True)) for k in range(nrec)]
            # Whether the caller may still change what is stored
            if shape != [] and not isinstance(mlt, list) and exc is None:
                old = mlt.copy()
                mlt[:] = 99
                ok &= enc_store(obj, nrec)[0] == store
                mlt[:] = old
            group.append({'k': 'blat', 'inds': rinds, 'mlt': fw.Rs(mlts),
                          'scalar': shape == [], 'overwrite': over,
                          'setLon': set_lon, 'exc': exc or '', 'same': ok,
                          'store': store, 'isScalar': scalar,
                          'lonRef': lon_ref})
        groups.append(group)
    return groups


def check_store(chk):
    rng = random.Random(chk.seed)
    em = chk.model('MCStore', 'CONSTANTS NRec = 2 MaxOps = {:d} EmitMod = {:d}'
                   '\nSPECIFICATION Spec\nINVARIANTS WrittenOnce OnlyAsked '
                   'LonMatches Emit\nCHECK_DEADLOCK FALSE\n'
                   .format(*chk.n((3, 11), (4, 17))), workers=6)
    sces = [{'seed': i, 'nrec': 2, 'ops': hist['ops']}
            for i, hist in enumerate(em)]
    chk.notes['behaviours_replayed'] = len(sces)
    sces += [{'seed': rng.randrange(10**9)} for i in range(chk.n(1500, 10000))]
    chk.judge('TraceGeometry', 'JudgeStore', chk.execute(run_store, sces),
              start='NoStore')


# -- two boundaries -----------------------------------------------------------

def rand_pair(rng, match):
    """An OCB record and an EAB record that usually surrounds it."""
    o = rand_rec(rng, 8.0, 18.0, 5.0)
    e = rand_rec(rng, 8.0, 18.0, 5.0)
    if match:
        e['r'] = o['r'] + o['r_cent'] + e['r_cent'] + rng.uniform(7.5, 12)
        if e['r'] > 45:
            return rand_pair(rng, match)
    else:
        e['r'] += rng.uniform(3, 10)
    return o, e


class Two(object):
    def __init__(self, ocbpy, make, rng, npair=None):
        self.rng = rng
        self.past = {}
        self.hemi = rand_hemi(rng)
        npair = npair or rng.choice([1, 2, 3])
        self.o, self.e, self.pairs = [], [], []
        t = 0
        for k in range(npair):
            o, e = rand_pair(rng, rng.random() < 0.9)
            # Records without a partner, so that the indices differ
            while rng.random() < 0.3:
                which = rng.choice([self.o, self.e])
                which.append(dict(rand_rec(rng), t=t))
                t += 3600
            self.pairs.append([len(self.o), len(self.e)])
            self.o.append(dict(o, t=t))
            self.e.append(dict(e, t=t + rng.choice([0, 0, 30, -30])))
            t += 3600
        self.ob = rng.choice([74.0, 74.0, 76.0, rng.uniform(70, 80)])
        self.eb = rng.choice([64.0, 64.0, 60.0, rng.uniform(50, 69)])
        ocb = build(make, self.o, self.hemi, self.ob, False)
        eab = build(make, self.e, self.hemi, self.eb, True)
        self.ob *= self.hemi
        self.eb *= self.hemi
        self.obj = ocbpy.DualBoundary(ocb=ocb, eab=eab)
        self.pairs = [[int(ii), int(jj)] for ii, jj in
                      zip(self.obj.ocb_ind, self.obj.eab_ind)]
        self.group = [dict(self.stores(), k='dual',
                           o=[enc_b(rec) for rec in self.o],
                           e=[enc_b(rec) for rec in self.e],
                           ob=fw.R(self.ob), eb=fw.R(self.eb), hemi=self.hemi,
                           pairs=self.pairs)]

    def stores(self):
        return {'so': enc_store(self.obj.ocb, len(self.o))[0],
                'se': enc_store(self.obj.eab, len(self.e))[0]}

    def boundary(self, which, mlt):
        """A boundary latitude, to generate locations on and near it."""
        import math
        if not 0 <= self.obj.rec_ind < len(self.pairs):
            return self.hemi * 70.0
        ind = self.pairs[self.obj.rec_ind][which]
        rec = (self.o, self.e)[which][ind]
        from ocbpy import ocb_correction
        rad = rec['r'] + float(getattr(ocb_correction, rec['f']['name'])(
            mlt, **rec['f']['kw']))
        ang = math.radians(15.0 * mlt - rec['phi_cent'])
        disc = rad**2 - (rec['r_cent'] * math.sin(ang))**2
        if disc <= 0:
            return self.hemi * 70.0
        return self.hemi * (90.0 - rec['r_cent'] * math.cos(ang)
                            - math.sqrt(disc))

    def lat(self, mlt, wrong=0.1):
        pick = self.rng.random()
        if pick < 0.45:
            lo = self.boundary(0, mlt)
            le = self.boundary(1, mlt)
            lat = self.rng.choice([
                lo, le, lo + self.hemi * 0.001, lo - self.hemi * 0.001,
                le + self.hemi * 0.001, le - self.hemi * 0.001,
                0.5 * (lo + le), lo + self.hemi * 2.0, le - self.hemi * 5.0])
            if 0.5 < abs(lat) < 89.9:
                return lat
        return rand_lat(self.rng, self.hemi, wrong)

    def nlat(self):
        ob, eb = abs(self.ob), abs(self.eb)
        return self.hemi * self.rng.choice(
            [ob, eb, self.rng.uniform(ob, 89.9), self.rng.uniform(eb, ob),
             self.rng.uniform(1, eb), ob - 1e-6, eb - 1e-6])

    def log(self, ev, exc):
        ev['exc'] = exc or ''
        ev.update(self.stores())
        self.group.append(ev)

    def set(self):
        num = len(self.pairs)
        ind = self.rng.choice([-1, num, num + 1]) if self.rng.random() < 0.07 \
            else self.rng.randrange(num)
        self.obj.rec_ind = ind
        self.group.append({'k': 'set', 'i': ind})

    def again(self, what, shape, vals):
        """Values, which may be those of the last call."""
        if (what, tuple(shape)) not in self.past or self.rng.random() < 0.6:
            self.past[what, tuple(shape)] = vals
        return self.past[what, tuple(shape)]

    def ref(self):
        """Change the reference latitudes."""
        if self.rng.random() < 0.6:
            self.ob = self.hemi * self.rng.choice([75.0,
                                                   self.rng.uniform(70, 80)])
            self.obj.ocb.boundary_lat = self.ob
        else:
            self.eb = self.hemi * self.rng.choice([61.0,
                                                   self.rng.uniform(50, 69)])
            self.obj.eab.boundary_lat = self.eb
        self.group.append({'k': 'ref', 'ob': fw.R(self.ob),
                           'eb': fw.R(self.eb)})

    def boundaries(self, which, shape, over):
        """Set the boundary latitudes of both components or of one."""
        import aacgmv2
        import numpy as np
        rng = self.rng
        mlts = [rand_mlt(rng) for k in range(size(shape))]
        set_lon = rng.random() < 0.3
        kwargs = {'overwrite': over, 'set_lon': set_lon}
        lens = [len(self.o), len(self.e)]
        inds = [list(range(num)) for num in lens]
        comp = ['ocb', 'eab'].index(which) if which != 'both' else None
        if rng.random() < 0.8:
            num = len(self.pairs) if comp is None else lens[comp]
            rec = rng.randrange(num)
            if comp is None and 0 <= self.obj.rec_ind < num and (
                    rng.random() < 0.5):
                rec = self.obj.rec_ind
            elif comp is not None and rng.random() < 0.5 and (
                    0 <= self.obj.rec_ind < len(self.pairs)):
                rec = self.pairs[self.obj.rec_ind][comp]
            kwargs['rec_ind'] = rec
            inds = list(self.pairs[rec]) if comp is None else [rec, rec]
            inds = [[ind] for ind in inds]
            if rng.random() < 0.2:
                kwargs['rec_ind'] = [rec]
        if comp is not None:
            inds[1 - comp] = []
        lons = [[[] for k in range(num)] for num in lens]
        if set_lon:
            for i, obj in enumerate([self.obj.ocb, self.obj.eab]):
                lons[i] = [fw.Rs(aacgmv2.convert_mlt(
                    np.mod(np.array(mlts, dtype=float), 24.0), obj.dtime[k],
                    m2a=True)) for k in range(lens[i])]
        fun = self.obj.get_aacgm_boundary_lats if comp is None else [
            self.obj.ocb, self.obj.eab][comp].get_aacgm_boundary_lat
        _, exc = fw.call(fun, as_input(rng, mlts, shape), **kwargs)
        self.log({'k': 'blats', 'mlt': fw.Rs(mlts), 'inds': inds, 'lon': lons,
                  'overwrite': over, 'setLon': set_lon}, exc)


def dual_normal(two, shape, over, **more):
    rng = two.rng
    num = size(shape)
    wrong = rng.choice([0, 0, 0.2, 1.0 if rng.random() < 0.2 else 0.0])
    mlts = [rand_mlt(rng) for k in range(num)]
    lats = [two.lat(mm, wrong) for mm in mlts]
    lats, mlts = two.again('normal', shape, [lats, mlts])
    lats, mlts, lat, mlt = pair_inputs(rng, lats, mlts, shape)
    kwargs = dict({'overwrite': True} if over else {}, **more)
    before = copy.deepcopy([lat, mlt])
    res, exc = fw.call(two.obj.normal_coord, lat, mlt, **kwargs)
    ev = {'k': 'dnormal', 'lat': fw.Rs(lats), 'mlt': fw.Rs(mlts),
          'shape': shape, 'overwrite': over, 'oshape': [], 'blat': [],
          'bmlt': [], 'olat': [], 'ocor': [],
          'same': same(before, [lat, mlt])}
    if exc is None:
        ev.update({'oshape': fw.shape(res[0]), 'blat': fw.Rs(res[0]),
                   'bmlt': full(res[1], num), 'olat': full(res[2], num),
                   'ocor': full(res[3], num)})
    two.log(ev, exc)
    return res, lats, mlts, exc


def run_dual(chk, sces):
    ocbpy = fw.import_ocbpy(chk.home)
    import numpy as np
    make = mk.Maker(chk, ocbpy)
    groups = []
    for sce in sces:
        rng = random.Random(sce['seed'])
        two = Two(ocbpy, make, rng, sce.get('npair'))
        for op in sce.get('ops') or [
                [rng.choice(sce['menu']), rng.random() < 0.3]
                for k in range(rng.randrange(2, 7))]:
            name, over = op
            if name in ['dnormal', 'drevert'] and 'ops' not in sce \
                    and rng.random() < 0.15:
                two.ref()
            shape = rand_shape(rng, two=False)
            num = size(shape)
            if name == 'set':
                two.set()
            elif name == 'ref':
                two.ref()
            elif name == 'dnormal':
                dual_normal(two, shape, over)
            elif name == 'blats':
                two.boundaries(rng.choice(['both', 'both', 'ocb', 'eab']),
                               shape, over)
            elif name in ['bocb', 'beab']:
                two.boundaries(name[1:], shape, over)
            elif name == 'dround':
                res, lats, mlts, exc = dual_normal(two, shape, False)
                if exc is not None or not 0 <= two.obj.rec_ind < len(
                        two.pairs):
                    continue
                good = ~np.isnan(np.atleast_1d(res[0]))
                if not good.any():
                    continue
                if shape == []:
                    arg = [float(rr) for rr in res]
                    amlt = mlts[0]
                else:
                    arg = [np.array(rr)[good] for rr in res]
                    amlt = np.array(mlts)[good]
                kwargs = {'is_ocb': False, 'aacgm_mlt': amlt}
                back, exc = fw.call(two.obj.revert_coord, arg[0], arg[1],
                                    r_corr=arg[3], **kwargs)
                ev = {'k': 'dround', 'olat': [], 'omlt': [],
                      'lat': fw.Rs(np.array(lats)[good]),
                      'mlt': fw.Rs(np.array(mlts)[good])}
                if exc is None:
                    ev.update({'olat': fw.Rs(back[0]), 'omlt': fw.Rs(back[1])})
                two.log(ev, exc)
            elif name in ['drevert', 'calc']:
                nlats = [two.nlat() for k in range(num)]
                nmlts = [rand_mlt(rng, False) for k in range(num)]
                amlts = [rand_mlt(rng) for k in range(num)]
                cors = [rng.choice([0.0, rng.uniform(-3, 3)])
                        for k in range(num)]
                nlats, nmlts, amlts, cors = two.again(
                    'revert', shape, [nlats, nmlts, amlts, cors])
                args = [as_input(rng, vv, shape)
                        for vv in [nlats, nmlts, amlts, cors]]
                before = copy.deepcopy(args)
                ev = {'nlat': fw.Rs(nlats), 'nmlt': fw.Rs(nmlts),
                      'amlt': fw.Rs(amlts), 'corr': fw.Rs(cors),
                      'overwrite': over, 'shape': shape, 'k': name}
                if name == 'calc':
                    res, exc = fw.call(two.obj.calc_r, *args, overwrite=over)
                    ev.update({'scaled': [], 'unscaled': [], 'oshapes': []})
                    if exc is None:
                        ev['oshapes'] = [fw.shape(rr) for rr in res]
                        ev.update({'scaled': full(res[0], num),
                                   'unscaled': full(res[1], num)})
                else:
                    is_ocb = rng.random() < 0.25
                    kwargs = {} if is_ocb else {'is_ocb': False,
                                                'aacgm_mlt': args[2]}
                    if over:
                        kwargs['overwrite'] = True
                    res, exc = fw.call(two.obj.revert_coord, args[0], args[1],
                                       r_corr=args[3], **kwargs)
                    ev.update({'isOcb': is_ocb, 'oshape': [], 'olat': [],
                               'omlt': []})
                    if exc is None:
                        ev.update({'oshape': fw.shape(res[0]),
                                   'olat': fw.Rs(res[0]),
                                   'omlt': full(res[1], num)})
                ev['same'] = same(before, args)
                two.log(ev, exc)
        groups.append(two.group)
    return groups


def dual_model(chk):
    em = chk.model('MCDual', 'CONSTANTS MaxOps = {:d} EmitMod = {:d}\n'
                   'SPECIFICATION Spec\nINVARIANTS RegionsPartition EdgesMeet '
                   'Monotone RoundTrip StoreRestored Emit\n'
                   'CHECK_DEADLOCK FALSE\n'.format(*chk.n((2, 3), (3, 3))),
                   workers=7)
    return em


def check_dual_normal(chk):
    rng = random.Random(chk.seed)
    em = dual_model(chk)
    sces = [{'seed': i, 'npair': 1, 'ops': [
        [{'normal': 'dnormal', 'set': 'blats'}.get(op, op), over]
        for op, over in hist['ops']]} for i, hist in enumerate(em)]
    chk.notes['behaviours_replayed'] = len(sces)
    sces += [{'seed': rng.randrange(10**9),
              'menu': ['set', 'dnormal', 'dnormal', 'dnormal', 'blats']}
             for i in range(chk.n(2100, 12000))]
    chk.judge('TraceGeometry', 'JudgeDual', chk.execute(run_dual, sces),
              start='NoDual')


def check_dual_revert(chk):
    rng = random.Random(chk.seed)
    em = dual_model(chk)
    sces = [{'seed': i, 'npair': 1, 'ops': [
        [{'normal': rng.choice(['drevert', 'calc', 'dround']),
          'set': 'blats'}.get(op, op), over]
        for op, over in hist['ops']]} for i, hist in enumerate(em)]
    chk.notes['behaviours_replayed'] = len(sces)
    sces += [{'seed': rng.randrange(10**9),
              'menu': ['set', 'drevert', 'drevert', 'calc', 'dround', 'dround',
                       'blats']} for i in range(chk.n(2100, 12000))]
    chk.judge('TraceGeometry', 'JudgeDual', chk.execute(run_dual, sces),
              start='NoDual')


# -- geographic coordinates ---------------------------------------------------

def run_geo(chk, sces):
    ocbpy = fw.import_ocbpy(chk.home)
    import aacgmv2
    import numpy as np
    make = mk.Maker(chk, ocbpy)
    groups = []
    for sce in sces:
        rng = random.Random(sce['seed'])
        dual = rng.random() < 0.5
        t0 = rng.choice([0, 43200, rng.randrange(0, 86400 * 365 * 15)])
        if dual:
            hemi = rand_hemi(rng)
            o, e = rand_pair(rng, True)
            ob, eb = 74.0, rng.choice([64.0, 61.0])
            obj = ocbpy.DualBoundary(
                ocb=build(make, [dict(o, t=t0)], hemi, ob),
                eab=build(make, [dict(e, t=t0)], hemi, eb, True))
        else:
            hemi = rand_hemi(rng)
            o = rand_rec(rng)
            e, ob, eb = o, rng.choice([74.0, 70.0]), 0.0
            obj = build(make, [dict(rand_rec(rng), t=t0 - 100),
                               dict(o, t=t0)], hemi, ob, rng.random() < 0.3)
            obj.rec_ind = 1
        time = obj.dtime[obj.rec_ind]
        ut = time.hour + time.minute / 60.0 + time.second / 3600.0
        base = {'b': enc_b(o), 'eab': enc_b(e), 'hemi': hemi, 'dual': dual,
                'blat': fw.R(hemi * ob), 'elat': fw.R(hemi * eb),
                'ut': fw.R(ut)}
        for k in range(3):
            shape = rng.choice([[], [1], [2], [4]])
            num = size(shape)
            coords = rng.choice(['geodetic', 'geocentric', 'geodetic',
                                 'GEOCENTRIC'])
            height = rng.choice([350.0, 350.0, 110.0, 800.0])
            heights = [height] * num
            kwargs = {'coords': coords}
            if height != 350.0 or rng.random() < 0.3:
                kwargs['height'] = height
            if shape != [] and rng.random() < 0.3:
                heights = [rng.uniform(100, 800) for k in range(num)]
                kwargs['height'] = np.array(heights)
            method = 'ALLOWTRACE'
            if rng.random() < 0.2:
                method = kwargs['method'] = 'TRACE'
            if coords.lower() == 'geocentric':
                method += '|GEOCENTRIC'
            lats = [rand_lat(rng, hemi, 0.1) for k in range(num)]
            lats = [ll if abs(ll) > 35 else hemi * 71.5 for ll in lats]
            lts = [rand_mlt(rng, False) for k in range(num)]
            if rng.random() < 0.5:
                lon = np.mod((np.array(lts) - ut) * 15.0, 360.0)
                mlat, _, mmlt = aacgmv2.get_aacgm_coord_arr(
                    np.array(lats), lon, np.array(heights), time, method)
                res, exc = fw.call(obj.normal_coord,
                                   as_input(rng, lats, shape),
                                   as_input(rng, lts, shape), **kwargs)
                ev = dict(base, k='gnormal', exc=exc or '', slt=fw.Rs(lts),
                          glon=fw.Rs(lon), mlat=fw.Rs(mlat), mmlt=fw.Rs(mmlt),
                          olat=[], omlt=[], oclat=[])
                if exc is None:
                    ev.update({'olat': fw.Rs(res[0]), 'shape': shape,
                               'omlt': full(res[1], num),
                               'oclat': full(res[2], num),
                               'oshapes': [fw.shape(vv) for vv in res]})
                groups.append([ev])
                continue
            if dual:
                nlats = [hemi * rng.choice([
                    rng.uniform(ob, 89.5), rng.uniform(eb, ob),
                    rng.uniform(50, eb)]) for k in range(num)]
            else:
                nlats = [hemi * rng.uniform(55, 89.5) for k in range(num)]
            cors = [rng.uniform(-2, 2) for k in range(num)]
            amlts = [rand_mlt(rng, False) for k in range(num)]
            args = [as_input(rng, nlats, shape), as_input(rng, lts, shape)]
            mag = {'r_corr': as_input(rng, cors, shape)}
            if dual and rng.random() < 0.8:
                mag['is_ocb'] = False
                mag['aacgm_mlt'] = as_input(rng, amlts, shape)
            (mlat, mmlt), exc0 = fw.call(obj.revert_coord, *args, **mag)
            if exc0 is not None:
                raise fw.Machinery('magnetic revert fails')
            if not (hemi > 0 and (np.asarray(mlat) > 55.0).all()
                    and (np.asarray(mlat) < 82.0).all()):
                # Tracing to geographic coordinates may never return in AACGM
                kwargs.pop('method', None)
                method = method.replace('ALLOWTRACE', 'TRACE').replace(
                    'TRACE', 'ALLOWTRACE')
            mag.update(kwargs)
            res, exc = fw.call(obj.revert_coord, *args, **mag)
            mlat, mmlt = [np.atleast_1d(np.array(mm, dtype=float))
                          for mm in [mlat, mmlt]]
            lon = aacgmv2.convert_mlt(mmlt, time, m2a=True)
            glat, glon, _ = aacgmv2.convert_latlon_arr(
                mlat, lon, np.array(heights), time, method + '|A2G')
            ev = dict(base, k='grevert', exc=exc or '', glat=fw.Rs(glat),
                      glon=fw.Rs(glon), out=[], outlt=[])
            if exc is None:
                ev.update({'out': full(res[0], num), 'shape': shape,
                           'outlt': full(res[1], num),
                           'oshapes': [fw.shape(vv) for vv in res]})
            groups.append([ev])
    return groups


def check_geo(chk):
    rng = random.Random(chk.seed)
    geom_model(chk, 10**6)
    sces = [{'seed': rng.randrange(10**9)} for i in range(chk.n(1500, 6000))]
    chk.judge('TraceGeometry', 'JudgeGeo', chk.execute(run_geo, sces))
