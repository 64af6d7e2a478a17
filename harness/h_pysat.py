"""Driver for adding boundary coordinates to pysat Instruments."""
import contextlib
import copy
import io
import os
import random

import fw
import mk
from h_data import loop_model
from h_geom import build, enc_b, rand_hemi, rand_pair, rand_rec
from h_match import NOQ, kwargs_of, rand_q
from h_records import enc_q
from h_vec import slt

NAN = float('nan')
OUTS = ['n', 'e', 'z', 'mag', 'unscaled_r', 'scaled_r']


def enc(recs):
    return [{'t': rec['t'], 'fom': fw.R(rec['fom']), 'r': fw.R(rec['r']),
             'b': enc_b(rec)} for rec in recs]


def file_of(make, recs, suffix):
    for rec in recs:
        rec['f'] = {'name': 'circular', 'inst': '', 'method': '', 'add': 0.0,
                    'kw': {}}
    return mk.write_image(make.path(suffix), recs)


def make_target(rng, make, ocbpy, hemi, times, conv, tol):
    """The boundary, as an input and as the specification sees it."""
    span = sorted(set([tt + rng.choice([0, 0, 0, 60, -60, 300, -300, tol + 1,
                                        -tol, rng.randrange(-4000, 4000)])
                       for tt in times + [times[0]]
                       if rng.random() < 0.8] or [times[0]]))
    kind = rng.choice(['one', 'one', 'dual', 'file', 'file', 'dualfile'])
    if conv:
        kind, span = 'one', span[:1]
    eab = rng.random() < 0.3
    blat = rng.choice([74.0, 74.0, 70.0, 77.5])
    ev = {'hemi': hemi, 'dual': kind.startswith('dual'), 'own': True,
          'q': enc_q(NOQ), 'erecs': [], 'pairs': [], 'elat': [0, 0],
          'bname': 'eab' if eab else 'ocb', 'cur': -1, 'blat': [0, 0]}
    kwargs, ocb, tobs = {}, None, []
    if ev['dual']:
        ev['bname'] = 'dualb'
        olist, elist = [], []
        for tt in span:
            o, e = rand_pair(rng, True)
            if rng.random() < 0.8:
                elist.append(dict(e, t=tt, fom=rng.choice([1, 2, 3, 6])))
            olist.append(dict(o, t=tt, fom=rng.choice([1, 1, 2, 3, 6])))
        if len(elist) == 0:
            elist.append(dict(e, t=span[-1], fom=1))
        elat = 62.0
        if kind == 'dualfile':
            blat, elat = 74.0, 64.0
            names = {'ocb_filename': file_of(make, olist, '.ocb'),
                     'eab_filename': file_of(make, elist, '.eab'),
                     'ocb_instrument': 'image', 'eab_instrument': 'image'}
            tobs = [names['ocb_filename'], names['eab_filename']]
            # The pairs that the file holds at the times of the data
            pair = ocbpy.DualBoundary(
                hemisphere=hemi, stime=fw.at(times[0] - tol - 1),
                etime=fw.at(times[-1] + tol + 1), **names)
            olist = [oo for oo in olist if times[0] - tol - 1 <= oo['t']
                     <= times[-1] + tol + 1]
            elist = [oo for oo in elist if times[0] - tol - 1 <= oo['t']
                     <= times[-1] + tol + 1]
            kwargs.update(names, ocbfile=rng.choice(['dual', 'Dual']))
            ev['own'] = False
        else:
            pair = ocb = ocbpy.DualBoundary(
                ocb=build(make, olist, hemi, blat),
                eab=build(make, elist, hemi, elat, True))
        ev.update({'recs': enc(olist), 'erecs': enc(elist),
                   'blat': fw.R(hemi * blat), 'elat': fw.R(hemi * elat),
                   'pairs': [[int(ii), int(jj)] for ii, jj in
                             zip(pair.ocb_ind, pair.eab_ind)]})
    else:
        recs = [dict(rand_rec(rng), t=tt, fom=1 if conv else rng.choice(
            [1, 1, 2, 3, 5, 6])) for tt in span]
        if rng.random() < 0.3 and not conv:
            q = rand_q(rng)
            for cc in q['crit']:
                cc['v'] *= 6
            ev['q'] = enc_q(q)
            kwargs.update(kwargs_of(q))
        if kind == 'file':
            kwargs.update({'ocbfile': file_of(make, recs, '.eab' if eab else
                                              '.ocb'), 'instrument': 'image'})
            tobs = [kwargs['ocbfile']]
            ev['own'] = False
        else:
            ocb = build(make, recs, hemi, blat, eab)
            ev['blat'] = fw.R(hemi * blat)
        ev['recs'] = enc(recs)
        if conv:
            ev['time'] = recs[0]['t']
    if ocb is not None:
        kwargs['ocb'] = ocb
        if rng.random() < 0.2 and not conv:
            ocb.rec_ind = rng.randrange(-1, ocb.records + 1)
        ev['cur'] = int(ocb.rec_ind)
    ev['harg'] = rng.choice([0, hemi, hemi])
    if kind == 'dualfile':
        ev['harg'] = hemi
    elif not ev['own'] and rng.random() < 0.15:
        ev['harg'] = -hemi
    if ev['harg'] != 0:
        kwargs['hemisphere'] = ev['harg']
    return ev, kwargs, tobs


def run_pysat(chk, sces):
    ocbpy = fw.import_ocbpy(chk.home)
    with contextlib.redirect_stdout(io.StringIO()):
        import pandas as pds
        import pysat
        import xarray as xr
        from ocbpy.instruments import pysat_instruments
        if len(pysat.params['data_dirs']) == 0:
            pysat.params['data_dirs'] = os.path.join(chk.home, 'pysatData')
    import aacgmv2
    import numpy as np
    from ocbpy import ocb_scaling
    make = mk.Maker(chk, ocbpy)
    funs = {'evar': ocb_scaling.normal_evar,
            'curl': ocb_scaling.normal_curl_evar, '': None}
    groups = []
    for sce in sces:
        rng = random.Random(sce['seed'])
        hemi = rand_hemi(rng)
        t0 = 86400 * rng.randrange(300, 5000)
        conv = rng.random() < 0.12 and 'times' not in sce
        tol = rng.choice([60, 60, 1, 120, 300, 1800])
        if 'times' in sce:
            times = [t0 + 300 * tt for tt in sce['data']]
        else:
            times = [t0 + rng.randrange(80000)]
            for k in range(rng.choice([0, 1, 2, 4, 6])):
                times.append(times[-1] + rng.choice([1, 60, 60, 300, 900]))
        lay = rng.choice(['pandas', 'pandas', 'x1', 'x2', 'prof', 'grid'])
        if len(set(times)) < len(times):
            lay = 'pandas'
        ntime = len(times)
        nx, ny = rng.choice([1, 2, 3]), rng.choice([1, 2])
        wrong = rng.choice([0, 0, 0, 0.2, 0.2, 1.0])
        gaps = rng.choice([0, 0, 0.15])
        nz = rng.choice([1, 2, 3])
        sizes = {'Epoch': ntime, 'x': nx, 'mlat': nx, 'lon': ny, 'alt': nz,
                 'lev': nz}

        def lats(num):
            out = []
            for k in range(num):
                lat = rng.choice([rng.uniform(50, 89), rng.uniform(60, 85),
                                  rng.uniform(1, 89)])
                if conv:
                    lat = rng.uniform(57, 83)
                lat *= -hemi if rng.random() < wrong else hemi
                out.append(NAN if rng.random() < gaps / 3 else lat)
            return out

        def fill(dims, what):
            num = int(np.prod([sizes[dd] for dd in dims]))
            if what == 'lat':
                vals = lats(num)
            elif what == 'mlt':
                vals = [rng.choice([rng.uniform(0, 24), rng.uniform(0, 24),
                                    float(rng.randrange(24))])
                        for k in range(num)]
            elif what == 'alt':
                vals = [rng.choice([350.0, 110.0, rng.uniform(100, 800)])
                        for k in range(num)]
            else:
                vals = [rng.choice([rng.uniform(-500, 500), rng.uniform(
                    -1, 1), 0.0, 100.0]) for k in range(num)]
            if what != 'alt' and what != 'lat':
                vals = [NAN if rng.random() < gaps / 3 else vv for vv in vals]
            return np.array(vals).reshape([sizes[dd] for dd in dims])

        names = ['ev', 'cv', 'vn', 've', 'vz', 'wn']
        dims = {nn: ('Epoch',) for nn in names + ['mlat', 'mlt', 'alt']}
        if lay == 'x2':
            dims = {nn: ('Epoch', 'x') for nn in dims}
        elif lay == 'prof':
            for nn in names:
                dims[nn] = rng.choice([('Epoch',), ('Epoch', 'x'),
                                       ('Epoch', 'x')])
            dims['alt'] = ('Epoch',)
        elif lay == 'grid':
            dims['mlat'] = ('mlat',)
            dims['mlt'] = ('Epoch', 'lon')
            for nn in names:
                dims[nn] = rng.choice([('Epoch', 'lon', 'mlat'),
                                       ('Epoch', 'mlat', 'lon')])
            dims['alt'] = ()
        if lay == 'x2':
            dims['alt'] = rng.choice([('Epoch', 'x')] * 2 + [('x', 'Epoch'),
                                                             ('Epoch', )])
        levels = lay in ['prof', 'grid'] and rng.random() < 0.4
        if levels:
            # Heights with a dimension of their own, that the data have too
            dims['alt'] = rng.choice([('alt', ), ('alt', ), ('lev', ),
                                      ('Epoch', 'lev'), ('lev', 'Epoch')])
            if lay == 'grid' and rng.random() < 0.3:
                dims['alt'] = rng.choice([('lev', 'mlat'), ('lon', 'lev')])
            lev = 'lev' if 'lev' in dims['alt'] else 'alt'
            for nn in names:
                dd = ['Epoch', 'x'] if lay == 'prof' else list(dims[nn])
                dd.insert(rng.choice([len(dd), rng.randrange(1, len(dd) + 1)]),
                          lev)
                dims[nn] = tuple(dd)
        data = {nn: fill(dims[nn], {'mlat': 'lat', 'mlt': 'mlt',
                                    'alt': 'alt'}.get(nn, 'v'))
                for nn in dims if dims[nn] != ()}
        # What to add
        keys = {}
        scal, vecs = [], []
        if rng.random() < 0.7:
            keys['evar_names'] = ['ev']
            scal.append(['ev', 'evar'])
            if rng.random() < 0.2:
                keys['evar_names'].append('ve')
                scal.append(['ve', 'evar'])
        if rng.random() < 0.6:
            keys['curl_evar_names'] = ['cv']
            scal.append(['cv', 'curl'])
        if rng.random() < 0.7:
            vec = {'vect_n': 'vn', 'vect_e': 've', 'vect_z': 'vz',
                   'dat_name': rng.choice(['vel', 'cv']), 'dat_units': 'm/s'}
            for kk in ['vect_e', 'vect_z']:
                if rng.random() < 0.25:
                    del vec[kk]
            fun = rng.choice(['evar', 'curl', '', 'own'])
            if fun in ['evar', 'curl']:
                kk = 'evar_names' if fun == 'evar' else 'curl_evar_names'
                keys[kk] = keys.get(kk, []) + ['vel']
                if rng.random() < 0.3:
                    keys[kk].reverse()
            else:
                vec['scale_func'] = None if fun == '' \
                    else ocb_scaling.normal_curl_evar
                fun = '' if fun == '' else 'curl'
            vecs.append(['vel', vec, fun])
            if rng.random() < 0.3:
                two = {'vect_e': 'wn', 'scale_func': None}
                vecs.append(['wel', two, ''])
            keys['vector_names'] = {vv[0]: vv[1] for vv in vecs}
        if lay in ['prof', 'grid'] and len(vecs) > 0:
            # The components of a vector have the same dimensions
            for nn in ['vn', 've', 'vz', 'wn']:
                dims[nn] = dims['vn']
                data[nn] = fill(dims[nn], 'v')
        if lay == 'pandas':
            ds = pds.DataFrame(data, index=pds.DatetimeIndex(
                [fw.at(tt) for tt in times], name='Epoch'))
        else:
            coords = {'Epoch': [fw.at(tt) for tt in times]}
            used = set(dd for nn in dims for dd in dims[nn])
            if 'x' in used:
                coords['x'] = np.arange(nx) * 10
            if 'lon' in used:
                coords['lon'] = np.arange(ny) * 5.0
            if 'mlat' in used:
                coords['mlat'] = data['mlat']
            if 'lev' in used:
                coords['lev'] = np.arange(nz)
            if 'alt' in used:
                coords['alt'] = data['alt']
            if rng.random() < 0.4:
                # The order of the coordinates is not that of dimensions
                order = list(coords)
                rng.shuffle(order)
                coords = {nn: coords[nn] for nn in order}
            ds = xr.Dataset({nn: (dims[nn], data[nn]) for nn in data
                             if nn not in coords}, coords=coords)
        ev, kwargs, tobs = make_target(rng, make, ocbpy, hemi, times, conv,
                                       tol)
        if 'times' in sce:
            recs = [dict(rand_rec(rng), t=t0 + 300 * tt, fom=1 if gg else 9)
                    for tt, gg in zip(sce['times'], sce['good'])]
            ocb = build(make, recs, hemi, 74.0)
            ocb.rec_ind = sce['cur']
            kwargs = {'ocb': ocb}
            tol = 300 * sce['tol']
            ev = {'hemi': hemi, 'dual': False, 'own': True, 'q': enc_q(NOQ),
                  'erecs': [], 'pairs': [], 'elat': [0, 0], 'harg': 0,
                  'bname': 'ocb', 'blat': fw.R(hemi * 74.0),
                  'cur': sce['cur'], 'recs': enc(recs)}
        time = fw.at(ev.pop('time', 0))
        kwargs.update(keys)
        if tol != 60 or rng.random() < 0.3:
            kwargs['max_sdiff'] = rng.choice([tol, float(tol)])
        loc = vec = 'magnetic'
        heights = 350.0
        if rng.random() < 0.4 or conv or levels:
            if dims['alt'] != () and rng.random() < (0.8 if levels else 0.5):
                kwargs['height_name'] = 'alt'
                heights = None
            else:
                heights = kwargs['height'] = rng.choice([110, 250.0, 600.0])
        if conv:
            loc = kwargs['loc_coord'] = rng.choice(['geodetic', 'geocentric'])
            vec = rng.choice([loc, 'magnetic'])
            if vec != 'magnetic' or rng.random() < 0.3:
                kwargs['vect_coord'] = vec
            if heights is None and len(vecs) > 0:
                del kwargs['height_name']
                heights = 350.0

        inst = pysat.Instrument()
        inst.pandas_format = lay == 'pandas'
        inst.data = ds.copy(deep=True)
        for nn in inst.variables:
            inst.meta[nn] = {inst.meta.labels.name: nn.upper(),
                             inst.meta.labels.units: 'u' + nn,
                             inst.meta.labels.desc: 'About ' + nn,
                             inst.meta.labels.min_val: -1.0,
                             inst.meta.labels.max_val: 2.0,
                             inst.meta.labels.fill_val: -999.0}
        old = list(inst.variables)
        meta = inst.meta.data.copy(deep=True)
        before = copy.deepcopy({kk: kwargs[kk] for kk in kwargs
                                if kk != 'ocb'})
        _, exc = fw.call(pysat_instruments.add_ocb_to_data, inst, 'mlat',
                         'mlt', **kwargs)
        kwargs.pop('ocb', None)
        new = [nn for nn in inst.variables if nn not in old]
        same = before == kwargs and inst.data[old if lay == 'pandas' else [
            nn for nn in old if nn in inst.data.data_vars]].equals(
                ds if lay == 'pandas' else ds[[
                    nn for nn in old if nn in ds.data_vars]])
        same = same and inst.meta.data.loc[meta.index].equals(meta)
        bname = ev['bname']

        # Bring all to common dimensions
        alld = ['Epoch'] + [dd for dd in ['x', 'lon', 'mlat', 'alt', 'lev']
                            if lay in [
            'grid', 'x2', 'prof'] and any(dd in dims[nn] for nn in dims)]
        shape = [sizes[dd] for dd in alld]
        need = set(dims['mlat']) | set(dims['mlt']) | set(
            dims['alt'] if 'height_name' in kwargs else [])
        good = [True]

        def common(name, isnew=False, want=()):
            if name is None:
                return np.zeros(shape)
            if lay == 'pandas':
                return np.asarray(inst.data[name], dtype=float)
            arr = inst.data[name]
            if isnew and not (need | set(want)) <= set(arr.dims):
                good[0] = False
            miss = [dd for dd in arr.dims if dd not in alld]
            if miss:
                good[0] = False
                return np.full(shape, NAN)
            arr = arr.transpose(*[dd for dd in alld if dd in arr.dims])
            arr = np.asarray(arr, dtype=float).reshape(
                [sizes[dd] if dd in inst.data[name].dims else 1
                 for dd in alld])
            return np.broadcast_to(arr, shape)

        want = ['mlat_' + bname, 'mlt_' + bname, 'r_corr_' + bname]
        want += ['{:s}_{:s}'.format(ss[0], bname) for ss in scal]
        vnames = {}
        for vv in vecs:
            for oo in OUTS:
                opts = ['{:s}_{:s}_{:s}'.format(vv[0], bname, oo)]
                if bname == 'ocb' and oo.endswith('_r'):
                    opts.append('{:s}_{:s}'.format(vv[0], oo))
                opts = [nn for nn in opts if nn in new] or opts
                vnames[vv[0], oo] = opts[0]
                want.append(opts[0])
        # EAB and dual vectors are named for the boundary
        ev.update({'k': 'add', 'exc': exc or '', 'same': bool(same),
                   'added': len(new) > 0, 'all': sorted(new) == sorted(want),
                   'meta': True, 'tol': tol, 't0': 0, 'conv': conv,
                   'rows': [tt - t0 for tt in times], 'scal': [], 'vecs': [],
                   'out': {}, 'lay': lay})
        for rec in ev['recs'] + ev['erecs']:
            rec['t'] -= t0
        row = np.broadcast_to(np.arange(1, ntime + 1).reshape(
            [ntime] + [1] * (len(shape) - 1)), shape)
        ev['row'] = [int(rr) for rr in row.flatten()]
        lat, lt = common('mlat').flatten(), common('mlt').flatten()
        ev['lat'], ev['lt'] = fw.Rs(lat), fw.Rs(lt)
        ev['pglat'] = ev['pglt'] = [0, 0]
        mlat, mlt = list(lat), list(lt)
        if conv:
            code = 'ALLOWTRACE' + ('|GEOCENTRIC' if loc == 'geocentric'
                                   else '')
            hts = common('alt').flatten() if heights is None \
                else [heights] * len(lat)
            for i in range(len(lat)):
                out = aacgmv2.get_aacgm_coord(
                    lat[i], (lt[i] - slt(0.0, time)) * 15.0, hts[i], time,
                    code) if np.isfinite(lat[i] + lt[i]) else [NAN] * 3
                mlat[i], mlt[i] = float(out[0]), float(out[2])
            out = aacgmv2.convert_latlon(hemi * 90.0, 0.0, hts[0], time,
                                         code + '|A2G')
            ev['pglat'], ev['pglt'] = fw.R(out[0]), fw.R(slt(out[1], time))
        ev['mlat'], ev['mmlt'] = fw.Rs(mlat), fw.Rs(mlt)
        if ev['all']:
            def out(name, more=()):
                return fw.Rs(common(name, True, more).flatten())
            ev['out'] = {'lat': out(want[0]), 'mlt': out(want[1]),
                         'cor': out(want[2])}
            for nn, fun in scal:
                ev['scal'].append({
                    'fun': fun, 'v': fw.Rs(common(nn).flatten()),
                    'out': out('{:s}_{:s}'.format(nn, bname), dims[nn])})
            for nn, vv, fun in vecs:
                one = {'fun': fun, 'geo': vec != 'magnetic'}
                for cc in 'nez':
                    one[cc] = fw.Rs(common(vv.get('vect_' + cc)).flatten())
                for oo, kk in zip(OUTS, ['on', 'oe', 'oz', 'omag', 'our',
                                         'osr']):
                    one[kk] = out(vnames[nn, oo], dims['vn'])
                ev['vecs'].append(one)
            labels = inst.meta.labels
            for nn in new:
                ok = nn in inst.meta.data.index
                if ok:
                    mm = inst.meta[nn]
                    fill = mm[labels.fill_val]
                    ok = fill != fill and mm[labels.notes].find(
                        'oundary') > 0
                src = nn[:-len(bname) - 1]
                if ok and src in old:
                    ok = mm[labels.units] == 'u' + src \
                        and mm[labels.name].find(src.upper()) >= 0 \
                        and mm[labels.desc].find('About ' + src) >= 0 \
                        and mm[labels.min_val] == -1.0 \
                        and mm[labels.max_val] == 2.0 \
                        and mm[labels.name].startswith(bname.upper())
                ev['meta'] = bool(ev['meta'] and ok)
            ev['all'] = good[0]
        for path in tobs:
            os.remove(path)
        groups.append([ev])
    return groups


def check_pysat(chk):
    rng = random.Random(chk.seed)
    loops = [dict(ee, seed=i) for i, ee in enumerate(loop_model(chk, 197))]
    chk.notes['behaviours_replayed'] = len(loops)
    loops += [{'seed': rng.randrange(10**9)}
              for i in range(chk.n(2700, 9000))]
    chk.judge('TracePysat', 'JudgePysat', chk.execute(run_pysat, loops))
