"""Drivers for representations and summaries of objects."""
import datetime as dt
import os
import random
import re

import fw
import mk
from h_records import COLS, row_times, val, write_rows
from h_vec import make_bound, shaped, vector_data

TIME = r'(\d{4}-\d{2}-\d{2} \d{2}:\d{2}:\d{2})'


def sec(text):
    return fw.S(dt.datetime.strptime(text, '%Y-%m-%d %H:%M:%S'))


def evaluate(ocbpy, text):
    """Evaluate a representation as a user of the interface would."""
    import numpy
    names = {'ocbpy': ocbpy, 'numpy': numpy, 'datetime': dt,
             'nan': numpy.nan, 'inf': numpy.inf}
    return fw.call(eval, text, names)


def nums(obj, names):
    return {nn: fw.Rs(getattr(obj, nn)) for nn in names
            if getattr(obj, nn, None) is not None}


def state(obj):
    """Everything that a boundary knows about its records."""
    import numpy as np
    times = [] if obj.dtime is None else [fw.S(t) for t in obj.dtime]
    skip = ['dtime', 'rfunc', 'rfunc_kwargs', 'rec_ind']
    names = [nn for nn, vv in sorted(vars(obj).items())
             if nn not in skip and nn[0] != '_' and vv is not None
             and np.asarray(vv).dtype.kind in 'if']
    funcs = [] if obj.rfunc is None else [
        '{:s}.{:s}{!r}'.format(ff.__module__, ff.__name__, 
            sorted(kw.items()) if isinstance(kw, dict) else [])
        for ff, kw in zip(np.atleast_1d(obj.rfunc),
                          np.atleast_1d(obj.rfunc_kwargs))]
    return {'names': [type(obj).__name__, str(obj.filename),
                      str(obj.instrument)] + funcs,
            't': times, 'v': nums(obj, names)}


def read_bound(text):
    """What a summary of a boundary says."""
    out = {'n': 0, 'first': 0, 'last': 0, 'rows': [], 'funcs': []}
    for line in text.split('\n'):
        got = re.match(r'^(\d+) records from {0} to {0}$'.format(TIME), line)
        if got:
            out['n'] = int(got.group(1))
            out['first'], out['last'] = sec(got.group(2)), sec(got.group(3))
        got = re.match(r'^{:s} (\S+) (\S+) (\S+)$'.format(TIME), line)
        if got:
            out['rows'].append({'t': sec(got.group(1)),
                                'phi': fw.R(got.group(2)),
                                'rc': fw.R(got.group(3)),
                                'r': fw.R(got.group(4))})
        got = re.match(r'^(ocbpy\S+\(\*\*.*\))$', line)
        if got:
            out['funcs'].append(got.group(1))
    return out


def random_bound(ocbpy, rng, path, sce):
    """Arguments of a boundary; the file stays."""
    import numpy as np
    from ocbpy import ocb_correction as oc
    inst = rng.choice(['image', 'ampere', 'dmsp-ssj'])
    if 'file' in sce:
        step = 60 if inst == 'ampere' else 1
        base = 86400 * rng.randrange(365, 4000)
        times = [base + step * tt for tt in sce['file']]
        win = {'hasS': sce['w']['hasS'], 's': base + step * sce['w']['s'],
               'hasE': sce['w']['hasE'], 'e': base + step * sce['w']['e']}
    else:
        times = row_times(rng, inst, rng.choice([1, 2, 3, 4, 5, 6, 9]))
        edge = [rng.choice(times) + rng.choice([0, 0, 1, -1, 9])
                for k in range(2)]
        win = {'hasS': rng.random() < 0.3, 's': min(edge),
               'hasE': rng.random() < 0.3, 'e': max(edge)}
    for key, has in [('s', 'hasS'), ('e', 'hasE')]:
        win[key] = win[key] if win[has] else 0
    rows = [{'t': tt, 'v': {cc: val(rng, cc) for cc in COLS[inst]}}
            for tt in times]
    for row in rows:
        row['v']['sc'] = 16
        row['v']['soy_frac'] = 0.0
    cls = rng.choice([ocbpy.OCBoundary, ocbpy.EABoundary])
    path += '.ocb' if cls is ocbpy.OCBoundary else '.eab'
    write_rows(path, inst, rows)
    kwargs = {'instrument': inst, 'hemisphere': rng.choice([1, -1])}
    if rng.random() < 0.6:
        kwargs['boundary_lat'] = rng.choice([74.0, -74.0, 70.25, 65, -68.125])
    if win['hasS']:
        kwargs['stime'] = fw.at(win['s'])
    if win['hasE']:
        kwargs['etime'] = fw.at(win['e'])
    num = len([tt for tt in times if (not win['hasS'] or tt >= win['s'])
               and (not win['hasE'] or tt <= win['e'])])
    pick = rng.random()
    funcs = [(oc.circular, {}), (oc.circular, {'r_add': 1.5}),
             (oc.circular, {'r_add': -0.1}),
             (oc.elliptical, {'method': 'gaussian'}),
             (oc.harmonic, {}), (oc.harmonic, {'instrument': 'wic',
                                               'method': 'ocb'})]
    if pick < 0.4:
        func = rng.choice(funcs)
        kwargs['rfunc'] = func[0]
        if func[1] or rng.random() < 0.5:
            kwargs['rfunc_kwargs'] = func[1]
    elif pick < 0.7 and num > 0:
        func = [rng.choice(funcs) for k in range(num)]
        kwargs['rfunc'] = np.array([ff[0] for ff in func], dtype=object)
        kwargs['rfunc_kwargs'] = np.array([ff[1] for ff in func], dtype=object)
    return cls, path, kwargs, times, win


def run_bound(chk, sces):
    ocbpy = fw.import_ocbpy(chk.home)
    import numpy as np
    groups = []
    for i, sce in enumerate(sces):
        rng = random.Random(sce['seed'])
        cls, path, kwargs, times, win = random_bound(
            ocbpy, rng, os.path.join(chk.dir, 'r{:d}_{:d}'.format(
                os.getpid(), i)), sce)
        obj, exc = fw.call(cls, path, **kwargs)
        ev = {'k': 'bound', 'rows': times, 'w': win, 'exc': exc or ''}
        if exc is None:
            if obj.records > 0:
                obj.rec_ind = rng.choice([-1, 0, obj.records - 1])
            ev['was'] = state(obj)
            text, exc = fw.call(repr, obj)
            ev['exc'] = exc or ''
        if exc is None:
            back, exc = evaluate(ocbpy, text)
            ev['evalExc'], ev['again'], ev['now'] = exc or '', False, {}
            ev['period'] = {'hasS': False, 's': 0, 'hasE': False, 'e': 0}
            for key, has in [('s', 'hasS'), ('e', 'hasE')]:
                got = re.search(r'\b{:s}time=(datetime\.datetime\([^)]*\))'
                                .format(key), text)
                if got:
                    ev['period'][has] = True
                    ev['period'][key] = fw.S(eval(got.group(1),
                                                  {'datetime': dt}))
            if exc is None:
                ev['now'] = state(back)
                ev['again'] = repr(back) == text and repr(obj) == text
            text, exc = fw.call(str, obj)
            ev['strExc'] = exc or ''
            ev['said'] = read_bound(text or '')
            ev['funcs'] = sorted(set(
                '{:s}.{:s}(**{!s})'.format(ff.__module__, ff.__name__, kw)
                for ff, kw in zip(np.atleast_1d(obj.rfunc),
                                  np.atleast_1d(obj.rfunc_kwargs)))) \
                if obj.records > 0 else []
        os.remove(path)
        groups.append([ev])
    return groups


def run_dual(chk, sces):
    ocbpy = fw.import_ocbpy(chk.home)
    groups = []
    for i, sce in enumerate(sces):
        rng = random.Random(sce['seed'])
        t0 = rng.randrange(86400 * 365, 86400 * 4000)
        base, paths = os.path.join(chk.dir, 'd{:d}_{:d}'.format(
            os.getpid(), i)), []
        hemi = rng.choice([1, -1])
        bounds = []
        for cls, suf in [(ocbpy.OCBoundary, '.ocb'), (ocbpy.EABoundary,
                                                      '.eab')]:
            tt = t0 + rng.choice([0, 0, 30, 61, 10**6])
            recs = []
            for k in range(rng.choice([0, 1, 3, 6])):
                recs.append({'t': tt, 'r': rng.uniform(8, 20),
                             'r_cent': rng.uniform(0, 6),
                             'phi_cent': rng.uniform(0, 360),
                             'num_sectors': rng.choice([4, 12]),
                             'r_err': rng.uniform(0.1, 2),
                             'fom': rng.choice([1.0, 4.5, 5.5])})
                tt += rng.choice([30, 60, 60, 120, 600])
            paths.append(mk.write_image(base + suf, recs))
            bounds.append(cls(paths[-1], instrument='image', hemisphere=hemi))
        delta = rng.choice([0, 30, 60, 600])
        obj, exc = fw.call(ocbpy.DualBoundary, ocb=bounds[0], eab=bounds[1],
                           max_delta=delta)
        ev = {'k': 'dual', 'exc': exc or ''}

        def both(dual):
            out = {'names': [str(dual.max_delta)], 'v': nums(
                dual, ['ocb_ind', 'eab_ind', 'max_delta', 'hemisphere',
                       'records']),
                't': [] if dual.dtime is None else [
                       fw.S(t) for t in dual.dtime]}
            for name in ['ocb', 'eab']:
                part = state(getattr(dual, name))
                out['names'] += part['names'] + [str(tt) for tt in part['t']]
                out['v'].update({name + kk: vv
                                 for kk, vv in part['v'].items()})
            return out
        if exc is None:
            ev['was'] = both(obj)
            text, exc = fw.call(repr, obj)
            ev['exc'] = exc or ''
        if exc is None:
            back, exc = evaluate(ocbpy, text)
            ev['evalExc'], ev['again'], ev['now'] = exc or '', False, {}
            if exc is None:
                ev['now'] = both(back)
                ev['again'] = repr(back) == text
            text, exc = fw.call(str, obj)
            ev['strExc'], ev['said'] = exc or '', {'n': 0, 'first': 0,
                                                   'last': 0}
            got = re.search(r'^(\d+) good boundary pairs from {0} to {0}$'
                            .format(TIME), text or '', re.M)
            if got:
                ev['said'] = {'n': int(got.group(1)),
                              'first': sec(got.group(2)),
                              'last': sec(got.group(3))}
            elif not re.search(r'^0 good boundary pairs$', text or '', re.M):
                ev['said']['n'] = -1
        for path in paths:
            os.remove(path)
        groups.append([ev])
    return groups


FIELDS = ['dat_ind', 'ocb_ind', 'lat', 'lt', 'height', 'ocb_lat', 'ocb_mlt',
          'r_corr', 'vect_n', 'vect_e', 'vect_z', 'vect_mag']
RESULT = FIELDS + ['ocb_mag', 'ocb_n', 'ocb_e', 'ocb_z']


def vec_state(vdata, names=RESULT):
    func = vdata.scale_func
    return {'names': [str(vdata.loc_coord), str(vdata.vect_coord),
                      str(vdata.dat_name), str(vdata.dat_units),
                      'None' if func is None else func.__name__],
            't': [], 'v': nums(vdata, names)}


def read_vector(text):
    """What a summary of vector data says."""
    out = {'loc': [], 'val': [], 'func': ''}
    part = None
    for line in text.split('\n'):
        if line.startswith('Locations:'):
            part = 'loc'
        elif line.strip().startswith('Value:'):
            part = 'val'
        got = re.match(r'^ *(?!Locations)(\w+): \[(.*)\]$', line)
        if got and part == 'loc':
            vals = [vv.strip() for vv in got.group(2).split(',')]
            if got.group(1) == 'OCB':
                xval, ind = vals[:2], vals[3:]
            else:
                xval, ind = vals[:3], vals[3:]
            out['loc'].append({'who': got.group(1),
                               'x': [fw.R(vv) for vv in xval],
                               'ind': int(ind[0]) if ind else -1})
        got = re.match(r'^ *(?!Value)(\w+): (\S+) \[(.*)\] ?(\d*)$', line)
        if got and part == 'val':
            out['val'].append({'who': got.group(1), 'x': [
                fw.R(vv) for vv in [got.group(2)] + got.group(3).split(',')],
                'ind': int(got.group(4)) if got.group(4) else -1})
        if line.startswith('Scaling function: '):
            out['func'] = line[len('Scaling function: '):]
    return out


def run_vector(chk, sces):
    ocbpy = fw.import_ocbpy(chk.home)
    from ocbpy import ocb_scaling
    make = mk.Maker(chk, ocbpy)
    groups = []
    for sce in sces:
        rng = random.Random(sce['seed'])
        bnd, recs, hemi = make_bound(ocbpy, make, rng, sce)[:3]
        loc = rng.choice(['magnetic'] * 5 + ['geodetic', 'geocentric'])
        inp = vector_data(rng, hemi, len(recs),
                          ['ss', 'as', 'aa', 'sa'] if loc == 'magnetic'
                          else ['ss', 'as', 'aa'])
        if loc != 'magnetic':
            inp['lat'] = [ll if abs(ll) > 40 else hemi * 71.5
                          for ll in inp['lat']]
        kind = inp['kind']
        big = rng.random() < 0.02 and kind == 'as' and loc == 'magnetic'
        if big:
            # More than numpy would print
            for key in ['lat', 'lt', 'n', 'e', 'z']:
                inp[key] = [inp[key][0] + rng.random() * 0.01
                            for k in range(1200)]
            inp['dnum'] = 1200
        vkind = 's' if rng.random() < 0.15 else kind[0]
        kwargs = {'vect_' + kk: shaped(inp[kk], vkind)
                  for kk in ['n', 'e', 'z']}
        if rng.random() < 0.2:
            del kwargs[rng.choice(['vect_n', 'vect_e', 'vect_z'])]
        if rng.random() < 0.5:
            kwargs.update(dat_name=rng.choice(["E", "an array's", 'nan']),
                          dat_units='m/s')
        if rng.random() < 0.5:
            kwargs['scale_func'] = rng.choice([
                ocb_scaling.normal_evar, ocb_scaling.normal_curl_evar])
        if rng.random() < 0.3:
            kwargs['height'] = rng.choice([110.0, 350.0, 400])
        if kind[0] == 'a' and rng.random() < 0.3:
            kwargs['height'] = shaped([rng.choice([110.0, 250.5, 400.0])
                                       for k in range(inp['dnum'])], 'a')
        if loc != 'magnetic':
            kwargs.update(loc_coord=loc, vect_coord=loc)
        vec, exc = fw.call(
            ocb_scaling.VectorData, shaped(list(range(inp['dnum'])), kind[0]),
            shaped(inp['ocb_ind'], kind[1]), shaped(inp['lat'], kind[0]),
            shaped(inp['lt'], kind[0]), **kwargs)
        ev = {'k': 'vector', 'exc': exc or '', 'func': kwargs['scale_func'].__name__
              if 'scale_func' in kwargs else '',
              'dnum': 0 if kind[0] == 's' else inp['dnum'],
              'onum': 0 if kind[1] == 's' else inp['onum']}
        after = rng.random() < 0.4
        if exc is None and after:
            exc = fw.call(vec.set_ocb, bnd)[1]
            ev['exc'] = exc or ''
        if exc is None:
            ev['was'] = vec_state(vec)
            ev['named'] = vec_state(vec, FIELDS)
            text, exc = fw.call(repr, vec)
            ev['exc'] = exc or ''
        if exc is None:
            back, exc = evaluate(ocbpy, text)
            ev['evalExc'], ev['again'] = exc or '', False
            ev['now'], ev['res2'] = {}, {}
            said, exc = fw.call(str, vec)
            ev['strExc'], ev['said'] = exc or '', read_vector(said or '')
            exc = fw.call(vec.set_ocb, bnd)[1]
            if exc is not None:
                ev['exc'] = exc
            ev['res'] = vec_state(vec)
            said, exc = fw.call(str, vec)
            ev['strExc'] = ev['strExc'] or exc or ''
            ev['said2'] = read_vector(said or '')
            if ev['evalExc'] == '':
                # The values at the boundary are derived, and not said
                ev['now'] = vec_state(back, FIELDS)
                ev['again'] = repr(back) == text
                exc = fw.call(back.set_ocb, bnd)[1]
                if exc is None:
                    ev['res2'] = vec_state(back)
        groups.append([ev])
    return groups


MODEL = '''SPECIFICATION Spec
CONSTANTS
 MaxRows = {:d}
 Last = {:d}
INVARIANT SameRecords
INVARIANT Summary
INVARIANT AllTold
INVARIANT Emit
PROPERTY Settles
CHECK_DEADLOCK FALSE
'''


def check_describe(chk):
    emitted = chk.model('MCDescribe', MODEL.format(chk.n(5, 6), chk.n(3, 4)))
    rng = random.Random(chk.seed)
    rng.shuffle(emitted)
    sces = [dict(sc, seed=rng.randrange(10**9))
            for sc in emitted[:chk.n(1000, 6000)]]

    def seeds(num):
        return [{'seed': rng.randrange(10**9)} for k in range(num)]
    groups = chk.execute(run_bound, sces + seeds(chk.n(2000, 20000)))
    groups += chk.execute(run_dual, seeds(chk.n(1000, 8000)))
    groups += chk.execute(run_vector, seeds(chk.n(4000, 20000)))
    chk.judge('TraceDescribe', 'JudgeDescribe', groups)
