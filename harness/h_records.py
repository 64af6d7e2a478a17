"""Drivers for loading boundary files and for the record cursor."""
import json
import os
import random

import fw
import mk

COLS = {'image': ['num_sectors', 'phi_cent', 'r_cent', 'r', 'a', 'r_err',
                  'fom'],
        'ampere': ['r', 'x', 'y', 'fom'],
        'dmsp-ssj': ['r', 'x', 'y', 'fom', 'x_1', 'y_1', 'x_2', 'y_2']}


def val(rng, name):
    if name == 'num_sectors':
        return rng.randrange(0, 9)
    pick = rng.random()
    if name in ('x', 'y') and pick < 0.25:
        return rng.choice([0.0, -5.0, 5.0, 1e-3, -1e-3])
    if name == 'phi_cent':
        return rng.choice([0.0, 90.0, 359.99, round(rng.uniform(0, 360), 2)])
    if name == 'fom':
        return rng.choice([0.0, 0.15, 0.1499, 3.0, 2.999, 5.0, 5.001, 6.5,
                           round(rng.uniform(0, 7), 3)])
    return round(rng.uniform(-15.0 if name[0] in 'xy' else 0.1, 25.0), 3)


def row_times(rng, inst, n):
    """Increasing times, in units of the format's resolution."""
    step = 60 if inst == 'ampere' else 1
    start = rng.choice([0, 86400 * 366 - 120, 86400 * 59, 86400 * 59 + 86100,
                        86400 * 365 * 10, rng.randrange(0, 600000000)])
    start -= start % step
    out = [start]
    while len(out) < n:
        out.append(out[-1] + step * rng.choice(
            [1, 2, 5, 60, 120, 1800, 43200, 86400, 86400 * 31]))
    return out[:n]


def load_scenarios(rng, num):
    out = []
    for i in range(num):
        inst = ['image', 'ampere', 'dmsp-ssj'][i % 3]
        nrow = rng.choice([1, 1, 2, 3, 3, 4, 5, 8, 12])
        times = row_times(rng, inst, nrow)
        if rng.random() < 0.1 and nrow > 2:
            k = rng.randrange(nrow - 1)
            times[k], times[k + 1] = times[k + 1], times[k]
        rows = [{'t': tt, 'v': {cc: val(rng, cc) for cc in COLS[inst]}}
                for tt in times]
        if inst == 'dmsp-ssj':
            for row in rows:
                row['v']['sc'] = rng.choice([16, 17, 18])
        if inst == 'image':
            for row in rows:
                row['v']['soy_frac'] = rng.choice([0.0, 0.0, 0.25, -0.25])

        def edge():
            pick = rng.randrange(6)
            base = rng.choice(times)
            return base + [0, 0, 1, -1, 7, -86400][pick]
        win = rng.choice(['none', 's', 'e', 'se', 'se', 'out'])
        sce = {'inst': inst, 'rows': rows, 'hasS': win in ('s', 'se', 'out'),
               'hasE': win in ('e', 'se', 'out')}
        ss, ee = edge(), edge()
        if win == 'se' and ss > ee and rng.random() < 0.8:
            ss, ee = ee, ss
        if win == 'out':
            ss, ee = times[-1] + 10 ** 6, times[-1] + 2 * 10 ** 6
        sce['s'], sce['e'] = ss, ee
        sce['cls'] = rng.choice(['ocb', 'eab'])
        sce['hemi'] = rng.choice([1, -1])
        sce['blat'] = rng.choice([None, 74.0, -74.0, 64.0, 70.5, -68.25, 80.0])
        sce['rfunc'] = rng.choice([None, None, 'circular', 'elliptical',
                                   'harmonic'])
        sce['kw'] = rng.choice([None, {}, {'r_add': 1.5}]) \
            if sce['rfunc'] == 'circular' else None
        sce['first'] = rng.random() < 0.85
        sce['again'] = rng.choice([0, 0, 1, 2]) if sce['first'] else 1
        sce['custom'] = rng.random() < 0.6
        sce['lay'] = custom_layout(rng, inst)
        sce['win'] = [{'hasS': rng.random() < 0.5, 's': edge(),
                       'hasE': rng.random() < 0.5, 'e': edge()}
                      for k in range(2)]
        sce['seed'] = rng.randrange(10**9)
        out.append(sce)
    return out


def write_rows(path, inst, rows):
    with open(path, 'w') as fout:
        if inst == 'dmsp-ssj':
            fout.write('#sc date time r x y fom x_1 y_1 x_2 y_2\n')
        for row in rows:
            time = fw.at(row['t'])
            vals = [repr(row['v'][cc]) for cc in COLS[inst]]
            if inst == 'image':
                soy = (time - time.replace(month=1, day=1, hour=0, minute=0,
                                           second=0)).total_seconds()
                frac = row['v']['soy_frac']
                head = [str(time.year), repr(soy + frac) if frac else
                        str(int(soy))]
            elif inst == 'ampere':
                head = [time.strftime('%Y%m%d'), time.strftime('%H:%M')]
            else:
                head = [str(row['v']['sc']), time.strftime('%Y-%m-%d'),
                        time.strftime('%H:%M:%S')]
            fout.write(' '.join(head + vals) + '\n')


def enc_row(inst, row):
    time = fw.at(row['t'])
    out = {'isSoy': inst == 'image', 'y': time.year, 'm': time.month,
           'd': time.day, 'h': time.hour, 'mi': time.minute, 's': time.second,
           'soy': fw.R(0)}
    if inst == 'image':
        soy = (time - time.replace(month=1, day=1, hour=0, minute=0,
                                   second=0)).total_seconds()
        out['soy'] = fw.R(soy + row['v']['soy_frac'])
    out['v'] = {cc: fw.R(vv) for cc, vv in row['v'].items()
                if cc != 'soy_frac'}
    return out


def custom_layout(rng, inst):
    """A layout of columns other than those of the instruments."""
    cols = [cc for cc in COLS[inst]]
    if rng.random() < 0.5:
        cols += ['extra', 'b_x'][:rng.randrange(1, 3)]
    soy = rng.random() < 0.5
    cols += ['year', 'soy'] if soy else ['date', 'time']
    rng.shuffle(cols)
    return {'cols': cols, 'hlines': rng.choice([0, 0, 1, 3]),
            'fmt': '' if soy else rng.choice(
                ['', '%Y-%m-%d %H:%M:%S', '%Y%m%d %H:%M:%S',
                 '%d/%m/%Y %H%M%S', '%Y.%j %H:%M:%S'])}


def write_custom(path, lay, rows):
    with open(path, 'w') as fout:
        for k in range(lay['hlines']):
            fout.write('header line {:d}\n'.format(k))
        for row in rows:
            time = fw.at(row['t'])
            soy = int((time - time.replace(month=1, day=1, hour=0, minute=0,
                                           second=0)).total_seconds())
            fmt = (lay['fmt'] or '%Y-%m-%d %H:%M:%S').split()
            vals = {'year': str(time.year), 'soy': str(soy),
                    'date': time.strftime(fmt[0]),
                    'time': time.strftime(fmt[1])}
            fout.write(' '.join([vals[cc] if cc in vals else repr(row['v'][cc])
                                 for cc in lay['cols']]) + '\n')


def load_event(sce, obj, exc, rows, win, rfunc, kw, hlines=None):
    import numpy as np
    cols = {cc: cc for cc in COLS[sce['inst']]}
    if sce['inst'] == 'dmsp-ssj' and hlines is None:
        cols['sc'] = 'sc'
    if hlines is not None:
        cols = {cc: cc for cc in sce['lay']['cols']
                if cc not in ['year', 'soy', 'date', 'time']}
    ev = {'k': 'load', 'inst': sce['inst'], 'hemi': sce['hemi'],
          'blat': fw.R(sce['blat'] if sce['blat'] is not None else
                       (74.0 if sce['cls'] == 'ocb' else 64.0)),
          'rows': rows, 'w': {kk: win[kk] for kk in ['hasS', 's', 'hasE',
                                                     'e']},
          'isXY': sce['inst'] != 'image', 'cols': cols, 'rf': rfunc,
          'kw': json.dumps(kw or {}), 'exc': exc or '', 'out': {}}
    if exc is None:
        names = list(cols) + ['r_cent', 'phi_cent']
        ev['out'] = {
            'records': int(obj.records), 't': [fw.T(t) for t in obj.dtime],
            'rec_ind': int(obj.rec_ind), 'blat': fw.R(obj.boundary_lat),
            'minFom': fw.R(obj.min_fom), 'maxFom': fw.R(obj.max_fom),
            'v': {nn: fw.Rs(getattr(obj, nn)) for nn in names
                  if getattr(obj, nn, None) is not None},
            'rfn': [rf.__name__ for rf in np.asarray(obj.rfunc)],
            'rkw': [json.dumps(kw) for kw in
                    np.asarray(obj.rfunc_kwargs)]}
    return ev


def times_of(win):
    out = {}
    if win['hasS']:
        out['stime'] = fw.at(win['s'])
    if win['hasE']:
        out['etime'] = fw.at(win['e'])
    return out


def run_load(chk, sces):
    ocbpy = fw.import_ocbpy(chk.home)
    from ocbpy import ocb_correction
    events = []
    for i, sce in enumerate(sces):
        rng = random.Random(sce['seed'])
        path = os.path.join(chk.dir, 'load_{:d}.{:s}'.format(i, sce['cls']))
        write_rows(path, sce['inst'], sce['rows'])
        cls = ocbpy.OCBoundary if sce['cls'] == 'ocb' else ocbpy.EABoundary
        kwargs = {'instrument': sce['inst'], 'hemisphere': sce['hemi']}
        if sce['blat'] is not None:
            kwargs['boundary_lat'] = sce['blat']
        if sce['rfunc'] is not None:
            kwargs['rfunc'] = getattr(ocb_correction, sce['rfunc'])
        if sce['kw'] is not None:
            kwargs['rfunc_kwargs'] = dict(sce['kw'])
        rfunc = sce['rfunc'] or ('elliptical' if sce['cls'] == 'ocb' and sce[
            'inst'] == 'ampere' else 'circular')
        group = []
        if sce['first']:
            obj, exc = fw.call(cls, path, **kwargs, **times_of(sce))
            group.append(load_event(sce, obj, exc, [
                enc_row(sce['inst'], row) for row in sce['rows']], sce, rfunc,
                sce['kw']))
        else:
            # The name of the file is given to an empty object
            obj, exc = fw.call(cls, None, **kwargs)
        os.remove(path)
        events.append(group)
        for k in range(sce['again']):
            if exc is not None:
                break
            win = dict(sce['win'][k])
            rows = [dict(row, v=dict(row['v'], extra=float(j), b_x=2.5 * j))
                    for j, row in enumerate(sce['rows'])]
            # Other values than before
            for row in rows:
                row['v']['r'] += 0.25 * (k + 1)
            obj.filename = path
            if sce['custom']:
                write_custom(path, sce['lay'], rows)
                load = {'hlines': sce['lay']['hlines'],
                        'ocb_cols': ' '.join(sce['lay']['cols'])}
                if sce['lay']['fmt'] != '' or rng.random() < 0.3:
                    load['datetime_fmt'] = sce['lay']['fmt']
                for row in rows:
                    row['v']['soy_frac'] = 0.0
            else:
                write_rows(path, sce['inst'], rows)
                load = dict(zip(['hlines', 'ocb_cols', 'datetime_fmt'],
                                obj.inst_defaults()))
            if sce['first'] or k > 0:
                # The correction of the records to load
                obj.rfunc = getattr(ocb_correction, rfunc)
                obj.rfunc_kwargs = dict(sce['kw'] or {})
            _, exc = fw.call(obj.load, **load, **times_of(win))
            os.remove(path)
            group.append(load_event(sce, obj, exc, [
                enc_row(sce['inst'], row) for row in rows], win, rfunc,
                sce['kw'], load['hlines'] if sce['custom'] else None))
    return events


def check_load(chk):
    rng = random.Random(chk.seed)
    chk.model('MCWindow', 'CONSTANTS MaxRows = {:d}\nSPECIFICATION Spec\n'
              'INVARIANTS LoadedIsWindow LoadedInOrder NothingElse\n'
              'CHECK_DEADLOCK FALSE\n'.format(chk.n(4, 5)))
    sces = load_scenarios(rng, chk.n(4500, 20000))
    chk.judge('TraceRecords', 'JudgeLoad', chk.execute(run_load, sces))


# -- cursor -------------------------------------------------------------------

CRITS = ['min', 'mineq', 'equal', 'maxeq', 'max']


def enc_q(q):
    return {'hasMin': q['hasMin'], 'min': fw.R(q['min']),
            'hasMax': q['hasMax'], 'max': fw.R(q['max']),
            'crit': [{'attr': cc['attr'], 'rel': cc['rel'],
                      'v': fw.R(cc['v'])} for cc in q['crit']]}


def rand_q(rng, inst):
    crit = []
    # Criteria on values the format has, and on one that no record has
    names = [cc for cc in COLS[inst] if cc != 'fom'] + ['missing']
    for attr in rng.sample(names, rng.choice([0, 0, 1, 1, 2, 3])):
        crit.append({'attr': attr, 'rel': rng.choice(CRITS),
                     'v': rng.choice([1, 2, 3, 4])})
    return {'hasMin': rng.random() < 0.5, 'min': rng.choice([0, 1, 2, 3, 4]),
            'hasMax': rng.random() < 0.5, 'max': rng.choice([2, 3, 4, 5, 6]),
            'crit': crit}


def cycle_scenarios(rng, num):
    out = []
    for i in range(num):
        inst = rng.choice(['image', 'ampere', 'dmsp-ssj'])
        recs = [{'fom': rng.choice([0, 1, 2, 3, 4, 5, 6]),
                 'r': rng.choice([1, 2, 3, 4]), 'a': rng.choice([1, 2, 3]),
                 'num_sectors': rng.choice([1, 2, 3, 4]),
                 'phi_cent': rng.choice([1, 2, 3]),
                 'x': rng.choice([1, 2, 3]), 'y_2': rng.choice([1, 2, 3])}
                for k in range(rng.choice([0, 1, 2, 3, 5, 9]))]
        qs = [rand_q(rng, inst) for k in range(rng.choice([1, 1, 2]))]
        ops = []
        for k in range(rng.randrange(1, 14)):
            op = rng.choice(['next', 'next', 'next', 'all', 'set'])
            ops.append([op, rng.randrange(-1, len(recs) + 2),
                        rng.choice(qs)])
        out.append({'inst': inst, 'recs': recs, 'ops': ops})
    return out


def run_cycle(chk, sces):
    ocbpy = fw.import_ocbpy(chk.home)
    make = mk.Maker(chk, ocbpy)
    groups = []
    for sce in sces:
        recs = []
        for k, rec in enumerate(sce['recs']):
            full = {'t': 1000 + 60 * k}
            full.update(rec)
            recs.append(full)
        # An additional record that is outside of the window allows for files
        # without records in it
        path = make.path('.ocb')
        inst = sce.get('inst', 'image')
        rows = [{'t': rec['t'] * 60, 'v': dict(
            {cc: 1.0 for cc in COLS[inst]},
            **{kk: vv for kk, vv in rec.items() if kk in COLS[inst]})}
            for rec in recs + [{'t': 10 ** 6}]]
        for row in rows:
            row['v']['sc'] = 16
            row['v']['soy_frac'] = 0.0
        write_rows(path, inst, rows)
        obj = ocbpy.OCBoundary(path, instrument=inst, etime=fw.at(10 ** 6 * 60
                                                                  - 1))
        os.remove(path)
        known = [cc for cc in COLS[inst]]
        group = [{'k': 'file', 'inst': inst, 'cur': int(obj.rec_ind),
                  'recs': [{cc: fw.R(row['v'][cc]) for cc in known}
                           for row in rows[:-1]]}]
        for name, ind, q in sce['ops']:
            kwargs = {cc['attr']: (cc['rel'], cc['v']) for cc in q['crit']}
            if q['hasMin']:
                kwargs['min_merit'] = q['min']
            if q['hasMax']:
                kwargs['max_merit'] = q['max']
            # Only attributes of the file's format are criteria that apply
            eq = enc_q(q)
            if name == 'set':
                obj.rec_ind = ind
                group.append({'k': 'set', 'i': ind, 'cur': int(obj.rec_ind)})
            elif name == 'next':
                # The cursor moves from wherever it is
                if obj.rec_ind > obj.records + 3:
                    continue
                _, exc = fw.call(obj.get_next_good_ocb_ind, **kwargs)
                group.append({'k': 'next', 'q': eq, 'cur': int(obj.rec_ind),
                              'exc': exc or ''})
            else:
                res, exc = fw.call(
                    ocbpy.cycle_boundary.retrieve_all_good_indices, obj,
                    **kwargs)
                group.append({'k': 'all', 'q': eq, 'cur': int(obj.rec_ind),
                              'list': [int(ii) for ii in res or []],
                              'fom': fw.Rs(obj.fom), 'exc': exc or ''})
        groups.append(group)
    return groups


def check_cycle(chk):
    rng = random.Random(chk.seed)
    em = chk.model('MCCycle', 'CONSTANTS MaxRecs = 3 MaxOps = {:d} EmitMod = '
                   '{:d}\nSPECIFICATION Spec\nINVARIANTS ScanIsNext '
                   'NoneSkipped ListIsAll ListKeepsCursor Emit\n'
                   'CHECK_DEADLOCK FALSE\n'.format(*chk.n((3, 53), (3, 5))))
    # Behaviours of the specification: the quality limit of IMAGE is 5 where
    # the model uses 4, so the model's figures of merit are mapped
    sces = []
    for hist in em:
        q = dict(hist['q'])
        q['crit'] = [dict(cc) for cc in q['crit']]
        sces.append({'inst': 'image',
                     'recs': [{'fom': rec['fom'] if rec['fom'] < 4 else 6,
                               'r': rec['r']} for rec in hist['recs']],
                     'ops': [[op, ind, q] for op, ind in hist['ops']]})
    chk.notes['behaviours_replayed'] = len(sces)
    sces += cycle_scenarios(rng, chk.n(7500, 40000))
    chk.judge('TraceRecords', 'JudgeCycle', chk.execute(run_cycle, sces),
              start='NoFile')
