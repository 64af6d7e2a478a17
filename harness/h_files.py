"""Drivers for the choice of default files."""
import datetime as dt
import os
import random
import shutil

import fw
from h_records import COLS, write_rows

KNOWN = ['image', 'si12', 'si13', 'wic', 'amp', 'dmsp-ssj']


def copy_package(chk):
    """A copy of the package whose boundary directory may be changed."""
    top = os.path.join(chk.dir, 'ocbpy_copy_{:d}'.format(os.getpid()))
    shutil.copytree(os.path.join(fw.REPO, 'ocbpy'), os.path.join(top, 'ocbpy'),
                    ignore=shutil.ignore_patterns(
                        '__pycache__', 'tests', '*.ocb', '*.eab', '*.csv'))
    return top


def rand_file(rng):
    inst = rng.choice(KNOWN + ['mine', 'Mine', 'other', 'ampere'])
    hemi = rng.choice([1, 1, -1])
    bound = rng.choice(['ocb', 'ocb', 'eab'])
    hname = {1: 'north', -1: 'south'}[hemi]
    days = []
    if inst in KNOWN:
        rest = rng.choice(['circle', 'radii', 'a', 'b', 'v2_out'])
        if inst == 'dmsp-ssj' and rng.random() < 0.5:
            rest = '20101231_20110101_v1.1.2'
    elif rng.random() < 0.2:
        rest = rng.choice(['out', '20010101', '2001_2002', 'x_20010101_y'])
    else:
        first = dt.date(2000, 1, 1) + dt.timedelta(days=rng.randrange(8000))
        last = first + dt.timedelta(days=rng.choice([0, 1, 30, 400]))
        rest = first.strftime('%Y%m%d') + '_' + last.strftime('%Y%m%d')
        rest += rng.choice(['', '_v1', '_a_b'])
        days = [(first - dt.date(2000, 1, 1)).days,
                (last - dt.date(2000, 1, 1)).days]
    ext = bound.upper() if rng.random() < 0.1 else bound
    return {'inst': inst.lower(), 'hemi': hemi, 'bound': bound, 'days': days,
            'name': '{:s}_{:s}_{:s}.{:s}'.format(inst, hname, rest, ext)}


def coverage(ff):
    """Days to choose request times and rows from."""
    if ff['inst'] in ['amp', 'dmsp-ssj']:
        return [3653, 8036]
    if ff['inst'] in KNOWN:
        return [123, 1035]
    return ff['days'] or [400, 500]


def put_rows(path, ff):
    """Write three records into a file that will be loaded."""
    inst = {'amp': 'ampere', 'dmsp-ssj': 'dmsp-ssj'}.get(ff['inst'], 'image')
    rows = []
    for day in [400, 1000, 4000]:
        row = {'t': day * 86400, 'v': {cc: 1.0 for cc in COLS[inst]}}
        row['v'].update({'num_sectors': 9, 'sc': 16, 'soy_frac': 0, 'fom': 5.0})
        rows.append(row)
    write_rows(path, inst, rows)


def run_files(chk, sces):
    top = copy_package(chk)
    ocbpy = fw.import_ocbpy(chk.home, path=top)
    from ocbpy.boundaries import files
    bdir = os.path.join(top, 'ocbpy', 'boundaries')
    assert os.path.samefile(files.get_boundary_directory(), bdir), bdir
    groups = []
    for sce in sces:
        rng = random.Random(sce['seed'])
        made, junk = [], []
        if 'files' in sce:
            flist = [dict(ff) for ff in sce['files']]
            reqs = [sce['q']]
        else:
            flist = {}
            for k in range(rng.randrange(0, 7)):
                ff = rand_file(rng)
                flist[ff['name']] = ff
            flist = [flist[kk] for kk in sorted(flist)]
            reqs = []
            for k in range(4):
                rq = {'hemi': rng.choice([1, 1, -1]),
                      'bound': rng.choice(['ocb', 'ocb', 'ocb', 'eab']),
                      'inst': rng.choice(['', '', '', 'ampere', 'image', 'mine']
                                         + KNOWN), 'start': [], 'end': []}
                if rng.random() < 0.75 and len(flist) > 0:
                    cov = coverage(rng.choice(flist))
                    first = rng.choice([cov[0], cov[1], cov[0] - 1, cov[0] - 40,
                                        (cov[0] + cov[1]) // 2, cov[1] + 1])
                    rq['start'] = [first, rng.choice([0, 0, 1, 86399])]
                    rq['end'] = [first + rng.choice([1, 2, 40, 3000]),
                                 rng.choice([0, 43200])]
                    pick = rng.random()
                    if pick < 0.1:
                        rq['start'] = []
                    elif pick < 0.2:
                        rq['end'] = []
                reqs.append(rq)
            for name in ['notes.txt', 'README_north_20000101_20300101.ocb',
                         'x_north.py.ocb', 'my.ocb', 'image.ocb',
                         'mine_north.ocb', 'mine_east_20000101_20300101.ocb',
                         'image_circle_north.ocb', 'mine-north.eab']:
                if rng.random() < 0.12:
                    junk.append(name)
            if rng.random() < 0.2:
                os.makedirs(os.path.join(bdir, 'image_north_dir.ocb'))
                made.append('image_north_dir.ocb')
        if 'mine_north.ocb' in junk and not any(
                ff['name'] == 'mine_north.ocb' for ff in flist):
            flist.append({'inst': 'mine', 'hemi': 1, 'bound': 'ocb',
                          'days': [], 'name': 'mine_north.ocb'})
            junk.remove('mine_north.ocb')
        flist.sort(key=lambda ff: ff['name'])
        order = flist + [{'name': name, 'inst': 'image'} for name in junk]
        rng.shuffle(order)
        for ff in order:
            put_rows(os.path.join(bdir, ff['name']), ff)
        group = []

        def time(tt):
            return None if len(tt) == 0 else fw.EPOCH + dt.timedelta(
                days=tt[0], seconds=tt[1])

        def where(ev, path):
            ev['name'] = '' if path is None else os.path.basename(path)
            ev['indir'] = path is None or os.path.dirname(path) == bdir

        for rq in reqs:
            ev = {'k': 'default', 'files': flist, 'q': rq}
            args = [time(rq['start']), time(rq['end']), rq['hemi']]
            kwargs = {}
            if rq['inst'] != '' or rng.random() < 0.3:
                kwargs['instrument'] = rq['inst']
            if rq['bound'] != 'ocb' or rng.random() < 0.3:
                kwargs['bound'] = rng.choice([rq['bound']] * 3
                                             + [rq['bound'].upper()])
            res, exc = fw.call(files.get_default_file, *args, **kwargs)
            ev['exc'] = exc or ''
            if exc is None:
                where(ev, res[0])
                ev['inst'] = res[1]
            group.append(ev)
            # The same through the boundary objects
            if rq['inst'] in ['mine', 'other'] or rng.random() < 0.4:
                continue
            cls = ocbpy.OCBoundary if rq['bound'] == 'ocb' \
                else ocbpy.EABoundary
            okw = {'instrument': rq['inst'].upper() if rng.random() < 0.2
                   else rq['inst'], 'hemisphere': rq['hemi'],
                   'stime': args[0], 'etime': args[1]}
            if rng.random() < 0.7:
                okw['filename'] = rng.choice(['default', 'DEFAULT'])
            obj, exc = fw.call(cls, **okw)
            ev = {'k': 'object', 'files': flist, 'q': rq, 'exc': exc or ''}
            if exc is None:
                where(ev, obj.filename)
                ev['inst'] = obj.instrument
                ev['records'] = int(obj.records)
                ev['rows'] = sum(
                    (args[0] is None or args[0] <= fw.at(dd * 86400))
                    and (args[1] is None or args[1] >= fw.at(dd * 86400))
                    for dd in [400, 1000, 4000])
            group.append(ev)
        for bound in ['ocb', 'eab']:
            res, exc = fw.call(files.get_boundary_files, bound)
            ev = {'k': 'list', 'exc': exc or '', 'files': [
                ff for ff in flist if ff['bound'] == bound],
                  'today': (dt.datetime.now() - fw.EPOCH).days}
            if exc is None:
                names = sorted(res)
                ev['names'] = names
                ev['insts'] = [res[nn]['instrument'] for nn in names]
                ev['hemis'] = [res[nn]['hemisphere'] for nn in names]
                ev['days'] = [[(res[nn][kk] - fw.EPOCH).days
                               for kk in ['stime', 'etime']]
                              if 'etime' in res[nn] else []
                              for nn in names]
            group.append(ev)
        for ff in order:
            os.remove(os.path.join(bdir, ff['name']))
        for name in made:
            os.rmdir(os.path.join(bdir, name))
        groups.append(group)
    return groups


def check_default(chk):
    rng = random.Random(chk.seed)
    em = chk.model('MCFiles', 'CONSTANTS MaxFiles = {:d} EmitMod = {:d}\n'
                   'SPECIFICATION Spec\nINVARIANTS ChosenFits NoneOnly '
                   'Irrelevant OwnOnly Generous Emit\nCHECK_DEADLOCK FALSE\n'
                   .format(*chk.n((3, 97), (5, 211))), workers=7)
    sces = [dict(ee, seed=i) for i, ee in enumerate(em)]
    chk.notes['behaviours_replayed'] = len(sces)
    sces += [{'seed': rng.randrange(10**9)} for i in range(chk.n(1800, 8000))]
    chk.judge('TraceFiles', 'JudgeFiles', chk.execute(run_files, sces))
