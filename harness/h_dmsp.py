"""Drivers for fetching and formatting DMSP SSJ boundary files."""
import datetime as dt
import io
import os
import random
import re
import shutil
import sys
import types
import zipfile

import fw
from h_files import copy_package

COLUMNS = ['UTSecond Pass Start', 'UTSecond Pass End', 'hemisphere'] + [
    '{:s} {:s}'.format(aa, bb)
    for aa in ['UTSec'] for bb in ['EQ1', 'PO1', 'PO2', 'EQ2']] + ['FOM'] + [
        '{:s} {:s}'.format(aa, bb)
        for aa in ['SC_GEOCENTRIC_LAT', 'SC_GEOCENTRIC_LON', 'mlat', 'mlt']
        for bb in ['EQ1', 'PO1', 'PO2', 'EQ2']]
CROSS = ['EQ1', 'PO1', 'PO2', 'EQ2']
ZIP = 'ssj_boundaries.zip'


class Interruption(Exception):
    """A download that breaks off."""


def day_date(day):
    return dt.date(2000, 1, 1) + dt.timedelta(days=day)


def csv_name(sat, day):
    return ''.join(['dmsp-f{:d}_ssj_precipitating-electrons-ions_'.format(sat),
                    day_date(day).strftime('%Y%m%d'),
                    '_v1.1.2_boundaries.csv'])


def rand_row(rng, hemi=None):
    """A pass of the satellite over the polar cap."""
    hemi = hemi or rng.choice([1, -1])
    t0 = rng.randrange(0, 84000)
    times, row = [t0], {'hemi': hemi}
    for k in range(3):
        times.append(times[-1] + rng.choice([1, 2, 60, 301, 700]))
    if rng.random() < 0.1:
        times = [tt + 86399 - t0 for tt in times]
    for k, cc in enumerate(CROSS):
        row['UTSec ' + cc] = times[k]
        row['SC_GEOCENTRIC_LAT ' + cc] = hemi * round(rng.uniform(56, 86), 3)
        row['SC_GEOCENTRIC_LON ' + cc] = round(rng.uniform(0, 360), 3)
        row['mlat ' + cc] = hemi * round(rng.uniform(50, 88), 3)
        row['mlt ' + cc] = round(rng.uniform(0, 24), 3)
    row['UTSecond Pass Start'] = max(0, times[0] - 900)
    row['UTSecond Pass End'] = times[3] + 900
    row['hemisphere'] = hemi
    row['FOM'] = rng.choice([1.2, 1.8, 3.0, 3.331, 4.5,
                             round(rng.uniform(1, 6), 3)])
    return row


def rand_member(rng, day=None):
    mem = {'sat': rng.choice([16, 17, 18]), 'bad': False, 'missing': False,
           'day': day or rng.choice([4017, 4018, 4018, 4019, 4100, 5000]),
           'rows': [rand_row(rng) for k in range(rng.choice([0, 1, 2, 3, 5]))]}
    mem['name'] = csv_name(mem['sat'], mem['day'])
    if rng.random() < 0.12:
        mem['bad'] = True
    return mem


def csv_text(mem, rng):
    """The file of one day of a satellite."""
    lines = ['# DMSP SSJ Auroral Boundary Identification',
             '# hemisphere : -1 for southern hemisphere +1 for northern'][
                 :rng.choice([0, 1, 2, 2])]
    cols = list(COLUMNS)
    if rng.random() < 0.3:
        rng.shuffle(cols)
    head = list(cols)
    if mem['bad']:
        if rng.random() < 0.5 or len(mem['rows']) == 0:
            head.append('ind')
        else:
            head = head[:-1]
    lines.append(','.join(head))
    for row in mem['rows']:
        lines.append(','.join(['{:}'.format(row[cc]) for cc in cols]))
    return '\n'.join(lines) + '\n'


def enc_member(mem, alt, method):
    """Encode a file, with the magnetic locations from aacgmv2."""
    import aacgmv2
    import numpy as np
    out = {kk: mem[kk] for kk in ['sat', 'day', 'bad', 'missing', 'name']}
    out['rows'] = []
    for row in mem['rows']:
        enc = {'hemi': row['hemi'], 'fom': fw.R(row['FOM'])}
        for name, pair in [('po', ['PO1', 'PO2']), ('eq', ['EQ1', 'EQ2'])]:
            tt = [row['UTSec ' + cc] for cc in pair]
            when = fw.at(mem['day'] * 86400) + dt.timedelta(
                seconds=0.5 * sum(tt))
            mlat, _, mlt = aacgmv2.get_aacgm_coord_arr(
                np.array([row['SC_GEOCENTRIC_LAT ' + cc] for cc in pair]),
                np.array([row['SC_GEOCENTRIC_LON ' + cc] for cc in pair]),
                alt, when, method=method)
            enc[name] = {'t': tt, 'c': [[fw.R(mlat[k]), fw.R(mlt[k])]
                                        for k in range(2)]}
        out['rows'].append(enc)
    return out


def read_out(ocbpy, path, odir):
    """Encode a written boundary file, and what is loaded from it."""
    out = {'hemi': 0, 'bound': '', 'indir': False, 'sday': 0, 'eday': 0,
           'header': False, 'lines': [], 'loaded': []}
    mat = re.fullmatch(r'dmsp-ssj_(north|south)_(\d{8})_(\d{8})_v1\.1\.2\.'
                       r'(ocb|eab)', os.path.basename(path))
    if mat is None or not os.path.isfile(path):
        return out
    out['hemi'] = 1 if mat.group(1) == 'north' else -1
    out['bound'] = mat.group(4)
    out['indir'] = os.path.abspath(os.path.dirname(path)) == os.path.abspath(
        odir)
    for key, k in [('sday', 2), ('eday', 3)]:
        out[key] = (dt.datetime.strptime(mat.group(k), '%Y%m%d')
                    - fw.EPOCH).days
    with open(path) as fin:
        lines = fin.read().splitlines()
    out['header'] = lines[:1] == ['#sc date time r x y fom x_1 y_1 x_2 y_2']
    for line in lines[1:]:
        part = line.split()
        out['lines'].append({
            'sc': int(part[0]),
            't': fw.S(dt.datetime.strptime(' '.join(part[1:3]),
                                           '%Y-%m-%d %H:%M:%S')),
            'v': [fw.R(float(vv)) for vv in part[3:]]})
    if len(out['lines']) > 0:
        cls = ocbpy.OCBoundary if out['bound'] == 'ocb' else ocbpy.EABoundary
        obj = cls(filename=path, instrument='dmsp-ssj', hemisphere=out['hemi'])
        for k in range(obj.records):
            out['loaded'].append({
                't': fw.S(obj.dtime[k]), 'r': fw.R(obj.r[k]),
                'r_cent': fw.R(obj.r_cent[k]), 'fom': fw.R(obj.fom[k]),
                'phi_cent': fw.R(obj.phi_cent[k])})
    return out


class Zenodo(object):
    """A stand-in for the download."""

    def __init__(self):
        self.calls = 0
        self.members = []
        self.outcome = 'ok'
        self.link = ''

    def get(self, args):
        self.calls += 1
        assert any('zenodo' in aa for aa in args), args
        odir = args[args.index('-o') + 1]
        print('Title: SSJ boundaries')
        if self.outcome == 'raise':
            raise Interruption('broken off')
        if self.outcome not in ['noarchive', 'again']:
            self.make(odir)
        with open(os.path.join(odir, 'md5sums.txt'), 'w') as fout:
            fout.write('0123  {:s}\n'.format(ZIP))
        if self.outcome == 'nozip':
            print('Link: https://zenodo.org/record/3373811/files/ssj.tar '
                  'size: 1 MB')
        elif self.outcome == 'nolink':
            if self.link == 'last':
                sys.stderr.write('Checksum is correct. ')
                print('Link:')
                return
        else:
            print('Link: https://zenodo.org/record/3373811/files/' + ZIP
                  + self.link + '   size: 1 MB')
        if self.outcome == 'badsum':
            print('Checksum is INCORRECT!')
        elif self.outcome == 'again':
            print(ZIP + ' is already downloaded correctly.')
        else:
            sys.stderr.write('Checksum is correct. (0123)\n')

    def make(self, odir):
        with zipfile.ZipFile(os.path.join(odir, ZIP), 'w') as zout:
            for name, text in self.members:
                zout.writestr(name, text)


def contents(odir):
    out = {}
    for name in sorted(os.listdir(odir)):
        with open(os.path.join(odir, name)) as fin:
            try:
                out[name] = fin.read()
            except UnicodeDecodeError:
                out[name] = 'binary'
    return out


def run_dmsp(chk, sces):
    top = copy_package(chk)
    zen = Zenodo()
    fake = types.ModuleType('zenodo_get')
    fake.zenodo_get = zen.get
    sys.modules['zenodo_get'] = fake
    ocbpy = fw.import_ocbpy(chk.home, path=top)
    from ocbpy.boundaries import dmsp_ssj_files as dmsp
    bdir = os.path.join(top, 'ocbpy', 'boundaries')
    base = os.path.join(chk.dir, 'dmsp_{:d}'.format(os.getpid()))
    os.makedirs(base)
    os.chdir(base)
    today = (dt.datetime.utcnow() - fw.EPOCH).days
    groups = []
    for isce, sce in enumerate(sces):
        rng = random.Random(sce['seed'])
        odir = os.path.join(base, rng.choice(['d', 'x-f', 'my-files', 'a_b_c_d',
                                              'dmsp-f16_ssj', 'ssj.zip_d'])
                            + '_{:d}'.format(isce))
        kind = sce.get('kind') or rng.choice(['fetch', 'fetch', 'both',
                                              'format', 'format'])
        own = kind != 'format' and rng.random() < 0.15
        if own:
            odir = bdir
            before = [nn for nn in os.listdir(bdir)]
        else:
            os.makedirs(odir)
        alt, method = 830.0, 'GEOCENTRIC|ALLOWTRACE'
        kwargs = {}
        if kind != 'fetch' and rng.random() < 0.4:
            kwargs['ref_alt'] = alt = rng.choice([110.0, 350.0, 840.0])
        if kind != 'fetch' and rng.random() < 0.3:
            kwargs['method'] = method = rng.choice(['ALLOWTRACE', 'GEOCENTRIC'])
        mems = {}
        for k in range(rng.choice([0, 1, 2, 3, 6])):
            mem = rand_member(rng)
            mems[mem['name']] = mem
        mems = list(mems.values())
        rng.shuffle(mems)
        quest = {'sats': [], 'start': [], 'end': [], 'rm': rng.random() < 0.7,
                 'today': today}
        if 'members' in sce:
            mems = []
            for mm in sce['members']:
                mem = rand_member(rng, mm['day'])
                mem.update({'sat': mm['sat'], 'bad': mm['bad'],
                            'name': csv_name(mm['sat'], mm['day']),
                            'rows': [rand_row(rng, rr['hemi'])
                                     for rr in mm['rows']]})
                mems.append(mem)
            quest.update({kk: sce['q'][kk] for kk in sce['q']
                          if kk != 'today'})
            if kind == 'both':
                quest['sats'] = []
        elif kind != 'format':
            if rng.random() < 0.5 and kind == 'fetch':
                quest['sats'] = [rng.choice([
                    [16], [17, 18], [18, 16], [], [16, 17, 18], [15], [16, 19]])]
            day = rng.choice([4017, 4018, 4019])
            if rng.random() < 0.7:
                quest['start'] = [day, rng.choice([0, 0, 1, 86399])]
            if rng.random() < 0.7:
                quest['end'] = [day + rng.choice([0, 1, 1, 2, 1000]),
                                rng.choice([0, 0, 1])]
        text = {mm['name']: csv_text(mm, rng) for mm in mems}
        old = {'old.txt': 'old'}
        if rng.random() < 0.3:
            old[csv_name(16, 3000)] = 'older\n'
        if not own:
            for name in old:
                with open(os.path.join(odir, name), 'w') as fout:
                    fout.write(old[name])
        ev = {'k': kind, 'members': [enc_member(mm, alt, method)
                                     for mm in mems]}
        if kind == 'format':
            for mm, enc in zip(mems, ev['members']):
                if rng.random() < 0.1:
                    mm['missing'] = enc['missing'] = True
                else:
                    with open(os.path.join(odir, mm['name']), 'w') as fout:
                        fout.write(text[mm['name']])
                    old[mm['name']] = text[mm['name']]
            rel = rng.random() < 0.2
            arg = [os.path.join(os.path.relpath(odir) if rel else odir,
                                mm['name']) for mm in mems]
            if len(arg) == 1 and rng.random() < 0.5:
                arg = arg[0]
            res, exc = fw.call(dmsp.format_ssj_boundary_files, arg, **kwargs)
        else:
            zen.calls = 0
            zen.members = [(mm['name'], text[mm['name']]) for mm in mems]
            zen.outcome = sce.get('outcome') or rng.choice(
                ['ok'] * 6 + ['again', 'badsum', 'raise', 'nolink', 'nozip',
                              'noarchive'])
            zen.link = rng.choice(['', '/content', 'last'])
            if zen.link == 'last' and zen.outcome != 'nolink':
                zen.link = ''
            isdir = own or sce.get('outcome') or rng.random() > 0.05
            if zen.outcome == 'again':
                zen.make(odir)
            before = os.listdir(odir)
            ev.update({'q': quest, 'outcome': zen.outcome, 'zip': ZIP,
                       'isdir': bool(isdir), 'before': sorted(before)})

            def when(tt):
                return None if len(tt) == 0 else fw.at(
                    tt[0] * 86400 + tt[1])

            if not own:
                kwargs['out_dir'] = odir if isdir else odir + '_none'
            if not quest['rm'] or rng.random() < 0.5:
                kwargs['rm_temp'] = quest['rm']
            if len(quest['sats']) > 0:
                kwargs['sat_nums'] = quest['sats'][0]
            fun = (dmsp.fetch_ssj_boundary_files if kind == 'fetch'
                   else dmsp.fetch_format_ssj_boundary_files)
            keep = sys.stdout, sys.stderr
            mine = io.StringIO(), io.StringIO()
            sys.stdout, sys.stderr = mine
            res, exc = fw.call(fun, when(quest['start']), when(quest['end']),
                               **kwargs)
            ev['own'] = sys.stdout is mine[0] and sys.stderr is mine[1]
            sys.stdout, sys.stderr = keep
            ev.update({'downloads': zen.calls,
                       'after': sorted(os.listdir(odir))})
        ev['exc'] = exc or ''
        now = contents(odir) if not own else {}
        ev['kept'] = own or all(now.get(nn) == old[nn] for nn in old)
        ev['files'], ev['outs'] = [], []
        if exc is None:
            ev['files'] = [os.path.basename(ff) for ff in res]
            ev['indir'] = all(os.path.dirname(os.path.abspath(ff))
                              == os.path.abspath(odir)
                              and os.path.isfile(ff) for ff in res)
            if kind != 'fetch':
                ev['outs'] = [read_out(ocbpy, str(ff), odir) for ff in res]
        groups.append([ev])
        if own:
            for name in os.listdir(bdir):
                if name not in before or name == ZIP:
                    os.remove(os.path.join(bdir, name))
        else:
            shutil.rmtree(odir)
    os.chdir('/')
    return groups


CFG = '''SPECIFICATION Spec
CONSTANTS
 MaxMembers = {:d}
 EmitMod = {:d}
INVARIANT StreamsBack
INVARIANT EndsAsSpecified
INVARIANT GotPicked
INVARIANT FailureExtractsNothing
INVARIANT OldKept
INVARIANT NoListing
INVARIANT ArchiveKept
INVARIANT LinesAsSpecified
INVARIANT EveryPass
INVARIANT Narrow
INVARIANT Emit
{:s}CHECK_DEADLOCK FALSE
'''


def check_fetch(chk):
    live = 'PROPERTY Terminates\n' if not chk.quick else ''
    emitted = chk.model('MCDmsp', CFG.format(chk.n(2, 3), chk.n(13, 29), live),
                        heap='8g', workers=6)
    rng = random.Random(chk.seed)
    sces = [dict(sc, kind='both' if sc['both'] else 'fetch',
                 seed=rng.randrange(10**9)) for sc in emitted]
    rng.shuffle(sces)
    sces = sces[:chk.n(1500, 4000)]
    sces += [{'seed': rng.randrange(10**9), 'kind': rng.choice(
        ['fetch', 'both'])} for k in range(chk.n(1500, 6000))]
    groups = chk.execute(run_dmsp, sces)
    chk.judge('TraceDmsp', 'JudgeDmsp', groups)


def check_format(chk):
    emitted = chk.model('MCDmsp', CFG.format(chk.n(2, 3), 10**6, ''),
                        heap='8g', workers=6)
    assert len(emitted) < 100
    rng = random.Random(chk.seed)
    sces = [{'seed': rng.randrange(10**9), 'kind': rng.choice(
        ['format', 'format', 'format', 'both'])}
        for k in range(chk.n(2700, 9000))]
    groups = chk.execute(run_dmsp, sces)
    chk.judge('TraceDmsp', 'JudgeDmsp', groups)
