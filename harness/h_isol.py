"""Drivers for the independence of objects and calls."""
import hashlib
import json
import os
import random
import sys

import fw
import mk
import h_data
from h_geom import rand_mlt
from h_records import COLS, val, write_rows

KINDS = ['ocb', 'eab', 'dual', 'vector', 'vector', 'calls', 'calls']
FILES = ['.ocb', '.eab', '.txt', '.csv', '.vort', '.smag']


def forked(func):
    """What a function returns in a process of its own."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rfd)
            with os.fdopen(wfd, 'w') as fout:
                json.dump(func(), fout)
            code = 0
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
    os.close(wfd)
    with os.fdopen(rfd) as fin:
        text = fin.read()
    code = os.waitpid(pid, 0)[1]
    if code != 0:
        raise SystemError('a schedule ended with {:}'.format(code))
    return json.loads(text)


def show(obj):
    """A text that tells all values of a result."""
    import numpy as np
    if isinstance(obj, np.ndarray):
        if obj.dtype.kind in 'fiub':
            return '{!s}[{:s}]'.format(obj.shape, ','.join(
                '{:.10g}'.format(vv) for vv in obj.flatten()))
        return '{!s}{!r}'.format(obj.shape, [show(vv) for vv in obj.flatten()])
    if isinstance(obj, dict):
        return '{' + ','.join('{!s}:{:s}'.format(kk, show(vv))
                              for kk, vv in obj.items()) + '}'
    if isinstance(obj, (list, tuple)):
        return '[' + ','.join(show(vv) for vv in obj) + ']'
    if callable(obj):
        return obj.__name__
    return repr(obj)


def told(obj):
    """The values of all attributes, also of those kept in the class."""
    import numpy as np
    out = []
    for kk in sorted(set(vars(obj)) | set(vars(type(obj)))):
        if kk.startswith('__') or kk.endswith('boundary_lon'):
            continue
        vv = getattr(obj, kk, None)
        if kk in ('ocb', 'eab'):
            out.append((kk, told(vv)))
        elif vv is None or isinstance(vv, (str, int, float, list, dict,
                                           np.ndarray)):
            out.append((kk, show(vv)))
        elif kk == 'rfunc' or kk in vars(obj):
            out.append((kk, show(vv)))
    return out


class Pool(object):
    """Arguments that all objects share."""

    def __init__(self, base, seed, ocbpy):
        import numpy as np
        from ocbpy import ocb_correction as oc
        rng = random.Random(seed)
        self.ocbpy = ocbpy
        self.hemi = rng.choice([1, -1])
        self.paths = {}
        t0 = rng.randrange(86400 * 400, 86400 * 4000)
        self.t0 = t0
        self.inst = rng.choice(['image', 'image', 'dmsp-ssj'])
        for suf in ['ocb', 'eab']:
            self.paths[suf] = base + '.' + suf
            if not os.path.exists(self.paths[suf]):
                rows = [{'t': t0 + 60 * k, 'v': {cc: val(rng, cc) for cc in
                                                 COLS[self.inst]}}
                        for k in range(5)]
                for row in rows:
                    row['v']['sc'], row['v']['soy_frac'] = 16, 0.0
                    row['v']['fom'] = 4.0 + 0.2 * rng.random()
                    row['v']['r'] = (8.0 if suf == 'ocb' else 15.0) \
                        + rng.random()
                    for key in ['x', 'y', 'r_cent']:
                        row['v'][key] = rng.uniform(0, 3)
                write_rows(self.paths[suf], self.inst, rows)
            else:
                # The same random numbers are drawn in every process
                for k in range(5):
                    for cc in COLS[self.inst]:
                        val(rng, cc)
        rng = random.Random(seed + 1)
        self.text = base + '.txt'
        if not os.path.exists(self.text):
            with open(self.text, 'w') as fout:
                fout.write('# comment\nyear soy n name v\n')
                for k in range(4):
                    fout.write('2005 {:d} {:d} abc {:f}\n'.format(
                        1000 * k, k, rng.uniform(0, 9)))
        rng = random.Random(seed + 2)
        self.base = base
        if not os.path.exists(base + '.csv'):
            with open(base + '.csv', 'w') as fout:
                fout.write('# comment\nyear,soy,n,name,v\n')
                for k in range(4):
                    fout.write('2005, {:d}, {:d}, abc, {:f}\n'.format(
                        1000 * k, k, rng.uniform(0, 9)))
            near = [t0 + 60 * k for k in range(3)]
            places = [[(self.hemi * rng.uniform(60, 85), rng.uniform(0, 24))
                       for k in range(2)] for tt in near]
            h_data.write(rng, base + '.vort', h_data.vort_lines(
                rng, near, places))
            h_data.write(rng, base + '.smag', h_data.smag_lines(
                rng, near, places))
        rng = random.Random(seed + 3)
        num = 4
        self.args = {
            'lats': np.array([self.hemi * rng.uniform(60, 88)
                              for k in range(num)]),
            'mlts': np.array([rand_mlt(rng, False) for k in range(num)]),
            # Local times out of range, one location of the other hemisphere
            'wide': np.array([-3.0, 27.5, -0.25, 30.0]),
            'both': np.array([self.hemi * rng.uniform(-1 if k == 2 else 0.75,
                                                      -0.7 if k == 2 else 0.97)
                              * 90.0 for k in range(num)]),
            'vn': np.array([rng.uniform(-50, 50) for k in range(num)]),
            've': np.array([rng.uniform(-50, 50) for k in range(num)]),
            'vz': np.array([1.0] * num), 'di': np.arange(num),
            'oi': np.array([0, 1, 2, 0]), 'cor': np.array([0.5] * num),
            'kw': {'r_add': 0.25}, 'crit': {'r': ('min', 1.0)},
            'times': [fw.at(t0 + 60 * k + 5) for k in range(6)],
            'gft': {'comments': '#'}, 'cols': [0, 1], 'strs': [3],
            'ints': [2], 'header': ['text', 'year soy n name v'],
            'names': ['year,soy,n,name,v'],
            'gftcsv': {'comments': '#', 'delimiter': ','},
            'plats': np.array([self.hemi * rng.uniform(75, 89)
                               for k in range(num)]),
            'angles': np.array([rng.uniform(5, 170) for k in range(num)]),
            'quads': np.array([rng.choice([1, 2, 3, 4])
                               for k in range(num)])}
        self.args['vquads'] = np.array([
            (1 if ee >= 0 else 2) if nn >= 0 else (4 if ee >= 0 else 3)
            for nn, ee in zip(self.args['vn'], self.args['ve'])])
        self.rfunc = oc.circular
        self.bound = ocbpy.OCBoundary(self.paths['ocb'], instrument=self.inst,
                                      hemisphere=self.hemi)

    def said(self):
        return show(self.args)


class Program(object):
    """The steps of one object, each chosen by its own random numbers."""

    def __init__(self, pool, kind, seed):
        self.pool = pool
        self.kind = kind
        self.rng = random.Random(seed)
        self.obj = None
        self.last = None

    def make(self):
        pool, rng = self.pool, self.rng
        ocbpy, arg = pool.ocbpy, pool.args
        if self.kind in ('ocb', 'eab'):
            cls = ocbpy.OCBoundary if self.kind == 'ocb' else ocbpy.EABoundary
            kwargs = {}
            if rng.random() < 0.5:
                kwargs = {'rfunc': pool.rfunc, 'rfunc_kwargs': arg['kw']}
            if rng.random() < 0.4:
                kwargs['boundary_lat'] = rng.choice([73.0, 70.0, -75.5])
            if rng.random() < 0.3:
                kwargs['stime'] = arg['times'][0]
            return cls(pool.paths[self.kind], instrument=pool.inst,
                       hemisphere=pool.hemi, **kwargs)
        if self.kind == 'dual':
            return ocbpy.DualBoundary(
                ocb_filename=pool.paths['ocb'], ocb_instrument=pool.inst,
                eab_filename=pool.paths['eab'], eab_instrument=pool.inst,
                hemisphere=pool.hemi, max_delta=rng.choice([30, 60, 300]))
        if self.kind == 'vector':
            from ocbpy import ocb_scaling
            return ocb_scaling.VectorData(
                arg['di'], rng.choice([arg['oi'], arg['oi'], 1]), arg['lats'],
                arg['mlts'], vect_n=arg['vn'], vect_e=arg['ve'],
                vect_z=arg['vz'], scale_func=rng.choice(
                    [None, ocb_scaling.normal_evar]))
        return 0

    def step(self):
        if self.obj is None:
            self.obj, exc = fw.call(self.make)
            if exc is not None:
                self.kind = 'none'
                self.obj = 0
                return exc
            return show(self.obj if self.kind == 'calls' else repr(self.obj))
        if self.kind == 'none':
            return ''
        return show(fw.call(getattr(self, 'do_' + self.kind)))

    def scribble(self):
        """Results belong to the caller, who may change them."""
        import numpy as np
        for res in (self.last if isinstance(self.last, tuple) else []):
            if isinstance(res, np.ndarray) and res.dtype.kind == 'f' \
                    and res.flags.writeable:
                res.fill(-1.0)
        self.last = None
        return self.where()

    def where(self):
        return told(self.obj)

    def do_ocb(self):
        from ocbpy import cycle_boundary
        obj, rng, arg = self.obj, self.rng, self.pool.args
        pick = rng.choice(['next', 'ind', 'normal', 'normal', 'revert', 'lat',
                           'lat', 'match', 'fom', 'ref', 'str', 'scribble', 'fun'])
        if pick == 'next':
            obj.get_next_good_ocb_ind(**rng.choice([
                {}, {'min_merit': 4.1}, {'kwargs': arg['crit']}][:2]))
        elif pick == 'ind':
            obj.rec_ind = rng.randrange(5)
        elif pick == 'normal':
            obj.rec_ind = max(obj.rec_ind, 0)
            self.last = obj.normal_coord(
                arg[rng.choice(['lats', 'both'])],
                arg[rng.choice(['mlts', 'wide'])])
            return self.last
        elif pick == 'revert':
            obj.rec_ind = max(obj.rec_ind, 0)
            self.last = obj.revert_coord(arg['lats'], arg['mlts'], arg['cor'])
            return self.last
        elif pick == 'lat':
            obj.get_aacgm_boundary_lat(
                arg[rng.choice(['mlts', 'wide'])],
                rec_ind=rng.choice([None, 0, 1, 2, 3, 4]))
        elif pick == 'match':
            return (cycle_boundary.match_data_ocb(
                obj, arg['times'], idat=rng.randrange(5)), self.where())
        elif pick == 'fom':
            obj.min_fom = rng.choice([4.05, 4.1, 0.0])
        elif pick == 'ref':
            obj.boundary_lat = self.pool.hemi * rng.choice([71.0, 75.0])
        elif pick == 'fun':
            # Each record has its own arguments of its function
            if obj.rfunc_kwargs is not None and len(obj.rfunc_kwargs) > 1:
                obj.rfunc_kwargs[1] = {'r_add': rng.choice([1.0, -1.0])}
        elif pick == 'scribble':
            return self.scribble()
        else:
            return str(obj), repr(obj)
        return self.where()

    do_eab = do_ocb

    def do_dual(self):
        obj, rng, arg = self.obj, self.rng, self.pool.args
        pick = rng.choice(['next', 'ind', 'normal', 'normal', 'revert', 'set',
                           'lats', 'calc', 'str', 'scribble'])
        if pick == 'next':
            obj.get_next_good_ind()
        elif pick == 'ind':
            obj.rec_ind = rng.randrange(3)
        elif pick == 'normal':
            obj.rec_ind = max(obj.rec_ind, 0)
            self.last = obj.normal_coord(
                arg[rng.choice(['lats', 'both'])],
                arg[rng.choice(['mlts', 'wide'])])
            return self.last
        elif pick == 'revert':
            obj.rec_ind = max(obj.rec_ind, 0)
            self.last = obj.revert_coord(arg['lats'], arg['mlts'],
                                         is_ocb=rng.random() < 0.5)
            return self.last
        elif pick == 'set':
            obj.set_good_ind(ocb_min_merit=rng.choice([4.1, None]))
        elif pick == 'lats':
            obj.get_aacgm_boundary_lats(arg[rng.choice(['mlts', 'wide'])])
        elif pick == 'calc':
            obj.rec_ind = max(obj.rec_ind, 0)
            return obj.calc_r(arg['lats'], arg['mlts'], arg['mlts'],
                              arg['cor'])
        elif pick == 'scribble':
            return self.scribble()
        else:
            return str(obj), repr(obj)
        return self.where()

    def do_vector(self):
        from ocbpy import ocb_scaling
        obj, rng = self.obj, self.rng
        pick = rng.choice(['set', 'set', 'ind', 'vect', 'scale', 'str'])
        if pick == 'set':
            obj.set_ocb(self.pool.bound)
        elif pick == 'ind':
            obj.ocb_ind = rng.choice([0, 2, 3])
        elif pick == 'vect':
            obj.vect_n = obj.vect_n * 2.0
        elif pick == 'scale':
            obj.scale_func = rng.choice([None, ocb_scaling.normal_curl_evar])
        else:
            return str(obj), repr(obj)
        return self.where()

    def do_calls(self):
        return getattr(self, self.rng.choice([
            'on_files', 'on_files', 'on_reads', 'on_times', 'on_vectors',
            'on_bounds', 'on_converts']))()

    def own(self, *res):
        """Show results, which the caller may change afterwards."""
        import numpy as np
        out = show(res)
        if self.rng.random() < 0.5:
            for val in res:
                if isinstance(val, np.ndarray) and val.dtype.kind == 'f' \
                        and val.flags.writeable:
                    val.fill(-1.0)
                elif isinstance(val, dict):
                    val.clear()
                elif isinstance(val, list):
                    val.append('more')
        return out

    def on_files(self):
        """Columns of text, split by white space or by a character."""
        from ocbpy.instruments import general
        rng, arg = self.rng, self.pool.args
        kwargs = {}
        if rng.random() < 0.5:
            path, names = self.pool.text, 'header'
            if rng.random() < 0.4:
                kwargs['gft_kwargs'] = arg['gft']
        else:
            path, names = self.pool.base + '.csv', 'names'
            if rng.random() < 0.8:
                kwargs['hsplit'] = ','
            if rng.random() < 0.6:
                kwargs['gft_kwargs'] = arg['gftcsv']
        for opts, part in [({'str_cols': arg['strs']}, 0.9),
                           ({'int_cols': arg['ints']}, 0.4),
                           ({'datetime_cols': arg['cols'],
                             'datetime_fmt': 'YEAR SOY'}, 0.3),
                           ({'max_str_length': 2}, 0.3),
                           ({'header': arg[names]}, 0.2)]:
            if rng.random() < part:
                kwargs.update(opts)
        res = general.load_ascii_data(path, 2, **kwargs)
        return self.own(list(res[0]), res[1])

    def on_reads(self):
        from ocbpy.boundaries import files
        from ocbpy.instruments import supermag, vort
        rng, arg = self.rng, self.pool.args
        pick = rng.choice(['vort', 'smag', 'files', 'default'])
        if pick == 'vort':
            return self.own(vort.load_vorticity_ascii_data(
                self.pool.base + '.vort', save_all=rng.random() < 0.5))
        if pick == 'smag':
            head, data = supermag.load_supermag_ascii_data(
                self.pool.base + '.smag')
            return self.own(head, data)
        if pick == 'files':
            return self.own(files.get_boundary_files(
                bound=rng.choice(['ocb', 'eab'])))
        return show(files.get_default_file(
            *rng.choice([(None, None), (arg['times'][0], arg['times'][1])]),
            rng.choice([1, -1]), rng.choice(['', 'image', 'ampere'])))

    def on_times(self):
        from ocbpy import ocb_time as ot
        rng, arg = self.rng, self.pool.args
        deg = arg['wide'] * 15.0
        res = rng.choice([
            lambda: [ot.year_soy_to_datetime(2005, ss) for ss in [0, 100.5]],
            lambda: [ot.yyddd_to_date(dd) for dd in ['05001', '99365']],
            lambda: [ot.convert_time(yyddd='05021', sod=100.5),
                     ot.convert_time(year=2004, soy=86399),
                     ot.convert_time(date='2005-01-02', tod='10:11:12')],
            lambda: ot.get_datetime_fmt_len('%Y %b %d %H:%M:%S'),
            lambda: ot.hr2deg(arg['wide']), lambda: ot.hr2rad(arg['wide']),
            lambda: ot.deg2hr(deg), lambda: ot.rad2hr(deg),
            lambda: ot.slt2glon(arg['wide'], arg['times'][0]),
            lambda: ot.glon2slt(deg, arg['times'][0]),
            lambda: ot.fix_range(arg['wide'], 0.0, 24.0),
            lambda: ot.fix_range(arg['mlts'], 6.0, 18.0, 12.0),
            lambda: ot.datetime2hr(arg['times'][0])])()
        return self.own(res)

    def on_vectors(self):
        from ocbpy import vectors as vv
        rng, arg = self.rng, self.pool.args
        res = rng.choice([
            lambda: vv.get_pole_loc(arg['wide'] * 10.0, arg['cor']),
            lambda: vv.calc_vec_pole_angle(arg['mlts'], arg['lats'],
                                           arg['mlts'][::-1], arg['plats']),
            lambda: vv.define_pole_quadrants(arg['mlts'], arg['mlts'][::-1],
                                             arg['angles']),
            lambda: vv.define_vect_quadrants(arg['vn'], arg['ve']),
            lambda: vv.calc_dest_polar_angle(arg['quads'], arg['vquads'],
                                             arg['angles'] / 2.0,
                                             arg['angles']),
            lambda: vv.calc_dest_vec_sign(arg['quads'], arg['vquads'],
                                          arg['angles'] / 2.0, arg['angles'],
                                          north=True),
            lambda: vv.adjust_vector(arg['mlts'], arg['lats'], arg['vn'],
                                     arg['ve'], arg['vz'], arg['vquads'],
                                     arg['mlts'][::-1], arg['plats'],
                                     arg['angles'], arg['quads'])])()
        return self.own(*(res if isinstance(res, tuple) else (res,)))

    def on_bounds(self):
        from ocbpy import cycle_boundary, ocb_correction
        rng, arg = self.rng, self.pool.args
        pick = rng.choice(['harmonic', 'ellip', 'circle', 'track', 'good'])
        if pick == 'harmonic':
            res = ocb_correction.harmonic(arg['mlts'], method=rng.choice(
                ['median', 'gaussian']))
        elif pick == 'ellip':
            res = ocb_correction.elliptical(arg['mlts'])
        elif pick == 'circle':
            res = ocb_correction.circular(arg['mlts'], **arg['kw'])
        elif pick == 'track':
            res = cycle_boundary.satellite_track(
                arg['both'], arg['wide'], -9.0, -7.0, 11.0, 8.5,
                self.pool.hemi, del_x=rng.choice([1.0, 6.0]))
        else:
            res = cycle_boundary.retrieve_all_good_indices(
                self.pool.bound, **rng.choice([{}, arg['crit']]))
        return self.own(res)

    def on_converts(self):
        """Write a file with the adaptive coordinates of another one."""
        from ocbpy.instruments import supermag, vort
        rng = self.rng
        out = self.pool.base + '.out'
        kwargs = {'ocbfile': self.pool.paths['ocb'],
                  'instrument': self.pool.inst, 'hemisphere': self.pool.hemi}
        if rng.random() < 0.4:
            kwargs['max_sdiff'] = rng.choice([30, 90])
        if rng.random() < 0.4:
            kwargs['min_merit'] = 4.05
        if rng.random() < 0.5:
            if rng.random() < 0.5:
                kwargs['save_all'] = True
            vort.vort2ascii_ocb(self.pool.base + '.vort', out, **kwargs)
        else:
            supermag.supermag2ascii_ocb(self.pool.base + '.smag', out,
                                        **kwargs)
        if not os.path.exists(out):
            return 'no file'
        with open(out) as fin:
            text = fin.read()
        os.remove(out)
        return text


def digest(text):
    return hashlib.sha256(text.encode()).hexdigest()[:24]


def run_isolation(chk, sces):
    ocbpy = fw.import_ocbpy(chk.home)
    groups = []
    for i, sce in enumerate(sces):
        rng = random.Random(sce['seed'])
        base = os.path.join(chk.dir, 'i{:d}_{:d}'.format(os.getpid(), i))
        num = max(sce['sched'])
        first = rng.choice(KINDS)
        kinds = [first] + [first if rng.random() < 0.5 else rng.choice(KINDS)
                           for k in range(num - 1)]
        seeds = [rng.randrange(10**9) for k in range(num)]
        if rng.random() < 0.3:
            seeds[1] = seeds[0]
        Pool(base, sce['seed'], ocbpy)
        # Repeat every step, for longer programs
        sched = [oo for oo in sce['sched'] for k in range(sce['rep'])]

        def schedule(sched):
            pool = Pool(base, sce['seed'], ocbpy)
            progs = [Program(pool, kk, ss) for kk, ss in zip(kinds, seeds)]
            was = pool.said()
            out = []
            for oo in sched:
                text = progs[oo - 1].step()
                out.append({'k': 'step', 'obj': oo, 'shown': digest(text),
                            'kind': kinds[oo - 1], 'start': text[:200],
                            'kept': pool.said() == was})
            return out
        group = []
        for oo in range(1, num + 1):
            own = forked(lambda: schedule([ss for ss in sched if ss == oo]))
            group.append({'k': 'alone', 'shown': [ev['shown'] for ev in own],
                          'kept': all(ev['kept'] for ev in own)})
        group += forked(lambda: schedule(sched))
        for suf in FILES:
            os.remove(base + suf)
        groups.append(group)
    return groups


MODEL = '''SPECIFICATION Spec
CONSTANTS
 Objs = {:d}
 Steps = {:d}
INVARIANT Alone
INVARIANT ArgKept
INVARIANT NotShared
INVARIANT Emit
CHECK_DEADLOCK FALSE
'''


def check_isolation(chk):
    emitted = chk.model('MCIsolation', MODEL.format(2, chk.n(4, 5)))
    emitted += chk.model('MCIsolation', MODEL.format(3, chk.n(2, 3)))
    rng = random.Random(chk.seed)
    out = []
    for sc in emitted * chk.n(6, 12):
        out.append(dict(sc, seed=rng.randrange(10**9),
                        rep=rng.choice([1, 1, 2, 3])))
    rng.shuffle(out)
    groups = chk.execute(run_isolation, out[:chk.n(1600, 12000)])
    chk.judge('TraceIsolation', 'JudgeIsolation', groups, start='Fresh')
