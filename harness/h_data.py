"""Drivers for the vorticity and SuperMAG files and their conversion."""
import copy
import datetime as dt
import os
import random

import fw
import mk
from h_geom import build, enc_b, rand_hemi, rand_pair, rand_rec
from h_match import NOQ, kwargs_of, rand_q
from h_records import enc_q
from h_time import triple

VFORM = {'seven': 7, 'eleven': 11, 'twelve': 12}
IDS = ['ALE', 'THL', 'KIR', 'B01', 'XYZ', 'M-2']


def enc_line(txt):
    toks = txt.split()
    ints, reals = [], []
    for tok in toks:
        try:
            reals.append(fw.R(float(tok)))
            val = int(float(tok)) if float(tok) == float(tok) else 0
            ints.append(val if abs(val) < 2 * 10**9 else 0)
        except (ValueError, OverflowError):
            reals.append([0, 0])
            ints.append(0)
    return {'n': len(toks), 'hash': toks[:1] == ['#'], 'i': ints, 'v': reals,
            'rule': txt.find('=' * 41) >= 0, 'id': toks[0] if toks else ''}


def put(rng, toks, lead=True):
    sep = rng.choice([' ', '  ', '\t'])
    return (rng.choice(['', ' ']) if lead else '') + sep.join(toks)


# -- vorticity ----------------------------------------------------------------

def num(rng, wide=False):
    return rng.choice(['{:.3f}', '{:.7f}', '{!r}', '{:.2e}']).format(
        rng.uniform(-200, 200) if wide else rng.uniform(-2, 2))


def hour_text(rng, sec):
    if sec % 225 == 0 and rng.random() < 0.5:
        return repr(sec / 3600.0)
    return '{:.7f}'.format((sec + 0.5) / 3600.0)


def vort_entry(rng, lat=None, mlt=None):
    lat = rng.uniform(-90, 90) if lat is None else lat
    mlt = rng.uniform(0, 24) if mlt is None else mlt
    one = [str(rng.randrange(12)) for k in range(4)] + [
        '{:.1f}'.format(rng.uniform(1e3, 1e4)),
        rng.choice(['{:.7f}', '{:.3e}', '{:.4f}']).format(rng.choice(
            [rng.uniform(-.01, .01), rng.uniform(-5, 5), 0.0])),
        '{!r}'.format(mlt)]
    two = [str(rng.randrange(2))] + [num(rng, True) for k in range(10)]
    three = [str(rng.randrange(2)), '{!r}'.format(lat)] + [
        num(rng, True) for k in range(9)]
    return [put(rng, one), put(rng, two), put(rng, three)]


def vort_lines(rng, times, entries):
    """Lines of a file with records at times (s) and their entries."""
    out = [put(rng, ['#', 'some', 'text'], False)
           for k in range(rng.choice([0, 0, 1, 3]))]
    for sec, ents in zip(times, entries):
        time = fw.at(sec)
        out.append(put(rng, [str(time.year), rng.choice(
            ['{:d}', '{:02d}']).format(time.month), str(time.day),
            hour_text(rng, sec % 86400)]))
        out.append(put(rng, [str(len(ents))]))
        for ent in ents:
            out.extend(vort_entry(rng, *ent))
    return out


def rand_times(rng, nrec, t0, same=0.0):
    sec = t0 + rng.choice([0, 86399, rng.randrange(86400)])
    out = []
    for k in range(nrec):
        out.append(sec)
        sec += 0 if rng.random() < same else rng.choice(
            [60, 60, 120, 225, 900, 3600, rng.randrange(1, 7200)])
    return out


def write(rng, path, lines):
    with open(path, 'w') as fout:
        fout.write('\n'.join(lines))
        if len(lines) > 0 and rng.random() < 0.8:
            fout.write('\n')
    # What the lines of the file are, a last empty one does not count
    with open(path) as fin:
        return [ll for ll in fin.readlines()]


def model_vort(rng, kinds):
    out = []
    for kk in kinds:
        if kk in ['seven', 'eleven', 'twelve']:
            out.append(put(rng, [num(rng) for k in range(VFORM[kk])]))
        elif kk == 'hash':
            out.append(rng.choice(['# a b c d', '# 1 2 3 4']))
        elif kk == 'date':
            out.append(put(rng, ['2001', '2', '28', '13.25']))
        else:
            out.append({'zero': '0', 'one': '1', 'two': '2',
                        'blank': ''}[kk])
    return out


def spoil(rng, lines):
    """Take away, add or change a line."""
    spot = rng.randrange(len(lines))
    what = rng.choice(['cut', 'drop', 'blank', 'field', 'short', 'twice'])
    if what == 'cut':
        return lines[:spot]
    if what == 'drop':
        return lines[:spot] + lines[spot + 1:]
    if what == 'blank':
        return lines[:spot] + [''] + lines[spot:]
    if what == 'twice':
        return lines[:spot + 1] + lines[spot:]
    toks = lines[spot].split()
    toks = toks + ['1'] if what == 'field' else toks[:-1]
    return lines[:spot] + [' '.join(toks)] + lines[spot + 1:]


def run_vload(chk, sces):
    fw.import_ocbpy(chk.home)
    import numpy as np
    from ocbpy.instruments import vort
    path = os.path.join(chk.dir, 'vort_{:d}'.format(os.getpid()))
    groups = []
    for sce in sces:
        rng = random.Random(sce['seed'])
        if 'lines' in sce:
            lines = model_vort(rng, sce['lines'])
        else:
            nrec = rng.choice([0, 1, 1, 2, 3])
            times = rand_times(rng, nrec, 86400 * rng.randrange(9000), 0.1)
            lines = vort_lines(rng, times, [[()] * rng.choice([0, 1, 1, 2, 3])
                                            for tt in times])
            if rng.random() < 0.3 and len(lines) > 0:
                lines = spoil(rng, lines)
        lines = write(rng, path, lines)
        every = rng.random() < 0.5
        res, exc = fw.call(vort.load_vorticity_ascii_data, path,
                           **({'save_all': every} if every
                              or rng.random() < 0.5 else {}))
        ev = {'k': 'vload', 'lines': [enc_line(ll) for ll in lines],
              'all': every, 'exc': exc or '', 'none': res is None,
              'same': True, 'keys': [], 'cols': [], 'dt': []}
        if res is not None:
            ev['dt'] = [triple(tt) for tt in res.get('DATETIME', [])]
            ev['keys'] = sorted(kk for kk in res if kk != 'DATETIME')
            ev['cols'] = [fw.Rs(res[kk]) for kk in ev['keys']]
            ev['same'] = all(isinstance(vv, np.ndarray)
                             for vv in res.values())
        groups.append([ev])
    return groups


# -- SuperMAG -----------------------------------------------------------------

def smag_station(rng, lat=None, mlt=None, gaps=0.2):
    lat = rng.uniform(-89, 89) if lat is None else lat
    mlt = rng.uniform(0, 24) if mlt is None else mlt
    vals = [rng.uniform(-500, 500), rng.uniform(-500, 500),
            rng.uniform(-300, 300), mlt, lat, rng.uniform(-90, 90),
            rng.uniform(0, 180)]
    out = ['{:.3f}'.format(vv) for vv in vals]
    for k in [0, 1, 2, 3, 5, 6]:
        if rng.random() < gaps / 6:
            out[k] = rng.choice(['999999', '999999.0', '999999.000'])
    return put(rng, [rng.choice(IDS)] + out, False)


def smag_header(rng):
    return ['File', '  of data', '= a rule', ''][:rng.randrange(5)] + [
        rng.choice(['', ' ']) + '=' * rng.choice([41, 80, 60])]


def smag_index(rng):
    out = ['SML {:d}'.format(rng.randrange(-900, 100)),
           'SMU\t{:d}'.format(rng.randrange(0, 900))]
    if rng.random() < 0.3:
        out = out[:rng.randrange(2)]
    return out[::-1] if rng.random() < 0.2 else out


def smag_lines(rng, times, stations, gaps=0.2):
    out = smag_header(rng)
    for sec, stns in zip(times, stations):
        time = fw.at(sec)
        out.append(put(rng, [str(vv) for vv in [
            time.year, time.month, time.day, time.hour, time.minute,
            time.second, len(stns)]], False))
        if rng.random() < 0.8:
            out.extend(smag_index(rng))
        for stn in stns:
            out.append(smag_station(rng, *stn, gaps=gaps))
    return out


def model_smag(rng, kinds):
    out = []
    for kk in kinds:
        if kk[0] == 'd':
            out.append('2001 2 28 13 {:d} 5 {:s}'.format(len(out), kk[1]))
        elif kk == 'stn':
            out.append(smag_station(rng))
        else:
            out.append({'text': 'a text with == in it', 'rule': '=' * 50,
                        'sml': 'SML {:d}'.format(rng.randrange(-900, 0)),
                        'smu': 'SMU {:d}'.format(rng.randrange(900))}[kk])
    return out


def run_sload(chk, sces):
    fw.import_ocbpy(chk.home)
    from ocbpy.instruments import supermag
    path = os.path.join(chk.dir, 'smag_{:d}'.format(os.getpid()))
    groups = []
    for sce in sces:
        rng = random.Random(sce['seed'])
        if 'lines' in sce:
            lines = model_smag(rng, sce['lines'])
        else:
            nrec = rng.choice([0, 1, 1, 2, 3])
            times = rand_times(rng, nrec, 86400 * rng.randrange(-9000, 9000),
                               0.1)
            lines = smag_lines(rng, times, [[()] * rng.choice([0, 1, 1, 2, 3])
                                            for tt in times])
            if rng.random() < 0.1:
                lines = lines[:rng.randrange(len(lines) + 1)]
        lines = write(rng, path, lines)
        res, exc = fw.call(supermag.load_supermag_ascii_data, path)
        ev = {'k': 'sload', 'lines': [enc_line(ll) for ll in lines],
              'exc': exc or '', 'none': exc is None and len(res[1]) == 0,
              'same': True, 'keys': [], 'cols': [], 'dt': [], 'stid': [],
              'header': 0, 'hsame': True}
        if exc is None:
            ev['header'] = len(res[0])
            ev['hsame'] = [hh.rstrip('\n') for hh in res[0]] == [
                ll.rstrip('\n') for ll in lines[:len(res[0])]]
            ev['dt'] = [triple(tt) for tt in res[1].get('DATETIME', [])]
            ev['stid'] = [str(tt) for tt in res[1].get('STID', [])]
            ev['keys'] = sorted(kk for kk in res[1]
                                if kk not in ['DATETIME', 'STID'])
            ev['cols'] = [fw.Rs(res[1][kk]) for kk in ev['keys']]
        groups.append([ev])
    return groups


# -- conversion ---------------------------------------------------------------

def location(rng, hemi, wrong):
    lat = rng.choice([rng.uniform(50, 89), rng.uniform(60, 85),
                      rng.uniform(1, 89)])
    if rng.random() < wrong:
        hemi = -hemi
    mlt = rng.choice([rng.uniform(0, 24), rng.uniform(0, 24),
                      float(rng.randrange(24))])
    return round(hemi * lat, 3), round(mlt, 3)


def make_target(rng, make, ocbpy, hemi, times):
    """The boundary to convert with, and how the specification sees it."""
    span = sorted(set([tt + rng.choice([0, 0, 60, -60, 300, -300, 601, -600,
                                        rng.randrange(-4000, 4000)])
                       for tt in times + [times[0]]
                       if rng.random() < 0.8] or [times[0]]))
    ev = {'hemi': hemi, 'dual': False, 'own': True, 'q': enc_q(NOQ),
          'erecs': [], 'pairs': [], 'elat': [0, 0]}
    kind = rng.choice(['one', 'one', 'dual', 'file', 'file'])
    blat = rng.choice([74.0, 74.0, 70.0, 77.5])
    kwargs = {}

    def enc(recs):
        return [{'t': rec['t'], 'fom': fw.R(rec['fom']), 'r': fw.R(rec['r']),
                 'b': enc_b(rec)} for rec in recs]

    if kind == 'dual':
        olist, elist = [], []
        for tt in span:
            o, e = rand_pair(rng, True)
            if rng.random() < 0.8:
                elist.append(dict(e, t=tt, fom=rng.choice([1, 2, 3, 6])))
            olist.append(dict(o, t=tt, fom=rng.choice([1, 1, 2, 3, 6])))
        if len(elist) == 0:
            elist.append(dict(e, t=span[-1], fom=1))
        ocb = ocbpy.DualBoundary(ocb=build(make, olist, hemi, blat),
                                 eab=build(make, elist, hemi, 62.0, True))
        ev.update({'dual': True, 'recs': enc(olist), 'erecs': enc(elist),
                   'blat': fw.R(hemi * blat), 'elat': fw.R(hemi * 62.0),
                   'pairs': [[int(ii), int(jj)] for ii, jj in
                             zip(ocb.ocb_ind, ocb.eab_ind)]})
    else:
        recs = [dict(rand_rec(rng), t=tt, fom=rng.choice([1, 1, 2, 3, 5, 6]))
                for tt in span]
        if rng.random() < 0.3:
            q = rand_q(rng)
            for cc in q['crit']:
                cc['v'] *= 6
            ev['q'] = enc_q(q)
            kwargs.update(kwargs_of(q))
        if kind == 'file':
            for rec in recs:
                rec['f'] = dict(rec['f'], name='circular', add=0.0)
            kwargs.update({'ocbfile': mk.write_image(make.path(), recs),
                           'instrument': 'image'})
            ocb = None
            ev['own'] = False
            ev['blat'] = [0, 0]
        else:
            ocb = build(make, recs, hemi, blat)
            ev['blat'] = fw.R(hemi * blat)
        ev['recs'] = enc(recs)
    ev['cur'] = -1
    if ocb is not None:
        kwargs['ocb'] = ocb
        if rng.random() < 0.2:
            ocb.rec_ind = rng.randrange(-1, ocb.records + 1)
        ev['cur'] = int(ocb.rec_ind)
    ev['harg'] = rng.choice([0, 0, hemi])
    if not ev['own'] and rng.random() < 0.15:
        ev['harg'] = -hemi
    if ev['harg'] != 0:
        kwargs['hemisphere'] = ev['harg']
    return ev, kwargs


def run_convert(chk, sces):
    ocbpy = fw.import_ocbpy(chk.home)
    from ocbpy import ocb_scaling
    from ocbpy.instruments import supermag, vort
    make = mk.Maker(chk, ocbpy)
    funs = {'evar': ocb_scaling.normal_evar, '': None}
    infile = os.path.join(chk.dir, 'conv_{:d}'.format(os.getpid()))
    outfile = infile + '_out'
    groups = []
    for sce in sces:
        rng = random.Random(sce['seed'])
        smag = sce['smag']
        hemi = rand_hemi(rng)
        t0 = 86400 * rng.randrange(300, 5000)
        if 'times' in sce:
            # One unit of the model's time is 5 minutes
            times = [t0 + 300 * tt for tt in sce['data']]
        else:
            times = rand_times(rng, rng.choice([1, 1, 2, 4, 6]), t0,
                               0.1)
        wrong = rng.choice([0, 0, 0, 0.2, 0.2, 1.0])
        ents = [[location(rng, hemi, wrong) for k in range(rng.choice(
            [1, 1, 2, 3]))] for tt in times]
        lines = smag_lines(rng, times, ents, 0.1) if smag \
            else vort_lines(rng, times, ents)
        if rng.random() < 0.02 and not smag:
            lines = lines[:2]
        ev, kwargs = make_target(rng, make, ocbpy, hemi, times)
        ev['tol'] = 600
        if 'times' in sce:
            recs = [dict(rand_rec(rng), t=t0 + 300 * tt, fom=1 if gg else 9)
                    for tt, gg in zip(sce['times'], sce['good'])]
            ocb = build(make, recs, hemi, 74.0)
            ocb.rec_ind = sce['cur']
            kwargs = {'ocb': ocb}
            ev = {'hemi': hemi, 'dual': False, 'own': True, 'q': enc_q(NOQ),
                  'erecs': [], 'pairs': [], 'elat': [0, 0], 'harg': 0,
                  'blat': fw.R(hemi * 74.0), 'cur': sce['cur'],
                  'tol': 300 * sce['tol'], 'recs': [
                      {'t': rec['t'], 'fom': fw.R(rec['fom']),
                       'r': fw.R(rec['r']), 'b': enc_b(rec)}
                      for rec in recs]}
            kwargs['max_sdiff'] = ev['tol']
        elif rng.random() < 0.4:
            ev['tol'] = kwargs['max_sdiff'] = rng.choice(
                [1, 60, 120, 300, 1800])
        for rec in ev['recs'] + ev['erecs']:
            rec['t'] -= t0
        ev['t0'] = t0
        ev['fun'] = rng.choice(['curl', 'curl', 'curl', '', 'evar'])
        if ev['fun'] != 'curl':
            kwargs['scale_func'] = funs[ev['fun']]
        elif rng.random() < 0.3:
            kwargs['scale_func'] = ocb_scaling.normal_curl_evar
        ev['all'] = False
        if not smag and rng.random() < 0.4:
            ev['all'] = kwargs['save_all'] = True
        lines = write(rng, infile, lines)
        if os.path.exists(outfile):
            os.remove(outfile)
        before = {kk: copy.deepcopy(vv) for kk, vv in kwargs.items()
                  if kk != 'ocb'}
        _, exc = fw.call(supermag.supermag2ascii_ocb if smag
                         else vort.vort2ascii_ocb, infile, outfile, **kwargs)
        kwargs.pop('ocb', None)
        with open(infile) as fin:
            kept = fin.readlines() == lines
        ev.update({'k': 'sconv' if smag else 'vconv', 'exc': exc or '',
                   'lines': [enc_line(ll) for ll in lines],
                   'same': kept and before == kwargs,
                   'wrote': os.path.exists(outfile), 'head': [], 'out': []})
        if ev['wrote']:
            with open(outfile) as fin:
                txt = fin.readlines()
            ev['head'] = txt[0].split() if len(txt) > 0 else []
            for line in txt[1:]:
                toks = line.split()
                one = {'t': triple(dt.datetime.strptime(
                    ' '.join(toks[:2]), '%Y-%m-%d %H:%M:%S'))}
                if smag:
                    one.update({'nst': int(toks[2]), 'id': toks[3]})
                one['v'] = [fw.R(float(tt)) for tt in toks[4 if smag else 2:]]
                ev['out'].append(one)
        if 'ocbfile' in kwargs:
            os.remove(kwargs['ocbfile'])
        groups.append([ev])
    return groups


def file_model(chk, mod):
    return chk.model('MCDataFiles', 'CONSTANTS MaxV = {:d} MaxS = {:d} '
                     'EmitMod = {:d}\nSPECIFICATION Spec\nINVARIANTS Folded '
                     'VortRows Ends Misplaced SmagRows Headers Indices Emit\n'
                     'CHECK_DEADLOCK FALSE\n'.format(
                         *chk.n((8, 8, mod), (9, 10, mod * 4))), workers=7)


def loop_model(chk, mod):
    return chk.model('MCConversion', 'CONSTANTS MaxT = {:d} MaxRecs = 3 '
                     'MaxData = {:d} EmitMod = {:d}\nSPECIFICATION Spec\n'
                     'INVARIANTS Complete EachClosest InOrder Folded Emit\n'
                     'CHECK_DEADLOCK FALSE\n'.format(
                         *chk.n((4, 3, mod), (5, 4, mod * 9))), workers=7)


def check_data(chk, smag):
    rng = random.Random(chk.seed)
    kind = 'smag' if smag else 'vort'
    files = [{'seed': i, 'lines': ee['lines']}
             for i, ee in enumerate(file_model(chk, 13))
             if ee['kind'] == kind]
    loops = [dict(ee, seed=i, smag=smag)
             for i, ee in enumerate(loop_model(chk, 97))]
    chk.notes['behaviours_replayed'] = len(files) + len(loops)
    files += [{'seed': rng.randrange(10**9)}
              for i in range(chk.n(3000, 15000))]
    loops += [{'seed': rng.randrange(10**9), 'smag': smag}
              for i in range(chk.n(2700, 12000))]
    groups = chk.execute(run_sload if smag else run_vload, files)
    chk.judge('TraceInstr', 'JudgeInstr', groups, label='load')
    chk.judge('TraceInstr', 'JudgeInstr', chk.execute(run_convert, loops),
              label='convert')


def check_vort(chk):
    check_data(chk, False)


def check_smag(chk):
    check_data(chk, True)
