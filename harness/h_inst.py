"""Drivers for the readers of data files."""
import copy
import datetime as dt
import os
import random

import fw
from h_time import text, triple, written

MIXED = [['Y', 'm', 'd'], ['d', 'b', 'Y'], ['Y', 'j'], ['y', 'm', 'd']]
NAMES = ['a', 'b', 'BZ', 'year', 'SOY', 'Lat.', 'x_1', 'datetime', 'DATETIME',
         'DT', 'dt', 'date', 'time', 'MLT', 'OCB_LAT']
FLOATS = ['1.5', '-2', '0', '7.25e3', '-1e-3', 'nan', '999999', '+4.', '1E10',
          '.5', '-0.0', '0000012.5']
WORDS = ['x', 'abc', 'Station', 'A-1', 'KIR', '12', 'long_word_of_a_station',
         'nan', 'w' * 60]


def field(txt):
    out = {'r': [0, 0], 'i': 0, 'c': [ord(cc) for cc in txt]}
    try:
        out['r'] = fw.R(float(txt))
        out['i'] = int(txt)
    except (ValueError, OverflowError):
        pass
    return out


def date_columns(rng, nrows):
    """Columns that tell the time, their format, and what each row says."""
    style = rng.choice(['soy', 'text', 'text', 'sod', 'yysod', 'yytod'])
    ddirs = rng.choice(MIXED)
    tdirs = rng.choice([[], ['H', 'M', 'S'], ['H', 'M'], ['H', 'M', 'S', 'f'],
                        ['I', 'M', 'S', 'p'], ['I', 'M', 'p'],
                        ['H', 'M', 'S', 'Z']])
    if style == 'yytod' and len(tdirs) == 0:
        tdirs = ['H', 'M']
    dsep = rng.choice(['-', '/', '.', ' ']) if rng.random() < 0.85 else (
        '' if 'b' not in ddirs else '-')
    tsep = rng.choice([':', '-', ' ']) if rng.random() < 0.85 else ''
    glue = rng.choice([' '] * 4 + ['T', '_'])
    if ' ' in [dsep, tsep]:
        glue = ' '
    # The half of the day and the time zone may have a column of their own
    last = rng.choice([tsep, ' ']) if glue == ' ' else tsep
    if tsep == '' and 'Z' in tdirs:
        last = ' '
        glue = ' '
    first = glue == ' ' and rng.random() < 0.2
    case = rng.choice([str.upper, str.lower])

    def joined(parts):
        if len(tdirs) > 0 and tdirs[-1] in 'pZ':
            return tsep.join(parts[:-1]) + last + parts[-1]
        return tsep.join(parts)

    rows, when = [], []
    for k in range(nrows):
        date = dt.date(1970, 1, 1) + dt.timedelta(days=rng.randrange(29000))
        if rng.random() < 0.2:
            date = date.replace(month=12, day=31)
        sec = rng.choice([0, 86399, rng.randrange(86400)])
        us = rng.choice([0, 1, rng.randrange(10**6)])
        doy = (date - dt.date(date.year, 1, 1)).days + 1
        dnums = [written(dd, date, sec, us) for dd in ddirs]
        tnums = [written(dd, date, sec, us) for dd in tdirs]
        dtxt = dsep.join(text(dd, nn) for dd, nn in zip(ddirs, dnums))
        ttxt = joined([text(dd, nn) for dd, nn in zip(tdirs, tnums)])
        yyddd = '{:02d}{:03d}'.format(date.year - 1900, doy)
        sod = rng.choice(['{:d}', '{:d}.0', '{:d}.25', '{:d}.5']).format(sec)
        if style == 'soy':
            soy = (doy - 1) * 86400 + sec
            rows.append([str(date.year), str(soy)])
            when.append({'k': 'soy', 'year': date.year, 'soy': soy})
        elif style == 'text':
            txt = dtxt if len(tdirs) == 0 else dtxt + glue + ttxt
            if first and len(tdirs) > 0:
                txt = ttxt + glue + dtxt
            rows.append(txt.split(' '))
            when.append({'k': 'text', 'dirs': ddirs + tdirs,
                         'nums': dnums + tnums})
        elif style == 'sod':
            rows.append([sod] + dtxt.split(' ') if first
                        else dtxt.split(' ') + [sod])
            when.append({'k': 'sod', 'dirs': ddirs, 'nums': dnums,
                         'sod': fw.R(float(sod))})
        else:
            when.append({'k': style, 'yy': date.year - 1900, 'ddd': doy})
            if style == 'yysod':
                rows.append([sod, yyddd] if first else [yyddd, sod])
                when[-1]['sod'] = fw.R(float(sod))
            else:
                rows.append(ttxt.split(' ') + [yyddd] if first
                            else [yyddd] + ttxt.split(' '))
                when[-1].update({'dirs': tdirs, 'nums': tnums})
    dfmt = dsep.join('%' + dd for dd in ddirs)
    tfmt = joined(['%' + dd for dd in tdirs])
    if style == 'soy':
        fmt = case('YEAR SOY')
        if rng.random() < 0.2:
            fmt, rows = case('SOY YEAR'), [rr[::-1] for rr in rows]
    elif style == 'text':
        fmt = dfmt if len(tdirs) == 0 else (
            tfmt + glue + dfmt if first else dfmt + glue + tfmt)
    elif style == 'sod':
        fmt = case('SOD') + ' ' + dfmt if first else dfmt + ' ' + case('SOD')
    elif style == 'yysod':
        fmt = case('SOD YYDDD' if first else 'YYDDD SOD')
    else:
        fmt = tfmt + ' ' + case('YYDDD') if first \
            else case('YYDDD') + ' ' + tfmt
    parts = fmt.split(' ')
    # The columns of the year and second of year are integers, those of
    # seconds of the day are not dates, and the others are read as text
    kinds = ['i' if style == 'soy' else 'f' if pp.lower() == 'sod' else 'd'
             for pp in parts]
    return parts, kinds, rows, when


def run_ascii(chk, sces):
    fw.import_ocbpy(chk.home)
    import numpy as np
    from ocbpy.instruments import general
    groups = []
    path = os.path.join(chk.dir, 'ascii_{:d}.txt'.format(os.getpid()))
    for sce in sces:
        rng = random.Random(sce['seed'])
        nrows = sce.get('nrows', rng.choice([0, 1, 1, 2, 3, 8]))
        kinds = list(sce.get('kinds', [rng.choice('ffis') for k in range(
            rng.choice([0, 1, 1, 2, 3, 6]))]))
        dates = rng.random() < 0.7 if 'kinds' not in sce \
            else rng.random() < 0.4
        parts, dkinds, drows, when = date_columns(rng, nrows)
        if not dates and len(kinds) == 0:
            kinds = ['f']
        if 'kinds' in sce:
            # The dates replace columns of the file, if there are enough
            dates = dates and len(kinds) >= len(parts)
            if dates:
                kinds = kinds[:len(kinds) - len(parts)]
        if not dates:
            parts, dkinds, when = [], [], []
        ncol = len(kinds) + len(parts)
        # The columns in the order of the file
        spot = list(range(ncol))
        rng.shuffle(spot)
        dcols = spot[:len(parts)]
        others = spot[len(parts):]
        want = [None] * ncol
        for cc, kk in zip(dcols + others, dkinds + kinds):
            want[cc] = kk
        delim = ',' if rng.random() < 0.25 else None
        rows = []
        for i in range(nrows):
            row = [None] * ncol
            for j, cc in enumerate(dcols):
                row[cc] = drows[i][j]
            for cc in others:
                row[cc] = {'f': rng.choice(FLOATS + [
                    repr(rng.uniform(-1e3, 1e3))]),
                    'i': str(rng.choice([0, -7, 12, 10**6, rng.randrange(
                        -999, 999)])),
                    's': rng.choice(WORDS)}[want[cc]]
            rows.append(row)
        # Header
        if 'lines' in sce:
            given = [[ll['text'], ll['names']] for ll in sce['given']]
            lines = [[ll['text'], ll['names']] for ll in sce['lines']]
        else:
            def names():
                pool = NAMES[:]
                rng.shuffle(pool)
                if rng.random() < 0.35:
                    # All the names of instants are taken, if they fit
                    pool.sort(key=lambda nn: nn.lower() not in [
                        'datetime', 'dt'])
                pool = pool[:ncol]
                rng.shuffle(pool)
                return pool
            given = [['', names()] for k in range(rng.choice([0, 0, 1, 2]))]
            lines = [['', names()] for k in range(rng.choice(
                [0, 1, 2] if len(given) > 0 else [1, 1, 2, 3]))]
        for line in given + lines:
            txt = (delim or rng.choice([' ', '  ', '\t'])).join(line[1])
            if delim is not None and rng.random() < 0.2:
                txt += delim
            line[0] = rng.choice(['', '#', '# ', '#']) + txt
        hlines = [ll[0] for ll in lines]
        with open(path, 'w') as fout:
            for line in hlines:
                fout.write(rng.choice(['', ' ']) + line + rng.choice(
                    ['', ' ']) + '\n')
            for row in rows:
                if rng.random() < 0.1:
                    fout.write(rng.choice(['# note', '', '#']) + '\n')
                sep = delim or rng.choice([' ', '   ', '\t'])
                fout.write((rng.choice(['', ' ']) if delim is None else '')
                           + sep.join(row))
                fout.write(rng.choice(['', '', ' # why']) + '\n')
        if rng.random() < 0.1 and nrows > 0:
            # Without the last line end
            with open(path, 'r+') as fout:
                data = fout.read()
                fout.seek(0)
                fout.write(data[:-1])
                fout.truncate()
        kwargs = {}
        if delim is not None:
            kwargs.update({'hsplit': ',', 'gft_kwargs': {'delimiter': ','}})
        if dates:
            kwargs.update({'datetime_cols': dcols,
                           'datetime_fmt': ' '.join(parts)})
            if rng.random() < 0.15:
                # Parts of dates that are wanted as integers
                for cc, pp in zip(dcols, parts):
                    if pp in ['%Y', '%m', '%d', '%j', '%H', '%M']:
                        want[cc] = 'i'
        elif rng.random() < 0.2:
            kwargs.update(rng.choice([{'datetime_cols': [0]},
                                      {'datetime_fmt': None}]))
        icols = [cc for cc in range(ncol) if want[cc] == 'i' and (
            cc in others or 'y' not in ' '.join(parts).lower()
            or 'soy' not in ' '.join(parts).lower())]
        if len(icols) > 0:
            kwargs['int_cols'] = icols
        scols = [cc for cc in range(ncol) if want[cc] == 's']
        if len(scols) > 0:
            kwargs['str_cols'] = scols
        maxlen = 50
        if rng.random() < 0.3:
            maxlen = kwargs['max_str_length'] = rng.choice([1, 3, 10, 55])
        if len(given) > 0 or rng.random() < 0.1:
            kwargs['header'] = [ll[0] for ll in given]
        args = [path, len(hlines)]
        kind = 'load'
        if rng.random() < 0.03:
            kind = 'nofile'
            if rng.random() < 0.5:
                open(path, 'w').close()
            else:
                args[0] = path + '_missing'
        elif dates and nrows > 0 and delim is None and rng.random() < 0.03 \
                and parts[0] == '%Y-%m-%d':
            kind = 'invalid'
            with open(path) as fin:
                data = fin.read()
            with open(path, 'w') as fout:
                fout.write(data.replace(drows[0][0], '2001-13-01'))
        if kind == 'load' and os.path.getsize(path) == 0:
            kind = 'nofile'
        before = copy.deepcopy([args, kwargs])
        group = []
        for k in range(rng.choice([1, 1, 2])):
            res, exc = fw.call(general.load_ascii_data, *args, **kwargs)
            ev = {'k': kind, 'exc': exc or '', 'want': want, 'max': maxlen,
                  'dates': dates, 'when': when, 'same': before == [
                      args, kwargs],
                  'given': [{'text': ll[0], 'names': ll[1]} for ll in given],
                  'lines': [{'text': ll[0], 'names': ll[1]} for ll in lines],
                  'rows': [[field(txt) for txt in row] for row in rows]}
            if kind == 'nofile':
                ev['given'] = kwargs.get('header', [])
            if exc is None:
                ev['header'] = [str(hh) for hh in res[0]]
                ev['nkeys'] = len(res[1])
                names = (given or lines)[-1][1]
                ev['names'] = [nn for nn in names if nn in res[1]]
                more = [nn for nn in res[1] if nn not in names]
                ev['dtname'] = more[0] if len(more) > 0 else ''
                ev['dt'] = [triple(tt) for tt in res[1][more[0]]] \
                    if len(more) > 0 else []
                ev['kinds'], ev['cols'] = [], []
                for nn in ev['names']:
                    col = np.asarray(res[1][nn])
                    kk = {'i': 'i', 'f': 'f', 'U': 's'}.get(col.dtype.kind,
                                                            '?')
                    ev['kinds'].append(kk)
                    ev['cols'].append(
                        [int(vv) for vv in col] if kk == 'i' else
                        [fw.R(vv) for vv in col] if kk == 'f' else
                        [[ord(cc) for cc in str(vv)] for vv in col])
            group.append(ev)
        groups.append(group)
    return groups


def check_ascii(chk):
    rng = random.Random(chk.seed)
    em = chk.model('MCAscii', 'CONSTANTS MaxLines = {:d} MaxRows = {:d} '
                   'MaxCols = {:d} EmitMod = {:d}\nSPECIFICATION Spec\n'
                   'INVARIANTS Transposed HeaderKept Named Folded Distinct '
                   'Emit\nCHECK_DEADLOCK FALSE\n'.format(
                       *chk.n((2, 2, 3, 7), (3, 4, 5, 29))), workers=7)
    sces = [dict(ee, seed=i) for i, ee in enumerate(em)]
    chk.notes['behaviours_replayed'] = len(sces)
    sces += [{'seed': rng.randrange(10**9)}
             for i in range(chk.n(4500, 20000))]
    chk.judge('TraceAscii', 'JudgeAscii', chk.execute(run_ascii, sces))
