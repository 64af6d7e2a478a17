"""Drivers for ocb_time: instants, cyclic ranges, hours and angles."""
import copy
import datetime as dt
import math
import random

import fw
from h_geom import size

MONTHS = ['January', 'February', 'March', 'April', 'May', 'June', 'July',
          'August', 'September', 'October', 'November', 'December']
WIDTH = {'Y': 4, 'j': 3, 'f': 6}
DATES = [['Y', 'm', 'd'], ['Y', 'j'], ['d', 'b', 'Y'], ['B', 'd', 'Y'],
         ['y', 'm', 'd'], ['y', 'j']]
TIMES = [[], ['H', 'M', 'S'], ['H', 'M'], ['H', 'M', 'S', 'f'],
         ['I', 'M', 'S', 'p']]


def same(before, after):
    import numpy as np
    return type(before) is type(after) and np.array_equal(
        np.asarray(before), np.asarray(after), equal_nan=True)


def written(dd, date, sec, us):
    """The number written for a directive."""
    hour = sec // 3600
    doy = (date - dt.date(date.year, 1, 1)).days + 1
    return {'Y': date.year, 'y': date.year % 100, 'm': date.month,
            'b': date.month, 'B': date.month, 'd': date.day, 'j': doy,
            'H': hour, 'I': (hour % 12) or 12, 'p': hour // 12,
            'M': sec // 60 % 60, 'S': sec % 60, 'f': us, 'Z': 0}[dd]


def text(dd, num):
    if dd == 'b':
        return MONTHS[num - 1][:3]
    if dd == 'B':
        return MONTHS[num - 1]
    if dd == 'Z':
        return 'UTC'
    if dd == 'p':
        return ['AM', 'PM'][num]
    return '{:0{:d}d}'.format(num, WIDTH.get(dd, 2))


def triple(val):
    if not isinstance(val, dt.datetime):
        return []
    dd = val - fw.EPOCH
    return [dd.days, dd.seconds, dd.microseconds]


def rand_sec(rng):
    return rng.choice([0, 0, 86399, 43200, 46799, 3599,
                       rng.randrange(86400), rng.randrange(86400)])


def run_time(chk, sces):
    fw.import_ocbpy(chk.home)
    import numpy as np
    from ocbpy import ocb_time
    groups = []
    for sce in sces:
        rng = random.Random(sce['seed'])
        if 't' in sce:
            date = dt.date(*sce['date'][:3])
            sec, us = sce['t'][1:]
            ddirs, tdirs = sce['dirs']
        else:
            ddirs, tdirs = rng.choice(DATES), rng.choice(TIMES)
            first = dt.date(1969 if ddirs[0] == 'y' else 1900, 1, 1)
            last = dt.date(2069 if ddirs[0] == 'y' else 2100, 1, 1)
            date = first + dt.timedelta(days=rng.randrange(
                (last - first).days))
            if rng.random() < 0.3:
                date = date.replace(month=rng.choice([1, 12]),
                                    day=rng.choice([1, 31]))
            elif rng.random() < 0.15:
                leap = date.year % 4 == 0 and date.year != 1900
                date = date.replace(month=2, day=28 + leap)
            sec = rand_sec(rng)
            us = rng.choice([0, 1, 999999, rng.randrange(10**6)])
        group = []
        doy = (date - dt.date(date.year, 1, 1)).days + 1

        def ask(ev, fun, *args, **kwargs):
            if fun is ocb_time.convert_time and ev['k'] != 'invalid' \
                    and rng.random() < 0.3:
                # Half of another format does not count
                kwargs.update(rng.choice([
                    {'year': rng.choice([date.year, 1980])},
                    {'soy': rng.choice([0, 86399, 3e6])}, {'year': None},
                    {'soy': None, 'year': None}]))
            res, exc = fw.call(fun, *args, **kwargs)
            ev.update({'exc': exc or '', 'out': [] if exc else triple(res)})
            group.append(ev)

        # Year and seconds of the year
        soy = (doy - 1) * 86400 + sec
        if rng.random() < 0.1:
            soy += rng.choice([0, 86400, 31622400])
        if rng.random() < 0.6:
            soy += rng.choice([0.25, -0.25, 0.499999, -0.499999, 0.75,
                               rng.uniform(-0.499, 0.499)])
            soy = abs(soy)
        soy = rng.choice([soy, np.float64(soy)])
        year = rng.choice([date.year, np.int64(date.year)]) \
            if rng.random() < 0.3 else date.year
        ev = {'k': 'soy', 'year': date.year, 'soy': fw.R(soy)}
        ask(ev, rng.choice([
            lambda: ocb_time.year_soy_to_datetime(int(year), soy),
            lambda: ocb_time.convert_time(year=int(year), soy=soy),
            lambda: ocb_time.convert_time(year=int(year), soy=soy,
                                          sod=float(sec))]))

        # A date and perhaps a time of the day
        sep = rng.choice(['-', '/', '.', '', ' '])
        if len({'b', 'B'} & set(ddirs)) > 0 and sep == '':
            sep = '-'
        tsep = rng.choice([':', '-', '', '.'])
        if ddirs[-1] == 'Y' and sep == ' ':
            sep = '-'
        dfmt = sep.join('%' + dd for dd in ddirs)
        tfmt = tsep.join('%' + dd for dd in tdirs)
        dnums = [written(dd, date, sec, us) for dd in ddirs]
        tnums = [written(dd, date, sec, us) for dd in tdirs]
        dtext = sep.join(text(dd, nn) for dd, nn in zip(ddirs, dnums))
        ttext = tsep.join(text(dd, nn) for dd, nn in zip(tdirs, tnums))
        ev = {'k': 'text', 'dirs': ddirs + tdirs, 'nums': dnums + tnums}
        kwargs = {'date': dtext, 'datetime_fmt': dfmt}
        if len(tdirs) > 0:
            kwargs['tod'] = ttext
            kwargs['datetime_fmt'] = '{:s} {:s}'.format(dfmt, tfmt)
            if rng.random() < 0.1 and tdirs[-1] in 'SM' and tsep != '' \
                    and tdirs[-1] == 'S':
                # Data that the format does not cover
                kwargs['tod'] += rng.choice(['.25', 'Z', '.000'])
        elif ddirs == ['Y', 'm', 'd'] and sep == '-' and rng.random() < 0.5:
            # The time that is in the format is not in the data
            kwargs['datetime_fmt'] = rng.choice(['%Y-%m-%d %H:%M:%S',
                                                 '%Y-%m-%d SOD'])
            if rng.random() < 0.5:
                del kwargs['datetime_fmt']
        if ddirs == ['Y', 'm', 'd'] and tdirs == ['H', 'M', 'S'] \
                and (sep, tsep) == ('-', ':') and rng.random() < 0.5:
            del kwargs['datetime_fmt']
        ask(ev, ocb_time.convert_time, **kwargs)

        # The length of the text
        fmt, full = kwargs.get('datetime_fmt'), dtext
        if fmt is not None and '%H' not in dfmt and 'SOD' not in fmt:
            if len(tdirs) > 0:
                full = '{:s} {:s}'.format(dtext, ttext)
            elif fmt != dfmt:
                full = dtext + ' 00:00:00'
            extra = rng.choice(['', '', 'a', 'A', 'p', 'w', 'U', 'z', 'c', 'x',
                                'X', 'Y', 'j', 'B', 'f'])
            when = dt.datetime(date.year, date.month, date.day,
                               tzinfo=dt.timezone.utc) \
                + dt.timedelta(seconds=sec, microseconds=us)
            if extra:
                fmt = fmt + '_%' + extra
                full += '_' + when.strftime('%' + extra)
            res, exc = fw.call(ocb_time.get_datetime_fmt_len, fmt)
            group.append({'k': 'fmtlen', 'dirs': [], 'nums': [],
                          'exc': exc or '', 'need': len(full),
                          'len': 0 if exc else int(res), 'fmt': fmt})

        # Seconds of the day
        sod = sec + rng.choice([0.0, us * 1e-6, 0.5, 0.9999999])
        if rng.random() < 0.3:
            sod = rng.choice([int(sod), np.float64(sod), 86400.0])
        ev = {'k': 'sod', 'yy': -1, 'ddd': 0, 'dirs': ddirs, 'nums': dnums,
              'sod': fw.R(sod)}
        kwargs = {'date': dtext, 'datetime_fmt': dfmt, 'sod': sod}
        if rng.random() < 0.4:
            kwargs['datetime_fmt'] += rng.choice([' SOD', ' sod'])
        if rng.random() < 0.1 and ddirs[-1] != 'Y' and sep != ' ':
            kwargs['date'] += rng.choice(['Z', 'T'])
        if date.year >= 1900 and rng.random() < 0.5:
            ev['yy'], ev['ddd'] = date.year - 1900, doy
            kwargs = {'yyddd': '{:d}{:03d}'.format(date.year - 1900, doy),
                      'sod': sod}
            if rng.random() < 0.7:
                kwargs['datetime_fmt'] = rng.choice(
                    ['YYDDD SOD', '%Y-%m-%d SOD', '%Y-%m-%d', 'yyddd sod',
                     'YYDDD', '%Y-%m-%d %H:%M:%S'])
        ask(ev, ocb_time.convert_time, **kwargs)

        # Years since 1900 and day of the year
        yyddd = '{:d}{:03d}'.format(date.year - 1900, doy)
        if date.year < 2000 and date.year >= 1910 and rng.random() < 0.5:
            yyddd = '{:02d}{:03d}'.format(date.year - 1900, doy)
        yyddd += rng.choice(['', '', '.0', '.75'])
        ev = {'k': 'yyddd', 'yy': date.year - 1900, 'ddd': doy}
        ask(ev, rng.choice([lambda: ocb_time.yyddd_to_date(yyddd),
                            lambda: ocb_time.convert_time(yyddd=yyddd),
                            lambda: ocb_time.convert_time(
                                year=date.year, yyddd=yyddd)]))
        if len(tdirs) > 0:
            ev = {'k': 'yytod', 'yy': date.year - 1900, 'ddd': doy,
                  'dirs': tdirs, 'nums': tnums}
            fmts = ['%Y-%m-%d {:s}', 'YYDDD {:s}', 'yyddd {:s}', '{:s}']
            ask(ev, ocb_time.convert_time, yyddd=yyddd, tod=ttext,
                datetime_fmt=rng.choice(fmts).format(tfmt))

        # What is not an instant
        pick = rng.randrange(7)
        ev = {'k': 'invalid', 'pick': pick}
        if pick == 0:
            ask(ev, ocb_time.yyddd_to_date, int(float(yyddd)))
        elif pick == 1:
            ask(ev, ocb_time.convert_time, yyddd=float(yyddd), sod=sec)
        elif pick == 2:
            ask(ev, ocb_time.convert_time, date='2001-13-01')
        elif pick == 3:
            ask(ev, ocb_time.convert_time, date='2001-02-29', tod='00:00:00')
        elif pick == 4:
            ask(ev, ocb_time.convert_time, date=dtext, datetime_fmt='|' + dfmt)
        elif pick == 5:
            ask(ev, ocb_time.convert_time, yyddd='99000')
        elif pick == 6:
            ask(ev, ocb_time.convert_time, date='2001-01-01', tod='24:00:00')
        groups.append(group)
    return groups


def check_times(chk):
    rng = random.Random(chk.seed)
    em = chk.model('MCTimes', 'CONSTANTS FirstYear = {:d} LastYear = {:d} '
                   'EmitMod = {:d}\nSPECIFICATION Spec\nINVARIANTS ClosedForms'
                   ' ReadsBack SoyLaw Emit\nCHECK_DEADLOCK FALSE\n'.format(
                       *chk.n((1950, 2040, 7), (1900, 2099, 1))), workers=7)
    sces = [dict(ee, seed=i) for i, ee in enumerate(em)]
    chk.notes['behaviours_replayed'] = len(sces)
    sces += [{'seed': rng.randrange(10**9)} for i in range(chk.n(9000, 40000))]
    chk.judge('TraceTimes', 'JudgeTime', chk.execute(run_time, sces))


# -- ranges -------------------------------------------------------------------

def shaped(rng, vals, shape):
    import numpy as np
    if shape == []:
        return vals[0] if rng.random() < 0.8 else np.float64(vals[0])
    arr = np.array(vals).reshape(shape)
    if rng.random() < 0.3:
        return arr.tolist()
    return arr


def rand_vals(rng, num, lo, hi, period):
    """Values in, at, just next to and far from the ends of the range."""
    out = []
    for k in range(num):
        pick = rng.random()
        base = rng.choice([lo, hi])
        if pick < 0.2:
            val = rng.uniform(lo, hi)
        elif pick < 0.4:
            val = base + period * rng.randrange(-4, 5)
        elif pick < 0.65:
            val = base + period * rng.randrange(-4, 5)
            for k in range(rng.randrange(1, 3)):
                val = math.nextafter(val, rng.choice([-1e9, 1e9]))
        elif pick < 0.7:
            val = base + rng.choice([1e-15, -1e-15, 1e-17, -1e-17, -1e-300,
                                     5e-324, -5e-324])
        elif pick < 0.75:
            val = float('nan')
        elif pick < 0.8:
            val = float(rng.randrange(-50, 50))
        elif pick < 0.9:
            val = rng.uniform(-1e4, 1e4)
        else:
            val = rng.uniform(lo - 3 * period, hi + 3 * period)
        out.append(val)
    return out


def run_range(chk, sces):
    fw.import_ocbpy(chk.home)
    import numpy as np
    from ocbpy import ocb_time
    groups = []
    pi2 = 2.0 * np.pi
    for sce in sces:
        rng = random.Random(sce['seed'])
        group = []
        shape = rng.choice([[], [], [1], [3], [5], [2, 2], [0]])
        num = size(shape)

        def ask(fn, vals, mn, mx, per, fun, *args, **kwargs):
            arr = shaped(rng, vals, shape)
            before = copy.deepcopy(arr)
            ev = {'k': 'range', 'fn': fn, 'v': fw.Rs(vals), 'shape': shape,
                  'mn': fw.R(mn), 'mx': fw.R(mx), 'p': fw.R(per)}
            if 'ut' in kwargs:
                when = kwargs.pop('ut')
                ev['ut'] = triple(when)
                args = (when, )
            res, exc = fw.probe(rng, fun, arr, *args, **kwargs)
            ev.update({'exc': exc or '', 'same': bool(same(before, arr))})
            if exc is None:
                ev['oshape'], ev['out'] = fw.shape(res), fw.Rs(res)
            group.append(ev)
            return res

        # The range itself
        if 'mn' in sce:
            mn, mx, per = sce['mn'], sce['mx'], sce['p']
            vals = [float(sce['v'])] + rand_vals(rng, max(num - 1, 0), mn, mx,
                                                 per)
            vals = vals[:num] if shape != [0] else []
        else:
            mn, mx = rng.choice([(0.0, 24.0), (0.0, pi2), (-180.0, 180.0),
                                 (0.0, 360.0), (-np.pi, np.pi),
                                 (-180.0, 360.0), (0, 24), (-0.1, 0.2),
                                 (rng.uniform(-9, 9), 10.0), (-1e-3, 1e-3)])
            per = rng.choice([mx - mn] * 2 + [360.0, pi2, 24.0,
                                              (mx - mn) / 3.0])
            if per > mx - mn:
                per = mx - mn
            vals = rand_vals(rng, num, mn, mx, per)
        if per == mx - mn and rng.random() < 0.5:
            ask('fix', vals, mn, mx, per, ocb_time.fix_range, mn, mx)
        else:
            ask('fix', vals, mn, mx, per, ocb_time.fix_range, mn, mx, per)

        # Angles and hours
        hours = rand_vals(rng, num, 0.0, 24.0, 24.0)
        degs = rand_vals(rng, num, rng.choice([0.0, -180.0]), 360.0, 360.0)
        rads = rand_vals(rng, num, 0.0, pi2, pi2)
        when = dt.datetime(2000, 1, 1) + dt.timedelta(
            days=rng.randrange(-9000, 9000), seconds=rand_sec(rng),
            microseconds=rng.choice([0, 999999, rng.randrange(10**6)]))
        pick = rng.randrange(6)
        if pick == 0:
            ask('deg2hr', degs, 0, 24, 24, ocb_time.deg2hr)
        elif pick == 1:
            mn, mx = rng.choice([(-180.0, 360.0), (0.0, 360.0), (0, 180),
                                 (-180.0, 180.0), (-90.0, 90.0), (0.0, 400.0)])
            if (mn, mx) == (-180.0, 360.0) and rng.random() < 0.7:
                ask('hr2deg', hours, mn, mx, 360, ocb_time.hr2deg)
            else:
                ask('hr2deg', hours, mn, mx, 360, ocb_time.hr2deg, mn, mx)
        elif pick == 2:
            mx = rng.choice([pi2, np.pi, 1.0])
            if mx == pi2 and rng.random() < 0.5:
                ask('hr2rad', hours, 0.0, mx, pi2, ocb_time.hr2rad)
            else:
                ask('hr2rad', hours, mx - pi2, mx, pi2, ocb_time.hr2rad, mx)
        elif pick == 3:
            ask('rad2hr', rads, 0, 24, 24, ocb_time.rad2hr)
        elif pick == 4:
            ask('slt2glon', hours, -180, 360, 360, ocb_time.slt2glon, ut=when)
        elif pick == 5:
            ask('glon2slt', degs, 0, 24, 24, ocb_time.glon2slt, ut=when)

        # And back
        pick = rng.randrange(6)
        if pick == 0:
            ask('back', hours, 0, 24, 24,
                lambda val: ocb_time.deg2hr(ocb_time.hr2deg(val)))
        elif pick == 1:
            ask('back', hours, 0, 24, 24,
                lambda val: ocb_time.rad2hr(ocb_time.hr2rad(val)))
        elif pick == 2:
            ask('back', degs, -180, 360, 360,
                lambda val: ocb_time.hr2deg(ocb_time.deg2hr(val)))
        elif pick == 3:
            ask('back', hours, 0, 24, 24, lambda val: ocb_time.glon2slt(
                ocb_time.slt2glon(val, when), when))
        elif pick == 4:
            ask('back', degs, -180, 360, 360, lambda val: ocb_time.slt2glon(
                ocb_time.glon2slt(val, when), when))
        elif pick == 5:
            ask('back', rads, 0, pi2, pi2,
                lambda val: ocb_time.hr2rad(ocb_time.rad2hr(val)))
        res, exc = fw.call(ocb_time.datetime2hr, when)
        group.append({'k': 'uth', 'exc': exc or '', 'ut': triple(when),
                      'out': [0, 0] if exc else fw.R(res)})
        if rng.random() < 0.2:
            bad = rng.choice([(1.0, 1.0), (2.0, 1.0), (0, 24, 0),
                              (0.0, 24.0, -24.0)])
            res, exc = fw.call(ocb_time.fix_range, 3.0, *bad)
            group.append({'k': 'badrange', 'exc': exc or ''})
        groups.append(group)
    return groups


def check_ranges(chk):
    rng = random.Random(chk.seed)
    em = chk.model('MCRange', 'CONSTANTS Width = {:d} EmitMod = {:d}\n'
                   'SPECIFICATION Spec\nINVARIANTS RangeLaw Congruent '
                   'Idempotent Unique Turns JudgeLaw Emit\n'
                   'CHECK_DEADLOCK FALSE\n'.format(*chk.n((5, 7), (9, 5))),
                   workers=7)
    sces = [dict(ee, seed=i) for i, ee in enumerate(em)]
    chk.notes['behaviours_replayed'] = len(sces)
    sces += [{'seed': rng.randrange(10**9)} for i in range(chk.n(12000, 60000))]
    chk.judge('TraceTimes', 'JudgeRange', chk.execute(run_range, sces))
