"""Make boundary files and boundary objects in the scratch directory."""
import os
import datetime as dt

import fw


def write_image(path, recs):
    """recs: dicts with t (s from 2000) and phi_cent, r_cent, r, fom, ..."""
    with open(path, 'w') as fout:
        for rec in recs:
            time = fw.at(rec['t'])
            soy = (time - dt.datetime(time.year, 1, 1)).total_seconds()
            fout.write('{:d} {:d} {:d} {!r} {!r} {!r} {!r} {!r} {!r}\n'.format(
                time.year, int(soy), int(rec.get('num_sectors', 4)),
                float(rec.get('phi_cent', 0.0)), float(rec.get('r_cent', 0.0)),
                float(rec.get('r', 15.0)), float(rec.get('a', 1.0)),
                float(rec.get('r_err', 0.1)), float(rec.get('fom', 1.0))))
    return path


class Maker(object):
    """Build boundary objects through the public constructors."""

    def __init__(self, chk, ocbpy):
        self.chk = chk
        self.ocbpy = ocbpy
        self.n = 0

    def path(self, suffix='.ocb'):
        self.n += 1
        return os.path.join(self.chk.dir, 'b{:d}_{:d}{:s}'.format(
            os.getpid(), self.n, suffix))

    def bound(self, recs, hemi=1, blat=None, eab=False, rfunc=None,
              rfunc_kwargs=None):
        path = write_image(self.path('.eab' if eab else '.ocb'), recs)
        cls = self.ocbpy.EABoundary if eab else self.ocbpy.OCBoundary
        kwargs = {} if blat is None else {'boundary_lat': blat}
        out = cls(path, instrument='image', hemisphere=hemi, rfunc=rfunc,
                  rfunc_kwargs=rfunc_kwargs, **kwargs)
        os.remove(path)
        return out
