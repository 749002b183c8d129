"""objects built and driven through the abstract interpreter: construction sites in /verif/witness, members by name"""
from formulas import *


class World(Arrays):
    def make(self, site, *args):
        fn = free(self.ck, 'verif_witness::' + site, len(args))
        r = self.call(fn, [c(a) for a in args])
        if not isinstance(r, Ptr) or r.loc is None:
            raise AnalysisBroken('construction site %s' % site)
        return r.loc

    def m(self, cls, loc, name, *args):
        fn = self.ck.p.method(cls, name, len(args))
        if fn is None:
            raise AnalysisBroken('%s::%s' % (cls, name))
        return self.call(fn, [c(a) for a in args], Ref(loc, cls))

    def field(self, loc, f, t='unsigned int'):
        f = f if type(f) is tuple else (f,)
        return self.I.read(self.st, (loc[0], loc[1] + f), t)

    def drain(self, *names):
        """events with these names since the last call"""
        ev = [e for e in self.I.events if e.name in names]
        self.I.events.clear()
        return ev


def c(a):
    return Poly.const(a) if isinstance(a, int) and not isinstance(a, bool) else a


def add_param_types(fn):
    return [q['t'] for q in fn['params']]
