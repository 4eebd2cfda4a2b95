"""One function at a time: calls of other functions of the library may do anything to what they can reach."""
from .entry import *
from .terms import *
from .state import *
from .interp import Client, _fresh_n


class Modular(Client):
    """keep(f): is the function f followed?"""
    def __init__(self, keep):
        self.keep = keep

    def intercept(self, ip, f, obj, args, st, e):
        d = ip.prog.funcs.get(f['m'])
        if d is None or self.keep(d) or f['q'].endswith('(lambda)::operator()'):
            return None
        if f.get('defaulted') or f['q'].endswith('::(dtor)'):
            return None
        if e.get('e') == 'ctor':
            t = e['t']
            return [(st, ip.symval(t, ('made', f['q'], _fresh_n())))]
        if obj is not None and not f.get('const'):
            self.forget(ip, st, obj, None)
        for a, t in zip(args, f.get('pt', [])):
            if t.k in ('ref', 'ptr') and t.to is not None and not t.to.const and a.op in LOCOPS:
                self.forget(ip, st, a, t.to)
        self.called(ip, f, st, e)
        return [(st, self.result(ip, f, st, e))]

    def called(self, ip, f, st, e):
        ip.raise_(st.copy(), 'std::runtime_error', None, e)

    def forget(self, ip, st, loc, ty):
        ip.havoc(st, loc, 'call')

    def result(self, ip, f, st, e):
        t = e['t']
        if t.k == 'void':
            return ZERO
        if e.get('lv'):
            loc = mk('deref', fresh('p', f['q']))
            ip.root_ty[loc] = t
            return loc
        return ip.symval(t, ('result', f['q'], _fresh_n()))
