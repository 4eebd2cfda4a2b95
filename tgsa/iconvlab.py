"""Typestate of conversion descriptors and of the buffers of a conversion, followed through the abstract interpretation.
g['opn']: descriptors that are open; g['shift']: state of the descriptor (dirty: after an earlier conversion, initial,
used: after text, end: after the final sequence); g['pend']: outcome of the last call to be dealt with;
g['bad']: an invalid sequence was found and not reported yet; root END: where the last output ended, INPOS: where the input
goes on, ROOM: where the room ended when it did not suffice."""
from .lab import *
from .mgrlab import vals
from .models import BADCD

END, INPOS, ROOM = (mk('L', 'ghost', n) for n in ('end', 'inpos', 'room'))


def split_ptr(p):
    """pointer into a text or array -> (where, index)"""
    if p.op == '.i':
        return p.a[0], p.a[1]
    return None, None


def norm(t):
    d, c = lform(t)
    if not d:
        return I(c)
    if len(d) == 1 and list(d.values()) == [1]:
        return addc(list(d)[0], c)
    return t


class IClient(Client):
    wants_loops = True

    def __init__(self):
        self.ops = []

    def ev(self, ip, kind, st, e, *more):
        ip.event('iconv', kind, st.copy(), ip.where(e), ip.trace(), more)

    def on_icall(self, ip, e, st, fp, args):
        if fp.op == 'y' and isinstance(fp.a[1], tuple) and fp.a[1] and fp.a[1][0] == 'callback':
            if fp.a[1][1].endswith('log_error_callback'):
                st.g.pop('bad', None)
            return [(st, ZERO)]
        return None

    def one_step(self, st, inp):
        if inp:
            return None if st.g.get('conv') else 1
        return 2 if self.one == 1 else None

    def zeros(self, s):
        return not s.op == 's'

    def on_assert(self, ip, st, e):
        self.ev(ip, 'assert', st, e)

    def is_open(self, st, cd):
        """True, False, None"""
        opn = st.g.get('opn', ())
        if any(c is cd for c in opn):
            return True
        if st.is_null(cd) or cd is BADCD:
            return False
        if any(c is cd for c in st.g.get('shut', ())):
            return False
        return None

    def on_iconv(self, ip, what, st, cd, args, e):
        if what == 'open':
            opn = st.g.get('opn', ())
            if len(opn) < 3:
                st.g['opn'] = opn + (cd,)
            st.g['shift'] = 'initial'
            self.ev(ip, 'open', st, e, args)
            return
        if what == 'openfail':
            return
        if what == 'close':
            self.ev(ip, 'close', st, e, self.is_open(st, cd), cd)
            st.g['opn'] = tuple(c for c in st.g.get('opn', ()) if c is not cd)
            st.g['shut'] = tuple(dict.fromkeys(st.g.get('shut', ())[-3:] + (cd,)))
            return
        if what == 'call':
            self.ev(ip, 'use', st, e, self.is_open(st, cd), cd)
            self.one = st.g.pop('one', None)
            self.before_call(ip, st, args, e)
            return
        self.after_call(ip, what[5:], st, args, e)

    # ---------------------------------------------------------------- conversion
    def before_call(self, ip, st, args, e):
        inp, inl, outp, outl = args
        self.limit = None
        if inp is not None:
            x = st.g.get('shift', 'dirty')
            self.ev(ip, 'start', st, e, True if x in ('initial', 'used') else False, x)
            base, i = split_ptr(ip.read(st, inp))
            n = ip.read(st, inl)
            self.ev(ip, 'input', st, e, base, i, n, st.store.get(INPOS, ZERO))
        if outp is not None:
            base, i = split_ptr(ip.read(st, outp))
            n = ip.read(st, outl)
            if i is not None:
                self.limit = norm(add(i, n))
            buf = None if base is None else ip.read(st, base)
            self.ev(ip, 'output', st, e, base, i, n, buf, st.store.get(END, ZERO), st.store.get(ROOM) if st.g.get('pend') == 'toobig' else None)

    def after_call(self, ip, tag, st, args, e):
        inp, outp = args
        if inp is None and outp is None:
            st.g['shift'] = 'initial'
            return
        if outp is not None:
            base, i = split_ptr(ip.read(st, outp))
            if i is not None:
                st.store[END] = i
        if inp is not None:
            base, i = split_ptr(ip.read(st, inp))
            if i is not None:
                st.store[INPOS] = i
            st.g['shift'] = 'used'
            st.g['conv'] = True
        elif tag == 'ok':
            st.g['shift'] = 'end'
        st.g['pend'] = tag
        if tag in ('illegal', 'incomplete'):
            st.g['bad'] = True
            st.g['invalid'] = True
        if tag == 'toobig' and self.limit is not None:
            st.store[ROOM] = self.limit
        else:
            st.store[ROOM] = ZERO


class IconvLab(Lab):
    def __init__(self, prog):
        self.c = IClient()
        Lab.__init__(self, prog, self.c)
        self.cls = NS + 'IConv'
        self.O = self.obj('converter', 'IConv')
        self.fld = [x['name'] for x in prog.fields(self.cls) if x['t'].k == 'ptr']

    def texts(self, st):
        return [self.ip.read(st, a) if a.op in LOCOPS else a for a in self.args]

    def shape(self, kind):
        """an object that has no descriptor ('none') or an open one ('open')"""
        st = self.st0.copy()
        v = self.ip.read(st, self.O)
        cd = fget(v, self.fld[0], 'p')
        if kind == 'none':
            if not st.assume(IsNull(cd), True):
                return None, None
            return st, None
        st.P[IsNull(cd)] = False
        x, y = (cd, BADCD) if cd.id < BADCD.id else (BADCD, cd)
        st.P[mk('ptreq', x, y)] = False
        st.g['opn'] = (cd,)
        st.g['shift'] = 'dirty'
        return st, cd
