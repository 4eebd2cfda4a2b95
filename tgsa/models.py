"""What the standard library (and iconv) do to abstract values.

Strings, vectors, deques, maps and streams are terms (see terms.py); iterators
are positions in the container they belong to.  A call that is not modelled
yields unknown values and marks the state as imprecise: nothing is reported
from such a state."""
from .terms import *
from . import concrete
from .terms import mins
from .state import *

SEQ = {'std::vector', 'std::deque', 'std::array', 'std::initializer_list', 'std::list'}
STR = {'std::basic_string', 'std::basic_string_view'}
MAP = {'std::unordered_map', 'std::map'}
SET = {'std::set', 'std::unordered_set'}
UPTR = {'std::unique_ptr', 'std::shared_ptr'}
MAPITER = {'std::__detail::_Node_const_iterator', 'std::__detail::_Node_iterator', 'std::_Rb_tree_iterator',
           'std::_Rb_tree_const_iterator', 'std::__detail::_Node_iterator_base'}
SEQITER = {'__gnu_cxx::__normal_iterator', 'std::_Deque_iterator', 'std::_List_iterator', 'std::_List_const_iterator'}
RIT = {'std::reverse_iterator'}
ITERS = MAPITER | SEQITER | RIT
OSTR = {'std::basic_ostringstream', 'std::basic_stringstream'}
OSTREAMS = OSTR | {'std::basic_ostream', 'std::basic_ofstream'}
ISTREAMS = {'std::basic_istream', 'std::basic_ifstream', 'std::basic_istringstream', 'std::basic_ios', 'std::basic_fstream'}
ISF = ('pos', 'len', 'fail', 'eof')

E2BIG, EILSEQ, EINVAL, ENOMEM = 7, 84, 22, 12
ERRNO = mk('L', 'errno', 0)
BADCD = mk('int2ptr', I(-1))

# base classes of library exceptions
EXC = {
    'std::runtime_error': 'std::exception', 'std::logic_error': 'std::exception', 'std::bad_alloc': 'std::exception',
    'std::out_of_range': 'std::logic_error', 'std::length_error': 'std::logic_error',
    'std::invalid_argument': 'std::logic_error', 'std::domain_error': 'std::logic_error',
    'std::range_error': 'std::runtime_error', 'std::overflow_error': 'std::runtime_error',
    'std::system_error': 'std::runtime_error', 'std::ios_base::failure': 'std::system_error',
    'std::filesystem::filesystem_error': 'std::system_error', 'std::bad_cast': 'std::exception',
    'std::bad_function_call': 'std::exception',
}


def Contains(s, x, p):
    return mk('contains', s, x, p)


class Models(object):
    def __init__(self, ip):
        self.ip = ip

    # ------------------------------------------------------------ values
    def symlib(self, ty, name):
        n = ty.name
        if n in ISTREAMS:
            return rec('istream', ISF, (mk('y', 'u', name + ('pos',), 0), mk('y', 'u', name + ('len',), 0),
                                        mk('y', 'b', name + ('fail',), 0), mk('y', 'b', name + ('eof',), 0)))
        if n in UPTR:
            return mk('y', 'p', name, 0)
        if n == 'std::optional':
            return rec('std::optional', ('has', 'val'), (mk('y', 'b', name + ('has',), 0), self.ip.symval(ty.args[0], name + ('val',)) if ty.args else ZERO))
        if n == 'std::pair' and len(ty.args) >= 2:
            return rec('std::pair', ('first', 'second'), (self.ip.symval(ty.args[0], name + ('first',)), self.ip.symval(ty.args[1], name + ('second',))))
        if n in ITERS:
            return mk('y', 'p', name, 0)
        return mk('y', 'o', name, 0)

    def deflib(self, ty):
        n = ty.name
        if n in STR or n in OSTR:
            return S(b'')
        if n in SEQ:
            return mk('vec')
        if n in MAP:
            return mk('map0')
        if n in SET:
            return mk('set0')
        if n in UPTR:
            return ZERO
        if n in ISTREAMS:
            return rec('istream', ISF, (ZERO, fresh('u', 'len'), FALSE, FALSE))
        if n == 'std::optional':
            return rec('std::optional', ('has', 'val'), (FALSE, ZERO))
        if n == 'std::function':
            return ZERO
        if n == 'std::pair' and len(ty.args) >= 2:
            return rec('std::pair', ('first', 'second'), (self.ip.defval(ty.args[0]), self.ip.defval(ty.args[1])))
        return mk('y', 'o', ('default', n), 0)

    def destroy_lib(self, st, loc, ty):
        if ty.name == 'std::unique_ptr' and self.ip.client is not None:
            p = self.ip.read(st, loc, ty)
            self.ip.client.on_delete(self.ip, st, p, {'uptr': True})
        return [st]

    def catches(self, h, thrown):
        if h is None:
            return True
        n = h.rec() or h.s
        t = thrown
        seen = 0
        while t and seen < 20:
            if t == n:
                return True
            if t in EXC:
                t = EXC[t]
            elif t in self.ip.prog.records:
                bs = self.ip.prog.records[t].get('bases') or []
                t = bs[0] if bs else None
            elif t.startswith('std::') and t != 'std::exception':
                t = 'std::exception'
            else:
                t = None
            seen += 1
        return False

    # ------------------------------------------------------------ helpers
    def val(self, st, x, t=None):
        """value of an argument: parameters that are references got a location"""
        if t is not None and t.k != 'ref':
            return x
        if x.op in LOCOPS:
            return self.ip.read(st, x, t.to if t is not None else None)
        return x

    def text(self, st, v, t, e):
        """content of a string or const char* argument; None: null pointer"""
        if t is not None and t.k == 'ref':
            v = self.ip.read(st, v, t.to)
            t = t.to
        if t is not None and t.k in ('ptr', 'arr'):
            return self.content(st, v, e)
        if v.op in LOCOPS:
            v = self.ip.read(st, v, t)
        return v

    def content(self, st, p, e):
        ip = self.ip
        if p.op == '.i':
            s = ip.read(st, p.a[0])
            if s.op == 'vec' and p.a[2] != 'c':
                return mk('content', p)
            if p.a[1] is ZERO:
                return s
            return self.substr(st, s, p.a[1], size(s))
        if kind(p) == 'o':
            return p
        n = st.is_null(p)
        w = ip.where(e)
        if n is True:
            ip.event('oblig', 'null', w, 'bad', 'null pointer used as text', ip.trace(), st.imp)
            return None
        ip.event('oblig', 'null', w, 'ok' if n is False else 'maybe', 'pointer %s used as text may be null' % show(p), ip.trace(), st.imp, None if n is False else (st.copy(), p, None))
        if n is None and not st.assume(IsNull(p), False):
            return None
        if p.op in LOCOPS:
            return mk('content', p)
        return mk('content', p)

    def substr(self, st, s, a, e):
        d = sub(e, a)
        if d.op in ('sub2', '+') or d.op == 'add':
            self.ip.sub_facts(st, d, e, a)
        r = substr(s, a, e)
        return r

    def num(self, st, v, lo=None, hi=None):
        if lo is not None:
            st.add_le(I(lo), v)
        if hi is not None:
            st.add_le(v, hi)
        return v

    def unknown(self, e, f, st, obj, args, xs):
        ip = self.ip
        ip.imprecise(st, 'library call %s at %s' % (f['q'], ip.where(e)))
        pts = f.get('pt', [])
        if obj is not None and not f.get('const'):
            ip.havoc(st, obj, f['q'])
        for a, t in zip(args, pts):
            if t.k in ('ref', 'ptr') and t.to is not None and not t.to.const and a.op in LOCOPS:
                ip.havoc(st, a, f['q'])
        t = e['t']
        if t.k == 'void':
            return [(st, ZERO)]
        if e.get('lv'):
            loc = mk('deref', fresh('p', f['q']))
            ip.root_ty[loc] = t
            return [(st, loc)]
        from .interp import _fresh_n
        return [(st, ip.symval(t, ('lib', f['q'], _fresh_n())))]

    def fork(self, st, t):
        return self.ip.split(st, t)

    def throw(self, st, name, e):
        self.ip.raise_(st, name, None, e)

    # ------------------------------------------------------------ constructors
    def ctor(self, e, st):
        ip = self.ip
        out = []
        for s, args in ip.evs(e['a'], st):
            if ip.client is not None:
                ip.client.on_lib(ip, e, e['f'], s, None, args)
                r = ip.client.intercept(ip, e['f'], None, args, s, e)
                if r is not None:
                    out += r
                    continue
            out += self.ctor1(e, s, args)
        return out

    def ctor1(self, e, s, args):
        ip = self.ip
        ty = e['t']
        n = ty.name
        f = e['f']
        pt = f.get('pt', [])
        k = e.get('kind')
        if k in ('copy', 'move') and args:
            v = self.val(s, args[0], pt[0] if pt else None)
            if k == 'move' and args[0].op in LOCOPS:
                self.moved(s, args[0], ty)
            return [(s, v)]
        if not args or k == 'default':
            return [(s, self.deflib(ty))]
        if n in STR:
            t0 = pt[0]
            if t0.k == 'ptr':
                c = self.content(s, args[0], e)
                if c is None:
                    return []
                if len(args) >= 2 and pt[1].k == 'int':
                    n2 = args[1]
                    if s.ev_eq(n2, size(c)):
                        return [(s, c)]
                    return [(s, substr(c, ZERO, n2))] if s.le(n2, size(c)) else [(s, mk('resize', c, n2, ZERO))]
                return [(s, c)]
            if t0.k == 'int' and len(args) >= 2:
                return [(s, mk('rep', args[0], args[1]))]
            if t0.k == 'ref' and (t0.to.name in STR):
                v = self.val(s, args[0], t0)
                if len(args) >= 2 and pt[1].k == 'int':
                    cnt = args[2] if len(args) > 2 and pt[2].k == 'int' else NPOS
                    return self.string_sub(e, s, v, args[1], cnt)
                return [(s, v)]
            if len(args) >= 2:
                a, b = self.val(s, args[0], t0), self.val(s, args[1], pt[1])
                if a.op == 'it' and b.op == 'it' and a.a[0] is b.a[0]:
                    v = ip.read(s, a.a[0])
                    return [(s, self.substr(s, v, a.a[1], b.a[1]))]
            if t0.k == 'ref':
                v = self.val(s, args[0], t0)
                return [(s, v)]
            if t0.k == 'rec' and t0.name in STR:
                return [(s, args[0])]
        if n in SEQ:
            t0 = pt[0]
            if t0.k == 'int':
                x = self.val(s, args[1], pt[1]) if len(args) > 1 and pt[1].k == 'ref' and pt[1].to.name != 'std::allocator' else ip.defval(ty.args[0] if ty.args else NOTY_)
                return [(s, mk('resize', mk('vec'), args[0], x))]
            if t0.k == 'rec' and t0.name == 'std::initializer_list':
                return [(s, args[0])]
            if t0.k == 'ref':
                return [(s, self.val(s, args[0], t0))]
        if n in ITERS:
            v = self.val(s, args[0], pt[0])
            return [(s, v)]
        if n in UPTR:
            t0 = pt[0]
            if t0.k in ('ptr', 'nullptr'):
                return [(s, args[0])]
            if t0.k == 'ref':
                v = self.val(s, args[0], t0)
                self.moved(s, args[0], ty)
                return [(s, v)]
        if n in OSTR:
            v = self.text(s, args[0], pt[0], e)
            return [(s, v if v is not None and kind(v) == 'o' else S(b''))]
        if n in ('std::basic_ifstream', 'std::basic_istringstream', 'std::basic_fstream'):
            ip.event('fs', f['q'], ip.where(e), ip.trace())
            from .interp import _fresh_n
            return [(s, self.symlib(ty, ('stream', _fresh_n())))]
        if n == 'std::pair' and len(args) == 2:
            return [(s, rec('std::pair', ('first', 'second'), (self.val(s, args[0], pt[0]), self.val(s, args[1], pt[1]))))]
        if n == 'std::optional':
            return [(s, rec('std::optional', ('has', 'val'), (TRUE, self.val(s, args[0], pt[0]))))]
        if n == 'std::function':
            return [(s, self.val(s, args[0], pt[0]))]
        if n == 'std::filesystem::path' and pt and (pt[0].k == 'ref' and (pt[0].to.is_string() or pt[0].to.k in ('ptr', 'arr')) or pt[0].k in ('ptr', 'arr')):
            return [(s, mk('path', self.text(s, args[0], pt[0], e)))]
        if n.startswith('std::filesystem::'):
            ip.event('fs', f['q'], ip.where(e), ip.trace())
            if 'iterator' in n and any(t.k == 'ref' and 'path' in t.to.name for t in pt):
                if not any('error_code' in (t.to.name if t.k == 'ref' else '') for t in pt):
                    self.throw(s.copy(), 'std::filesystem::filesystem_error', e)
            return [(s, fresh('o', n))]
        if n.startswith('std::') and (n in EXC or n == 'std::exception'):
            return [(s, mk('y', 'o', ('exception', n), 0))]
        if n in ('std::allocator', 'std::initializer_list', 'std::locale') or n in FUNCTORS:
            return [(s, fresh('o', n))]
        # any other class
        ip.imprecise(s, 'constructor of %s at %s' % (n, ip.where(e)))
        return [(s, fresh('o', n))]

    def moved(self, s, loc, ty):
        if loc.op not in LOCOPS:
            return
        if ty.name in UPTR:
            self.ip.write(s, loc, ZERO)

    # ------------------------------------------------------------ calls
    def call(self, e, f, st, obj, args, xs):
        ip = self.ip
        q = f['q']
        if ip.client is not None:
            ip.client.on_lib(ip, e, f, st, obj, args)
        cls, _, nm = q.rpartition('::')
        m = None
        if obj is not None:
            if cls in STR:
                m = STRM.get(nm)
            elif cls in SEQ:
                m = SEQM.get(nm)
            elif cls in MAP:
                m = MAPM.get(nm)
            elif cls in SET:
                m = SETM.get(nm)
            elif cls in ITERS:
                m = ITM.get(nm)
            elif cls in UPTR:
                m = UPM.get(nm)
            elif cls in OSTREAMS or cls in ISTREAMS:
                m = STREAMM.get(nm)
            elif cls == 'std::optional':
                m = OPTM.get(nm)
            elif cls.startswith('std::filesystem'):
                m = Models.m_fs
            elif nm == 'what' and cls in EXC or q == 'std::exception::what':
                m = Models.m_what
            elif nm == 'operator()' and cls in FUNCTORS:
                return self.functor(e, f, st, args, FUNCTORS[cls])
            elif cls == 'std::function' and nm == 'operator()':
                return ip.call_ptr(e, st, ip.read(st, obj), args)
        else:
            m = FREE.get(q)
            if m is None and nm.startswith('operator'):
                m = FREEOP.get(nm)
            if m is None and cls.startswith('std::filesystem'):
                m = Models.m_fs
        if m is None:
            return self.unknown(e, f, st, obj, args, xs)
        r = m(self, e, f, st, obj, args, f.get('pt', []))
        if r is None:
            return self.unknown(e, f, st, obj, args, xs)
        return r

    def functor(self, e, f, st, args, op):
        ip = self.ip
        vs = []
        for a, t in zip(args, f.get('pt', [])):
            if self.is_text(t):
                vs.append(a)
            else:
                vs.append(self.val(st, a, t))
        if op == 'hash':
            return [(st, mk('fldn', vs[0], 'hash' if kind(vs[0]) == 'o' else 'ptr2int', 'u'))]
        return self.relation(st, op, vs[0], vs[1])

    def relation(self, st, op, x, y):
        """x op y for two values of any kind -> [(state, condition)]"""
        ip = self.ip
        if op in ('==', '!='):
            if x.op == 'rec' and y.op == 'rec' and x.a[0] in TUPLE and y.a[0] in TUPLE and len(x.a[2]) == len(y.a[2]):
                out = []
                s = st
                for a, b in zip(x.a[2], y.a[2]):
                    (s, c), = self.relation(s, '==', a, b)
                    t, s2 = self.fork(s, c)
                    if s2 is not None:
                        out.append((s2, TRUE if op == '!=' else FALSE))
                    if t is None:
                        return out
                    s = t
                out.append((s, FALSE if op == '!=' else TRUE))
                return out
            if kind(x) == 'p' or kind(y) == 'p':
                c = ip.ptr_eq(st, x, y)
            elif kind(x) in 'ncb' and kind(y) in 'ncb':
                c = Eq(x, y)
            else:
                c = Eqs(x, y)
            return [(st, c if op == '==' else Not(c))]
        if op == '>':
            return self.relation(st, '<', y, x)
        if op == '>=':
            return [(s, Not(c)) for s, c in self.relation(st, '<', x, y)]
        if op == '<=':
            return [(s, Not(c)) for s, c in self.relation(st, '<', y, x)]
        if x.op == 'rec' and y.op == 'rec' and x.a[0] in TUPLE and y.a[0] in TUPLE and len(x.a[2]) == len(y.a[2]):
            out = []
            s = st
            n = len(x.a[2])
            for i, (a, b) in enumerate(zip(x.a[2], y.a[2])):
                (s, c), = self.relation(s, '<', a, b)
                if i == n - 1:
                    out.append((s, c))
                    return out
                t, s = self.fork(s, c)
                if t is not None:
                    out.append((t, TRUE))
                if s is None:
                    return out
                (s, c), = self.relation(s, '==', a, b)
                s, t = self.fork(s, c)
                if t is not None:
                    out.append((t, FALSE))
                if s is None:
                    return out
            return [(st, FALSE)]
        if kind(x) == 'p' or kind(y) == 'p':
            return [(st, mk('lt', x, y))]
        if kind(x) in 'ncb' and kind(y) in 'ncb':
            return [(st, ip.compare('<', x, y))]
        return [(st, Slt(x, y))]

    # ---- strings
    def s_size(self, e, f, st, obj, args, pt):
        return [(st, size(self.ip.read(st, obj)))]

    def s_empty(self, e, f, st, obj, args, pt):
        return [(st, Eq(size(self.ip.read(st, obj)), ZERO))]

    def s_cstr(self, e, f, st, obj, args, pt):
        return [(st, mk('.i', obj, ZERO, 'c'))]

    def s_index(self, e, f, st, obj, args, pt):
        ip = self.ip
        s = ip.read(st, obj)
        i = args[0]
        n = size(s)
        if f['q'].endswith('::at'):
            return self.at_checked(e, st, obj, i, n, 'c')
        ip.check_index(st, e, i, addc(n, 1) if 'view' not in f['q'] else n, 'character of a string')
        if not st.add_le(i, n):
            return []
        c = ip.select(st, s, i, 'c')
        if c.op != 'i' and st.le(n, i):
            st.set_mask(c, 1)
        return [(st, mk('.i', obj, i, 'c'))]

    def at_checked(self, e, st, obj, i, n, kd):
        a, b = self.fork(st, Lt(i, n))
        if b is not None:
            self.oor(b, e, 'at()')
        if a is None:
            return []
        return [(a, mk('.i', obj, i, kd))]

    def oor(self, st, e, what):
        """std::out_of_range"""
        ip = self.ip
        ip.event('oblig', 'range', ip.where(e), 'maybe', '%s may throw std::out_of_range' % what, ip.trace(), st.imp, (st.copy(), None, None))
        self.throw(st, 'std::out_of_range', e)

    def s_begin(self, e, f, st, obj, args, pt):
        return [(st, mk('it', obj, ZERO))]

    def s_end(self, e, f, st, obj, args, pt):
        return [(st, mk('it', obj, size(self.ip.read(st, obj))))]

    def s_rbegin(self, e, f, st, obj, args, pt):
        return [(st, mk('rit', obj, ZERO))]

    def s_rend(self, e, f, st, obj, args, pt):
        return [(st, mk('rit', obj, size(self.ip.read(st, obj))))]

    def s_clear(self, e, f, st, obj, args, pt):
        self.ip.write(st, obj, S(b''))
        return [(st, ZERO)]

    def piece(self, st, v, t, e):
        """text that is appended"""
        if t.k == 'ref' and t.to.k == 'int':
            v = self.ip.read(st, v, t.to)
            t = t.to
        if t.k == 'int' and t.char:
            return S(bytes([v.a[0] & 255])) if v.op == 'i' else mk('chr', v)
        if t.k in ('int', 'bool', 'enum'):
            return S(str(v.a[0])) if v.op == 'i' else mk('numstr', v)
        if t.k == 'func' or t.k == 'ptr' and t.to.k == 'func' or v.op == 'fn':
            return S(b'\n')
        if t.k in ('rec', 'ptr', 'arr', 'ref'):
            return self.text(st, v, t, e)
        return fresh('o', 'text')

    def s_append(self, e, f, st, obj, args, pt):
        if len(args) >= 2 and f['q'].endswith('append'):
            if pt[0].k == 'int':
                x = mk('rep', args[0], args[1])
            elif pt[0].k == 'ptr' and pt[1].k == 'int':
                c = self.content(st, args[0], e)
                if c is None:
                    return []
                x = c if st.ev_eq(args[1], size(c)) else substr(c, ZERO, args[1])
            elif pt[1].k == 'int':
                v = self.val(st, args[0], pt[0])
                cnt = args[2] if len(args) > 2 else NPOS
                out = []
                for s, x in self.string_sub(e, st, v, args[1], cnt):
                    self.append(s, obj, x, e)
                    out.append((s, obj))
                return out
            else:
                a, b = self.val(st, args[0], pt[0]), self.val(st, args[1], pt[1])
                if a.op == 'it' and b.op == 'it' and a.a[0] is b.a[0]:
                    x = self.substr(st, self.ip.read(st, a.a[0]), a.a[1], b.a[1])
                else:
                    return None
        else:
            x = self.piece(st, args[0], pt[0], e)
            if x is None:
                return []
        self.append(st, obj, x, e)
        return [(st, obj)]

    def append(self, st, obj, x, e):
        ip = self.ip
        old = ip.read(st, obj)
        if ip.client is not None:
            ip.client.on_append(ip, st, obj, old, x, e)
        ip.write(st, obj, cat(old, x))

    def s_pushback(self, e, f, st, obj, args, pt):
        x = self.piece(st, args[0], pt[0], e)
        self.append(st, obj, x, e)
        return [(st, ZERO)]

    def s_popback(self, e, f, st, obj, args, pt):
        s = self.ip.read(st, obj)
        n = size(s)
        self.need_nonempty(st, n, e, 'pop_back')
        self.ip.write(st, obj, self.substr(st, s, ZERO, addc(n, -1)))
        return [(st, ZERO)]

    def need_nonempty(self, st, n, e, what):
        ip = self.ip
        ip.check_index(st, e, ZERO, n, what)
        st.add_le(ONE, n)

    def s_assign(self, e, f, st, obj, args, pt):
        if len(args) != 1:
            if len(args) == 2 and pt[0].k == 'int':
                self.ip.write(st, obj, mk('rep', args[0], args[1]))
                return [(st, obj)]
            if len(args) >= 2 and pt[0].k == 'ref' and pt[1].k == 'int':
                out = []
                for s, x in self.string_sub(e, st, self.val(st, args[0], pt[0]), args[1], args[2] if len(args) > 2 else NPOS):
                    self.ip.write(s, obj, x)
                    out.append((s, obj))
                return out
            if len(args) == 2:
                a, b = self.val(st, args[0], pt[0]), self.val(st, args[1], pt[1])
                if a.op == 'it' and b.op == 'it' and a.a[0] is b.a[0]:
                    self.ip.write(st, obj, self.substr(st, self.ip.read(st, a.a[0]), a.a[1], b.a[1]))
                    return [(st, obj)]
            return None
        x = self.piece(st, args[0], pt[0], e) if pt[0].k != 'ref' else self.val(st, args[0], pt[0])
        if x is None:
            return []
        self.ip.write(st, obj, x)
        return [(st, obj)]

    def string_sub(self, e, st, s, p, n):
        """s.substr(p, n) -> [(state, value)]"""
        ip = self.ip
        z = size(s)
        ok = st.le(p, z)
        ip.event('oblig', 'range', ip.where(e), 'ok' if ok else 'bad' if st.le(z, p, -1) else 'maybe',
                 '' if ok else 'substring from %s: not shown to lie within the string (length %s)' % (show(p), show(z)),
                 None if ok else ip.trace(), st.imp, None if ok else (st.copy(), p, addc(z, 1)))
        if not ok:
            a, b = self.fork(st, Le(p, z))
            if b is not None:
                self.throw(b, 'std::out_of_range', e)
            if a is None:
                return []
            st = a
        if n is NPOS:
            return [(st, self.substr(st, s, p, z))]
        rest = sub(z, p)
        if rest.op != 'i':
            ip.sub_facts(st, rest, z, p)
        x = add(p, n)
        nb, nc = lin(n.a[0]) if n.op == 'wrap' else (None, 0)
        if nb is not None and nb.op == 'sub2' and st.le(addc(nb.a[0], nc + 1), nb.a[1]):
            # below zero: huge
            return [(st, self.substr(st, s, p, z))]
        if x.op != 'i' and lin(x)[0].op not in ('add', 'wrap') and lin(n)[0] is not None:
            a, b = self.fork(st, Le(x, z))
        else:
            a, b = self.fork(st, Le(n, rest))
        out = []
        if a is not None:
            if x.op != 'i' and lin(x)[0].op == 'add':
                ip.add_facts(a, x, p, n)
                a.add_le(x, z)
            out.append((a, self.substr(a, s, p, x)))
        if b is not None:
            out.append((b, self.substr(b, s, p, z)))
        return out

    def s_substr(self, e, f, st, obj, args, pt):
        s = self.ip.read(st, obj)
        return self.string_sub(e, st, s, args[0] if args else ZERO, args[1] if len(args) > 1 else NPOS)

    def s_compare(self, e, f, st, obj, args, pt):
        ip = self.ip
        s = ip.read(st, obj)
        if len(args) == 1:
            x = self.text(st, args[0], pt[0], e)
            if x is None:
                return []
            return [(st, mk('scmp', Eqs(s, x), s, x))]
        if len(args) > 3:
            return None
        p, n = args[0], args[1]
        x = self.text(st, args[2], pt[2], e)
        if x is None:
            return []
        z = size(s)
        if n is size(x) or st.ev_eq(n, size(x)):
            if p is ZERO:
                return [(st, mk('scmp', Prefix(s, x)))]
            if p is sub(z, size(x)):
                ok = st.le(p, z)
                if ok:
                    return [(st, mk('scmp', Suffix(s, x)))]
        return [(s2, mk('scmp', Eqs(v, x), v, x)) for s2, v in self.string_sub(e, st, s, p, n)]

    def s_find(self, e, f, st, obj, args, pt):
        ip = self.ip
        s = ip.read(st, obj)
        t = pt[0]
        if t.k == 'int':
            x = mk('chr', args[0]) if args[0].op != 'i' else S(bytes([args[0].a[0] & 255]))
        else:
            x = self.text(st, args[0], t, e)
            if x is None:
                return []
        nm = f['q'].rsplit('::', 1)[-1]
        p = args[1] if len(args) > 1 else (ZERO if nm in ('find', 'find_first_of', 'find_first_not_of') else NPOS)
        if nm == 'rfind' and p is ZERO:
            a, b = self.fork(st, Prefix(s, x))
            return [y for y in [(a, ZERO), (b, NPOS)] if y[0] is not None]
        if nm != 'find':
            x = mk('charset', nm, x) if nm != 'rfind' else mk('rf', x)
        elif s.op == 'sub' and s.a[1] is ZERO and size(x) is ONE and p is ZERO and s.a[0].op == 'y':
            # the first one in a beginning of a text is the first one in the text
            a, b = self.fork(st, Contains(s.a[0], x, ZERO))
            out = []
            if a is not None:
                r = mk('find', s.a[0], x, ZERO)
                if a.add_le(ZERO, r) and a.add_le(addc(r, 1), size(s.a[0])) and (x.op != 's' or a.set_mask(at(s.a[0], r), 1 << x.a[0][0])):
                    a.add_ne(r, NPOS)
                    a, c = self.fork(a, Lt(r, s.a[2]))
                    out += [(a, r)] if a is not None else []
                    out += [(c, NPOS)] if c is not None else []
            if b is not None:
                out.append((b, NPOS))
            return out
        z = size(s)
        if s.op == 's' and p.op == 'i' and not x.leaves:
            try:
                n = concrete.find(s.a[0], x, p.a[0], {})
                return [(st, I(n) if n >= 0 else NPOS)]
            except concrete.Unclear:
                pass
        a, b = self.fork(st, Contains(s, x, p))
        out = []
        if a is not None:
            r = mk('find', s, x, p)
            good = True
            if nm == 'find':
                good = a.add_le(p, r) and a.add_le(add(r, size(x)), z)
                if size(x) is ONE and x.op == 's':
                    good = good and a.set_mask(at(s, r), 1 << x.a[0][0])
            else:
                good = a.add_le(r, z, -1)
                if nm in ('find_first_of', 'find_first_not_of'):
                    good = good and a.add_le(p, r)
                elif p is not NPOS:
                    good = good and a.add_le(r, p)
                w = x.a[-1]
                if w.op == 's' and nm.startswith('find_'):
                    m = 0
                    for c in w.a[0]:
                        m |= 1 << c
                    if 'not' in nm:
                        m = FULL & ~m
                    good = good and a.set_mask(at(s, r), m)
            a.add_ne(r, NPOS)
            if good:
                out.append((a, r))
        if b is not None:
            out.append((b, NPOS))
        return out

    def s_resize(self, e, f, st, obj, args, pt):
        ip = self.ip
        s = ip.read(st, obj)
        n = args[0]
        fill = args[1] if len(args) > 1 else ZERO
        if st.le(n, size(s)):
            v = substr(s, ZERO, n)
        else:
            v = mk('resize', s, n, fill)
        ip.write(st, obj, v)
        return [(st, ZERO)]

    def s_reserve(self, e, f, st, obj, args, pt):
        return [(st, ZERO)]

    def s_front(self, e, f, st, obj, args, pt):
        n = size(self.ip.read(st, obj))
        self.need_nonempty(st, n, e, 'front()')
        return [(st, mk('.i', obj, ZERO, 'c'))]

    def s_back(self, e, f, st, obj, args, pt):
        n = size(self.ip.read(st, obj))
        self.need_nonempty(st, n, e, 'back()')
        return [(st, mk('.i', obj, addc(n, -1), 'c'))]

    def s_erase(self, e, f, st, obj, args, pt):
        ip = self.ip
        s = ip.read(st, obj)
        z = size(s)
        if not pt or pt[0].k == 'int':
            p = args[0] if args else ZERO
            n = args[1] if len(args) > 1 else NPOS
            out = []
            for s2, v in self.string_sub(e, st, s, p, n):
                a, b = p, add(p, size(v))
                if v.op == 'sub':
                    b = add(p, sub(v.a[2], v.a[1]))
                l = self.substr(s2, s, ZERO, a)
                r = self.substr(s2, s, b, z)
                ip.write(s2, obj, cat(l, r))
                out.append((s2, obj))
            return out
        a = self.val(st, args[0], pt[0])
        b = self.val(st, args[1], pt[1]) if len(args) > 1 else mk('it', a.a[0], addc(a.a[1], 1))
        if a.op == 'it' and b.op == 'it':
            ip.write(st, obj, cat(self.substr(st, s, ZERO, a.a[1]), self.substr(st, s, b.a[1], z)))
            return [(st, a)]
        return None

    def s_swap(self, e, f, st, obj, args, pt):
        ip = self.ip
        a, b = ip.read(st, obj), ip.read(st, args[0])
        ip.write(st, obj, b)
        ip.write(st, args[0], a)
        return [(st, ZERO)]

    def s_conv(self, e, f, st, obj, args, pt):
        return [(st, self.ip.read(st, obj))]

    # ---- sequences
    def ek(self, e, f, obj=None):
        t = e['t']
        return t.kind()

    def v_index(self, e, f, st, obj, args, pt):
        ip = self.ip
        v = ip.read(st, obj)
        n = size(v)
        kd = e['t'].kind()
        if f['q'].endswith('::at'):
            return self.at_checked(e, st, obj, args[0], n, kd)
        ip.check_index(st, e, args[0], n, 'element')
        if not st.add_le(args[0], n, -1):
            return []
        return [(st, mk('.i', obj, args[0], kd))]

    def v_front(self, e, f, st, obj, args, pt):
        n = size(self.ip.read(st, obj))
        self.need_nonempty(st, n, e, 'front()')
        return [(st, mk('.i', obj, ZERO, e['t'].kind()))]

    def v_back(self, e, f, st, obj, args, pt):
        n = size(self.ip.read(st, obj))
        self.need_nonempty(st, n, e, 'back()')
        return [(st, mk('.i', obj, addc(n, -1), e['t'].kind()))]

    def v_push(self, e, f, st, obj, args, pt):
        ip = self.ip
        v = ip.read(st, obj)
        if len(args) != 1:
            return None
        x = self.elem_arg(st, obj, args[0], pt[0], f, e)
        if x is None:
            return []
        ip.write(st, obj, mk('vec', *(v.a + (x,))) if v.op == 'vec' and len(v.a) < 64 else mk('push', v, x))
        if f['q'].endswith('emplace_back'):
            return [(st, mk('.i', obj, size(v), e['t'].kind()))]
        return [(st, ZERO)]

    def elem_arg(self, st, obj, a, t, f, e):
        if t.k == 'ref' and t.to.k in ('ptr', 'arr') and 'emplace' in f['q']:
            return self.text(st, self.ip.read(st, a, t.to), t.to, e) if t.to.k == 'ptr' and t.to.to.char else self.ip.read(st, a, t.to)
        return self.val(st, a, t)

    def v_pushf(self, e, f, st, obj, args, pt):
        ip = self.ip
        v = ip.read(st, obj)
        x = self.val(st, args[0], pt[0])
        ip.write(st, obj, mk('vec', *((x,) + v.a)) if v.op == 'vec' else mk('pushf', v, x))
        return [(st, ZERO)]

    def v_pop(self, e, f, st, obj, args, pt):
        ip = self.ip
        v = ip.read(st, obj)
        n = size(v)
        self.need_nonempty(st, n, e, 'pop')
        if f['q'].endswith('pop_back'):
            ip.write(st, obj, v.a[0] if v.op == 'push' else mk('eraset', v, addc(n, -1)))
        else:
            ip.write(st, obj, v.a[0] if v.op == 'pushf' else mk('eraset', v, ZERO))
        return [(st, ZERO)]

    def v_resize(self, e, f, st, obj, args, pt):
        ip = self.ip
        v = ip.read(st, obj)
        n = args[0]
        if len(args) > 1:
            x = self.val(st, args[1], pt[1])
        else:
            ty = self.obj_type(e)
            x = ip.defval(ty.args[0]) if ty is not None and ty.args else ZERO
        if st.ev_eq(n, size(v)):
            return [(st, ZERO)]
        ip.write(st, obj, mk('resize', v, n, x))
        return [(st, ZERO)]

    def obj_type(self, e):
        o = e.get('obj')
        if o is None:
            return None
        t = o['t']
        if t.k == 'ptr':
            t = t.to
        while t.k == 'ref':
            t = t.to
        return t

    def v_clear(self, e, f, st, obj, args, pt):
        self.ip.write(st, obj, mk('vec'))
        return [(st, ZERO)]

    def v_assign(self, e, f, st, obj, args, pt):
        if len(args) != 1:
            return None
        v = self.val(st, args[0], pt[0])
        self.ip.write(st, obj, v)
        return [(st, obj)]

    def v_erase(self, e, f, st, obj, args, pt):
        ip = self.ip
        v = ip.read(st, obj)
        a = self.val(st, args[0], pt[0])
        if len(args) == 1 and a.op == 'it':
            ip.check_index(st, e, a.a[1], size(v), 'erased element')
            ip.write(st, obj, mk('eraset', v, a.a[1]))
            return [(st, a)]
        return None

    def v_insert(self, e, f, st, obj, args, pt):
        ip = self.ip
        v = ip.read(st, obj)
        a = self.val(st, args[0], pt[0])
        if len(args) == 2 and a.op == 'it':
            x = self.val(st, args[1], pt[1])
            if a.a[1] is ZERO:
                ip.write(st, obj, mk('vec', *((x,) + v.a)) if v.op == 'vec' else mk('pushf', v, x))
                return [(st, a)]
            if a.a[1] is size(v):
                ip.write(st, obj, mk('vec', *(v.a + (x,))) if v.op == 'vec' else mk('push', v, x))
                return [(st, a)]
        return None

    # ---- maps
    def keyval(self, st, a, t):
        return self.val(st, a, t)

    def valkind(self, e, f):
        t = self.obj_type(e)
        if t is not None and len(t.args) >= 2:
            return t.args[1].kind(), t.args[1]
        return 'o', None

    def m_find(self, e, f, st, obj, args, pt):
        ip = self.ip
        m = ip.read(st, obj)
        k = self.keyval(st, args[0], pt[0])
        a, b = self.fork(st, st.has(m, k))
        out = []
        if a is not None:
            p = mk('idx', m, k)
            a.add_le(p, size(m), -1)
            out.append((a, mk('it', obj, p)))
        if b is not None:
            out.append((b, mk('it', obj, size(m))))
        return out

    def m_count(self, e, f, st, obj, args, pt):
        m = self.ip.read(st, obj)
        k = self.keyval(st, args[0], pt[0])
        a, b = self.fork(st, st.has(m, k))
        return ([(a, ONE)] if a is not None else []) + ([(b, ZERO)] if b is not None else [])

    def m_index(self, e, f, st, obj, args, pt):
        ip = self.ip
        m = ip.read(st, obj)
        k = self.keyval(st, args[0], pt[0])
        kd, vt = self.valkind(e, f)
        a, b = self.fork(st, st.has(m, k))
        loc = mk('.k', obj, k, kd)
        out = []
        if f['q'].endswith('::at'):
            if b is not None:
                self.oor(b, e, 'map at()')
            return [(a, loc)] if a is not None else []
        if a is not None:
            out.append((a, loc))
        if b is not None:
            b_m = ip.read(b, obj)
            d = ip.defval(vt if vt is not None else e['t'])
            nm = mins(b_m, k, d)
            ip.write(b, obj, nm)
            out.append((b, loc))
        return out

    def m_clear(self, e, f, st, obj, args, pt):
        self.ip.write(st, obj, mk('map0'))
        return [(st, ZERO)]

    def m_erase(self, e, f, st, obj, args, pt):
        ip = self.ip
        m = ip.read(st, obj)
        x = self.val(st, args[0], pt[0])
        if x.op == 'it':
            k = self.key_of_pos(st, obj, x.a[1])
            ip.write(st, obj, mk('del', m, k))
            return [(st, x)]
        a, b = self.fork(st, st.has(m, x))
        out = []
        if a is not None:
            ip.write(a, obj, mk('del', m, x))
            out.append((a, ONE))
        if b is not None:
            out.append((b, ZERO))
        return out

    def m_emplace(self, e, f, st, obj, args, pt):
        """emplace/insert/try_emplace/insert_or_assign"""
        ip = self.ip
        m = ip.read(st, obj)
        nm = f['q'].rsplit('::', 1)[-1]
        if len(args) == 1:
            p = self.val(st, args[0], pt[0])
            k, v = fget(p, 'first'), fget(p, 'second')
        elif len(args) == 2:
            k, v = self.val(st, args[0], pt[0]), self.val(st, args[1], pt[1])
            kt = self.obj_type(e)
            if kt is not None and kt.args and kt.args[0].is_string() and k.op in ('.i',):
                k = self.content(st, k, e)
        else:
            return None
        a, b = self.fork(st, st.has(m, k))
        out = []
        for s, found in ((a, True), (b, False)):
            if s is None:
                continue
            if not found:
                ip.write(s, obj, mins(m, k, v))
            elif nm == 'insert_or_assign':
                ip.write(s, obj, mput(m, k, v))
            r = rec('std::pair', ('first', 'second'), (mk('it', obj, mk('idx', ip.read(s, obj), k)), FALSE if found else TRUE))
            out.append((s, r))
        return out

    def m_end(self, e, f, st, obj, args, pt):
        return [(st, mk('it', obj, size(self.ip.read(st, obj))))]

    def key_of_pos(self, st, loc, p):
        if p.op == 'idx':
            return p.a[1]
        return mk('keyat', self.ip.read(st, loc), p)

    def m_swap(self, e, f, st, obj, args, pt):
        return self.s_swap(e, f, st, obj, args, pt)

    # ---- sets
    def set_insert(self, e, f, st, obj, args, pt):
        ip = self.ip
        if len(args) != 1:
            return None
        x = self.val(st, args[0], pt[0])
        v = ip.read(st, obj)
        ip.write(st, obj, mk('sput', v, x))
        if ip.client is not None:
            ip.client.on_insert(ip, st, obj, x, e)
        t = e['t']
        r = mk('it', obj, mk('idx', v, x))
        if t.k == 'rec' and t.name == 'std::pair':
            return [(st, rec('std::pair', ('first', 'second'), (r, fresh('b', 'inserted'))))]
        return [(st, r)]

    def set_size(self, e, f, st, obj, args, pt):
        return [(st, size(self.ip.read(st, obj)))]

    def set_count(self, e, f, st, obj, args, pt):
        v = self.ip.read(st, obj)
        k = self.val(st, args[0], pt[0])
        a, b = self.fork(st, Contains(v, k, ZERO))
        return ([(a, ONE)] if a is not None else []) + ([(b, ZERO)] if b is not None else [])

    # ---- iterators
    def it_loc(self, st, p, f, e):
        """location an iterator refers to"""
        ip = self.ip
        cls = f['q'].rpartition('::')[0]
        if p.op == 'it':
            cont, pos = p.a
            v = ip.read(st, cont)
            ty = self.iter_class(cls, e)
            if cls in MAPITER:
                if pos.op == 'idx':
                    # the entry found by key stays where it is
                    ok = st.ev(Has(v, pos.a[1]))
                    w = ip.where(e)
                    ip.event('oblig', 'bounds', w, 'ok' if ok else 'maybe',
                             'entry of a map that may have been removed' if not ok else '', ip.trace(), st.imp, None if ok else (st.copy(), None, None))
                else:
                    ip.check_index(st, e, pos, size(v), 'iterator')
                    st.add_le(pos, size(v), -1)
                k = self.key_of_pos(st, cont, pos)
                if v.op == 'set0' or v.op == 'sput' or ty == 'set':
                    return mk('kcell', k)
                if pos.op != 'idx':
                    st.P.setdefault(Has(v, k), True) if Has(v, k).op != 'i' else None
                return mk('.e', cont, k, self.it_valkind(e))
            ip.check_index(st, e, pos, size(v), 'iterator')
            st.add_le(pos, size(v), -1)
            return mk('.i', cont, pos, self.it_elemkind(e))
        if p.op == 'rit':
            cont, k = p.a
            v = ip.read(st, cont)
            n = size(v)
            ip.check_index(st, e, k, n, 'iterator')
            st.add_le(k, n, -1)
            i = addc(sub(n, k), -1)
            if i.op != 'i':
                ip.sub_facts(st, sub(n, k), n, k)
            return mk('.i', cont, i, self.it_elemkind(e))
        if p.op in LOCOPS:
            return p
        return None

    def iter_class(self, cls, e):
        return 'seq'

    def it_elemkind(self, e):
        t = e['t']
        if t.k == 'ptr':
            t = t.to
        return t.kind()

    def it_valkind(self, e):
        t = e['t']
        if t.k == 'ptr':
            t = t.to
        while t.k == 'ref':
            t = t.to
        if t.k == 'rec' and t.name == 'std::pair' and len(t.args) >= 2:
            return t.args[1].kind()
        return 'o'

    def i_deref(self, e, f, st, obj, args, pt):
        p = self.ip.read(st, obj)
        l = self.it_loc(st, p, f, e)
        if l is None:
            return None
        return [(st, l)]

    def it_deref(self, st, p, e):
        v = self.ip.read(st, p.a[0])
        return mk('.i', p.a[0], p.a[1], e['t'].kind())

    def i_inc(self, e, f, st, obj, args, pt):
        ip = self.ip
        p = ip.read(st, obj)
        if p.op not in ('it', 'rit'):
            return None
        d = 1 if f['q'].endswith('++') else -1
        if p.op == 'it' and p.a[1].op == 'idx':
            n = mk('it', p.a[0], fresh('u', 'next'))
            st.add_le(n.a[1], size(ip.read(st, p.a[0])))
        else:
            n = mk(p.op, p.a[0], addc(p.a[1], d))
        ip.write(st, obj, n)
        if pt:          # postfix
            return [(st, p)]
        return [(st, obj)]

    def i_assign(self, e, f, st, obj, args, pt):
        self.ip.write(st, obj, self.val(st, args[0], pt[0]))
        return [(st, obj)]

    def i_plus(self, e, f, st, obj, args, pt):
        ip = self.ip
        p = ip.read(st, obj)
        if p.op not in ('it', 'rit'):
            return None
        nm = f['q'].rsplit('::', 1)[-1]
        n = self.val(st, args[0], pt[0])
        if nm in ('operator-', 'operator-='):
            n = sub(ZERO, n)
        r = mk(p.op, p.a[0], add(p.a[1], n))
        if nm.endswith('='):
            ip.write(st, obj, r)
            return [(st, obj)]
        return [(st, r)]

    def i_index(self, e, f, st, obj, args, pt):
        p = self.ip.read(st, obj)
        if p.op != 'it':
            return None
        i = add(p.a[1], args[0])
        n = size(self.ip.read(st, p.a[0]))
        self.ip.check_index(st, e, i, n, 'iterator')
        return [(st, mk('.i', p.a[0], i, e['t'].kind()))]

    def i_base(self, e, f, st, obj, args, pt):
        p = self.ip.read(st, obj)
        if p.op == 'rit':
            return [(st, mk('it', p.a[0], sub(size(self.ip.read(st, p.a[0])), p.a[1])))]
        return [(st, p)]

    def cmp_vals(self, st, args, pt, e):
        out = []
        for a, t in zip(args, pt):
            if t.k == 'ptr' or (t.k == 'ref' and t.to.k == 'arr'):
                out.append(self.content(st, a if t.k == 'ptr' else mk('.i', a, ZERO, 'c'), e) if self.is_text(t) else a)
            else:
                out.append(self.val(st, a, t))
        return out

    def is_text(self, t):
        if t.k == 'ref':
            t = t.to
        return t.k == 'ptr' and t.to.char or t.k == 'arr' and t.of.char

    def op_eq(self, e, f, st, obj, args, pt):
        ip = self.ip
        if obj is not None:
            args = [obj] + list(args)
            pt = [None] + list(pt)
            x = ip.read(st, obj)
            y = self.cmp_vals(st, args[1:], pt[1:], e)[0]
        else:
            if len(args) != 2:
                return None
            x, y = self.cmp_vals(st, args, pt, e)
        if x is None or y is None:
            return []
        neg = f['q'].endswith('!=')
        if x.op == 'rec' and y.op == 'rec' and x.a[0] in TUPLE:
            return self.relation(st, '!=' if neg else '==', x, y)
        if x.op in ('it', 'rit') or y.op in ('it', 'rit'):
            if x.op == y.op and x.a[0] is y.a[0]:
                t = Eq(x.a[1], y.a[1])
            elif x.op in ('it', 'rit') and y.op in ('it', 'rit'):
                t = FALSE
            else:
                t = mk('ptreq', *sorted((x, y)))
        elif kind(x) == 'p' or kind(y) == 'p' or (x is ZERO) or (y is ZERO):
            t = ip.ptr_eq(st, x, y)
        elif kind(x) in 'ncb' and kind(y) in 'ncb':
            t = Eq(x, y)
        else:
            t = Eqs(x, y)
        return [(st, Not(t) if neg else t)]

    def op_less(self, e, f, st, obj, args, pt):
        if obj is not None:
            x, y = self.ip.read(st, obj), self.cmp_vals(st, args, pt, e)[0]
        else:
            if len(args) != 2:
                return None
            x, y = self.cmp_vals(st, args, pt, e)
        op = f['q'].rsplit('operator', 1)[-1]
        if x.op == 'rec' and y.op == 'rec' and x.a[0] in TUPLE:
            return self.relation(st, op, x, y)
        if x.op in ('it', 'rit') and y.op in ('it', 'rit') and x.op == y.op and x.a[0] is y.a[0]:
            return [(st, self.ip.compare(op, x.a[1], y.a[1]))]
        if op == '>':
            x, y = y, x
        if op in ('<', '>'):
            return [(st, Slt(x, y))]
        if op == '<=':
            x, y = y, x
        return [(st, Not(Slt(x, y)))]

    def op_plus(self, e, f, st, obj, args, pt):
        ip = self.ip
        if len(args) != 2:
            return None
        if not e['t'].is_string():
            if e['t'].k == 'rec' and e['t'].name in ITERS:
                ws = [self.val(st, a, t) for a, t in zip(args, pt)]
                if ws[1].op in ('it', 'rit'):
                    ws.reverse()
                if ws[0].op in ('it', 'rit'):
                    return [(st, mk(ws[0].op, ws[0].a[0], add(ws[0].a[1], ws[1])))]
            return None
        x, y = [self.piece(st, a, t, e) if not (t.k == 'ref') else self.val(st, a, t) for a, t in zip(args, pt)]
        if x is None or y is None:
            return []
        return [(st, cat(x, y))]

    def op_minus(self, e, f, st, obj, args, pt):
        if len(args) == 2:
            x, y = [self.val(st, a, t) for a, t in zip(args, pt)]
            if x.op == y.op and x.op == 'it' and x.a[0] is y.a[0]:
                return [(st, sub(x.a[1], y.a[1]))]
        return None

    # ---- streams
    def op_out(self, e, f, st, obj, args, pt):
        ip = self.ip
        if obj is not None:
            loc, a, t = obj, args[0], pt[0]
        else:
            if len(args) != 2:
                return None
            loc, a, t = args[0], args[1], pt[1]
            if pt[0].k != 'ref' or 'stream' not in pt[0].to.name:
                return None
        v = ip.read(st, loc)
        x = self.piece(st, a, t, e)
        if x is None:
            return []
        r = ip.root_of(loc)
        if r.op == 'L' and r.a[0] == 'glob':
            ip.event('output', r.a[1], ip.where(e), ip.trace())
            return [(st, loc)]
        if kind(v) == 'o' and v.op != 'rec':
            self.append(st, loc, x, e)
        return [(st, loc)]

    def st_write(self, e, f, st, obj, args, pt):
        ip = self.ip
        r = ip.root_of(obj)
        if r.op == 'L' and r.a[0] == 'glob':
            ip.event('output', r.a[1], ip.where(e), ip.trace())
            return [(st, obj)]
        if f['q'].endswith('put'):
            c = args[0]
            self.append(st, obj, S(bytes([c.a[0] & 255])) if c.op == 'i' else mk('chr', c), e)
        elif f['q'].endswith('write'):
            c = self.content(st, args[0], e)
            if c is None:
                return []
            n = args[1]
            self.append(st, obj, c if st.ev_eq(n, size(c)) else substr(c, ZERO, n), e)
        return [(st, obj)]

    def st_str(self, e, f, st, obj, args, pt):
        if args:
            v = self.val(st, args[0], pt[0])
            self.ip.write(st, obj, v)
            return [(st, ZERO)]
        return [(st, self.ip.read(st, obj))]

    def st_not(self, e, f, st, obj, args, pt):
        v = self.ip.read(st, obj)
        if v.op == 'rec':
            return [(st, fget(v, 'fail', 'b'))]
        return [(st, fresh('b', 'streamfail'))]

    def st_bool(self, e, f, st, obj, args, pt):
        v = self.ip.read(st, obj)
        if v.op == 'rec':
            return [(st, Not(fget(v, 'fail', 'b')))]
        return [(st, fresh('b', 'streamok'))]

    def st_eof(self, e, f, st, obj, args, pt):
        return [(st, fget(self.ip.read(st, obj), 'eof', 'b'))]

    def st_good(self, e, f, st, obj, args, pt):
        v = self.ip.read(st, obj)
        if v.op != 'rec':
            return [(st, fresh('b', 'streamgood'))]
        x, y = fget(v, 'fail', 'b'), fget(v, 'eof', 'b')
        a, b = self.fork(st, x)
        out = [(a, FALSE)] if a is not None else []
        if b is not None:
            out.append((b, Not(y)))
        return out

    def st_nop(self, e, f, st, obj, args, pt):
        return [(st, obj if e.get('lv') else ZERO)]

    def st_clear(self, e, f, st, obj, args, pt):
        ip = self.ip
        v = ip.read(st, obj)
        if v.op == 'rec':
            v = fput(fput(v, 'fail', FALSE), 'eof', FALSE)
            ip.write(st, obj, v)
        return [(st, ZERO)]

    def f_getline(self, e, f, st, obj, args, pt):
        ip = self.ip
        if len(args) != 2:
            return None
        inl, sl = args
        v = ip.read(st, inl, pt[0].to)
        if v.op != 'rec' or v.a[0] != 'istream':
            return None
        out = []
        for s in ip.client.before_line(ip, st, sl, e) if ip.client is not None else [st]:
            out += self.getline(e, s, inl, sl)
        return out

    def getline(self, e, st, inl, sl):
        ip = self.ip
        v = ip.read(st, inl)
        fail, eof = fget(v, 'fail', 'b'), fget(v, 'eof', 'b')
        out = []
        a, b = self.fork(st, fail)
        if a is not None:
            out.append((a, inl))
        if b is not None:
            a, b = self.fork(b, eof)
            if a is not None:
                ip.write(a, inl, fput(ip.read(a, inl), 'fail', TRUE))
                out.append((a, inl))
        if b is None:
            return out
        pos, ln = fget(v, 'pos', 'u'), fget(v, 'len', 'u')
        # end of the stream
        c = b.copy()
        w = ip.read(c, inl)
        if c.assume(Eq(pos, ln), True):
            ip.write(c, sl, S(b''))
            ip.write(c, inl, fput(fput(w, 'fail', TRUE), 'eof', TRUE))
            out.append((c, inl))
        # a line, with or without a newline
        c = b.copy()
        w = ip.read(c, inl)
        line = fresh('o', 'line')
        np = fresh('u', 'pos')
        if c.add_le(addc(pos, 1), np) and c.add_le(np, ln):
            w = fput(fput(fput(w, 'pos', np), 'eof', fresh('b', 'eof')), 'fail', FALSE)
            ip.write(c, inl, w)
            ip.write(c, sl, line)
            cs = ip.client.on_line(ip, c, line, e) if ip.client is not None else None
            out += [(x, inl) for x in ([c] if cs is None else cs)]
        return out

    # ---- unique_ptr
    def u_deref(self, e, f, st, obj, args, pt):
        ip = self.ip
        p = ip.read(st, obj)
        l = ip.deref(e, st, p)
        if l is None:
            return []
        t = e['t']
        if t.k == 'ptr':
            t = t.to
        if l.op == 'deref' and l not in ip.root_ty:
            ip.root_ty[l] = t
        return [(st, l)]

    def u_arrow(self, e, f, st, obj, args, pt):
        p = self.ip.read(st, obj)
        l = mk('deref', p) if p.op not in LOCOPS else p
        if l.op == 'deref' and l not in self.ip.root_ty and e['t'].k == 'ptr':
            self.ip.root_ty[l] = e['t'].to
        return [(st, p)]

    def u_bool(self, e, f, st, obj, args, pt):
        return [(st, Not(IsNull(self.ip.read(st, obj))))]

    def u_get(self, e, f, st, obj, args, pt):
        return [(st, self.ip.read(st, obj))]

    def u_release(self, e, f, st, obj, args, pt):
        p = self.ip.read(st, obj)
        self.ip.write(st, obj, ZERO)
        return [(st, p)]

    def u_reset(self, e, f, st, obj, args, pt):
        ip = self.ip
        p = ip.read(st, obj)
        if ip.client is not None:
            ip.client.on_delete(ip, st, p, e)
        ip.write(st, obj, args[0] if args else ZERO)
        return [(st, ZERO)]

    def u_assign(self, e, f, st, obj, args, pt):
        ip = self.ip
        if pt[0].k == 'nullptr':
            return self.u_reset(e, f, st, obj, [], [])
        v = self.val(st, args[0], pt[0])
        old = ip.read(st, obj)
        if ip.client is not None:
            ip.client.on_delete(ip, st, old, e)
        if args[0].op in LOCOPS:
            ip.write(st, args[0], ZERO)
        ip.write(st, obj, v)
        return [(st, obj)]

    def f_make_unique(self, e, f, st, obj, args, pt):
        ip = self.ip
        t = e['t'].args[0] if e['t'].args else None
        if t is None or t.k != 'rec':
            return None
        root = mk('L', 'heap', ip.fr.cs, ip.xid(e))
        ip.root_ty[root] = t
        if t.name in ip.prog.records:
            cs = [g for g in ip.prog.byq.get(t.name + '::(ctor)', []) if len(g['params']) == len(args)]
            if len(cs) == 1:
                out = [(s, root) for s, _ in ip.inline(cs[0], st, root, args, e)]
            elif not cs and not args:
                ip.write(st, root, ip.defval(t))
                out = [(st, root)]
            else:
                return None
        else:
            st.store[root] = self.symlib(t, ('heap', ip.xid(e)))
            if 'stream' in t.name:
                ip.event('fs', t.name, ip.where(e), ip.trace())
            out = [(st, root)]
        for s, _ in out:
            if ip.client is not None:
                ip.client.on_new(ip, s, root, t, e)
        return out

    # ---- optional
    def o_has(self, e, f, st, obj, args, pt):
        return [(st, fget(self.ip.read(st, obj), 'has', 'b'))]

    def o_val(self, e, f, st, obj, args, pt):
        l = self.ip.field(obj, 'val')
        return [(st, l)]

    # ---- free functions
    def f_min(self, e, f, st, obj, args, pt):
        ip = self.ip
        mx = f['q'].endswith('max')
        if len(args) == 1 and args[0].op == 'vec' and args[0].a:
            out = [(st, args[0].a[0])]
            for y in args[0].a[1:]:
                nxt = []
                for s, x in out:
                    a, b = self.fork(s, Lt(x, y) if mx else Lt(y, x))
                    nxt += [(a, y)] if a is not None else []
                    nxt += [(b, x)] if b is not None else []
                out = nxt
            return out
        if len(args) != 2:
            return None
        x, y = self.val(st, args[0], pt[0]), self.val(st, args[1], pt[1])
        a, b = self.fork(st, Lt(x, y) if mx else Lt(y, x))   # the second one is chosen
        out = []
        if a is not None:
            out.append((a, args[1]))
        if b is not None:
            out.append((b, args[0]))
        return out

    def f_move(self, e, f, st, obj, args, pt):
        return [(st, args[0])]

    def f_swap(self, e, f, st, obj, args, pt):
        ip = self.ip
        a, b = ip.read(st, args[0]), ip.read(st, args[1])
        ip.write(st, args[0], b)
        ip.write(st, args[1], a)
        return [(st, ZERO)]

    def f_find(self, e, f, st, obj, args, pt):
        ip = self.ip
        if len(args) != 3:
            return None
        b, t, x = [self.val(st, a, p) for a, p in zip(args, pt)]
        if b.op != 'it' or t.op != 'it' or b.a[0] is not t.a[0] or b.a[1] is not ZERO:
            return None
        v = ip.read(st, b.a[0])
        if t.a[1] is not size(v):
            return None
        p, n = self.fork(st, Contains(v, x, ZERO))
        out = []
        if p is not None:
            r = mk('find', v, x, ZERO)
            p.add_le(r, size(v), -1)
            out.append((p, mk('it', b.a[0], r)))
        if n is not None:
            out.append((n, t))
        return out

    def f_strlen(self, e, f, st, obj, args, pt):
        c = self.content(st, args[0], e)
        if c is None:
            return []
        out = []
        if self.ip.client is not None and self.ip.client.zeros(c):
            # it ends at the first zero
            b = st.copy()
            n = fresh('u', 'strlen')
            if b.assume(Lt(n, size(c)), True):
                out.append((b, n))
        return out + [(st, size(c))]

    def f_ctype(self, e, f, st, obj, args, pt):
        c = args[0]
        nm = f['q'].rsplit('::', 1)[-1]
        if c.op == 'i':
            return [(st, TRUE if CTYPE[nm] >> (c.a[0] & 255) & 1 else FALSE)]
        if c.op == 'uchar':
            c = c.a[0]
        return [(st, mk('ctype', nm, c))]

    def f_tochar(self, e, f, st, obj, args, pt):
        c = args[0]
        nm = f['q'].rsplit('::', 1)[-1]
        if c.op == 'uchar':
            c = c.a[0]
        return [(st, mapchar(nm, c))]

    def f_errno(self, e, f, st, obj, args, pt):
        if ERRNO not in st.store:
            st.store[ERRNO] = fresh('n', 'errno')
        return [(st, ERRNO)]

    def f_strerror(self, e, f, st, obj, args, pt):
        return [(st, fresh('o', 'strerror'))]

    def m_what(self, e, f, st, obj, args, pt):
        return [(st, fresh('o', 'what'))]

    def f_tostring(self, e, f, st, obj, args, pt):
        v = args[0]
        if v.op == 'i':
            return [(st, S(str(v.a[0])))]
        r = mk('numstr', v)
        st.add_le(ONE, size(r))
        return [(st, r)]

    def f_strcmp(self, e, f, st, obj, args, pt):
        x, y = self.content(st, args[0], e), self.content(st, args[1], e)
        if x is None or y is None:
            return []
        if len(args) == 3:
            if y.op == 's' and st.ev_eq(args[2], size(y)):
                return [(st, mk('scmp', Prefix(x, y)))]
            if x.op == 's' and st.ev_eq(args[2], size(x)):
                return [(st, mk('scmp', Prefix(y, x)))]
            return None
        return [(st, mk('scmp', Eqs(x, y), x, y))]

    def f_begin(self, e, f, st, obj, args, pt):
        nm = f['q'].rsplit('::', 1)[-1]
        if nm in ('begin', 'cbegin'):
            return [(st, mk('it', args[0], ZERO))]
        return [(st, mk('it', args[0], size(self.ip.read(st, args[0]))))]

    def f_next(self, e, f, st, obj, args, pt):
        p = self.val(st, args[0], pt[0])
        n = args[1] if len(args) > 1 else ONE
        if f['q'].endswith('prev'):
            n = sub(ZERO, n)
        if p.op in ('it', 'rit'):
            return [(st, mk(p.op, p.a[0], add(p.a[1], n)))]
        return None

    def f_tuple(self, e, f, st, obj, args, pt):
        vs = [self.val(st, a, t) for a, t in zip(args, pt)]
        return [(st, rec('std::tuple', tuple(str(i) for i in range(len(vs))), vs))]

    def f_makepair(self, e, f, st, obj, args, pt):
        return [(st, rec('std::pair', ('first', 'second'), [self.val(st, a, t) for a, t in zip(args, pt)]))]

    def f_iconv_open(self, e, f, st, obj, args, pt):
        ip = self.ip
        out = []
        to = self.content(st, args[0], e)
        fr = self.content(st, args[1], e)
        if to is None or fr is None:
            return []
        for err in (EINVAL, None):
            b = st.copy()
            if err is None:
                # ENOMEM, EMFILE, ENFILE
                b.store[ERRNO] = v = fresh('u', 'errno')
                b.add_le(ONE, v)
                b.add_ne(v, I(EINVAL))
            else:
                b.store[ERRNO] = I(err)
            out.append((b, BADCD))
        cd = fresh('p', 'cd')
        st.P[IsNull(cd)] = False
        x, y = (cd, BADCD) if cd.id < BADCD.id else (BADCD, cd)
        st.P[mk('ptreq', x, y)] = False
        if ip.client is not None:
            ip.client.on_iconv(ip, 'open', st, cd, (to, fr), e)
            for b, _ in out:
                ip.client.on_iconv(ip, 'openfail', b, None, (to, fr), e)
        out.append((st, cd))
        return out

    def f_iconv_close(self, e, f, st, obj, args, pt):
        ip = self.ip
        if ip.client is not None:
            ip.client.on_iconv(ip, 'close', st, args[0], (), e)
        return [(st, ZERO)]

    def f_iconv(self, e, f, st, obj, args, pt):
        """see iconv(3)"""
        ip = self.ip
        cd, inp, inl, outp, outl = args
        inp, inl, outp, outl = [x if x is ZERO else ip.loc_of(x) for x in (inp, inl, outp, outl)]
        FAIL = I(NPOS_N)
        res = []

        def outcome(tag, s, val, err, in_done=False, one=False):
            if err is not None:
                s.store[ERRNO] = I(err)
            if one:
                s.g['one'] = one
            if s.is_null(inp) is not True and st_in:
                old = ip.read(s, inl)
                if in_done:
                    n = ZERO
                elif one == 1:
                    # exactly one character is taken
                    n = addc(old, -1)
                    if not s.assume(Le(I(2), old), True):
                        return
                else:
                    n = fresh('u', 'left')
                    s.add_le(n, old)
                    if err in (EILSEQ, EINVAL, E2BIG):
                        s.add_le(ONE, n)
                p = ip.read(s, inp)
                ip.write(s, inl, n)
                d = sub(old, n)
                if d.op != 'i':
                    ip.sub_facts(s, d, old, n)
                ip.write(s, inp, ip.ptr_add(p, d))
            if st_out:
                old = ip.read(s, outl)
                if one == 2:
                    n = old
                elif one:
                    n = addc(old, -1)
                    if not s.assume(Le(ONE, old), True):
                        return
                else:
                    n = fresh('u', 'room')
                    s.add_le(n, old)
                p = ip.read(s, outp)
                ip.write(s, outl, n)
                d = sub(old, n)
                if d.op != 'i':
                    ip.sub_facts(s, d, old, n)
                p = ip.ptr_add(p, d)
                if p.op == '.i' and lin(p.a[1])[0] is not None:
                    s.node(lin(p.a[1])[0])
                ip.write(s, outp, p)
            if ip.client is not None:
                ip.client.on_iconv(ip, 'conv:' + tag, s, cd, (inp if st_in else None, outp if st_out else None), e)
            res.append((s, val))
        st_in = st.is_null(inp) is not True
        st_out = st.is_null(outp) is not True
        if ip.client is not None:
            ip.client.on_iconv(ip, 'call', st, cd, (inp if st_in else None, inl, outp if st_out else None, outl), e)
        if st_out:
            outcome('toobig', st.copy(), FAIL, E2BIG)
        if st_in:
            outcome('illegal', st.copy(), FAIL, EILSEQ)
            outcome('incomplete', st.copy(), FAIL, EINVAL)
        one = ip.client.one_step(st, st_in) if ip.client is not None else None
        if one == 1:
            if st_out:
                outcome('toobig', st.copy(), FAIL, E2BIG, one=1)
            outcome('illegal', st.copy(), FAIL, EILSEQ, one=1)
        elif one == 2 and not st_in and st_out:
            outcome('ok', st.copy(), ZERO, None, one=2)
        v = fresh('u', 'iconv')
        st.add_ne(v, FAIL)
        outcome('ok', st, v, None, in_done=True)
        return res

    def path_text(self, st, v):
        root = mk('L', 'pathtext', v)
        self.ip.write(st, root, v.a[0])
        return root

    def m_fs(self, e, f, st, obj, args, pt):
        ip = self.ip
        ip.event('fs', f['q'], ip.where(e), ip.trace())
        nm = f['q'].rsplit('::', 1)[-1]
        if obj is not None and f['q'].startswith('std::filesystem::path::') and obj.op in LOCOPS:
            v = ip.read(st, obj)
            if v.op == 'path' and nm in ('string', 'native', '(conv)'):
                return [(st, v.a[0] if not e.get('lv') else self.path_text(st, v))]
            if v.op == 'path' and nm == 'c_str':
                return [(st, mk('.i', self.path_text(st, v), ZERO, 'c'))]
            if v.op == 'path' and f.get('const') and e['t'].rec() == 'std::filesystem::path' and not args and not e.get('lv'):
                return [(st, mk('path', mk('pathpart', nm, v.a[0])))]
            if not f.get('const'):
                ip.write(st, obj, fresh('o', 'path'))
                if e.get('lv'):
                    return [(st, obj)]
        if nm.startswith('operator++') or nm in ('exists', 'is_directory', 'is_regular_file'):
            if not any(t.k == 'ref' and 'error_code' in t.to.name for t in pt):
                self.throw(st.copy(), 'std::filesystem::filesystem_error', e)
        if nm == 'operator++' and obj is not None:
            return [(st, obj)]
        t = e['t']
        if e.get('lv'):
            loc = mk('deref', fresh('p', f['q']))
            ip.root_ty[loc] = t
            return [(st, loc)]
        from .interp import _fresh_n
        if t.k == 'void':
            return [(st, ZERO)]
        v = ip.symval(t, ('fs', f['q'], _fresh_n()))
        if kind(v) == 'p':
            st.P[IsNull(v)] = False
        return [(st, v)]

    # ---- algorithms with a predicate
    def f_algo(self, e, f, st, obj, args, pt):
        """any_of, all_of, none_of, find_if, find_if_not, for_each, count_if"""
        ip = self.ip
        nm = f['q'].rsplit('::', 1)[-1]
        if len(args) != 3:
            return None
        b, t, fn = [self.val(st, a, p) for a, p in zip(args, pt)]
        if b.op not in ('it', 'rit') or t.op != b.op or b.a[0] is not t.a[0]:
            return None
        cont = b.a[0]
        n = ip.xid(e)
        rp = mk('L', 'algo', ip.fr.cs, n)
        rf = mk('L', 'algof', ip.fr.cs, n)
        re = mk('L', 'algoe', ip.fr.cs, n)
        rv = mk('L', 'algov', ip.fr.cs, n)
        st.store[rp], st.store[re], st.store[rf], st.store[rv] = b.a[1], t.a[1], fn, ZERO
        ek = 'o'
        bt = pt[0] if pt[0].k != 'ref' else pt[0].to
        if bt.name == '__gnu_cxx::__normal_iterator' and bt.args:
            a0 = bt.args[0]
            ek = a0.to.kind() if a0.k == 'ptr' else 'o'
        elif bt.name in MAPITER:
            ek = None

        def invoke(s):
            pos = s.store[rp]
            v = ip.read(s, cont)
            if ek is None:
                loc = mk('.e', cont, mk('keyat', v, pos), 'o')
            elif b.op == 'rit':
                loc = mk('.i', cont, addc(sub(size(v), pos), -1), ek)
            else:
                loc = mk('.i', cont, pos, ek)
            fv = s.store[rf]
            if fv.op == 'rec' and fv.a[0].startswith('lambda:'):
                m = fv.a[0][7:]
                d = ip.prog.funcs[m]
                ps = d['params']
                a = loc if ps and ps[0]['t'].k == 'ref' else ip.read(s, loc, ps[0]['t'] if ps else None)
                return ip.inline(d, s, rf, [a], e, lam=m)
            if fv.op == 'fn':
                d = ip.prog.funcs.get(fv.a[0])
                c = ip.read(s, loc)
                if d is not None:
                    a = loc if d['params'] and d['params'][0]['t'].k == 'ref' else c
                    return ip.inline(d, s, None, [a], e)
                for w in CTYPE:
                    if fv.a[0] == w:
                        return [(s, mk('ctype', w, c))]
                for w in ('toupper', 'tolower'):
                    if fv.a[0] == w:
                        return [(s, mapchar(w, c))]
            ip.imprecise(s, 'algorithm with an unknown function')
            return [(s, fresh('b', 'pred'))]

        from .interp import Out

        def run(head):
            exits, backs = [], []
            out = Out()
            save = ip.thr
            ip.thr = out.thr
            try:
                more, done = ip.split(head, Lt(head.store[rp], head.store[re]))
                if done is not None:
                    done.store[rv] = {'any_of': FALSE, 'all_of': TRUE, 'none_of': TRUE}.get(nm, ZERO)
                    done.ext['algo'] = 'end'
                    exits.append(done)
                if more is not None:
                    for s, v in invoke(more):
                        if nm in ('for_each',):
                            s.store[rp] = addc(s.store[rp], 1)
                            backs.append(s)
                            continue
                        tt = ip.truth(v) if v.op != 'i' else v
                        x, y = ip.split(s, tt)
                        hit, miss = (x, y) if nm in ('any_of', 'none_of', 'find_if', 'count_if') else (y, x)
                        if hit is not None:
                            if nm == 'count_if':
                                hit.store[rp] = addc(hit.store[rp], 1)
                                hit.store[rv] = addc(hit.store[rv], 1)
                                backs.append(hit)
                            else:
                                hit.store[rv] = {'any_of': TRUE, 'all_of': FALSE, 'none_of': FALSE}.get(nm, ZERO)
                                hit.ext['algo'] = 'hit'
                                exits.append(hit)
                        if miss is not None:
                            miss.store[rp] = addc(miss.store[rp], 1)
                            backs.append(miss)
            finally:
                ip.thr = save
            return exits, backs, out
        exits, out = ip.loop(('algo', ip.fr.cs, n), [st], run, {'l': e.get('l'), 's': 'algo'})
        ip.thr.extend(out.thr)
        res = []
        for s in exits:
            p, v = s.store.pop(rp), s.store.pop(rv)
            s.store.pop(re)
            fv = s.store.pop(rf)
            s.ext.pop('algo', None)
            if nm in ('any_of', 'all_of', 'none_of', 'count_if'):
                res.append((s, v))
            elif nm in ('find_if', 'find_if_not'):
                res.append((s, mk(b.op, cont, p)))
            else:
                res.append((s, fv))
        return res

    def f_transform(self, e, f, st, obj, args, pt):
        """std::transform over a whole string, in place or appended: case mapping only"""
        ip = self.ip
        if len(args) != 4:
            return None
        b, t, o, fn = [self.val(st, a, p) for a, p in zip(args, pt)]
        if b.op != 'it' or t.op != 'it' or b.a[0] is not t.a[0] or o.op != 'it' or o.a[0] is not b.a[0]:
            return None
        if b.a[1] is not ZERO or o.a[1] is not ZERO:
            return None
        v = ip.read(st, b.a[0])
        r = None
        if st.ev(Eq(t.a[1], size(v))):
            w = None
            if fn.op == 'fn':
                w = fn.a[0].rsplit('::', 1)[-1]
            elif fn.op == 'rec' and fn.a[0].startswith('lambda:'):
                d = ip.prog.funcs[fn.a[0][7:]]
                c = fresh('c', 'char')
                ps = d['params']
                if len(ps) == 1 and ps[0]['t'].k == 'int':
                    lf = mk('L', 'transform', e.get('l', 0))
                    st2 = st.copy()
                    st2.store[lf] = fn
                    got = ip.inline(d, st2, lf, [c], e, lam=fn.a[0][7:])
                    if len(got) == 1:
                        y = got[0][1]
                        while y.op in ('uchar', 'wrap') and y.a[0].__class__ is T:
                            y = y.a[0]
                        if y.op in ('toupper', 'tolower') and (y.a[0] is c or y.a[0].op == 'uchar' and y.a[0].a[0] is c):
                            w = y.op
            if w in ('toupper', 'tolower'):
                r = mk('mapc', v, w)
        if r is None:
            r = fresh('o', 'mapped')
        st.add_le(size(r), size(v))
        st.add_le(size(v), size(r))
        l = st.labels(v)
        if l:
            st.prov[r] = l
        ip.write(st, b.a[0], r)
        return [(st, t)]

    def f_terminate(self, e, f, st, obj, args, pt):
        ip = self.ip
        ip.event('oblig', 'abort', ip.where(e), 'maybe', 'the process is ended by %s()' % f['q'], ip.trace(), st.imp)
        return []

    def f_nop(self, e, f, st, obj, args, pt):
        return [(st, ZERO)]


from .prog import NOTY as NOTY_

TUPLE = ('std::tuple', 'std::pair')
FUNCTORS = {'std::less': '<', 'std::greater': '>', 'std::less_equal': '<=', 'std::greater_equal': '>=', 'std::equal_to': '==',
            'std::not_equal_to': '!=', 'std::hash': 'hash'}
M = Models
STRM = {
    'size': M.s_size, 'length': M.s_size, 'empty': M.s_empty, 'c_str': M.s_cstr, 'data': M.s_cstr,
    'operator[]': M.s_index, 'at': M.s_index, 'begin': M.s_begin, 'cbegin': M.s_begin, 'end': M.s_end, 'cend': M.s_end,
    'rbegin': M.s_rbegin, 'rend': M.s_rend, 'clear': M.s_clear, 'operator+=': M.s_append, 'append': M.s_append,
    'push_back': M.s_pushback, 'pop_back': M.s_popback, 'operator=': M.s_assign, 'assign': M.s_assign,
    'substr': M.s_substr, 'compare': M.s_compare, 'find': M.s_find, 'rfind': M.s_find, 'find_first_of': M.s_find,
    'find_first_not_of': M.s_find, 'find_last_of': M.s_find, 'find_last_not_of': M.s_find, 'resize': M.s_resize,
    'reserve': M.s_reserve, 'shrink_to_fit': M.s_reserve, 'front': M.s_front, 'back': M.s_back, 'erase': M.s_erase,
    'swap': M.s_swap, '(conv)': M.s_conv,
}
SEQM = {
    'size': M.s_size, 'empty': M.s_empty, 'begin': M.s_begin, 'end': M.s_end, 'cbegin': M.s_begin, 'cend': M.s_end,
    'rbegin': M.s_rbegin, 'rend': M.s_rend, 'crbegin': M.s_rbegin, 'crend': M.s_rend, 'clear': M.v_clear,
    'operator[]': M.v_index, 'at': M.v_index, 'front': M.v_front, 'back': M.v_back, 'push_back': M.v_push,
    'emplace_back': M.v_push, 'push_front': M.v_pushf, 'emplace_front': M.v_pushf, 'pop_back': M.v_pop,
    'pop_front': M.v_pop, 'resize': M.v_resize, 'operator=': M.v_assign, 'assign': M.v_assign, 'erase': M.v_erase,
    'insert': M.v_insert, 'reserve': M.s_reserve, 'shrink_to_fit': M.s_reserve, 'swap': M.s_swap,
}
MAPM = {
    'find': M.m_find, 'count': M.m_count, 'contains': M.m_count, 'operator[]': M.m_index, 'at': M.m_index, 'clear': M.m_clear,
    'erase': M.m_erase, 'emplace': M.m_emplace, 'insert': M.m_emplace, 'try_emplace': M.m_emplace,
    'insert_or_assign': M.m_emplace, 'begin': M.s_begin, 'cbegin': M.s_begin, 'end': M.m_end, 'cend': M.m_end,
    'size': M.s_size, 'empty': M.s_empty, 'operator=': M.v_assign, 'swap': M.m_swap, 'reserve': M.s_reserve,
}
SETM = {
    'insert': M.set_insert, 'emplace': M.set_insert, 'size': M.set_size, 'empty': M.s_empty, 'count': M.set_count,
    'begin': M.s_begin, 'end': M.m_end, 'operator=': M.v_assign,
}
ITM = {
    'operator*': M.i_deref, 'operator->': M.i_deref, 'operator++': M.i_inc, 'operator--': M.i_inc, 'operator=': M.i_assign,
    'operator+': M.i_plus, 'operator-': M.i_plus, 'operator+=': M.i_plus, 'operator-=': M.i_plus, 'operator[]': M.i_index,
    'base': M.i_base, 'operator==': M.op_eq, 'operator!=': M.op_eq,
}
UPM = {
    'operator*': M.u_deref, 'operator->': M.u_arrow, '(conv)': M.u_bool, 'get': M.u_get, 'release': M.u_release,
    'reset': M.u_reset, 'operator=': M.u_assign,
}
OPTM = {'has_value': M.o_has, '(conv)': M.o_has, 'operator*': M.o_val, 'value': M.o_val}
STREAMM = {
    'operator<<': M.op_out, 'str': M.st_str, 'operator!': M.st_not, '(conv)': M.st_bool, 'fail': M.st_not, 'eof': M.st_eof,
    'bad': M.st_not, 'good': M.st_good, 'flush': M.st_nop, 'put': M.st_write, 'write': M.st_write, 'clear': M.st_clear,
    'close': M.st_nop, 'is_open': M.st_bool,
}
FREE = {
    'std::min': M.f_min, 'std::max': M.f_min, 'std::move': M.f_move, 'std::forward': M.f_move, 'std::swap': M.f_swap,
    'std::find': M.f_find, 'std::getline': M.f_getline, 'strlen': M.f_strlen, 'std::strlen': M.f_strlen,
    'strcmp': M.f_strcmp, 'strncmp': M.f_strcmp, 'std::strcmp': M.f_strcmp, 'std::strncmp': M.f_strcmp,
    '__errno_location': M.f_errno, 'strerror': M.f_strerror, 'std::strerror': M.f_strerror,
    'std::to_string': M.f_tostring, 'iconv_open': M.f_iconv_open, 'iconv_close': M.f_iconv_close, 'iconv': M.f_iconv,
    'std::begin': M.f_begin, 'std::end': M.f_begin, 'std::cbegin': M.f_begin, 'std::cend': M.f_begin,
    'std::next': M.f_next, 'std::prev': M.f_next, 'std::make_pair': M.f_makepair, 'std::make_unique': M.f_make_unique,
    'std::any_of': M.f_algo, 'std::all_of': M.f_algo, 'std::none_of': M.f_algo, 'std::find_if': M.f_algo,
    'std::find_if_not': M.f_algo, 'std::for_each': M.f_algo, 'std::count_if': M.f_algo, 'std::transform': M.f_transform,
    'abort': M.f_terminate, 'exit': M.f_terminate, '_exit': M.f_terminate, 'std::terminate': M.f_terminate,
    'std::abort': M.f_terminate, 'std::exit': M.f_terminate, 'std::as_const': M.f_move,
    'std::addressof': M.f_move, 'std::tie': M.f_tuple, 'std::make_tuple': M.f_tuple, 'std::forward_as_tuple': M.f_tuple,
}
for _n in CTYPE:
    FREE[_n] = FREE['std::' + _n] = M.f_ctype
for _n in ('toupper', 'tolower'):
    FREE[_n] = FREE['std::' + _n] = M.f_tochar
FREEOP = {'operator==': M.op_eq, 'operator!=': M.op_eq, 'operator<': M.op_less, 'operator>': M.op_less,
          'operator<=': M.op_less, 'operator>=': M.op_less, 'operator+': M.op_plus, 'operator-': M.op_minus,
          'operator<<': M.op_out}
