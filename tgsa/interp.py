"""Abstract interpreter over the extracted syntax trees.

Project functions are inlined, library functions are modelled (models.py).
Loops (and backward gotos) are brought to a fixpoint: states that reach a loop
head with the same values of their flags get joined, unstable values become
symbols and unstable bounds are widened.  What a client records while a loop
body is analysed counts only from the pass that reached the fixpoint.
"""
from .terms import *
from .state import *
from .prog import NOTY, Broken, walk

MERGE_RET = 4
MERGE_BLOCK = 12


class Unsupported(Exception):
    pass


class Out(object):
    __slots__ = ('fall', 'brk', 'cont', 'ret', 'goto', 'thr')

    def __init__(self):
        self.fall = []
        self.brk = []
        self.cont = []
        self.ret = []
        self.goto = {}
        self.thr = []

    def take(self, o):
        """everything but the normal outcome"""
        self.brk += o.brk
        self.cont += o.cont
        self.ret += o.ret
        for k, v in o.goto.items():
            self.goto.setdefault(k, []).extend(v)
        self.thr += o.thr


class Frame(object):
    __slots__ = ('cs', 'f', 'parent', 'caps', 'exc', 'site', 'scopes')

    def __init__(self, cs, f, parent, site):
        self.cs = cs
        self.f = f
        self.parent = parent
        self.caps = {}
        self.exc = []
        self.site = site
        self.scopes = []

    def chain(self):
        out = []
        fr = self
        while fr is not None:
            out.append(fr)
            fr = fr.parent
        return out


def is_bool_leaf(v):
    return v.op == 'i'


def ref_shape(loc):
    out = []
    while loc.op in ('[]', '.f', '.k') and loc.a[0].__class__ is T:
        out.append(loc.op if loc.op == '[]' else (loc.op, loc.a[1].id if loc.a[1].__class__ is T else loc.a[1]))
        loc = loc.a[0]
    return '%s %s' % (loc.id, out)


class Interp(object):
    def __init__(self, prog, client=None):
        self.prog = prog
        self.client = client
        self.cs_tab = {}
        self.fr = None
        self.buf = []
        self.thr = None
        self.pin_n = 0
        self.nstates = 0
        self.nsteps = 0
        self.funcs_seen = set()
        self.calls_seen = set()
        self.loops_seen = set()
        self.root_ty = {}
        self.unmodelled = {}
        self.hasproj = {}
        self.eid = {}
        from . import models
        self.models = models.Models(self)
        from . import effects
        self.eff = effects.Effects(prog)
        self.max_steps = 4000000
        ROOT_INIT[0] = self.root_init
        self.use_memo = True
        self.merge_ret = MERGE_RET
        self.exact = False      # keep the paths through a function apart
        self.max_rec = 0
        self.ldepth = 0
        self.unroll = 0         # iterations followed one by one
        self.merge_block = MERGE_BLOCK
        self._memo = {}
        self._reach = {}
        self._stable = {}
        self._heavy = {}
        self.memo_hit = self.memo_miss = 0

    # ------------------------------------------------------------ helpers
    def xid(self, e):
        n = e.get('_id')
        if n is None:
            n = e['_id'] = len(self.eid) + 1
            self.eid[n] = e
        return n

    def cs(self, parent, site):
        k = (parent, site)
        n = self.cs_tab.get(k)
        if n is None:
            n = self.cs_tab[k] = len(self.cs_tab) + 1
        return n

    def event(self, *ev):
        self.buf.append(ev)

    def events(self):
        """everything that was recorded, once"""
        out = []
        seen = set()
        work = [self.buf]
        once = set()
        while work:
            b = work.pop()
            for ev in b:
                if ev[0] == 'memo':
                    if id(ev[1]) not in seen:
                        seen.add(id(ev[1]))
                        work.append(ev[1])
                else:
                    out.append(ev)
        return out

    def where(self, e):
        """file:line (function) of a node in the current frame"""
        f = self.fr.f
        return '%s:%s (%s)' % (f['file'], e.get('l', '?'), f['q'])

    def trace(self):
        return [fr.f['q'] for fr in reversed(self.fr.chain())]

    def imprecise(self, st, why):
        st.imp = st.imp | frozenset((why,))
        self.unmodelled[why] = self.unmodelled.get(why, 0) + 1

    def has_project_call(self, e):
        k = id(e)
        r = self.hasproj.get(k)
        if r is None:
            r = False
            for n in walk(e):
                if n.get('e') in ('call', 'ctor', 'lambda', 'new', 'delete'):
                    f = n.get('f')
                    if f is None or f['m'] in self.prog.funcs or f.get('virtual') or n['e'] == 'lambda':
                        r = True
                        break
            self.hasproj[k] = r
        return r

    # ------------------------------------------------------------ values
    def symval(self, ty, name, depth=0):
        """unknown value of a type"""
        t = ty
        if t.k == 'rec':
            if t.name in self.prog.records and depth < 4:
                fs = self.prog.fields(t.name)
                return rec(t.name, [f['name'] for f in fs],
                           [self.symval(f['t'], name + (f['name'],), depth + 1) for f in fs])
            return self.models.symlib(t, name)
        if t.k == 'arr':
            return mk('y', 'o', name, 0)
        if t.k == 'ref':
            return mk('deref', mk('y', 'p', name, 0))
        return mk('y', t.kind(), name, 0)

    def defval(self, ty):
        """value-initialised"""
        if ty.k == 'rec':
            if ty.name in self.prog.records:
                fs = self.prog.fields(ty.name)
                return rec(ty.name, [f['name'] for f in fs], [self.defval(f['t']) for f in fs])
            return self.models.deflib(ty)
        if ty.k == 'arr':
            if ty.n <= 64:
                return mk('vec', *([self.defval(ty.of)] * ty.n))
            return mk('y', 'o', ('array',), 0)
        return ZERO

    def undef(self, ty, name):
        """uninitialised"""
        if ty.k == 'rec' and ty.name not in self.prog.records:
            return self.models.deflib(ty)
        return self.symval(ty, ('undef',) + name)

    def root_init(self, st, root):
        ty = self.root_ty.get(root)
        if root.op == 'L' and root.a[0] == 'glob':
            g = self.prog.globals.get(root.a[1])
            if g is not None:
                v = None
                if g.get('const') and g.get('init') is not None and not g.get('staticlocal'):
                    v = self.const_init(g['init'])
                elif g.get('const') and g.get('init') is not None:
                    v = self.const_init(g['init'])
                if v is None:
                    v = self.symval(g['t'], ('glob', root.a[1]))
                st.store[root] = v
                return v
        if ty is None:
            ty = NOTY
        v = self.symval(ty, ('init', root))
        st.store[root] = v
        return v

    def const_init(self, e):
        """value of a constant initialiser, or None"""
        if e is None:
            return None
        k = e['e']
        if k == 'int' or 'cv' in e:
            return I(int(e.get('cv', e.get('v'))))
        if k in ('char', 'bool'):
            return I(int(e['v']))
        if k == 'zero':
            return self.defval(e['t'])
        if k == 'str':
            return S(bytes(e['v']))
        if k in ('cast', 'mat'):
            if k == 'cast' and e.get('c') == 'NullToPointer':
                return ZERO
            return self.const_init(e['x'])
        if k == 'initlist':
            vs = [self.const_init(x) for x in e['a']]
            if any(v is None for v in vs):
                return None
            if 'fields' in e:
                return rec(e['t'].name, e['fields'][:len(vs)], vs)
            return mk('vec', *vs)
        if k == 'ctor' and e['t'].is_string() and e['a']:
            return self.const_init(e['a'][0])
        if k == 'fn':
            return mk('fn', e['f']['m'])
        if k == 'un' and e['op'] == '&' and e['x']['e'] == 'fn':
            return mk('fn', e['x']['f']['m'])
        return None

    def loc_of(self, p):
        """location a pointer value points to"""
        if p.op in LOCOPS:
            return p
        return mk('deref', p)

    def field(self, loc, f):
        if loc.op == '.e':
            if f == 'first':
                return mk('kcell', loc.a[1])
            return mk('.k', loc.a[0], loc.a[1], loc.a[2])
        return mk('.f', loc, f)

    def read(self, st, loc, ty=None):
        op = loc.op
        if op in ('L', 'deref'):
            tr = TR[0]
            if tr is not None:
                tr.R.add(loc)
            v = st.store.get(loc)
            if v is None:
                if ty is not None and loc not in self.root_ty:
                    self.root_ty[loc] = ty
                v = self.root_init(st, loc)
            return v
        if op == '.f':
            b = self.read(st, loc.a[0])
            return fget(b, loc.a[1], ty.kind() if ty is not None else 'o')
        if op == '.i':
            b = self.read(st, loc.a[0])
            return self.select(st, b, loc.a[1], loc.a[2])
        if op == '.k':
            m = self.read(st, loc.a[0])
            return self.mapget(st, m, loc.a[1], loc.a[2])
        if op == '.e':
            m = self.read(st, loc.a[0])
            return rec('std::pair', ('first', 'second'), (loc.a[1], self.mapget(st, m, loc.a[1], loc.a[2])))
        if op == 'kcell':
            return loc.a[0]
        if op == 's' or op == 'fn' or kind(loc) == 'o':
            return loc
        raise Unsupported('read of ' + op)

    def mapget(self, st, m, k, kd):
        while m.op in ('put', 'ins', 'del'):
            if m.op != 'del' and m.a[1] is k:
                return m.a[2]
            e = st.ev(Eqs(m.a[1], k)) if kind(k) == 'o' else st.ev(Eq(m.a[1], k))
            if e:
                return m.a[2]
            if e is False:
                m = m.a[0]
                continue
            break
        return mk('mget', m, k, kd) if kd != 'o' else mk('mget', m, k)

    def select(self, st, b, i, kd):
        while b.op in ('upd', 'push', 'pushf', 'resize', 'eraset'):
            if b.op == 'upd':
                e = st.ev(Eq(b.a[1], i))
                if e:
                    return b.a[2]
                if e is False:
                    b = b.a[0]
                    continue
                break
            if b.op == 'push':
                e = st.ev(Eq(size(b.a[0]), i))
                if e:
                    return b.a[1]
                if e is False:
                    b = b.a[0]
                    continue
                break
            if b.op == 'resize':
                n = size(b.a[0])
                if st.le(n, i):
                    return b.a[2]
                if st.le(i, n, -1):
                    b = b.a[0]
                    continue
                break
            break
        if kd != 'c' and i.op != 'i':
            lo = st.lower(i)
            if lo is not None and lo >= 0 and st.upper(i) == lo:
                i = I(lo)
        return at(b, i, kd)

    def write(self, st, loc, v):
        op = loc.op
        if op in ('L', 'deref'):
            st.store[loc] = v
            if self.client is not None:
                self.client.on_write(self, st, loc, v)
            return
        if op == '.f':
            b = self.read(st, loc.a[0])
            self.write(st, loc.a[0], fput(b, loc.a[1], v))
            return
        if op == '.i':
            b = self.read(st, loc.a[0])
            self.write(st, loc.a[0], upd(b, loc.a[1], v))
            return
        if op == '.k':
            b = self.read(st, loc.a[0])
            self.write(st, loc.a[0], mput(b, loc.a[1], v))
            return
        if op == '.e':
            return
        raise Unsupported('write to ' + op)

    def havoc(self, st, loc, why):
        try:
            old = self.read(st, loc)
        except Unsupported:
            return
        def hv(v):
            if v.op == 'rec':
                return rec(v.a[0], v.a[1], [hv(x) for x in v.a[2]])
            return fresh(kind(v), ('havoc', why))
        self.write(st, loc, hv(old))

    # ------------------------------------------------------------ merging
    def key(self, st):
        out = []
        for r, v in st.store.items():
            if r.a[0] == 'pin':
                continue
            self.key_of(st, r, v, (r.id,), out)
        out.sort(key=lambda x: (x[0][0],) + tuple(map(str, x[0][1:])))
        g = []
        for k, v in st.g.items():
            if v.__class__ is T or v.__class__ is frozenset:
                continue
            if v.__class__ is tuple and any(x.__class__ is T for x in v):
                continue
            g.append((k, v))
        g.sort(key=lambda x: x[0])
        return (tuple(out), tuple(g))

    def key_of(self, st, root, v, path, out):
        if v.op == 'rec':
            cls = v.a[0]
            tys = self.field_kinds(cls)
            for n, x in zip(v.a[1], v.a[2]):
                k = tys.get(n)
                if x.op == 'rec':
                    self.key_of(st, None, x, path + (n,), out)
                elif k == 'b' and x.op == 'i':
                    out.append((path + (n,), x.a[0]))
                elif k == 'p':
                    b = st.is_null(x)
                    if b is not None:
                        out.append((path + (n,), 'null' if b else 'ok'))
            return
        ty = self.root_ty.get(root) if root is not None else None
        if ty is not None:
            if ty.k == 'bool' or ty.k == 'enum':
                if v.op == 'i':
                    out.append((path, v.a[0]))
            elif ty.k == 'ptr':
                b = st.is_null(v)
                if b is not None:
                    out.append((path, 'null' if b else 'ok'))
            elif v is NPOS:
                out.append((path, 'npos'))      # "not found"
            elif ty.k == 'ref' and v.op in LOCOPS:
                # references to different things are kept apart
                out.append((path, ref_shape(v)))

    def field_kinds(self, cls):
        c = self.__dict__.setdefault('_fk', {})
        r = c.get(cls)
        if r is None:
            r = {f['name']: f['t'].kind() if f['t'].k != 'ref' else 'r' for f in self.prog.fields(cls)}
            if cls == 'istream':
                r = {'fail': 'b'}
            if cls == 'std::optional':
                r = {'has': 'b'}
            c[cls] = r
        return r

    def merge(self, sts, tag):
        """join states with the same key"""
        if len(sts) < 2:
            return sts
        groups = {}
        for s in sts:
            groups.setdefault(self.key(s), []).append(s)
        out = []
        for k, g in groups.items():
            s = g[0]
            s.gc()
            for i, o in enumerate(g[1:]):
                o.gc()
                s = self.join2(s, o, ('m', tag, i))
            out.append(s)
        return out

    def join2(self, a, b, tag):
        # earlier instances of the symbols this join introduces keep their meaning under another name
        m = {}
        for s in (a, b):
            for r, v in s.store.items():
                for l in v.leaves:
                    if l.a[1].__class__ is tuple and len(l.a[1]) > 1 and l.a[1][0] == 'phi' and l.a[1][1] == tag and l not in m:
                        m[l] = fresh(l.a[0], 'old')
        if m:
            a, b = a.copy(), b.copy()
            a.rename(m)
            b.rename(m)
        return join(a, b, tag)

    # ------------------------------------------------------------ loops
    def loop(self, inst, entry, run, node, peel=False):
        self.ldepth += 1
        try:
            return self.loop0(inst, entry, run, node, peel)
        finally:
            self.ldepth -= 1

    def loop0(self, inst, entry, run, node, peel=False):
        """run(head) -> (exits, backs, Out).  Returns (exits, Out).
        peel: the first iteration is looked at on its own"""
        self.loops_seen.add((self.fr.f['file'], self.fr.f['q'], node.get('l')))
        first = None
        if self.client is not None and self.client.wants_loops:
            before = [s.copy() for s in entry]
        if peel or self.unroll:
            ex0, out0 = [], Out()
            for i in range(max(self.unroll, 1)):
                entry0 = entry
                entry = []
                for s in entry0:
                    x, b, o = run(s.copy())
                    ex0 += x
                    out0.take(o)
                    entry += b
                first = (ex0, out0)
                if not entry:
                    return first
            if len(entry) > 4:
                entry = self.merge(entry, ('peel', inst))
        tag = ('loop', inst)
        heads = {}
        res = {}
        evs = {}
        count = {}
        pending = [(None, None, s) for s in entry]
        trans = {}
        rounds = 0
        while True:
            dirty = []
            cands = {}
            for (k0, h0, s) in pending:
                s = self.stale(s, tag)
                s.gc()
                cands.setdefault(self.key(s), []).append(s)
            for k, ss in cands.items():
                h = heads.get(k)
                if h is None:
                    h = ss[0]
                    ss = ss[1:]
                    new = h
                    for s in ss:
                        new = join(new, s, tag)
                        new = self.settle(new, tag)
                    heads[k] = new
                    if len(heads) > 400:
                        raise Unsupported('no end of states at %s:%s (%s)' % (self.fr.f['file'], node.get('l'), self.fr.f['q']))
                    dirty.append(k)
                    count[k] = 1
                    continue
                n = h
                for s in ss:
                    n = join(n, self.stale(s, tag), tag) if n is h else join(n, s, tag)
                if not covers(h, n):
                    count[k] += 1
                    if count[k] > 3:
                        n = widen(h, n)
                    if count[k] > 40:
                        raise Unsupported('no fixpoint at %s:%s (%s)' % (self.fr.f['file'], node.get('l'), self.fr.f['q']))
                    heads[k] = n
                    dirty.append(k)
            if not dirty:
                break
            rounds += 1
            pending = []
            for k in dirty:
                save = self.buf
                self.buf = []
                exits, backs, out = run(heads[k].copy())
                evs[k] = self.buf
                self.buf = save
                res[k] = (exits, out)
                trans[k] = backs
                for b in backs:
                    b = b.copy()
                    if self.client is not None:
                        self.client.on_back(self, node, inst, b, self.ldepth)
                    pending.append((k, heads[k], b))
        for k in res:
            self.buf.extend(evs[k])
        if self.client is not None:
            for k, backs in trans.items():
                for b in backs:
                    self.client.on_backedge(self, node, inst, heads[k], b)
            self.client.on_loop(self, node, inst, heads, trans)
            if self.client.wants_loops:
                leave = {k: ([x.copy() for x in res[k][0]], [x[0].copy() for x in res[k][1].ret] + [x[0].copy() for x in res[k][1].thr]) for k in res}
                if first is not None:
                    leave[None] = ([x.copy() for x in first[0]], [x[0].copy() for x in first[1].ret] + [x[0].copy() for x in first[1].thr])
                self.client.on_loop_done(self, node, inst, before, entry, heads, trans, leave)
        exits, out = first if first is not None else ([], Out())
        for k in res:
            exits += res[k][0]
            out.take(res[k][1])
        if self.client is not None:
            self.client.on_exits(self, node, inst, exits)
        if self.client is not None and self.client.wants_loops:
            self.client.on_loop_exit(self, node, inst, heads, trans, exits)
        return exits, out

    def settle(self, s, tag):
        return s

    def stale(self, s, tag):
        """symbols of an earlier visit of this loop head get another name"""
        m = {}
        for r, v in s.store.items():
            for l in v.leaves:
                n = l.a[1]
                if n.__class__ is tuple and n[0] == 'phi' and n[1] == tag and l not in m:
                    m[l] = fresh(l.a[0], 'old')
            for l in r.leaves:
                n = l.a[1]
                if n.__class__ is tuple and n[0] == 'phi' and n[1] == tag and l not in m:
                    m[l] = fresh(l.a[0], 'old')
        for d in (s.P, s.M, s.prov, s.z):
            for t in d:
                for l in t.leaves:
                    n = l.a[1]
                    if n.__class__ is tuple and n[0] == 'phi' and n[1] == tag and l not in m:
                        m[l] = fresh(l.a[0], 'old')
        if m:
            s = s.copy()
            s.rename(m)
        return s

    # ------------------------------------------------------------ statements
    def ex(self, s, sts):
        """executes a statement in several states"""
        out = Out()
        if s is None:
            out.fall = sts
            return out
        if not sts:
            return out
        k = s['s']
        self.nsteps += len(sts)
        if self.nsteps > self.max_steps:
            raise Unsupported('too many steps')
        m = getattr(self, 's_' + k, None)
        if m is None:
            raise Unsupported('statement %s at %s' % (s.get('cls', k), self.where(s)))
        m(s, sts, out)
        return out

    def with_throws(self, out, fn):
        save = self.thr
        self.thr = out.thr
        try:
            return fn()
        finally:
            self.thr = save

    def s_null(self, s, sts, out):
        out.fall = sts

    def s_expr(self, s, sts, out):
        def go():
            r = []
            for st in sts:
                r += self.full(s['x'], st, discard=True)
            return r
        out.fall = [st for st, v in self.with_throws(out, go)]

    def full(self, e, st, discard=False):
        """evaluates a full expression; destroys its temporaries"""
        base = self.tmp_mark(st)
        save = self.thr
        mine = []
        self.thr = mine
        try:
            r = self.ev(e, st)
        finally:
            self.thr = save
        res = []
        for st1, v in r:
            for st2, v2 in self.kill_temps(st1, base, ZERO if discard else v):
                res.append((st2, v2))
        for st1, t, v in mine:
            for st2, v2 in self.kill_temps(st1, base, v):
                self.thr.append((st2, t, v2))
        return res

    def tmp_mark(self, st):
        return len(st.ext.get('tmps', ()))

    def kill_temps(self, st, base, v):
        tmps = st.ext.get('tmps', ())
        if len(tmps) <= base:
            return [(st, v)]
        work = [(st, v)]
        for root, ty in reversed(tmps[base:]):
            nw = []
            for s, x in work:
                if root in s.store:
                    nw += self.destroy(s, root, ty, x)
                else:
                    nw.append((s, x))
            work = nw
        for s, x in work:
            s.ext['tmps'] = tuple(s.ext.get('tmps', ()))[:base]
            for root, ty in tmps[base:]:
                if not (x is not None and x.__class__ is T and self.mentions(x, root)):
                    s.store.pop(root, None)
        return work

    def mentions(self, t, root):
        while t.op in ('.f', '.i', '.k', '.e', '.p', 'it'):
            t = t.a[0]
        return t is root

    def new_temp(self, st, e, ty, v):
        n = self.xid(e)
        root = mk('L', 'tmp', self.fr.cs, n)
        self.root_ty[root] = ty
        st.store[root] = v
        st.ext['tmps'] = st.ext.get('tmps', ()) + ((root, ty),)
        return root

    def needs_dtor(self, ty):
        if ty.k == 'rec':
            c = self.__dict__.setdefault('_nd', {})
            r = c.get(ty.name)
            if r is None:
                c[ty.name] = False
                r = False
                if ty.name in self.prog.records:
                    d = self.dtor_of(ty.name)
                    if d is not None and not self.trivial_body(d):
                        r = True
                    for f in self.prog.fields(ty.name):
                        if self.needs_dtor(f['t']):
                            r = True
                elif ty.name == 'std::unique_ptr' and self.client is not None and self.client.track_delete:
                    r = True
                c[ty.name] = r
            return r
        return False

    def dtor_of(self, cls):
        for f in self.prog.byq.get(cls + '::(dtor)', []):
            return f
        return None

    def trivial_body(self, f):
        b = f.get('body')
        return b is None or not b.get('b')

    def destroy(self, st, loc, ty, carry=None):
        """runs the destructor of the object at loc -> [(state, carry)]"""
        if not self.needs_dtor(ty):
            return [(st, carry)]
        if ty.name not in self.prog.records:
            return [(s, carry) for s in self.models.destroy_lib(st, loc, ty)]
        pin = self.pin(st, carry if carry is not None and carry.__class__ is T else ZERO)
        work = [st]
        d = self.dtor_of(ty.name)
        if d is not None:
            nw = []
            for s in work:
                nw += [x for x, _ in self.inline(d, s, loc, [], {'l': d['line'], '_id': -d['line'] - 1000000})]
            work = nw
        for f in reversed(self.prog.fields(ty.name)):
            if self.needs_dtor(f['t']):
                nw = []
                for s in work:
                    nw += [x for x, _ in self.destroy(s, self.field(loc, f['name']), f['t'])]
                work = nw
        out = []
        for s in work:
            c = self.unpin(s, pin)
            out.append((s, c if carry is not None and carry.__class__ is T else carry))
        self.pin_done(pin)
        return out

    # pins: values that an expression still needs while other code runs
    def pin(self, st, v):
        self.pin_n += 1
        r = mk('L', 'pin', self.pin_n)
        st.store[r] = v
        return r

    def unpin(self, st, r):
        return st.store.pop(r)

    def pin_done(self, r):
        self.pin_n -= 1

    def s_block(self, s, sts, out):
        self.run_stmts(s['b'], sts, out, s)

    def labels_in(self, stmts):
        r = {}
        for i, x in enumerate(stmts):
            y = x
            while y is not None and y['s'] == 'label':
                r[y['label']] = i
                y = y['b']
        return r

    def run_stmts(self, stmts, sts, out, node):
        declared = []
        for x in stmts:
            if x is not None:
                y = x
                while y is not None and y['s'] in ('label', 'case', 'default'):
                    y = y['b']
                if y is not None and y['s'] == 'decl':
                    for v in y['v']:
                        if not v.get('static'):
                            declared.append(v)
        labels = self.labels_in(stmts)
        inner = Out()
        if not labels:
            cur = self.run_seq(stmts, 0, sts, inner)
        else:
            cur = self.run_labels(stmts, sts, inner, labels)
        inner.fall = cur
        self.leave(inner, declared, out)

    def run_seq(self, stmts, i, cur, out):
        for x in stmts[i:]:
            if not cur:
                break
            o = self.ex(x, cur)
            out.take(o)
            cur = o.fall
            if len(cur) > self.merge_block:
                cur = self.merge(cur, ('blk', self.fr.cs, self.xid(x)))
        return cur

    def run_labels(self, stmts, sts, out, labels):
        """a block with labels: control may come back to a label from below"""
        order = sorted(labels.items(), key=lambda x: x[1])

        def seg(k, states, o):
            """runs from the k-th label on (k = -1: from the start) up to the end"""
            start = order[k][1] if k >= 0 else 0
            end = order[k + 1][1] if k + 1 < len(order) else len(stmts)
            cur = self.run_seq(stmts[:end], start, states, o)
            if k + 1 < len(order):
                return cur, k + 1
            return cur, None

        gotos = {n: [] for n, _ in order}
        # first part
        o = Out()
        cur, nxt = seg(-1, sts, o)
        falls = []

        def absorb(o):
            for n in list(o.goto):
                if n in gotos:
                    gotos[n].extend(o.goto.pop(n))
            out.take(o)
        absorb(o)
        if nxt is None:
            return cur
        entry = cur
        k = 0
        while k is not None:
            name = order[k][0]
            states = entry + gotos[name]
            gotos[name] = []
            if not states:
                break
            node = stmts[order[k][1]]

            def run(head, k=k, name=name):
                o = Out()
                c, n2 = seg(k, [head], o)
                # later labels that are reached from here run to their end as well
                work = c
                kk = n2
                while kk is not None:
                    more = o.goto.pop(order[kk][0], [])
                    c2, n3 = seg(kk, work + more, o)
                    work = c2
                    kk = n3
                backs = o.goto.pop(name, [])
                for m2, _ in order:
                    if m2 != name and m2 in o.goto:
                        raise Unsupported('goto between labels at ' + self.where(node))
                return work, backs, o
            exits, o = self.loop(('lab', self.fr.cs, self.xid(node)), states, run, node, peel=True)
            for n in list(o.goto):
                if n in gotos and n != name:
                    raise Unsupported('goto between labels')
            out.take(o)
            return exits
        return entry

    def leave(self, inner, declared, out):
        """end of a scope: destroys its variables on every way out"""
        objs = [v for v in declared if self.needs_dtor(v['t'])]
        roots = [self.var_root(v) for v in declared]

        def fin(st, carry=None):
            work = [(st, carry)]
            for v in reversed(objs):
                r = self.var_root(v)
                nw = []
                for s, c in work:
                    if r in s.store:
                        nw += self.destroy(s, r, v['t'], c)
                    else:
                        nw.append((s, c))
                work = nw
            for s, c in work:
                for r in roots:
                    s.store.pop(r, None)
            return work
        if not declared:
            out.fall = inner.fall
            out.take(inner)
            return
        save = self.thr
        self.thr = out.thr
        try:
            out.fall = [s for st in inner.fall for s, _ in fin(st)]
            out.brk += [s for st in inner.brk for s, _ in fin(st)]
            out.cont += [s for st in inner.cont for s, _ in fin(st)]
            out.ret += [p for st, v in inner.ret for p in fin(st, v)]
            for k, l in inner.goto.items():
                out.goto.setdefault(k, []).extend(s for st in l for s, _ in fin(st))
            for st, t, v in inner.thr:
                out.thr += [(s, t, c) for s, c in fin(st, v)]
        finally:
            self.thr = save

    def s_label(self, s, sts, out):
        o = self.ex(s['b'], sts)
        out.fall = o.fall
        out.take(o)

    def s_goto(self, s, sts, out):
        out.goto.setdefault(s['label'], []).extend(sts)

    def s_break(self, s, sts, out):
        out.brk += sts

    def s_continue(self, s, sts, out):
        out.cont += sts

    def var_root(self, v):
        r = mk('L', self.fr.cs, v['id'], v['name'])
        if r not in self.root_ty:
            self.root_ty[r] = v['t']
        return r

    def s_decl(self, s, sts, out):
        def go():
            cur = sts
            for v in s['v']:
                nxt = []
                for st in cur:
                    nxt += self.declare(v, st)
                cur = nxt
            return cur
        out.fall = self.with_throws(out, go)

    def declare(self, v, st):
        if v.get('static'):
            if self.client is not None:
                return self.client.on_static(self, v, st) or [st]
            return [st]
        root = self.var_root(v)
        ty = v['t']
        init = v.get('init')
        if init is None:
            st.store[root] = self.undef(ty, (root,))
            return [st]
        if ty.k == 'ref':
            r = []
            for st1, loc in self.full_ext(init, st):
                st1.store[root] = loc
                r.append(st1)
        else:
            r = self.init_at(init, root, ty, st)
        if 'bindings' in v:
            for st1 in r:
                for b in v['bindings']:
                    self.bind_structured(v, b, st1, root)
        return r

    def bind_structured(self, v, b, st, root):
        base = st.store[root] if v['t'].k == 'ref' else root
        idx = v['bindings'].index(b)
        br = mk('L', self.fr.cs, b['id'], b['name'])
        rc = v['t'].rec()
        if rc == 'std::pair':
            loc = self.field(base, 'first' if idx == 0 else 'second')
        elif rc in self.prog.records:
            loc = self.field(base, self.prog.fields(rc)[idx]['name'])
        else:
            raise Unsupported('structured binding')
        st.store[br] = loc
        self.root_ty[br] = REF

    def full_ext(self, e, st):
        """full expression bound to a reference: temporaries live on"""
        return self.ev_noclean(e, st)

    def ev_noclean(self, e, st):
        base = self.tmp_mark(st)
        r = self.ev(e, st)
        for s, v in r:
            s.ext['tmps'] = tuple(s.ext.get('tmps', ()))[:base]
        return r

    def init_at(self, e, loc, ty, st):
        """initialises the object at loc with e; full expression"""
        base = self.tmp_mark(st)
        save = self.thr
        mine = []
        self.thr = mine
        try:
            r = self.init_into(e, loc, ty, st)
        finally:
            self.thr = save
        res = []
        for st1 in r:
            res += [s for s, _ in self.kill_temps(st1, base, None)]
        for st1, t, v in mine:
            for st2, v2 in self.kill_temps(st1, base, v):
                self.thr.append((st2, t, v2))
        return res

    def init_into(self, e, loc, ty, st):
        while e['e'] == 'cast' and e['c'] in ('ConstructorConversion', 'NoOp') and not e.get('lv'):
            e = e['x']
        if e['e'] == 'ctor' and e['t'].k == 'rec' and e['t'].name in self.prog.records and e['f']['m'] in self.prog.funcs \
                and not (e.get('kind') in ('copy', 'move') and e['f'].get('defaulted')):
            return [s for s, _ in self.construct(e, loc, st)]
        if e.get('lv'):
            out = []
            for s, v in self.ev(e, st):
                self.write(s, loc, self.read(s, v, ty))
                out.append(s)
            return out
        out = []
        for s, v in self.ev(e, st):
            self.write(s, loc, v)
            out.append(s)
        return out

    def s_if(self, s, sts, out):
        inner = Out()
        declared = []

        def go():
            cur = sts
            if s.get('init') is not None:
                o = self.ex(s['init'], cur)
                inner.take(o)
                cur = o.fall
                if s['init']['s'] == 'decl':
                    declared.extend(v for v in s['init']['v'] if not v.get('static'))
            if s.get('cv') is not None:
                o = self.ex(s['cv'], cur)
                inner.take(o)
                cur = o.fall
                declared.extend(v for v in s['cv']['v'] if not v.get('static'))
            ts, fs = [], []
            for st in cur:
                a, b = self.branch_full(s['c'], st)
                ts += a
                fs += b
            return ts, fs
        ts, fs = self.with_throws(inner, go)
        if len(ts) > self.merge_block:
            ts = self.merge(ts, ('ift', self.fr.cs, self.xid(s)))
        if len(fs) > self.merge_block:
            fs = self.merge(fs, ('iff', self.fr.cs, self.xid(s)))
        o1 = self.ex(s['x'], ts)
        inner.fall += o1.fall
        inner.take(o1)
        if s.get('y') is not None:
            o2 = self.ex(s['y'], fs)
            inner.fall = inner.fall + o2.fall
            inner.take(o2)
        else:
            inner.fall = inner.fall + fs
        self.leave(inner, declared, out)

    def branch_full(self, e, st):
        base = self.tmp_mark(st)
        save = self.thr
        mine = []
        self.thr = mine
        try:
            a, b = self.branch(e, st)
        finally:
            self.thr = save
        ra, rb = [], []
        for s in a:
            ra += [x for x, _ in self.kill_temps(s, base, None)]
        for s in b:
            rb += [x for x, _ in self.kill_temps(s, base, None)]
        for st1, t, v in mine:
            for st2, v2 in self.kill_temps(st1, base, v):
                self.thr.append((st2, t, v2))
        return ra, rb

    def branch(self, e, st):
        """-> (states where e holds, states where it does not)"""
        k = e['e']
        if k == 'bin' and e['op'] in ('&&', '||'):
            a, b = self.branch(e['x'], st)
            if e['op'] == '&&':
                ts, fs = [], b
                for s in a:
                    p, q = self.branch(e['y'], s)
                    ts += p
                    fs = fs + q
            else:
                ts, fs = a, []
                for s in b:
                    p, q = self.branch(e['y'], s)
                    ts = ts + p
                    fs += q
            return ts, fs
        if k == 'un' and e['op'] == '!':
            a, b = self.branch(e['x'], st)
            return b, a
        if k == 'cast' and e['c'] in ('NoOp',) and not e.get('lv'):
            return self.branch(e['x'], st)
        ts, fs = [], []
        for s, v in self.ev(e, st):
            if v.op == 'i':
                (ts if v.a[0] else fs).append(s)
                continue
            t = self.truth(v)
            a, b = self.split(s, t)
            if a is not None:
                ts.append(a)
            if b is not None:
                fs.append(b)
        return ts, fs

    def truth(self, v):
        if kind(v) == 'b':
            return v
        if kind(v) == 'p':
            return Not(IsNull(v))
        if kind(v) in 'nc':
            return Not(Eq(v, ZERO))
        return v

    def split(self, st, t):
        """-> (state where t, state where not t); None where impossible"""
        r = st.ev(t)
        if r is True:
            return st, None
        if r is False:
            return None, st
        o = st.copy()
        a = st if st.assume(t, True) else None
        b = o if o.assume(t, False) else None
        if t.op not in ('y', 'i'):
            if a is not None:
                self.decide(a, t, True)
            if b is not None:
                self.decide(b, t, False)
        if self.client is not None:
            if a is not None:
                self.client.on_assume(self, a, t, True)
            if b is not None:
                self.client.on_assume(self, b, t, False)
        return a, b

    def decide(self, st, t, v):
        """variables that hold the condition just decided"""
        if t.op == 'not':
            t, v = t.a[0], not v
            if t.op == 'y':
                return
        n = Not(t)
        for r, w in list(st.store.items()):
            if w is t:
                st.store[r] = TRUE if v else FALSE
            elif w is n:
                st.store[r] = FALSE if v else TRUE
            elif w.op == 'rec':
                for f, x in zip(w.a[1], w.a[2]):
                    if x is t or x is n:
                        st.store[r] = fput(st.store[r], f, TRUE if v == (x is t) else FALSE)

    def s_while(self, s, sts, out):
        cv = s.get('cv')

        def run(head):
            inner = Out()

            def cond():
                cur = [head]
                if cv is not None:
                    o = self.ex(cv, cur)
                    inner.take(o)
                    cur = o.fall
                ts, fs = [], []
                for st in cur:
                    a, b = self.branch_full(s['c'], st)
                    ts += a
                    fs += b
                return ts, fs
            ts, fs = self.with_throws(inner, cond)
            o = self.ex(s['b'], ts)
            backs = o.fall + o.cont
            o.cont = []
            exits = fs + o.brk
            o.brk = []
            inner.take(o)
            if cv is not None:
                roots = [self.var_root(v) for v in cv['v']]
                for st in backs + exits:
                    for r in roots:
                        st.store.pop(r, None)
            return exits, backs, inner
        exits, o = self.loop(('l', self.fr.cs, self.xid(s)), sts, run, s, peel=s['c'].get('e') == 'bool')
        out.fall = self.after_loop(exits, s)
        out.take(o)

    def after_loop(self, exits, s):
        if len(exits) > 4:
            exits = self.merge(exits, ('lx', self.fr.cs, self.xid(s)))
        return exits

    def s_do(self, s, sts, out):
        def run(head):
            inner = Out()
            o = self.ex(s['b'], [head])
            mid = o.fall + o.cont
            o.cont = []
            exits = o.brk
            o.brk = []
            inner.take(o)

            def cond():
                ts, fs = [], []
                for st in mid:
                    a, b = self.branch_full(s['c'], st)
                    ts += a
                    fs += b
                return ts, fs
            ts, fs = self.with_throws(inner, cond)
            return exits + fs, ts, inner
        exits, o = self.loop(('l', self.fr.cs, self.xid(s)), sts, run, s, peel=True)
        out.fall = self.after_loop(exits, s)
        out.take(o)

    def s_for(self, s, sts, out):
        outer = Out()
        declared = []
        cur = sts
        if s.get('init') is not None:
            o = self.ex(s['init'], cur)
            outer.take(o)
            cur = o.fall
            if s['init']['s'] == 'decl':
                declared = [v for v in s['init']['v'] if not v.get('static')]

        def run(head):
            inner = Out()

            def cond():
                if s.get('c') is None:
                    return [head], []
                return self.branch_full(s['c'], head)
            ts, fs = self.with_throws(inner, cond)
            o = self.ex(s['b'], ts)
            mid = o.fall + o.cont
            o.cont = []
            exits = fs + o.brk
            o.brk = []
            inner.take(o)

            def inc():
                if s.get('inc') is None:
                    return mid
                r = []
                for st in mid:
                    r += [x for x, _ in self.full(s['inc'], st)]
                return r
            return exits, self.with_throws(inner, inc), inner
        exits, o = self.loop(('l', self.fr.cs, self.xid(s)), cur, run, s, peel=s.get("c") is None)
        outer.fall = self.after_loop(exits, s)
        outer.take(o)
        self.leave(outer, declared, out)

    def s_rfor(self, s, sts, out):
        outer = Out()
        cur = sts
        declared = []
        for part in ('init', 'range', 'begin', 'end'):
            p = s.get(part)
            if p is not None:
                o = self.ex(p, cur)
                outer.take(o)
                cur = o.fall
                if p['s'] == 'decl':
                    declared += p['v']

        def run(head):
            inner = Out()
            ts, fs = self.with_throws(inner, lambda: self.branch_full(s['c'], head))
            body = {'s': 'block', 'b': [s['var'], s['b']], 'l': s['l']}
            bb = s.get('_body')
            if bb is None:
                bb = s['_body'] = body
            o = self.ex(bb, ts)
            mid = o.fall + o.cont
            o.cont = []
            exits = fs + o.brk
            o.brk = []
            inner.take(o)

            def inc():
                r = []
                for st in mid:
                    r += [x for x, _ in self.full(s['inc'], st)]
                return r
            return exits, self.with_throws(inner, inc), inner
        exits, o = self.loop(('l', self.fr.cs, self.xid(s)), cur, run, s)
        outer.fall = self.after_loop(exits, s)
        outer.take(o)
        self.leave(outer, declared, out)

    def s_switch(self, s, sts, out):
        inner = Out()
        declared = []

        def head():
            cur = sts
            for p in ('init', 'cv'):
                if s.get(p) is not None:
                    o = self.ex(s[p], cur)
                    inner.take(o)
                    cur = o.fall
                    declared.extend(s[p]['v'])
            r = []
            for st in cur:
                r += self.full(s['c'], st)
            return r
        vals = self.with_throws(inner, head)
        body = s['b']
        stmts = body['b'] if body['s'] == 'block' else [body]
        # flatten case labels: [(labels, stmt)]
        flat = []
        for x in stmts:
            labs = []
            while x is not None and x['s'] in ('case', 'default'):
                labs.append(x)
                x = x['b']
            flat.append((labs, x))
        cases = []
        default = None
        for i, (labs, x) in enumerate(flat):
            for l in labs:
                if l['s'] == 'default':
                    default = i
                else:
                    cases.append((i, l))
        entry = {}
        nomatch = []
        for st, v in vals:
            cur = st
            for i, l in cases:
                if cur is None:
                    break
                c = self.const_init(l['v'])
                if c is None:
                    raise Unsupported('case label')
                if l.get('hi') is not None:
                    h = self.const_init(l['hi'])
                    t = mk('and', Le(c, v), Le(v, h))
                else:
                    t = Eq(v, c)
                a, b = self.split(cur, t)
                if a is not None:
                    entry.setdefault(i, []).append(a)
                cur = b
            if cur is not None:
                if default is not None:
                    entry.setdefault(default, []).append(cur)
                else:
                    nomatch.append(cur)
        # the statements, with entries
        run = Out()
        cur = []
        decl2 = []
        for i, (labs, x) in enumerate(flat):
            if x is not None and x['s'] == 'decl':
                decl2 += [v for v in x['v'] if not v.get('static')]
            cur = cur + entry.get(i, [])
            if not cur:
                continue
            if x is None:
                continue
            o = self.ex(x, cur)
            run.take(o)
            cur = o.fall
        run.fall = cur + run.brk
        run.brk = []
        mid = Out()
        self.leave(run, decl2, mid)
        inner.fall = mid.fall + nomatch
        inner.take(mid)
        self.leave(inner, declared, out)

    def s_return(self, s, sts, out):
        def go():
            r = []
            rt = self.fr.f.get('rt')
            for st in sts:
                if s.get('x') is None:
                    r.append((st, ZERO))
                elif rt is not None and rt.k == 'ref':
                    r += self.full(s['x'], st)
                elif rt is not None and rt.k == 'rec':
                    tmp = mk('L', 'ret', self.fr.cs)
                    for s1 in self.init_at(s['x'], tmp, rt, st):
                        r.append((s1, s1.store.pop(tmp)))
                else:
                    r += self.full(s['x'], st)
            return r
        out.ret += self.with_throws(out, go)

    def s_try(self, s, sts, out):
        o = self.ex(s['b'], sts)
        thr = o.thr
        o.thr = []
        out.fall = o.fall
        out.take(o)
        caught = {}
        for st, t, v in thr:
            done = False
            for i, h in enumerate(s['h']):
                m = self.models.catches(h.get('t') if h.get('v') is not None or h.get('t') is not None else None, t)
                if m:
                    caught.setdefault(i, []).append((st, t, v))
                    done = True
                    break
            if not done:
                out.thr.append((st, t, v))
        for i, l in caught.items():
            h = s['h'][i]
            states = []
            for st, t, v in l:
                st.ext['exc'] = st.ext.get('exc', ()) + (t,)
                if h.get('v') is not None:
                    root = self.var_root(h['v'])
                    if h['v']['t'].k == 'ref':
                        er = mk('L', 'exc', self.fr.cs, self.xid(h))
                        self.root_ty[er] = h['v']['t'].to
                        st.store[er] = v if v is not None else mk('y', 'o', ('exception',), 0)
                        st.store[root] = er
                    else:
                        st.store[root] = v if v is not None else mk('y', 'o', ('exception',), 0)
                if self.client is not None:
                    self.client.on_catch(self, h, st, t)
                states.append(st)
            states = self.merge(states, ('catch', self.fr.cs, self.xid(h)))
            o = self.ex(h['b'], states)
            for st in o.fall + o.brk + o.cont + [x for x, _ in o.ret] + [x[0] for x in o.thr] + [x for g in o.goto.values() for x in g]:
                st.ext['exc'] = tuple(st.ext.get('exc', ()))[:-1]
                if h.get('v') is not None:
                    st.store.pop(self.var_root(h['v']), None)
                    st.store.pop(mk('L', 'exc', self.fr.cs, self.xid(h)), None)
            out.fall = out.fall + o.fall
            out.take(o)

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        """-> [(state, value)]; the value of a glvalue is its location"""
        cv = e.get('cv')
        if cv is not None and not e.get('lv'):
            return [(st, I(int(cv)))]
        k = e['e']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('expression %s at %s' % (e.get('cls', k), self.where(e)))
        return m(e, st)

    def evs(self, es, st):
        """evaluates in order -> [(state, [values])]"""
        work = [(st, [])]
        pins = []
        for i, e in enumerate(es):
            later = any(self.has_project_call(x) for x in es[i + 1:])
            nw = []
            for s, vs in work:
                for s2, v in self.ev(e, s):
                    nw.append((s2, vs, v))
            work = []
            if later:
                self.pin_n += 1
                r = mk('L', 'pin', self.pin_n)
                pins.append((i, r))
                for s2, vs, v in nw:
                    s2.store[r] = v
                    work.append((s2, vs + [None]))
            else:
                work = [(s2, vs + [v]) for s2, vs, v in nw]
        for i, r in reversed(pins):
            for s, vs in work:
                vs[i] = s.store.pop(r)
            self.pin_n -= 1
        return work

    def e_int(self, e, st):
        return [(st, I(int(e['v'])))]

    def e_char(self, e, st):
        return [(st, I(int(e['v'])))]

    def e_bool(self, e, st):
        return [(st, TRUE if e['v'] else FALSE)]

    def e_zero(self, e, st):
        return [(st, self.defval(e['t']))]

    def e_float(self, e, st):
        return [(st, fresh('n', 'float'))]

    def e_sizeof(self, e, st):
        return [(st, fresh('u', 'sizeof'))]

    def e_str(self, e, st):
        return [(st, S(bytes(e['v'])))]

    def e_predef(self, e, st):
        return [(st, S(b''))]

    def e_fn(self, e, st):
        return [(st, mk('fn', e['f']['m']))]

    def e_var(self, e, st):
        fr = self.fr
        c = fr.caps.get(e['id'])
        if c is not None:
            return [(st, self.cap_loc(st, c))]
        root = mk('L', fr.cs, e['id'], e['name'])
        ty = self.root_ty.get(root)
        if ty is not None and ty.k == 'ref':
            return [(st, st.store[root])]
        if root not in st.store and ty is None:
            self.root_ty[root] = e['t']
        return [(st, root)]

    def cap_loc(self, st, c):
        loc, byref = c
        if byref:
            return self.read(st, loc)
        return loc

    def e_global(self, e, st):
        root = mk('L', 'glob', e['q'])
        if root not in self.root_ty:
            g = self.prog.globals.get(e['q'])
            self.root_ty[root] = g['t'] if g else e['t']
        ty = self.root_ty[root]
        if ty.k == 'ref':
            return [(st, self.read(st, root))]
        return [(st, root)]

    def e_this(self, e, st):
        c = self.fr.caps.get('this')
        if c is not None:
            return [(st, self.read(st, c[0]))]
        return [(st, st.store[mk('L', 'this', self.fr.cs)])]

    def e_member(self, e, st):
        out = []
        for s, b in self.ev(e['b'], st):
            if e.get('arrow'):
                b = self.deref(e, s, b)
                if b is None:
                    continue
            elif not e['b'].get('lv'):
                b = self.new_temp(s, e['b'], e['b']['t'], b)
            loc = self.field(b, e['f'])
            fty = self.field_type(e.get('cls'), e['f'])
            if fty is not None and fty.k == 'ref':
                out.append((s, self.read(s, loc, fty)))
            else:
                out.append((s, loc))
        return out

    def field_type(self, cls, f):
        for x in self.prog.fields(cls or ''):
            if x['name'] == f:
                return x['t']
        return None

    def deref(self, e, st, p):
        """pointer value -> location; reports a null dereference"""
        n = st.is_null(p)
        if n is True:
            self.event('oblig', 'null', self.where(e), 'bad', 'null pointer dereferenced', self.trace(), st.imp)
            return None
        if n is False:
            self.event('oblig', 'null', self.where(e), 'ok', '', None, st.imp)
        else:
            self.event('oblig', 'null', self.where(e), 'maybe', 'pointer %s may be null' % show(p), self.trace(), st.imp, (st.copy(), p, None))
            if not st.assume(IsNull(p), False):
                return None
        if p.op == 'it':
            return self.models.it_deref(st, p, e)
        return self.loc_of(p)

    def e_mat(self, e, st):
        x = e['x']
        if x.get('lv'):
            return self.ev(x, st)
        ty = x['t']
        root = mk('L', 'tmp', self.fr.cs, self.xid(e))
        self.root_ty[root] = ty
        if self.is_project_ctor(x):
            out = []
            for s in self.init_into(x, root, ty, st):
                s.ext['tmps'] = s.ext.get('tmps', ()) + ((root, ty),)
                out.append((s, root))
            return out
        out = []
        for s, v in self.ev(x, st):
            s.store[root] = v
            s.ext['tmps'] = s.ext.get('tmps', ()) + ((root, ty),)
            out.append((s, root))
        return out

    def is_project_ctor(self, x):
        while x['e'] == 'cast' and x['c'] in ('ConstructorConversion', 'NoOp') and not x.get('lv'):
            x = x['x']
        return x['e'] == 'ctor' and x['t'].k == 'rec' and x['t'].name in self.prog.records

    def e_cast(self, e, st):
        c = e['c']
        x = e['x']
        out = []
        if c == 'LValueToRValue':
            for s, l in self.ev(x, st):
                v = self.read(s, l, e['t'])
                if self.client is not None:
                    self.client.on_read(self, s, l, v, e)
                out.append((s, v))
            return out
        if c in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'ConstructorConversion',
                 'UserDefinedConversion', 'FunctionToPointerDecay', 'BitCast', 'LValueBitCast', 'AtomicToNonAtomic'):
            return self.ev(x, st)
        if c == 'ArrayToPointerDecay':
            for s, l in self.ev(x, st):
                out.append((s, l if l.op == 's' else mk('.i', l, ZERO, x['t'].of.kind() if x['t'].of is not None else 'c')))
            return out
        if c in ('NullToPointer', 'NullToMemberPointer'):
            return [(s, ZERO) for s, _ in self.ev(x, st)]
        if c == 'PointerToBoolean':
            return [(s, Not(IsNull(v))) for s, v in self.ev(x, st)]
        if c == 'IntegralToBoolean':
            return [(s, Not(Eq(v, ZERO)) if kind(v) != 'b' else v) for s, v in self.ev(x, st)]
        if c == 'IntegralCast':
            return [(s, self.int_cast(s, v, x['t'], e['t'])) for s, v in self.ev(x, st)]
        if c == 'ToVoid':
            return [(s, ZERO) for s, _ in self.ev(x, st)]
        if c == 'IntegralToPointer':
            return [(s, mk('int2ptr', v) if v is not ZERO else ZERO) for s, v in self.ev(x, st)]
        if c == 'PointerToIntegral':
            return [(s, mk('fldn', v, 'ptr2int', 'u') if v is not ZERO else ZERO) for s, v in self.ev(x, st)]
        if c in ('IntegralToFloating', 'FloatingToIntegral', 'FloatingCast'):
            return [(s, fresh('n', 'float')) for s, _ in self.ev(x, st)]
        raise Unsupported('cast %s at %s' % (c, self.where(e)))

    def int_cast(self, st, v, fr, to):
        if v.op == 'i':
            n = v.a[0]
            if to.k == 'bool':
                return TRUE if n else FALSE
            if to.bits:
                n &= (1 << to.bits) - 1
                if to.signed and n >> (to.bits - 1):
                    n -= 1 << to.bits
            return I(n)
        if kind(v) == 'b':
            return v
        if to.k == 'bool':
            return Not(Eq(v, ZERO))
        if to.bits == 8:
            if not to.signed:
                if kind(v) == 'c':
                    return mk('uchar', v)
                return v
            if v.op == 'uchar':
                return v.a[0]
            return v
        if not to.signed and fr.signed:
            lo = st.lower(v)
            if lo is not None and lo >= 0:
                return v
            return mk('wrap', v)
        if to.bits and fr.bits and to.bits < fr.bits:
            if v.op == 'i':
                return v
        return v

    def e_un(self, e, st):
        op = e['op']
        x = e['x']
        out = []
        if op == '!':
            if x['e'] == 'bin' and x['op'] in ('&&', '||'):
                a, b = self.branch(x, st)
                return [(s, FALSE) for s in a] + [(s, TRUE) for s in b]
            return [(s, Not(self.truth(v))) for s, v in self.ev(x, st)]
        if op == '*':
            for s, p in self.ev(x, st):
                l = self.deref(e, s, p)
                if l is not None:
                    out.append((s, l))
            return out
        if op == '&':
            if x['e'] == 'fn':
                return self.ev(x, st)
            return self.ev(x, st)
        if op in ('++', '--'):
            d = 1 if op == '++' else -1
            for s, l in self.ev(x, st):
                v = self.read(s, l, x['t'])
                n = self.ptr_add(v, I(d), x['t'].to.kind()) if x['t'].k == 'ptr' else addc(v, d)
                if x['t'].k == 'int' and not x['t'].signed and d < 0:
                    lo = s.lower(v)
                    if v.op == 'i':
                        n = I((v.a[0] + d) & ((1 << x['t'].bits) - 1))
                    elif lo is None or lo < 1:
                        n = mk('wrap', n)
                self.write(s, l, n)
                out.append((s, v if e.get('post') else l))
            return out
        if op == '-':
            return [(s, sub(ZERO, v)) for s, v in self.ev(x, st)]
        if op == '+':
            return self.ev(x, st)
        if op == '~':
            return [(s, mk('fldn', v, '~', 'n') if v.op != 'i' else I(~v.a[0])) for s, v in self.ev(x, st)]
        if op == '__extension__':
            return self.ev(x, st)
        raise Unsupported('operator ' + op)

    def ptr_add(self, p, n, kd='c'):
        if p.op == '.i':
            return mk('.i', p.a[0], add(p.a[1], n), p.a[2])
        if p.op == 'it':
            return mk('it', p.a[0], add(p.a[1], n))
        if n is ZERO:
            return p
        if kind(p) == 'o':      # pointer to the start of constant text
            return mk('.i', p, n, 'c')
        return mk('.i', mk('deref', p), n, kd)

    def e_bin(self, e, st):
        op = e['op']
        if op in ('&&', '||'):
            a, b = self.branch(e, st)
            return [(s, TRUE) for s in a] + [(s, FALSE) for s in b]
        out = []
        for s, (x, y) in self.evs([e['x'], e['y']], st):
            if op == ',':
                out.append((s, y))
                continue
            out.append((s, self.binop(s, op, x, y, e['x']['t'], e['t'], e)))
        return out

    def binop(self, st, op, x, y, oty, rty, e):
        if oty.k in ('ptr', 'nullptr') or op in ('==', '!=') and (kind(x) == 'p' or kind(y) == 'p'):
            if op in ('==', '!='):
                t = self.ptr_eq(st, x, y)
                return t if op == '==' else Not(t)
            if op == '+':
                return self.ptr_add(x, y, oty.to.kind() if oty.to is not None else 'c')
            if op == '-':
                if kind(y) == 'p' or y.op == '.i':
                    px, py = self.ptr_parts(x), self.ptr_parts(y)
                    if px[0] is py[0]:
                        return sub(px[1], py[1])
                    return fresh('n', 'ptrdiff')
                return self.ptr_add(x, sub(ZERO, y), oty.to.kind() if oty.to is not None else 'c')
            if op in ('<', '>', '<=', '>='):
                px, py = self.ptr_parts(x), self.ptr_parts(y)
                if px[0] is py[0]:
                    return self.compare(op, px[1], py[1])
                return mk('lt', x, y) if op in ('<',) else mk('lt', y, x) if op == '>' else Not(mk('lt', y, x)) if op == '<=' else Not(mk('lt', x, y))
        if op in ('<', '>', '<=', '>=', '==', '!='):
            return self.compare(op, x, y)
        uns = rty.k == 'int' and not rty.signed
        if op == '+':
            r = add(x, y)
            if r.op == 'i' and uns:
                return I(r.a[0] & ((1 << rty.bits) - 1))
            if r.op == 'add':
                self.add_facts(st, r, x, y)
            return r
        if op == '-':
            r = sub(x, y)
            if r.op == 'i':
                return I(r.a[0] & ((1 << rty.bits) - 1)) if uns else r
            if uns and not st.le(y, x):
                return mk('wrap', r)
            self.sub_facts(st, r, x, y)
            return r
        if op == '*':
            r = mul(x, y)
            if r.op == 'mul':
                self.mul_facts(st, r)
            return r
        if op in ('/', '%') and x.op == 'i' and y.op == 'i' and y.a[0] != 0:
            a, b = x.a[0], y.a[0]
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            return I(q if op == '/' else a - q * b)
        if op == '%':
            r = mk('mod', x, y)
            if y.op == 'i' and y.a[0] > 0:
                st.add_le(r, I(y.a[0] - 1))
                lo = st.lower(x)
                st.add_le(ZERO if lo is not None and lo >= 0 else I(-(y.a[0] - 1)), r)
            return r
        if op == '/':
            r = mk('div', x, y)
            lo = st.lower(x)
            if y.op == 'i' and y.a[0] > 0 and lo is not None and lo >= 0:
                st.add_le(ZERO, r)
                st.add_le(r, x)
            return r
        if x.op == 'i' and y.op == 'i' and op in ('&', '|', '^', '<<', '>>'):
            a, b = x.a[0], y.a[0]
            return I({'&': a & b, '|': a | b, '^': a ^ b, '<<': a << min(b, 128), '>>': a >> min(b, 128)}[op])
        if op in ('&', '|') and kind(x) == 'b' and kind(y) == 'b':
            return mk('and' if op == '&' else 'or', x, y)
        return mk('fldn', mk('bits', x, y), op, 'u' if uns else 'n')

    def add_facts(self, st, r, x, y):
        lx, ly = st.lower(x), st.lower(y)
        b, c = lin(r)
        if ly is not None:
            st.add_le(x, r, -ly)
        if lx is not None:
            st.add_le(y, r, -lx)
        # x + y <= z when x <= z - y is known
        for n in list(st.z):
            if n.op == 'sub2':
                z, w = n.a
                if w is lin(y)[0] and st.bound(x, n) is not None:
                    st.add_le(r, addc(z, 0), st.bound(x, n) + lin(y)[1])
                if w is lin(x)[0] and st.bound(y, n) is not None:
                    st.add_le(r, addc(z, 0), st.bound(y, n) + lin(x)[1])

    def sub_facts(self, st, r, x, y):
        if lin(r)[0] is None:
            return
        u = st.bound(x, y)
        l = st.bound(y, x)
        if u is not None:
            st.add_le(r, I(u))
        if l is not None:
            st.add_le(I(-l), r)
        ly = st.lower(y)
        if ly is not None:
            st.add_le(r, x, -ly)

    def mul_facts(self, st, r):
        x, c = r.a if r.a[1].op == 'i' else (r.a[1], r.a[0])
        if c.op == 'i' and c.a[0] >= 1:
            lo = st.lower(x)
            if lo is not None and lo >= 0:
                # c*x >= x + (c-1)*lo
                st.add_le(x, r, -(c.a[0] - 1) * lo)
        elif c.op != 'i':
            pass

    def compare(self, op, x, y):
        if op == '==':
            return Eq(x, y)
        if op == '!=':
            return Not(Eq(x, y))
        if x.op == 'scmp' and y is ZERO and len(x.a) == 3:
            a, b = x.a[1], x.a[2]
            return {'<': Slt(a, b), '>': Slt(b, a), '<=': Not(Slt(b, a)), '>=': Not(Slt(a, b))}[op]
        if op == '<':
            return Lt(x, y)
        if op == '>':
            return Lt(y, x)
        if op == '<=':
            return Le(x, y)
        return Le(y, x)

    def ptr_parts(self, p):
        if p.op in ('.i', 'it'):
            return p.a[0], p.a[1]
        return p, ZERO

    def root_of(self, t):
        while t.op in ('.f', '.i', '.k', '.e', '.p'):
            t = t.a[0]
        return t

    def ptr_eq(self, st, x, y):
        if x is y:
            return TRUE
        if x is ZERO:
            return IsNull(y)
        if y is ZERO:
            return IsNull(x)
        if x.op in ('.i', 'it') or y.op in ('.i', 'it'):
            px, py = self.ptr_parts(x), self.ptr_parts(y)
            if px[0] is py[0]:
                return Eq(px[1], py[1])
        if x.op in LOCOPS and y.op in LOCOPS:
            rx, ry = self.root_of(x), self.root_of(y)
            if rx.op == 'L' and ry.op == 'L':
                if rx is not ry:
                    return FALSE
        if y.id < x.id:
            x, y = y, x
        return mk('ptreq', x, y)

    def e_assign(self, e, st):
        out = []
        for s, (v, l) in self.evs([e['y'], e['x']], st):
            if e['y'].get('lv') and e['y']['t'].k == 'rec':
                v = self.read(s, v, e['y']['t'])
            self.write(s, l, v)
            out.append((s, l))
        return out

    def e_opassign(self, e, st):
        out = []
        for s, (y, l) in self.evs([e['y'], e['x']], st):
            x = self.read(s, l, e['x']['t'])
            r = self.binop(s, e['op'], x, y, e['x']['t'], e['ct'], e)
            if e['x']['t'].k != 'ptr':
                r = self.int_cast(s, r, e['ct'], e['x']['t'])
            self.write(s, l, r)
            out.append((s, l))
        return out

    def e_cond(self, e, st):
        a, b = self.branch(e['c'], st)
        out = []
        for s in a:
            out += self.ev(e['x'], s)
        for s in b:
            out += self.ev(e['y'], s)
        return out

    def e_index(self, e, st):
        out = []
        for s, (p, i) in self.evs([e['x'], e['i']], st):
            if e['x']['t'].k != 'ptr' and e['i']['t'].k == 'ptr':
                p, i = i, p
            if p.op == '.i':
                l = mk('.i', p.a[0], add(p.a[1], i), p.a[2])
                base = p.a[0]
            else:
                n = s.is_null(p)
                if n is True:
                    self.event('oblig', 'null', self.where(e), 'bad', 'null pointer dereferenced', self.trace(), s.imp)
                    continue
                base = p if kind(p) == 'o' else self.loc_of(p)
                l = mk('.i', base, i, e['t'].kind())
            n = self.array_len(s, base)
            if n is not None:
                self.check_index(s, e, l.a[1], n, 'array')
            out.append((s, l))
        return out

    def array_len(self, st, base):
        """number of addressable elements of an array location, or None"""
        if base.op in ('s',) or kind(base) == 'o':
            return addc(size(base), 1)
        try:
            v = self.read(st, base)
        except Unsupported:
            return None
        if v.op in ('vec', 's'):
            return size(v)
        ty = self.root_ty.get(base)
        if ty is not None and ty.k == 'arr':
            return I(ty.n)
        if ty is not None and ty.is_string():
            return addc(size(v), 1)
        return None

    def check_index(self, st, e, i, n, what):
        """obligation 0 <= i < n"""
        lo = st.lower(i)
        ok = lo is not None and lo >= 0 and st.le(i, n, -1)
        w = self.where(e)
        if ok:
            self.event('oblig', 'bounds', w, 'ok', what, None, st.imp)
            return
        bad = st.le(n, i) or (st.upper(i) is not None and st.upper(i) < 0)
        self.event('oblig', 'bounds', w, 'bad' if bad else 'maybe',
                   '%s: index %s not shown to lie below %s' % (what, show(i), show(n)), self.trace(), st.imp, (st.copy(), i, n))

    def e_initlist(self, e, st):
        out = []
        for s, vs in self.evs(e['a'], st):
            vs = [self.read(s, v, x['t']) if x.get('lv') else v for v, x in zip(vs, e['a'])]
            if 'fields' in e and e['t'].k == 'rec':
                out.append((s, rec(e['t'].name, e['fields'][:len(vs)], vs)))
            else:
                if e['t'].k == 'arr' and len(vs) < e['t'].n and e['t'].n <= 256:
                    vs = vs + [self.defval(e['t'].of)] * (e['t'].n - len(vs))
                if e['t'].k in ('arr', 'rec', 'other'):
                    out.append((s, mk('vec', *vs)))
                else:
                    out.append((s, vs[0] if vs else ZERO))
        return out

    def e_lambda(self, e, st):
        names, vals = [], []
        for s, vs in self.evs([c['init'] for c in e['caps']], st):
            names, vals = [], []
            for c, v in zip(e['caps'], vs):
                names.append(c['field'])
                if not c['byref'] and not c['this'] and c['init'].get('lv'):
                    v = self.read(s, v, c['init']['t'])
                vals.append(v)
            r = [(s, rec('lambda:' + e['m'], names, vals))]
            self.lambdas = getattr(self, 'lambdas', {})
            self.lambdas[e['m']] = e['caps']
            return r
        return []

    def e_throw(self, e, st):
        if e.get('x') is None:
            ex = st.ext.get('exc', ())
            self.raise_(st, ex[-1] if ex else 'std::exception', None, e)
            return []
        x = e['x']
        ty = x['t']
        for s, v in self.ev(x, st):
            if x.get('lv'):
                v = self.read(s, v, ty)
            self.raise_(s, ty.rec() or ty.s, v, e)
        return []

    def raise_(self, st, tname, v, e):
        if self.client is not None:
            self.client.on_throw(self, st, tname, e)
        self.thr.append((st, tname, v))

    def e_new(self, e, st):
        n = self.xid(e)
        ty = e['of']
        root = mk('L', 'heap', self.fr.cs, n)
        self.root_ty[root] = ty
        if root in st.store:
            # an object from an earlier pass: give it its own name
            old = mk('L', 'heapold', self.fr.cs, n)
            self.root_ty[old] = ty
            m = {root: old}
            for r in list(st.store):
                v = st.store[r]
                st.store[r] = subst_loc(v, m)
            st.store[old] = st.store.pop(root)
        if e.get('array'):
            raise Unsupported('array new')
        out = []
        if e.get('init') is not None:
            for s in self.init_into(e['init'], root, ty, st):
                out.append((s, root))
        else:
            st.store[root] = self.undef(ty, (root,))
            out.append((st, root))
        for s, r in out:
            if self.client is not None:
                self.client.on_new(self, s, root, ty, e)
        return out

    def e_delete(self, e, st):
        out = []
        for s, p in self.ev(e['x'], st):
            if self.client is not None:
                self.client.on_delete(self, s, p, e)
            ty = e['x']['t'].to
            if s.is_null(p) is True:
                out.append((s, ZERO))
                continue
            if ty.k == 'rec' and self.needs_dtor(ty):
                l = self.loc_of(p)
                out += [(x, ZERO) for x, _ in self.destroy(s, l, ty)]
            else:
                out.append((s, ZERO))
        return out

    def e_unk(self, e, st):
        if e.get('cls') == 'SourceLocExpr':
            return [(st, S(b''))]
        raise Unsupported('expression %s at %s' % (e.get('cls'), self.where(e)))

    # ------------------------------------------------------------ calls
    def e_ctor(self, e, st):
        ty = e['t']
        if ty.k == 'rec' and ty.name in self.prog.records:
            if e.get('kind') in ('copy', 'move') and (e['f'].get('defaulted') or e['f']['m'] not in self.prog.funcs):
                out = []
                for s, (a,) in self.evs(e['a'][:1], st):
                    out.append((s, self.read(s, a, ty) if e['a'][0].get('lv') else a))
                return out
            root = mk('L', 'tmp', self.fr.cs, self.xid(e))
            self.root_ty[root] = ty
            out = []
            for s, _ in self.construct(e, root, st):
                out.append((s, s.store.pop(root)))
            return out
        return self.models.ctor(e, st)

    def construct(self, e, loc, st):
        """runs a constructor of a project class on the object at loc"""
        f = e['f']
        out = []
        for s, args in self.evs(e['a'], st):
            args = self.adapt(s, f, e['a'], args)
            if self.client is not None:
                r = self.client.intercept(self, f, loc, args, s, e)
                if r is not None:
                    out += r
                    continue
            d = self.prog.funcs.get(f['m'])
            if d is None:
                if f['q'].endswith('::(ctor)') and not e['a']:
                    self.write(s, loc, self.defval(e['t']))
                    out.append((s, loc))
                    continue
                self.imprecise(s, 'constructor ' + f['q'])
                self.write(s, loc, self.symval(e['t'], ('unk', self.xid(e))))
                out.append((s, loc))
                continue
            out += [(x, loc) for x, _ in self.inline(d, s, loc, args, e, cls=e['t'])]
        return out

    def adapt(self, st, f, es, vs):
        """argument values for parameters: records passed by value are copied"""
        out = []
        pt = f.get('pt', [])
        for i, (x, v) in enumerate(zip(es, vs)):
            t = pt[i] if i < len(pt) else None
            if x.get('lv') and (t is None or t.k != 'ref'):
                v = self.read(st, v, x['t'])
            out.append(v)
        return out

    def e_call(self, e, st):
        f = e.get('f')
        es = []
        if e.get('obj') is not None:
            es.append(e['obj'])
        if f is None:
            es.append(e['fp'])
        es += e['a']
        out = []
        if f is not None and f['q'] == '__assert_fail':
            if self.client is not None:
                self.client.on_assert(self, st, e)
            return []
        for s, vs in self.evs(es, st):
            obj = None
            vs = list(vs)
            xs = list(e['a'])
            if e.get('obj') is not None:
                obj = vs.pop(0)
                if e.get('arrow'):
                    if e['obj']['t'].k == 'ptr':
                        obj = self.deref(e, s, obj)
                        if obj is None:
                            continue
                elif not e['obj'].get('lv'):
                    obj = self.new_temp(s, e['obj'], e['obj']['t'], obj)
            if f is None:
                fp = vs.pop(0)
                out += self.call_ptr(e, s, fp, vs)
                continue
            args = self.adapt(s, f, xs, vs)
            out += self.call(e, f, s, obj, args, xs)
        return out

    def call_ptr(self, e, st, fp, args):
        if fp.op in LOCOPS:
            fp = self.read(st, fp)
        if fp.op == 'fn' and fp.a[0] in self.prog.funcs:
            d = self.prog.funcs[fp.a[0]]
            return self.inline(d, st, None, args, e)
        if self.client is not None:
            r = self.client.on_icall(self, e, st, fp, args)
            if r is not None:
                return r
        n = st.is_null(fp)
        if n is not False:
            self.event('oblig', 'null', self.where(e), 'bad' if n else 'maybe', 'call through a null function pointer', self.trace(), st.imp, (st.copy(), fp, None))
            if not st.assume(IsNull(fp), False):
                return []
        t = e['t']
        return [(st, self.symval(t, ('icall', self.xid(e), _fresh_n())) if t.k != 'void' else ZERO)]

    def call(self, e, f, st, obj, args, xs):
        m = f['m']
        self.calls_seen.add((self.fr.f['q'], e.get('l'), f['q']))
        if self.client is not None:
            r = self.client.intercept(self, f, obj, args, st, e)
            if r is not None:
                return r
        # lambda
        if obj is not None and f['q'].endswith('(lambda)::operator()'):
            d = self.prog.funcs.get(m)
            if d is not None:
                return self.inline(d, st, obj, args, e, lam=m)
        d = self.prog.funcs.get(m)
        if d is not None and f.get('virtual') and not e.get('qualified'):
            ov = self.prog.overriders.get(m, [])
            if ov:
                d = None
        if d is not None:
            if f.get('defaulted') and (f['q'].endswith('::operator=')):
                v = self.read(st, args[0], None) if args[0].op in LOCOPS else args[0]
                self.write(st, obj, v)
                return [(st, obj)]
            return self.inline(d, st, obj, args, e)
        if f.get('virtual') and f['q'].rpartition('::')[0] in self.prog.records:
            return self.env_call(e, f, st, obj, args)
        return self.models.call(e, f, st, obj, args, xs)

    def env_call(self, e, f, st, obj, args):
        """a virtual function that users implement: any result, any exception"""
        self.event('env', f['q'], self.where(e), self.trace())
        if self.client is not None:
            r = self.client.on_env(self, e, f, st, obj, args)
            if r is not None:
                return r
        self.raise_(st.copy(), 'std::runtime_error', None, e)
        t = e['t']
        if t.k == 'void':
            return [(st, ZERO)]
        return [(st, self.symval(t, ('env', f['q'], self.xid(e), _fresh_n())))]

    def on_stack(self, m):
        fr = self.fr
        while fr is not None:
            if fr.f['m'] == m:
                return True
            fr = fr.parent
        return False

    def depth_of(self, m):
        n = 0
        fr = self.fr
        while fr is not None:
            if fr.f['m'] == m:
                n += 1
            fr = fr.parent
        return n

    def inline(self, d, st, obj, args, e, lam=None, cls=None):
        """effect of a project function, remembered per abstract input"""
        if lam is not None or not self.use_memo or not self.heavy(d['m']) or self.on_stack(d['m']):
            return self.inline0(d, st, obj, args, e, lam, cls)
        for a in args:
            if a.op == 'lam':
                return self.inline0(d, st, obj, args, e, lam, cls)
        return self.memo_call(d, st, obj, args, e, cls)

    def reach(self, m):
        """project functions that m may call (by the call graph)"""
        r = self._reach.get(m)
        if r is None:
            r = self._reach[m] = set()
            work = [m]
            while work:
                x = work.pop()
                if x in r:
                    continue
                r.add(x)
                f = self.prog.funcs.get(x)
                if f is None:
                    continue
                for n in walk([f.get('body'), f.get('inits')]):
                    g = n.get('f')
                    if g.__class__ is dict and 'm' in g:
                        work.append(g['m'])
        return r

    def heavy(self, m):
        """is it worth remembering?  (loops, or much code)"""
        h = self._heavy.get(m)
        if h is None:
            h = False
            for x in self.reach(m):
                f = self.prog.funcs.get(x)
                if f is None:
                    continue
                for n in walk(f.get('body')):
                    if n.get('s') in ('while', 'do', 'for', 'rfor', 'goto'):
                        h = True
                        break
                if h:
                    break
            self._heavy[m] = h
        return h

    def memo_call(self, d, st, obj, args, e, cls):
        m = d['m']
        sub, cargs, cobj, cmap = self.footprint(st, obj, args)
        stack = frozenset(fr.f['m'] for fr in self.fr.chain() if fr.f['m'] in self.reach(m))
        ck = (m, cls.s if cls is not None else None, cobj, tuple(cargs), stack, tuple(st.ext.get('exc', ())), self.ghosts(sub))
        back = {c: o for o, c in cmap.items()}
        hit = None
        for tr, sig, h in self._memo.get(ck, ()):
            if self.signature(sub, tr, cobj, cargs) == sig:
                hit = h
                break
        outer = TR[0]
        if hit is None:
            save, savet = self.buf, self.thr
            self.buf, self.thr = [], []
            tr = TR[0] = Tracker()
            try:
                res = self.inline0(d, sub.copy(), cobj, list(cargs), e, None, cls)
                hit = ([(self.delta(sub, s), v) for s, v in res],
                       [(self.delta(sub, s), t, v) for s, t, v in self.thr], self.buf)
            finally:
                self.buf, self.thr = save, savet
                TR[0] = outer
            self._memo.setdefault(ck, []).append((tr, self.signature(sub, tr, cobj, cargs), hit))
            self.memo_miss += 1
        else:
            self.memo_hit += 1
        if outer is not None:
            mm = {}
            outer.P.update(subst(t, back, mm) for t in tr.P)
            outer.M.update(subst(t, back, mm) for t in tr.M)
            outer.Z.update(subst(t, back, mm) for t in tr.Z)
            outer.R.update(subst(t, back, mm) for t in tr.R)
        res, thr, evs = hit
        if evs:
            self.buf.append(('memo', evs))
        out = []
        for s, v in res:
            out.append(self.instantiate(st, s, v, back))
        for s, t, v in thr:
            r = self.instantiate(st, s, v, back)
            self.thr.append((r[0], t, r[1]))
        return out

    def stable_sym(self, y):
        r = self._stable.get(y)
        if r is None:
            r = self._stable[y] = self.stable_sym0(y)
        return r

    def stable_sym0(self, y):
        n = y.a[1]
        if y.a[2] != 0:
            return False
        if n.__class__ is not tuple:
            return True
        if len(n) == 1 or n[0] in ('callback', 'glob'):
            return True
        if n[0] == 'init':
            for x in n:
                if x.__class__ is T:
                    for l in x.leaves:
                        if not self.stable_sym(l):
                            return False
            return True
        return False

    def footprint(self, st, obj, args):
        """the part of the state a callee can see, with canonical names"""
        reach = set()
        leaves = set()
        work = list(args)
        if obj is not None:
            work.append(obj)
        for r in st.store:
            if r.op == 'L' and r.a[0] == 'glob':
                work.append(r)
        for k, v in st.g.items():
            if v.__class__ is T:
                work.append(v)
            elif v.__class__ is tuple:
                work += [x for x in v if x.__class__ is T]
        seen = set()
        derefs = [r for r in st.store if r.op == 'deref']
        while True:
            while work:
                t = work.pop()
                if t in seen:
                    continue
                for x in subterms(t, None):
                    if x in seen:
                        continue
                    seen.add(x)
                    if x.op in ('L', 'deref') and x in st.store and x not in reach:
                        reach.add(x)
                        work.append(st.store[x])
                seen.add(t)
                leaves |= t.leaves
            more = False
            for r in derefs:
                if r not in reach and r.leaves <= leaves:
                    reach.add(r)
                    work.append(st.store[r])
                    more = True
            if not more:
                break
        sub = st.copy()
        sub.store = {r: st.store[r] for r in st.store if r in reach}
        for r in reach:
            if r.op == 'deref':
                sub.store[mk('L', 'pin', 'keep', r)] = r
        for i, a in enumerate(args):
            sub.store[mk('L', 'pin', 'arg', i)] = a
        sub.ext = {'exc': st.ext['exc']} if 'exc' in st.ext else {}
        sub.imp = frozenset()
        save = TR[0]
        sub.gc()
        TR[0] = save
        # canonical names
        cmap = {}
        count = {}

        def visit(t, base, seen):
            if t in seen or not t.leaves:
                return
            seen.add(t)
            if t.op == 'y':
                if t not in cmap and not self.stable_sym(t):
                    k = count[base] = count.get(base, 0) + 1
                    cmap[t] = mk('y', t.a[0], ('canon', base, k), -1)
                return
            for x in t.a:
                if x.__class__ is T:
                    visit(x, base, seen)
                elif x.__class__ is tuple:
                    for y in x:
                        if y.__class__ is T:
                            visit(y, base, seen)
        for i, a in enumerate(args):
            visit(a, ('arg', i), set())
        if obj is not None:
            visit(obj, 'obj', set())
        for r in sorted((r for r in sub.store if r.op == 'L' and r.a[0] != 'pin'), key=lambda r: r.id):
            visit(sub.store[r], r, set())
        pend = [r for r in sub.store if r.op == 'deref']
        ch = True
        while pend and ch:
            ch = False
            nxt = []
            for r in sorted(pend, key=lambda r: r.id):
                if all(l in cmap or self.stable_sym(l) for l in r.leaves):
                    visit(sub.store[r], subst(r, cmap), set())
                    ch = True
                else:
                    nxt.append(r)
            pend = nxt
        for r in pend:
            visit(r, 'rest', set())
            visit(sub.store[r], 'rest', set())
        for k in sorted(sub.g):
            v = sub.g[k]
            if v.__class__ is T:
                visit(v, ('g', k), set())
            elif v.__class__ is tuple:
                for x in v:
                    if x.__class__ is T:
                        visit(x, ('g', k), set())
        for d in (sub.P, sub.M, sub.prov, sub.z):
            for t in d:
                for l in t.leaves:
                    if l not in cmap and not self.stable_sym(l):
                        visit(l, 'facts', set())
        # pins hold the names of roots: rename with the rest
        sub.rename(cmap)
        sub.store = {(mk('L', 'pin', 'keep', subst(r.a[2], cmap)) if r.op == 'L' and r.a[0] == 'pin' and r.a[1] == 'keep' else r): v
                     for r, v in sub.store.items()}
        memo = {}
        cargs = [subst(a, cmap, memo) for a in args]
        cobj = subst(obj, cmap, memo) if obj is not None else None
        for r, o in [(r, subst(r, cmap, memo)) for r in reach]:
            if r in self.root_ty and o not in self.root_ty:
                self.root_ty[o] = self.root_ty[r]
        return sub, cargs, cobj, cmap

    def ghosts(self, s):
        g = tuple(sorted(s.g.items(), key=lambda x: x[0]))
        try:
            hash(g)
        except TypeError:
            g = repr(g)
        return g

    def signature(self, s, tr, obj, args):
        """what s says about everything that was looked up"""
        st = []
        syms = set()
        if obj is not None:
            syms |= obj.leaves
        for a in args:
            syms |= a.leaves
        for r in tr.R:
            v = s.store.get(r)
            if v is None and is_entry_root(r):
                save = TR[0]
                TR[0] = None
                v = self.root_init(St(), r)
                TR[0] = save
            if v is not None:
                st.append((r, v))
                syms |= v.leaves
        P = frozenset((t, v) for t, v in s.P.items() if t in tr.P)
        M = frozenset((t, v) for t, v in s.M.items() if t in tr.M)
        for t, v in P:
            syms |= t.leaves
        prov = frozenset((t, l) for t, l in s.prov.items() if t in syms)
        drop = [n for n in s.z if n is not ZERO and n not in tr.Z]
        save = TR[0]
        TR[0] = None
        if drop:
            c = St.__new__(St)
            c.z = {a: d.copy() for a, d in s.z.items()}
            c.dc = {}
            c.nz = s.nz
            for n in drop:
                c.drop_node(n)
        else:
            c = s
        TR[0] = save
        ds = {a: c.dists(a) for a in c.z}
        dz = ds[ZERO]
        z = set()
        for a, d in ds.items():
            up = d.get(ZERO)
            for b, k in d.items():
                if a is b:
                    continue
                if a is not ZERO and b is not ZERO and up is not None:
                    lo = dz.get(b)
                    if lo is not None and up + lo <= k:
                        continue
                if a is ZERO and k >= 0 and nonneg(b):
                    continue
                z.add((a, b, k))
        return (frozenset(st), P, M, frozenset(z), frozenset(c.nz), prov)

    def delta(self, sub, s):
        """how s differs from the state the call began with"""
        d = St()
        d.store = {r: x for r, x in s.store.items() if not (r.op == 'L' and r.a[0] == 'pin' and r.a[1] in ('keep', 'arg')) and sub.store.get(r) is not x}
        gone = [r for r in sub.store if not (r.op == 'L' and r.a[0] == 'pin') and r not in s.store]
        d.P = {t: v for t, v in s.P.items() if sub.P.get(t) != v}
        d.M = {t: v for t, v in s.M.items() if sub.M.get(t) != v}
        d.prov = {t: v for t, v in s.prov.items() if sub.prov.get(t) != v}
        z = {}
        for a, dd in s.z.items():
            o = sub.z.get(a, {})
            z[a] = {b: c for b, c in dd.items() if b not in o or c < o[b]}
        d.z = z
        d.dc = {}
        d.nz = s.nz - sub.nz
        d.g = s.g
        d.imp = s.imp
        d.ext = {'gone': gone}
        return d

    def instantiate(self, st, d, v, back):
        s = d.copy()
        m = dict(back)
        syms = set()
        for r, x in s.store.items():
            syms |= r.leaves
            syms |= x.leaves
        for t in s.ext['gone']:
            syms |= t.leaves
        for dd in (s.P, s.M, s.prov, s.z):
            for t in dd:
                syms |= t.leaves
        for a in s.z.values():
            for t in a:
                syms |= t.leaves
        for x in s.g.values():
            if x.__class__ is T:
                syms |= x.leaves
            elif x.__class__ is tuple:
                for y in x:
                    if y.__class__ is T:
                        syms |= y.leaves
        if v is not None:
            syms |= v.leaves
        for y in syms:
            if y in m or self.stable_sym(y):
                continue
            n = y.a[1]
            if y.a[2] == 0 and n.__class__ is tuple and n[0] == 'init':
                m[y] = mk('y', y.a[0], tuple(subst(x, back) if x.__class__ is T else x for x in n), 0)
            else:
                m[y] = fresh(y.a[0], n)
        gone = [subst(r, m) for r in s.ext['gone']]
        s.rename(m)
        if v is not None:
            v = subst(v, m)
        nst = st.copy()
        for r in gone:
            nst.store.pop(r, None)
        for r, x in s.store.items():
            nst.store[r] = x
        nst.P.update(s.P)
        for t, k in s.M.items():
            o = nst.M.get(t)
            nst.M[t] = k if o is None else (o & k) or k
        nst.prov.update(s.prov)
        z = nst.z
        nst.dc = {}
        for a, dd in s.z.items():
            if a not in z:
                z[a] = {}
            za = z[a]
            for b, c in dd.items():
                if b not in z:
                    z[b] = {}
                o = za.get(b)
                if o is None or c < o:
                    za[b] = c
        nst.nz |= s.nz
        nst.g = s.g
        nst.imp = st.imp | s.imp
        return nst, v

    def inline0(self, d, st, obj, args, e, lam=None, cls=None):
        m = d['m']
        if self.depth_of(m) > self.max_rec or len(self.fr.chain()) > 24:
            if self.client is not None:
                r = self.client.on_recursion(self, d, st, obj, args, e)
                if r is not None:
                    return r
            self.imprecise(st, 'recursion into ' + d['q'])
            rt = d.get('rt')
            return [(st, self.symval(rt, ('rec', self.xid(e), _fresh_n())) if rt is not None else ZERO)]
        self.funcs_seen.add(m)
        pure = None
        if d.get('rt') is not None and d['rt'].k == 'bool':
            pure = self.pure_term(d, st, obj, args)
        parent = self.fr
        fr = Frame(self.cs(parent.cs, self.xid(e) if e.get('_id') is None or e['_id'] > 0 else e['_id']), d, parent, e)
        if obj is not None:
            r = mk('L', 'this', fr.cs)
            st.store[r] = obj
        if lam is not None:
            for c in getattr(self, 'lambdas', {}).get(lam, []):
                loc = self.field(obj, c['field'])
                if c['this']:
                    fr.caps['this'] = (loc, False)
                else:
                    fr.caps[c['id']] = (loc, c['byref'])
        self.fr = fr
        try:
            for i, p in enumerate(d['params']):
                r = self.var_root(p)
                if i < len(args):
                    st.store[r] = args[i]
                else:
                    st.store[r] = self.symval(p['t'], ('arg', r))
            sts = [st]
            out = Out()
            if d['q'].endswith('::(ctor)'):
                sts = self.ctor_inits(d, sts, obj, out, cls)
            o = self.ex(d['body'], sts) if d.get('body') is not None else None
            if o is None:
                o = Out()
                o.fall = sts
            rets = o.ret + [(s, ZERO) for s in o.fall]
            thr = out.thr + o.thr
        finally:
            self.fr = parent
        cs = fr.cs
        # parameters go away
        roots = [mk('L', cs, p['id'], p['name']) for p in d['params']]
        objs = [p for p in d['params'] if self.needs_dtor(p['t'])]
        thisr = mk('L', 'this', cs)
        retr = mk('L', 'ret', cs)
        if d.get('rt') is not None:
            self.root_ty[retr] = d['rt']

        def drop(s):
            for r in roots:
                s.store.pop(r, None)
            s.store.pop(thisr, None)
        res = []
        for s, v in rets:
            if objs:
                for p, r in zip(d['params'], roots):
                    if p in objs and r in s.store:
                        s.store[retr] = v
                        l = self.destroy(s, r, p['t'])
                        if l:
                            s = l[0][0]
                        v = s.store.pop(retr)
            drop(s)
            res.append((s, v))
        for s, t, v in thr:
            drop(s)
        # bool results of functions without side effects are remembered
        if pure is not None:
            nr = []
            for s, v in res:
                if v.op == 'i':
                    if s.ev(pure) is (not v.a[0]):
                        continue
                    s.P[pure] = bool(v.a[0])
                    if self.client is not None:
                        self.client.on_assume(self, s, pure, bool(v.a[0]))
                nr.append((s, v))
            res = nr
        res = self.merge_rets(res, cs, retr)
        if thr:
            self.thr.extend(self.merge_thr(thr, cs))
        return res

    def merge_rets(self, res, cs, retr):
        if len(res) < 2 or (self.exact and len(res) <= 64):
            return res
        groups = {}
        for s, v in res:
            s.store[retr] = v
            groups.setdefault((v, self.key(s)), []).append(s)
        if len(groups) > self.merge_ret:
            groups = {}
            for s, v in res:
                kv = v if v.op == 'i' and self.root_ty.get(retr) is not None and self.root_ty[retr].k in ('bool', 'enum') else None
                groups.setdefault((kv, self.key(s)), []).append(s)
        out = []
        for g in groups.values():
            s = g[0]
            if len(g) > 1:
                s.gc()
                for i, o in enumerate(g[1:]):
                    o.gc()
                    s = self.join2(s, o, ('r', cs, i))
            out.append((s, s.store.pop(retr)))
        return out

    def merge_thr(self, thr, cs):
        groups = {}
        for s, t, v in thr:
            groups.setdefault((t, self.key(s)), []).append((s, v))
        out = []
        for (t, k), g in groups.items():
            s, v = g[0]
            s.gc((v,) if v is not None else ())
            for i, (o, v2) in enumerate(g[1:]):
                o.gc()
                s = self.join2(s, o, ('t', cs, t, i))
                v = None
            out.append((s, t, v))
        return out

    def pure_term(self, d, st, obj, args):
        sm = self.eff.summary(d['m'])
        if sm is None or sm.impure:
            return None
        vs = []
        for p, a in zip(d['params'], args):
            if p['t'].k == 'ref':
                try:
                    a = self.read(st, a)
                except Unsupported:
                    return None
            vs.append(a)
        if obj is not None:
            if sm.this_whole:
                try:
                    vs.append(self.read(st, obj))
                except Unsupported:
                    return None
            else:
                for f in sorted(sm.this_reads):
                    try:
                        vs.append(self.read(st, self.field(obj, f)))
                    except Unsupported:
                        return None
        for q in sorted(sm.glob_reads):
            vs.append(self.read(st, mk('L', 'glob', q)))
        return mk('bcall', d['m'], tuple(vs))

    def ctor_inits(self, d, sts, obj, out, cls):
        cname = d['cls']
        fs = {f['name']: f['t'] for f in self.prog.fields(cname)}
        # start with all fields present
        dele = any(i.get('delegate') for i in d['inits'])
        if not dele:
            for st in sts:
                v = rec(cname, list(fs), [self.undef(t, ('fld', cname, n)) for n, t in fs.items()])
                self.write(st, obj, v)

        def go():
            cur = sts
            for i in d['inits']:
                nxt = []
                for st in cur:
                    o = st.store[mk('L', 'this', self.fr.cs)]
                    if i.get('field'):
                        ty = fs.get(i['field'])
                        loc = self.field(o, i['field'])
                        if ty is not None and ty.k == 'ref':
                            for s, l in self.full_ext(i['x'], st):
                                self.write(s, loc, l)
                                nxt.append(s)
                        elif i['x'] is None:
                            nxt.append(st)
                        else:
                            nxt += self.init_at(i['x'], loc, ty, st)
                    elif i.get('delegate'):
                        nxt += [s for s, _ in self.construct(i['x'], o, st)]
                    elif i.get('base') is not None and i['x'] is not None and i['x'].get('e') == 'ctor' and i['x']['f']['m'] in self.prog.funcs:
                        x = i['x']
                        for s, args in self.evs(x['a'], st):
                            # bases without fields only
                            nxt.append(s)
                    else:
                        nxt.append(st)
                cur = nxt
            return cur
        return self.with_throws(out, go)

    # ------------------------------------------------------------ entry
    def run(self, m, setup):
        """analyses a function from an entry state built by setup(interp, st, f) ->
        (obj, args).  Returns an Out."""
        d = self.prog.funcs[m]
        st = St()
        self.fr = Frame(0, {'q': '(entry)', 'm': '', 'file': '', 'line': 0}, None, None)
        self.buf = []
        obj, args = setup(self, st, d)
        return self.run_from(d, st, obj, args)

    def run_from(self, d, st, obj, args):
        fr = Frame(self.cs(0, d['m']), d, self.fr, None)
        self.funcs_seen.add(d['m'])
        parent = self.fr
        self.fr = fr
        self.thr = []
        try:
            if obj is not None:
                st.store[mk('L', 'this', fr.cs)] = obj
            for p, a in zip(d['params'], args):
                st.store[self.var_root(p)] = a
            out = Out()
            sts = [st]
            if d['q'].endswith('::(ctor)'):
                sts = self.ctor_inits(d, sts, obj, out, None)
            o = self.ex(d['body'], sts)
            o.thr = o.thr + out.thr
            o.ret = o.ret + [(s, ZERO) for s in o.fall]
            o.fall = []
            return o
        finally:
            self.fr = parent


def _fresh_n():
    from . import terms
    terms._fresh[0] += 1
    return terms._fresh[0]


def subst_loc(v, m, memo=None):
    """like subst, but also inside terms without symbols"""
    if memo is None:
        memo = {}
    if v in m:
        return m[v]
    r = memo.get(v)
    if r is not None:
        return r
    na, ch = [], False
    for x in v.a:
        if x.__class__ is T:
            y = subst_loc(x, m, memo)
            ch = ch or y is not x
            na.append(y)
        elif x.__class__ is tuple:
            y = tuple(subst_loc(z, m, memo) if z.__class__ is T else z for z in x)
            ch = ch or y != x
            na.append(y)
        else:
            na.append(x)
    r = v if not ch else mk(v.op, *na)
    memo[v] = r
    return r


class _Ref(object):
    k = 'ref'


from .prog import Ty
REF = Ty()
REF.k = 'ref'


class Client(object):
    """what an analysis may observe"""
    track_delete = False
    wants_loops = False

    def intercept(self, ip, f, obj, args, st, e):
        return None

    def on_icall(self, ip, e, st, fp, args):
        return None

    def on_recursion(self, ip, d, st, obj, args, e):
        return None

    def on_env(self, ip, e, f, st, obj, args):
        return None

    def on_write(self, ip, st, loc, v):
        pass

    def on_read(self, ip, st, loc, v, e):
        pass

    def on_assume(self, ip, st, t, v):
        pass

    def on_throw(self, ip, st, t, e):
        pass

    def on_catch(self, ip, h, st, t):
        pass

    def on_static(self, ip, v, st):
        return None

    def on_assert(self, ip, st, e):
        pass

    def one_step(self, st, inp):
        """should a conversion that takes exactly one character (1) or a final sequence that is empty (2) be looked at on
        its own?"""
        return None

    def zeros(self, s):
        """may there be zeros in the text?"""
        return False

    def on_new(self, ip, st, root, ty, e):
        pass

    def on_delete(self, ip, st, p, e):
        pass

    def on_back(self, ip, node, inst, st, depth):
        pass

    def on_exits(self, ip, node, inst, exits):
        pass

    def before_line(self, ip, st, loc, e):
        return [st]

    def on_backedge(self, ip, node, inst, head, back):
        pass

    def on_loop(self, ip, node, inst, heads, trans):
        pass

    def on_loop_done(self, ip, node, inst, before, entry, heads, trans, leave):
        """with wants_loops.  before: states that reach the loop; entry: the same, behind a first iteration that was
        looked at on its own; leave: per head, states at the end of the loop and those that leave the function there"""

    def on_loop_exit(self, ip, node, inst, heads, trans, exits):
        """with wants_loops.  exits: states at the end of the loop"""

    def on_lib(self, ip, e, f, st, obj, args):
        """a library call, before its model runs"""
        pass

    def on_append(self, ip, st, loc, old, x, e):
        """text x is appended to the string or stream at loc"""

    def on_line(self, ip, st, line, e):
        """a line has been read from a stream; states to go on with, or None"""

    def on_insert(self, ip, st, loc, x, e):
        """insertion into a set"""

    def on_iconv(self, ip, what, st, cd, args, e):
        pass
