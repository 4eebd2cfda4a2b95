"""Termination by progress: every loop that the parser can reach, the parser and its readers of quoted text analysed on
arbitrary streams and lines (a reader inside of another function is replaced by what the analysis of it alone has shown:
whether it has read a line when it returns or throws, and what the predicates of the line say when it throws without). Rule:
every way round a loop reads a line from the stream, or sets a flag that nothing in the loop takes back, or moves a number
towards a bound that stays, or makes a text shorter; a way round that reads nothing and changes nothing is a loop for ever.
Converting a text may also enlarge its output. Further: no recursion, and every loop in the source is met by the analysis."""
import os
from ..parselab import *
from ..induct import *
from ..interp import _fresh_n
from ..iconvlab import split_ptr, norm

ASKED, LIMIT = (mk('L', 'ghost', n) for n in ('asked', 'limit'))
CONV = NS + 'IConv'


class Moves(PClient):
    wants_loops = True

    def __init__(self, lab):
        PClient.__init__(self, lab)
        self.sum = {}
        self.top = None
        self.recursive = []
        self.lines = [fl['name'] for fl in lab.prog.fields(P) if fl['t'].kind() == 'o' and fl['t'].k != 'ref']

    # ghosts: g['still']: heads passed since a line was read
    def on_line(self, ip, st, line, e):
        st.g['still'] = ()
        return None

    def before_line(self, ip, st, loc, e):
        self.line_loc = loc
        st.g.pop('facts', None)
        return [st]

    def on_iconv(self, ip, what, st, cd, args, e):
        if what == 'call':
            inp, inl, outp, outl = args
            if inp is None and outp is None:
                return
            at = self.spot(ip, st, inp)
            room = self.room(ip, st, outp, outl)
            last = st.g.get('conv')
            self.limit = room
            # the same question is answered in the same way
            same = st.store.get(ASKED) is not None and at is not None and (at is st.store[ASKED] or st.ev(Eq(at, st.store[ASKED])) is True) and st.g.get('flushed') == (inp is None)
            if same and last == 'toobig':
                same = room is not None and st.store.get(LIMIT) is not None and (room is st.store[LIMIT] or st.ev(Le(room, st.store[LIMIT])) is True)
            st.g['dup'] = bool(same)
        elif what.startswith('conv:'):
            st.g['conv'] = what[5:]
            inp, outp = args
            if inp is None and outp is None:
                st.store[ASKED] = mk('i', -1)
                st.g.pop('conv')
                return
            st.g['flushed'] = inp is None
            at = self.spot(ip, st, inp)
            st.store[ASKED] = at if at is not None else fresh('n', 'asked')
            st.store[LIMIT] = self.limit if self.limit is not None else fresh('n', 'limit')

    def spot(self, ip, st, inp):
        """where the input goes on"""
        if inp is None:
            return ZERO
        base, i = split_ptr(ip.read(st, inp))
        return i

    def room(self, ip, st, outp, outl):
        if outp is None:
            return None
        base, i = split_ptr(ip.read(st, outp))
        return norm(add(i, ip.read(st, outl))) if i is not None else None

    def on_icall(self, ip, e, st, fp, args):
        if fp.op == 'y' and isinstance(fp.a[1], tuple) and fp.a[1] and fp.a[1][0] == 'callback':
            return [(st, ZERO)]
        return None

    def on_throw(self, ip, st, t, e):
        if self.alone is not None and 'start' in st.g.get('still', ()):
            st.g['facts'] = tuple(sorted({**dict(st.g.get('facts', ())), **dict(self.facts(ip, st))}.items(), key=lambda x: x[0]))

    def facts(self, ip, s):
        """what is known of the line and of the flags"""
        out = []
        for q in sorted(self.preds):
            d = ip.prog.funcs[q]
            if not d['params']:
                y = ip.pure_term(d, s, self.me, [])
                z = s.ev(y) if y is not None else None
                if z is not None:
                    out.append((q, bool(z)))
        for fl in ip.prog.fields(P):
            if fl['t'].k == 'bool':
                z = s.ev(ip.read(s, ip.field(self.me, fl['name'])))
                if z is not None:
                    out.append((fl['name'], bool(z)))
        for n in self.lines:
            line = ip.read(s, ip.field(self.me, n))
            for t, v in s.P.items():
                if t.op == 'prefix' and t.a[0] is line and t.a[1].op == 's' and v.__class__ is bool:
                    out.append(('%s begins with %s' % (n, show(t.a[1])), (n, t.a[1], v)))
        return tuple(sorted(set(out), key=lambda x: x[0]))

    def on_write(self, ip, st, loc, v):
        pass

    def on_backedge(self, ip, node, inst, head, back):
        pass

    def on_recursion(self, ip, f, st, obj, args, e):
        self.recursive.append(f['q'])
        return None

    def on_back(self, ip, node, inst, st, depth):
        x = st.g.get('still', ())
        if inst not in x:
            st.g['still'] = tuple(sorted(x + (inst,), key=repr))

    def on_exits(self, ip, node, inst, exits):
        for s in exits:
            if self.alone is not None and 'start' in s.g.get('still', ()):
                s.g['facts'] = self.facts(ip, s)
            x = s.g.get('still', ())
            if inst in x:
                s.g['still'] = tuple(y for y in x if y != inst)

    def on_loop_done(self, ip, node, inst, before, entry, heads, trans, leave):
        ip.event('loop', LoopRec(node, inst, ip.fr.f, before, entry, heads, trans, leave), ip.trace())

    # ---------------------------------------------------------------- calls
    def intercept(self, ip, f, obj, args, st, e):
        d = ip.prog.funcs.get(f['m'])
        cls, _, name = f['q'].rpartition('::')
        if d is not None and d.get('cls') == P and f['m'] in self.sum and self.alone != f['m']:
            return self.apply(ip, self.sum[f['m']], f, obj, args, st, e)
        if cls in (NS + 'Dictionary', CONV, NS + 'PluralForms') and self.top == 'parser' and not f.get('defaulted') and name not in ('(ctor)', '(dtor)'):
            if d is None:
                return None
            if obj is not None and not f.get('const'):
                ip.havoc(st, obj, 'call')
            ip.raise_(st.copy(), 'std::runtime_error', None, e)
            t = e['t']
            if t.k == 'void':
                return [(st, ZERO)]
            if e.get('lv'):
                loc = mk('deref', fresh('p', f['q']))
                ip.root_ty[loc] = t
                return [(st, loc)]
            return [(st, ip.symval(t, ('result', f['q'], _fresh_n())))]
        if d is not None and d.get('rt') is not None and d['rt'].k == 'bool' and (ip.heavy(f['m']) or searches(ip, f['m'])):
            return self.predicate(ip, d, obj, args, st, e)
        return None

    def apply(self, ip, sm, f, obj, args, st, e):
        for t, moved, facts, changed in sm['throws']:
            s = st.copy()
            if self.after(ip, s, obj, moved, facts, changed, e):
                ip.raise_(s, t, None, e)
        out = []
        for moved, facts, changed in sm['returns']:
            s = st.copy()
            if not self.after(ip, s, obj, moved, facts, changed, e):
                continue
            for a, t in zip(args, f['pt']):
                if t.k == 'ref' and t.to is not None and not t.to.const and a.op in LOCOPS:
                    ip.havoc(s, a, 'call')
            rt = e['t']
            v = ZERO if rt.k == 'void' else None
            if v is None:
                if e.get('lv'):
                    v = mk('deref', fresh('p', f['q']))
                    ip.root_ty[v] = rt
                else:
                    v = ip.symval(rt, ('result', f['q'], _fresh_n()))
            out.append((s, v))
        return out

    def after(self, ip, s, obj, moved, facts, changed, e):
        """the state behind a reader; False: it is not possible"""
        changed = dict(changed)
        touched = moved or changed.pop('', None) is not None
        self.forget(ip, s, obj, changed, e)
        for n, k in changed.items():
            if k is not None and not moved:
                ip.write(s, ip.field(obj, n), k)
        if moved:
            s.g['still'] = ()
        if touched:
            self.advance(ip, s, None)
        for m, v in facts:
            if v.__class__ is tuple:
                if not s.assume(Prefix(ip.read(s, ip.field(obj, v[0])), v[1]), v[2]):
                    return False
                continue
            p = ip.pure_term(ip.prog.funcs[m], s, obj, []) if m in ip.prog.funcs else ip.read(s, ip.field(obj, m))
            if p is not None:
                if p.leaves:
                    if not s.assume(p, v):
                        return False
                elif s.ev(p) is not None and bool(s.ev(p)) != v:
                    return False
        return True


# ------------------------------------------------------------------- measures
def parts(prog, v, cls=None, path=()):
    """the parts of a value that are not records"""
    if v.op == 'rec':
        for n, x in zip(v.a[1], v.a[2]):
            for y in parts(prog, x, None, path + (n,)):
                yield y
    elif cls and prog.fields(cls):
        for fl in prog.fields(cls):
            if fl['t'].k != 'ref':
                for y in parts(prog, fget(v, fl['name'], fl['t'].kind()), fl['t'].name if fl['t'].k == 'rec' else None, path + (fl['name'],)):
                    yield y
    elif v.op in ('.i', 'it'):
        yield path + ('index',), v.a[1]
    else:
        yield path, v


def pairs(ip, h, b):
    """(place) -> (value at the head, value at the end of the round)"""
    out = {}
    for r, v in h.store.items():
        w = b.store.get(r)
        if w is None or r.op == 'L' and r.a[0] == 'ghost':
            continue
        t = ip.root_ty.get(r)
        cls = t.name if t is not None and t.k == 'rec' else None
        x, y = dict(parts(ip.prog, v, cls)), dict(parts(ip.prog, w, cls))
        for p in x:
            if p in y:
                out[(r, p)] = (x[p], y[p])
            else:
                out[(r, p)] = (x[p], None)
    return out


class Round(object):
    """one way round a loop"""
    def __init__(self, ip, l, h, b):
        self.l, self.h, self.b = l, h, b
        self.moved = l.inst not in b.g.get('still', ())
        self.p = pairs(ip, h, b)
        self.conv = b.g.get('conv')

    def flag(self, k):
        """(never taken back, set) of a flag"""
        x, y = self.p.get(k, (None, None))
        if x is None or y is None:
            return False, False
        o, n = self.b.ev(x), self.b.ev(y)
        return o is False or n is True or x is y, o is False and n is True

    def bounds(self, k):
        """numbers that the number at k is below of in this round"""
        x, y = self.p[k]
        b = self.b
        r = set()
        u = b.upper(x)
        if u is not None and u < 1 << 31:
            r.add(('const',))
        for j, (v, w) in self.p.items():
            if j == k:
                continue
            kd = kind(v)
            if kd == 'o':
                z = size(v)
                if w is not None and (v is w or b.ev(Eq(z, size(w)))) and (b.le(addc(x, 1), z) or b.ev(Lt(x, z))):
                    r.add(('size', j))
            elif kd in 'nui' and v is w and (b.le(addc(x, 1), v) or b.ev(Lt(x, v))):
                r.add(('val', j))
        return r

    def steps(self, m):
        """does the measure (not go back, make progress)?"""
        if m[0] == 'line':
            return True, self.moved
        x, y = self.p.get(m[1], (None, None))
        if x is None or y is None:
            return False, False
        b = self.b
        if m[0] == 'flag':
            return self.flag(m[1])
        if m[0] == 'up':
            same = x is y
            if m[2][0] == 'size':
                v, w = self.p.get(m[2][1], (None, None))
                keep = w is not None and (v is w or b.ev(Eq(size(v), size(w))))
            elif m[2][0] == 'val':
                v, w = self.p.get(m[2][1], (None, None))
                keep = w is not None and v is w
            else:
                keep = True
            return keep and (same or b.le(x, y) or b.ev(Le(x, y)) is True), keep and m[2] in self.bounds(m[1]) and (b.le(addc(x, 1), y) or b.ev(Lt(x, y)) is True)
        if m[0] == 'down':
            low = b.lower(x) is not None and b.lower(x) > -(1 << 31)
            return x is y or b.le(y, x) or b.ev(Le(y, x)) is True, low and (b.le(addc(y, 1), x) or b.ev(Lt(y, x)) is True)
        if m[0] == 'short':
            return x is y or b.ev(Le(size(y), size(x))) is True, b.ev(Lt(size(y), size(x))) is True
        if m[0] == 'room':
            return x is y or b.ev(Le(size(x), size(y))) is True, self.conv == 'toobig' and b.ev(Lt(size(x), size(y))) is True
        return False, False

    def measures(self, conv):
        """what makes progress in this round"""
        if self.moved:
            yield ('line',)
        for k, (x, y) in self.p.items():
            if y is None or x is y:
                continue
            kd = kind(x)
            if kd == 'b' or kind(y) == 'b' or x is ZERO and y is ONE:
                yield ('flag', k)
            elif kd in 'nui':
                for z in self.bounds(k):
                    yield ('up', k, z)
                yield ('down', k)
            elif kd == 'o':
                yield ('short', k)
                if conv:
                    yield ('room', k)

    def stuck(self):
        """nothing has changed that the way round depends on"""
        h, b = self.h, self.b
        if b.imp or b.g.get('unk'):
            return False
        if b.g.get('dup'):
            # the conversion was asked again what it had answered already; apart from its variables nothing may change
            for k, (x, y) in self.p.items():
                if y is None or x is y or k[0].a[0] == 0:
                    continue
                if kind(x) == 'b' and (b.ev(x) is None or b.ev(x) != b.ev(y)) or kind(x) in 'nui' and sub(y, x).op == 'i':
                    return False
            return True
        known = set()
        for v in h.store.values():
            known.update(v.leaves)
        counters = []
        for k, (x, y) in self.p.items():
            if x is y:
                continue
            if y is None:
                return False
            if kind(x) in 'nui' and sub(y, x).op == 'i':
                counters += list(x.leaves)
                continue
            if b.ev(Eqs(x, y) if kind(x) == 'o' else Eq(x, y)) is not True:
                return False
        for t in b.P:
            if t not in h.P and (any(y not in known for y in t.leaves) or any(y in t.leaves for y in counters)):
                return False
        return True


def rank(rounds, conv):
    """the rounds for which no combination of measures shows progress"""
    left = list(rounds)
    used = []
    while left:
        for m in [m for r in left for m in r.measures(conv)]:
            s = [r.steps(m) for r in left]
            if all(x[0] for x in s) and any(x[1] for x in s):
                left = [r for r, x in zip(left, s) if not x[1]]
                used.append(m)
                break
        else:
            break
    return left, used


NAMES = {'line': 'reads a line', 'flag': 'sets a flag', 'up': 'counts up to a bound', 'down': 'counts down', 'short': 'shortens a text',
         'room': 'makes room for the output'}


def again(ip, l):
    """ways round that can be taken any number of times"""
    to = {}
    edges = []
    for k, h in l.heads.items():
        for b in l.trans[k]:
            s = b.copy()
            ip.client.on_back(ip, l.node, l.inst, s, 0)
            s = ip.stale(s, l.tag)
            s.gc()
            k2 = ip.key(s)
            if k2 not in l.heads:
                k2 = None       # not clear where it goes on
            edges.append((k, k2, b))
            to.setdefault(k, set()).update(l.heads if k2 is None else [k2])
    reach = {}
    for k in l.heads:
        seen, work = set(), [k]
        while work:
            for j in to.get(work.pop(), ()):
                if j not in seen:
                    seen.add(j)
                    work.append(j)
        reach[k] = seen
    return [(k, b) for k, k2, b in edges if k2 is None or k in reach[k2]]


def judge_loops(ctx, ip, met):
    n = 0
    for ev in ip.events():
        if ev[0] != 'loop':
            continue
        l, tr = ev[1], ev[2]
        where = '%s:%s' % (l.f.get('file', '?'), l.node.get('l'))
        met.add((l.f.get('file'), l.f['m'], l.node.get('l')))
        rs = [Round(ip, l, l.heads[k], b) for k, b in again(ip, l)]
        left, used = rank(rs, l.f['q'].startswith(CONV))
        n += 1
        how = sorted({NAMES[m[0]] for m in used})
        if not left:
            ctx.ok('progress', '%s in %s' % (where, l.f['q'].replace(NS, '')), l.where(), ', '.join(how) or 'is left at once')
            continue
        if os.environ.get('TGSA_DEBUG'):
            for r in left:
                print(where, [(x.op, show(k[0])[:20] + '.'.join(k[1]), show(x)[-30:], show(y)[-30:] if y is not None else None) for k, (x, y) in r.p.items() if x is not y], [m[0] for m in r.measures(False)])
        for r in left:
            ctx.judge(False if r.stuck() else None, 'progress', '%s in %s' % (where, l.f['q'].replace(NS, '')), l.where(),
                      'a round reads no line and makes no other progress, and so goes on for ever' if r.stuck() else 'no progress found', tr)
    return n


def pure(lab, f):
    sm = lab.eff.summary(f['m'])
    return not sm.impure and not sm.this_whole


def loopy(prog, m):
    f = prog.funcs.get(m)
    return f is not None and any(n.get('s') in ('while', 'for', 'do', 'rfor', 'goto', 'label') for n in walk([f.get('body')]))


def ours(f):
    return f.get('body') is not None and any(x in f['file'] for x in ('/src/', '/include/tinygettext/')) and not f['file'].startswith(('/usr/', '/lib'))


def own_loops(f):
    return sorted({n.get('l') for n in walk([f.get('body')]) if n.get('s') in ('while', 'for', 'do', 'rfor')})


def cycles(x, ms):
    direct = lambda m: {n['f']['m'] for n in walk([x.prog.funcs[m].get('body'), x.prog.funcs[m].get('inits')]) if n.get('f').__class__ is dict and 'm' in n['f']}
    return sorted(m for m in ms if m in x.prog.funcs and any(m in x.reach(k) for k in direct(m)))


def add_outcome(d, k, ch):
    old = d.get(k)
    if old is None:
        d[k] = dict(ch)
    else:
        for n, x in ch:
            if old.get(n) is not x:
                old[n] = None


def say(m, fs, ch):
    if m:
        return ' behind another line'
    return ' without a line, %s' % ', '.join(['%s = %s' % (n, show(k)) for n, k in sorted(ch.items()) if k is not None and n] + ['%s%s' % ('' if (v[2] if v.__class__ is tuple else v) else 'not ', q.split('(')[0]) for q, v in fs])


def check(ctx):
    prog = ctx.prog
    ctx.floor('progress', 8)
    lab = PLab(prog)
    c = lab.client = Moves(lab)
    met = set()
    seen = set()
    # readers and other methods with loops, the small ones first
    c.top = 'parser'
    x = Interp(prog, None)
    ms = [f for f in lab.methods() if not (f['rt'] is not None and f['rt'].k == 'bool' and pure(lab, f)) and any(loopy(prog, m) for m in x.reach(f['m']) | {f['m']})]
    ms.sort(key=lambda f: (len(x.reach(f['m'])), f['m']))
    for f in ms:
        c.alone = f['m']
        c.line_loc = None
        ip, st = start(prog, c)
        ip.use_memo = False
        obj = object_at(ip, 'this', rec_ty(P))
        c.me = obj
        v = ip.read(st, obj)
        ip.write(st, obj, rec(P, tuple(fl['name'] for fl in prog.fields(P)), [ip.read(st, ip.field(obj, fl['name'])) if fl['t'].k != 'ref' else fget(v, fl['name'], 'p')
                                                                              for fl in prog.fields(P)]))
        args = []
        for p in f['params']:
            t = p['t']
            if is_stream(t) or t.k == 'ref':
                a = object_at(ip, p['name'] or 'arg', t.to)
                if is_out(t):
                    st.store[a] = S(b'')
                args.append(a)
            else:
                args.append(ip.symval(t, (p['name'] or 'arg',)))
        st.g['still'] = ('start',)
        v0 = ip.read(st, obj)
        first = {fl['name']: ip.read(st, ip.field(obj, fl['name'])) for fl in prog.fields(P) if fl['t'].k != 'ref'}
        bools = [fl['name'] for fl in prog.fields(P) if fl['t'].k == 'bool']
        ip.buf = []
        streams = {r: z for r, z in st.store.items() if z.op == 'rec' and z.a[0] == 'istream'}
        res, thr = run(ip, st, f, obj, args)
        seen |= ip.funcs_seen | {f['m']}
        judge_loops(ctx, ip, met)
        sm = {'returns': [], 'throws': []}

        def outcome(s):
            """(has a line been read, what fields are changed, to which constants)"""
            m = 'start' not in s.g.get('still', ())
            ch = []
            for n, x in first.items():
                y = ip.read(s, ip.field(obj, n))
                if y is not x:
                    k = s.ev(y) if y.op != 's' and kind(y) == 'b' else y if y.op in ('i', 's') else None
                    ch.append((n, I(int(k)) if k.__class__ is bool else k))
            if any(s.store.get(r) is not z for r, z in streams.items()):
                ch.append(('', ONE))        # the stream has been asked
            return m, ch

        facts = lambda s: s.g['facts'] if 'facts' in s.g else c.facts(ip, s)
        rs, ts = {}, {}
        for s, v in res:
            m, ch = outcome(s)
            add_outcome(rs, (m, frozenset(n for n, k in ch), () if m else facts(s), frozenset((n, k.id) for n, k in ch if k is not None and not m)), ch)
        for s, t, v in thr:
            m, ch = outcome(s)
            add_outcome(ts, (t, m, frozenset(n for n, k in ch), () if m else facts(s), frozenset((n, k.id) for n, k in ch if k is not None and not m)), ch)
        sm['returns'] = [(k[0], k[2], ch) for k, ch in sorted(rs.items(), key=repr)]
        sm['throws'] = [(k[0], k[1], k[3], ch) for k, ch in sorted(ts.items(), key=repr)]
        c.sum[f['m']] = sm
        ctx.note('reader ' + f['q'].replace(NS, ''), ['returns' + say(m, fs, ch) for m, fs, ch in sm['returns']] + ['throws' + say(m, fs, ch) for t, m, fs, ch in sm['throws']])
    c.alone = None
    c.line_loc = None
    # the parser
    f = prog.one(P + '::parse', lambda f: f.get('static'))
    ip, st = start(prog, c)
    ip.use_memo = False
    ip.buf = []
    res, thr = run(ip, st, f, None, sym_args(ip, st, f))
    judge_loops(ctx, ip, met)
    ctx.note('states_followed', ip.nsteps)
    seen |= ip.funcs_seen | {f['m']}
    # what the parser calls
    every = x.reach(f['m']) | {f['m']}
    c.top = None
    roots = set()
    for m in sorted(every):
        g = prog.funcs.get(m)
        if g is None or not ours(g) or m in seen or not own_loops(g):
            continue
        ip, st = start(prog, c)
        ip.use_memo = False
        ip.buf = []
        obj = None
        if g.get('cls') and not g.get('static'):
            obj = object_at(ip, 'this', rec_ty(g['cls']))
            ip.read(st, obj)
            c.me = obj
        c.alone = m
        st.g['still'] = ('start',)
        run(ip, st, g, obj, sym_args(ip, st, g))
        roots.add(g['q'].replace(NS, ''))
        judge_loops(ctx, ip, met)
        seen |= ip.funcs_seen | {m}
    ctx.note('analysed alone', sorted(roots))
    # all loops met?
    for m in sorted(every):
        g = prog.funcs.get(m)
        if g is None or not ours(g):
            continue
        if own_loops(g) and m not in seen:
            ctx.judge(None, 'progress', g['q'].replace(NS, ''), '%s:%s' % (g['file'], g['line']), 'a function with loops that the analysis has not followed', None)
    cyc = cycles(x, every)
    for m in cyc:
        g = prog.funcs[m]
        ctx.judge(None, 'no recursion', g['q'].replace(NS, ''), '%s:%s' % (g['file'], g['line']), 'calls itself, directly or through others', None)
    if not cyc:
        ctx.ok('no recursion', 'functions behind POParser::parse', '%s:%s' % (f['file'], f['line']), '%d functions, none can be reached from itself' % len([m for m in every if m in prog.funcs]))
