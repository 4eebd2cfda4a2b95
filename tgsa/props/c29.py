"""Typestate of conversion descriptors by abstract interpretation of every operation of the converter class. Rules: (a)
iconv and iconv_close are applied only to a descriptor that is open; (b) induction over the operations: a constructor
establishes, and every other operation keeps, on return and on exceptions, that the object has no descriptor or one that is
open, and that no other one is open; the destructor leaves none open, and neither does a constructor that throws; from
objects that are in another shape, the operations are followed once more; (c) objects that hold a descriptor are never
copied; (d) when both charsets are the same none is opened and the converter passes text through."""
from ..iconvlab import *
from ..mgrlab import LoopRec
from ..induct import Course
from .c33 import value
from ..concrete import cev, Unclear


def collect(ctx, lab, what, rule='open'):
    """judge the uses of descriptors"""
    for ev in lab.ip.events():
        if ev[0] == 'iconv' and ev[1] in ('use', 'close'):
            kind, st, where, tr, (ok, cd) = ev[1], ev[2], ev[3], ev[4], ev[5]
            word = 'used' if kind == 'use' else 'closed'
            ctx.judge(ok if ok is not None else None, rule, '%s: %s' % (what, word), where,
                      'a descriptor is %s that %s' % (word, 'does not exist' if st.is_null(cd) or cd is BADCD else 'is closed' if any(cd is c for c in st.g.get('shut', ())) else 'is not known to be open (%s)' % show(cd)[:60])
                      if not (ok is False and st.imp) else '', tr) if not (ok is False and st.imp) else ctx.undecided(rule, '%s: %s' % (what, word), where, 'a descriptor is %s' % word)


def owned(lab, st):
    """descriptors that the object holds"""
    v = lab.ip.read(st, lab.O)
    return {y for y in subterms(v)}, v


def settle(ctx, lab, what, where, sts, gone):
    """states after an operation; gone: there is no object afterwards.  Returns the states in another shape"""
    odd = []
    for st in sts:
        held, v = owned(lab, st)
        opn = st.g.get('opn', ())
        lost = [c for c in opn if gone or c not in held]
        if lost:
            ctx.judge(None if st.imp else False, 'kept', '%s: none is lost' % what, where, 'a descriptor stays open and is lost')
        else:
            ctx.ok('kept', '%s: none is lost' % what, where)
        if gone:
            continue
        fs = [fget(v, f, 'p') for f in lab.fld]
        fine = len(fs) == 1 and (st.is_null(fs[0]) is True and not opn or len(opn) == 1 and fs[0] is opn[0])
        if fine:
            ctx.ok('kept', '%s: none or an open one' % what, where)
        else:
            odd.append(st)
    return odd


def check(ctx):
    prog = ctx.prog
    ctx.floor('open', 2)
    ctx.floor('kept', 4)
    lab = IconvLab(prog)
    ip = lab.ip
    where = {}
    ops = {}
    for name, n in (('set_charsets', 2), ('convert', 1)):
        ops[name] = lab.public('IConv', name, n)
    dtor = lab.public('IConv', '(dtor)', 0) if any(f['q'] == lab.cls + '::(dtor)' and f.get('body') is not None for f in prog.funcs.values()) else None
    args = {k: sym_args(ip, lab.st0, f) for k, f in ops.items()}
    ctors = [f for f in prog.byq.get(lab.cls + '::(ctor)', []) if f.get('body') is not None and not f.get('defaulted')
             and not any(t.k == 'ref' and t.to.name == lab.cls for t in f['pt'])]
    if not ctors:
        raise Broken('anchor: no constructor of IConv')
    for f in ctors:
        args[f['m']] = sym_args(ip, lab.st0, f)

    def go(f, st, what, a):
        ip.buf = []
        res, thr = run(ip, st.copy(), f, lab.O, list(a))
        collect(ctx, lab, what)
        return [s for s, v in res], [t[0] for t in thr]

    odd = []
    for f in ctors:
        what = 'constructor with %d arguments' % len(f['pt'])
        st = lab.st0.copy()
        res, thr = go(f, st, what, args[f['m']])
        odd += [(what, s) for s in settle(ctx, lab, what, ctx.where(f), res, False)]
        settle(ctx, lab, what + ', exception', ctx.where(f), thr, True)

    def operations(st, pre):
        out = []
        for name, f in list(ops.items()):
            what = pre + name
            res, thr = go(f, st, what, args[name])
            out += [(what, s) for s in settle(ctx, lab, what, ctx.where(f), res, False)]
            out += [(what + ', exception', s) for s in settle(ctx, lab, what + ', exception', ctx.where(f), thr, False)]
        if dtor is not None:
            what = pre + 'destructor'
            res, thr = go(dtor, st, what, [])
            settle(ctx, lab, what, ctx.where(dtor), res, True)
        elif st.g.get('opn'):
            ctx.bad('kept', pre + 'destructor: none is lost', ctx.where(ctors[0]), 'there is no destructor')
        return out

    for kind in ('none', 'open'):
        st, cd = lab.shape(kind)
        if st is not None:
            odd += operations(st, {'none': 'without descriptor: ', 'open': 'with a descriptor: '}[kind])
    # other shapes: what comes next
    n = 0
    for what, st in odd:
        if n < 12:
            n += 1
            operations(st, 'after %s: ' % what)
        ctx.undecided('kept', '%s: none or an open one' % what, ctx.where(ctors[0]), 'the object holds %s' % show(ip.read(st, lab.O))[:100])
    copies(ctx, lab)
    same_charsets(ctx, lab, ops, args)


def copies(ctx, lab):
    """(c)"""
    prog = ctx.prog
    n = 0
    for f in prog.funcs.values():
        for x in walk(f.get('body')):
            g = x.get('f') if isinstance(x, dict) else None
            if not isinstance(g, dict) or not str(g.get('q', '')).startswith(lab.cls + '::'):
                continue
            pt = g.get('pt') or []
            if g['q'].rsplit('::', 1)[-1] in ('(ctor)', 'operator=') and len(pt) == 1 and pt[0].k == 'ref' and pt[0].to.name == lab.cls:
                n += 1
                d = prog.funcs.get(g['m'])
                own = d is not None and d.get('body') is not None and not g.get('defaulted') and not d.get('defaulted')
                ctx.judge(None if own else False, 'copy', 'copied', '%s:%s' % (f.get('file'), x.get('l')), 'a converter is copied, descriptor and all')
    if not n:
        ctx.ok('copy', 'copied', 'no copy')


def walk(x):
    todo = [x]
    while todo:
        y = todo.pop()
        if isinstance(y, dict):
            yield y
            todo += list(y.values())
        elif isinstance(y, (list, tuple)):
            todo += list(y)


def charmap(l, y):
    """(text before, table) if the loop replaces every character of the text y by a function of it"""
    heads = l.all_heads()
    tab, poss = {}, set()
    for k, h in heads:
        yh = l.now(h, y)
        for b in l.trans[k]:
            nt = l.now(b, y)
            if nt is None or nt.op != 'upd' or nt.a[0] is not yh:
                return None
            ch = at(yh, nt.a[1])
            m = b.mask(ch)
            for c in range(256):
                if m >> c & 1:
                    try:
                        d = cev(nt.a[2], {ch: c - 256 if c > 127 else c}) & 255
                    except (Unclear, TypeError):
                        return None
                    if tab.setdefault(c, d) != d:
                        return None
            if yh is y:
                poss.add(nt.a[1])
    poss = {p for p in poss if any(l.is_phi(z) for z in p.leaves)}
    if len(poss) != 1 or len(tab) < 256:
        return None
    pos = list(poss)[0]
    c = Course(l, pos)
    if c.step != 1 or any(f is not ZERO for f in c.firsts):
        return None
    for k, (ex, away) in l.leave.items():
        if away or k is None:
            return None
        for s in ex:
            if not s.ev(Le(size(l.now(l.heads[k], y)), c.at(l.heads[k]))):
                return None
    firsts = {l.now(s, y) for s in l.before}
    return (firsts.pop(), tuple(sorted(tab.items()))) if len(firsts) == 1 else None


def same_charsets(ctx, lab, ops, args):
    ip = lab.ip
    for kind in ('none', 'open'):
        st, cd = lab.shape(kind)
        f = ops['set_charsets']
        a = [args['set_charsets'][0]] * 2
        ip.buf = []
        loops = []
        lab.c.on_loop_done = lambda ip_, node, inst, before, entry, heads, trans, leave: loops.append(LoopRec(node, inst, ip_.fr.f, before, entry, heads, trans, leave))
        res, thr = run(ip, st.copy(), f, lab.O, a)
        evs = list(ip.events())

        def possible(s):
            """False: the facts contradict each other once the loops are understood"""
            maps = {}
            for t, v in s.P.items():
                if t.op == 'eqs':
                    x = []
                    for y in t.a:
                        if y not in maps:
                            ls = [l for l in loops if l.is_phi(y)]
                            if ls:
                                maps[y] = charmap(ls[-1], y)
                            elif y.op == 'mapc' and not unknown(y.a[0]):
                                maps[y] = (y.a[0], tuple((c, cev(mk(y.a[1], I(c)), {}) & 255) for c in range(256)))
                            else:
                                maps[y] = None if unknown(y) or y.op == 'mapc' else (y, None)
                        x.append(maps[y])
                    if None in x:
                        return None
                    if x[0] == x[1] and not v:
                        return False
                elif any(l.owns(t) for l in loops):
                    return None
            return True
        where = ctx.where(f)
        for ev in evs:
            if ev[0] == 'iconv' and ev[1] == 'open':
                p = possible(ev[2])
                ctx.judge(True if p is False else None if p is None or ev[2].imp else False, 'same', 'no descriptor for the same charsets', ev[3], 'a descriptor is opened', ev[4])
        for s, t, v in thr:
            p = possible(s)
            ctx.judge(True if p is False else None if p is None or s.imp else False, 'same', 'the same charsets: no exception', where, 'throws %s' % t)
        for s, v in res:
            if possible(s) is False:
                continue
            r2, t2 = run(ip, s.copy(), ops['convert'], lab.O, list(args['convert']))
            T = args['convert'][0]
            for s2, v2 in r2:
                want = ip.read(s2, T) if T.op in LOCOPS else T
                e = same(s2, v2, want)
                ctx.judge(True if e else None if s2.imp or possible(s) is None or unknown(v2) and e is None else False, 'same', 'text is passed through', ctx.where(ops['convert']), 'becomes %s' % show(v2)[:80])
            for s2, t, v2 in t2:
                ctx.judge(None if s2.imp else False, 'same', 'text is passed through', ctx.where(ops['convert']), 'throws %s' % t)
    # without charsets
    f = [g for g in ctx.prog.byq.get(lab.cls + '::(ctor)', []) if not g['pt'] and g.get('body') is not None]
    for g in f:
        r1, t1 = run(ip, lab.st0.copy(), g, lab.O, [])
        for s, v in r1:
            r2, t2 = run(ip, s.copy(), ops['convert'], lab.O, list(args['convert']))
            T = args['convert'][0]
            for s2, v2 in r2:
                want = ip.read(s2, T) if T.op in LOCOPS else T
                e = same(s2, v2, want)
                ctx.judge(True if e else None if s2.imp or unknown(v2) and e is None else False, 'same', 'text is passed through without charsets', ctx.where(ops['convert']), 'becomes %s' % show(v2)[:80])
