"""Abstract interpretation of the function from file names to locale names on an arbitrary text. Rules: (a) the text worked
on is the name without the ending ".po", or the whole name if it ends otherwise; (b) the loop over its characters simulates
the automaton before the underscore -> letters behind it -> rest: every transition of the loop (per value of its flags,
reachable state of the automaton and class of character) moves on by one character and makes of it what the automaton
says, checked for all 256 characters; ways out of the loop lead out at the end of the text or where nothing can change
any more."""
from ..lab import *
from ..mgrlab import mapping
from ..induct import match, canon
from ..models import Contains, Suffix
from ..concrete import agrees, cev, Unclear
from .c37 import SLab
from ..mgrlab import *

UNDER, LOWER, UPPER = {95}, set(range(97, 123)), set(range(65, 91))
CLASSES = [('an underscore', UNDER), ('a small letter', LOWER), ('a capital letter', UPPER),
           ('another character', set(range(256)) - UNDER - LOWER - UPPER)]
NAMES = [b'zh_tw.po', b'zh_TW.po', b'de.po', b'DE.po', b'ca_es@valencia.po', b'ca_es@valencia', b'en_gb.utf-8.po', b'x_ab_cd.po', b'_a.po', b'po', b'',
         b'.po', b'a', b'de.pot', b'de.po.po', b'de_at', b'de_', b'de_.po', b'de_a1b.po', b'a.po_b', b'sr@latin.po', b'de@x_y.po', b'de_at.po.bak', b'depo', b'de_po',
         b'd\xc3\xa4_\xc3\xa4b.po']


def spec(w):
    if w.endswith(b'.po'):
        w = w[:-3]
    g, out = 'before', bytearray()
    for c in w:
        g, d = step(g, c)
        out.append(d)
    return bytes(out)


def step(g, c):
    if g == 'before':
        return ('in' if c in UNDER else g), c
    if g == 'in':
        if c in LOWER:
            return g, c - 32
        return (g if c in UPPER else 'rest'), c
    return g, c


def mask(cs):
    m = 0
    for c in cs:
        m |= 1 << c
    return m


def stems(s, E):
    """[(state, what is worked on)]"""
    out = []
    for s2, yes in fork(None, s, Suffix(E, S('.po'))):
        out.append((s2, substr(E, ZERO, addc(size(E), -3)) if yes else E))
    return out


def compare(s, E, v):
    """(verdict, text) of a result that is not made by a loop"""
    if s.imp or unknown(v):
        return None, ''
    for w in NAMES:
        if agrees(s, E, w):
            try:
                x = cev(v, {E: w})
            except (Unclear, TypeError):
                continue
            if x != spec(w):
                return False, '"%s" becomes "%s", not "%s"' % (w.decode('latin1'), x.decode('latin1'), spec(w).decode('latin1'))
    for s2, z in stems(s, E):
        u = S('_')
        if not same(s2, v, z) or not (s2.ev(Contains(z, u, ZERO)) is False or s2.ev(Contains(E, u, ZERO)) is False
                                      or z.op == 'sub' and s2.ev(Le(z.a[2], mk('find', E, u, ZERO)))):
            return None, 'becomes %s' % show(v)[:80]
    return True, ''


def feeds(l, h, s, keep):
    """the values the flags of the head h get from the state s, or None if s does not lead there"""
    m = {}
    for r, v in h.store.items():
        w = s.store.get(r)
        if w is None:
            continue
        if v.op == 'i' and v is not w and kind(w) in 'ibunc' and (w.op == 'i' or s.ev(Eq(v, w) if kind(w) != 'b' else w) is (False if kind(w) != 'b' else v is ZERO)):
            return None
        match(v, w, lambda y: y in keep, m)
    return m


def value(s, t):
    """constant value of a flag"""
    if t.op == 'i':
        return t
    if kind(t) == 'b':
        e = s.ev(t)
        return None if e is None else TRUE if e else FALSE
    c = canon(s, t)
    return c if c.op == 'i' else None


def flags(l, y, pos):
    """variables that hold flags"""
    cand = set()
    for k, h in l.all_heads():
        for v in h.store.values():
            cand |= {x for x in v.leaves if l.is_phi(x) and x is not y and x not in pos.leaves}
    out = set()
    for x in cand:
        vs = [l.now(s, x) for s in l.before] + [l.now(b, x) for k, h in l.all_heads() for b in l.trans[k]]
        if kind(x) == 'b' or all(z is None or z.op == 'i' or z is x for z in vs):
            out.add(x)
    return out


def assume(s, val):
    s = s.copy()
    for x, v in val:
        if v is None:
            continue
        if not (s.assume(x, v is TRUE) if kind(x) == 'b' else s.assume(Eq(x, v), True)):
            return None
    return s


def still(l, x):
    """a variable that has several values before the loop and does not change in it"""
    return l.is_phi(x) and all(l.now(b, x) is l.now(h, x) for k, h in l.all_heads() for b in l.trans[k])


def weak(l, b, y, pos, fl):
    """does the way depend on something that the automaton does not follow?"""
    mine = {x for x in pos.leaves if l.is_phi(x)}
    for t in list(b.P) + [u for v in b.z for u in [v] + list(b.z[v])] + list(b.M):
        ph = {x for x in t.leaves if l.is_phi(x)}
        if ph - mine - fl - {y} and not all(still(l, x) and kind(x) == 'o' for x in ph - mine - fl - {y}):
            return True
    for t in list(b.P) + list(b.z):
        for u in [t] + (list(b.z[t]) if t in b.z else []):
            if mine & set(u.leaves) and any(w.op == 'find' for w in subterms(u)):
                return True
    for v, d in b.z.items():
        for u in d:
            if (mine & set(v.leaves) and any(w.op == 'find' for w in subterms(u))) or (mine & set(u.leaves) and any(w.op == 'find' for w in subterms(v))):
                return True
    return False


def automaton(ctx, r, l, y, E):
    where = l.where()
    # the position and the text looked at
    poss = set()
    for k, h in l.all_heads():
        for b in l.trans[k]:
            for t in list(b.M) + list(b.P) + list(b.store.values()):
                for z in subterms(t):
                    if z.op == 'at' and len(z.a) == 2 and (z.a[0] is y or not l.owns(z.a[0]) and E.leaves <= z.a[0].leaves or still(l, z.a[0])):
                        poss.add((z.a[0], z.a[1]))
    poss = {(x, p) for x, p in poss if any(l.is_phi(z) for z in p.leaves)}
    if len(poss) != 1:
        ctx.undecided('letters', 'one character per iteration', where, 'looks at %d places' % len(poss))
        return
    text, pos = list(poss)[0]
    place = text is y
    c = Course(l, pos)
    ctx.judge(True if c.step == 1 else None if c.step is None or c.step > 1 else False, 'letters', 'one character per iteration', where, 'moves by %s' % c.step)
    if c.step != 1:
        return
    fl = flags(l, y, pos)
    todo, seen = [], set()

    def reach(s, g):
        for k, h in l.all_heads():
            m = feeds(l, h, s, fl)
            if m is None:
                continue
            val = tuple(sorted(((x, value(s, t)) for x, t in m.items()), key=lambda p: str(p[0].a)))
            if (k, val, g) not in seen:
                seen.add((k, val, g))
                todo.append((k, val, g))

    for s in l.before:
        z, p0 = (l.now(s, text) if l.is_phi(text) else text), c.at(s)
        if not place:
            e0 = l.now(s, y)
            ctx.judge(True if e0 is S('') else None if e0 is None or s.imp or unknown(e0) else False, 'letters', 'begins with nothing', where, 'begins with %s' % (e0 and show(e0)[:60]))
            if e0 is not S(''):
                return
        if z is None or p0 is None:
            ctx.undecided('stem', 'without its ending', where, 'the text is not followed')
            return
        for s2, want in stems(s, E):
            v = same(s2, z, want)
            msg = 'works on %s' % show(z)[:80]
            if v is not True:
                v = None
                for w in () if s2.imp or unknown(z) else NAMES:
                    if agrees(s2, E, w):
                        try:
                            if cev(z, {E: w}) != cev(want, {E: w}):
                                v, msg = False, 'for "%s" works on "%s"' % (w.decode('latin1'), cev(z, {E: w}).decode('latin1'))
                                break
                        except (Unclear, TypeError):
                            pass
            ctx.judge(v, 'stem', 'without its ending', where, msg)
        q = addc(p0, -1)
        under = lambda t: t.op == 'find' and t.a[1] is S('_') and t.a[2] is ZERO and t.a[0] in (z, E)
        if p0 is ZERO or under(p0):
            reach(s, 'before')
        elif under(q):
            reach(s, 'in')
        else:
            ctx.judge(False if p0.op == 'i' and not s.imp and p0.a[0] > 0 else None, 'letters', 'from the first character on', where, 'begins at %s' % show(p0)[:60])
    n = 0
    while todo:
        n += 1
        if n > 200:
            ctx.undecided('letters', 'finitely many situations', where)
            return
        k, val, g = todo.pop()
        h = l.heads[k]
        ph, yh = c.at(h), l.now(h, y)
        th = yh if place else text
        ch = at(th, ph)
        for b in l.trans[k]:
            b2 = assume(b, val)
            if b2 is None:
                continue
            nt, x = l.now(b, y), None
            if place:
                ok = nt is th
                if nt is not None and nt.op == 'upd' and nt.a[0] is th and nt.a[1] is ph:
                    x, ok = nt.a[2], True
            else:
                ok = nt is not None and nt.op == 'cat' and len(nt.a) == 2 and nt.a[0] is yh and (nt.a[1].op == 'chr' or nt.a[1].op == 's' and len(nt.a[1].a[0]) == 1)
                x = (nt.a[1].a[0] if nt.a[1].op == 'chr' else I(nt.a[1].a[0][0])) if ok else None
                if nt is yh:
                    ctx.judge(None if b2.imp or weak(l, b, y, pos, fl) else False, 'letters', 'no character is dropped', where, 'a character is left out')
                    continue
            if not ok:
                ctx.judge(None, 'letters', 'one character changes', where, 'the text becomes %s' % (nt and show(nt)[:80]))
                return
            for name, cs in CLASSES:
                b3 = b2.copy()
                if not b3.set_mask(ch, mask(cs)):
                    continue
                m = b3.mask(ch)
                bad = None
                try:
                    for w in cs:
                        if m >> w & 1:
                            g2, want = step(g, w)
                            got = w if x is None else cev(x, {ch: w - 256 if w > 127 else w}) & 255
                            if got != want:
                                bad = '%s becomes %s' % (show_char(w), show_char(got))
                                break
                    v = True if bad is None else None if b3.imp or weak(l, b, y, pos, fl) else False
                except (Unclear, TypeError):
                    v, bad = None, 'becomes %s' % show(x)[:60]
                ctx.judge(v, 'letters', '%s: %s' % (WORDS[g], name), where, bad or '')
                reach(b3, step(g, min(cs))[0])
        for s in [s for side in l.leave.get(k, ((), ())) for s in side]:
            s2 = assume(s, val)
            if s2 is None:
                continue
            if l.now(s, y) is not yh:
                ctx.undecided('letters', 'unchanged on the way out', where, 'changed on the way out')
                continue
            if s2.ev(Le(size(th), ph)):
                ctx.ok('letters', 'on to the end', where)
                continue
            for name, cs in CLASSES:
                s3 = s2.copy()
                if not s3.set_mask(ch, mask(cs)):
                    continue
                fine = place and (g == 'rest' or g == 'in' and not cs & (LOWER | UPPER))
                ctx.judge(True if fine else None if s.imp or weak(l, s, y, pos, fl) else False, 'letters', 'on to the end', where, '%s the loop ends at %s' % (WORDS[g], name))


WORDS = {'before': 'before the underscore', 'in': 'among the letters behind the underscore', 'rest': 'behind the letters'}


def show_char(c):
    return "'%c'" % c if 32 < c < 127 else str(c)


def check(ctx):
    prog = ctx.prog
    fs = mapping(prog)
    if len(fs) != 1:
        raise Broken('anchor: the function from file names to locale names not found')
    f = fs[0]
    where = ctx.where(f)
    ctx.floor('total', 1)
    lab = SLab(prog)
    ip = lab.ip
    O = object_at(ip, 'manager', rec_ty(f['cls'])) if f.get('cls') and not f.get('static') else None
    args = sym_args(ip, lab.st0, f)
    st = lab.st0.copy()
    E = ip.read(st, args[0]) if args[0].op in LOCOPS else args[0]
    ip.buf = []
    res, thr = run(ip, st, f, O, args)
    r = Run(lab, res, thr)
    ctx.ok('total', 'no exception', where)
    for s, t, v in thr:
        w = None
        for n in NAMES:
            if w is None and agrees(s, E, n):
                w = n
        ctx.judge(None if s.imp or w is None else False, 'total', 'no exception', where, 'throws %s for "%s"' % (t, (w or b'').decode('latin1')))
    todo = {}
    for s, v in res:
        ls = [l for l in r.loops if l.owns(v)]
        if not ls:
            ok, msg = compare(s, E, v)
            ctx.judge(ok, 'stem', 'an answer without a loop', where, msg)
        elif len(ls) == 1 and ls[0].is_phi(v):
            todo[id(ls[0]), v] = ls[0]
        else:
            ctx.undecided('letters', 'the answer', where, 'answers %s' % show(v)[:80])
    for (_, v), l in todo.items():
        automaton(ctx, r, l, v, E)
