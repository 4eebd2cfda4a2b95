"""Abstract interpretation of Language::from_spec on arbitrary texts, with Language::match as an uninterpreted score, and of
the construction of the index it searches. Rules: (a) the search is a loop over all rows kept for the language code, and an
inductive step: a row becomes the best only with its own score against the language, country and modifier asked for, which
is above 0 and not below the best so far, and is left out only if it scores no better; the answer is the best of that
loop, or undefined if no rows are kept for the code. (b) the index is filled by a loop over the rows of the table, from the
first to the one without language, which in every iteration adds that row at the end of the list of its own language code
and leaves the other lists alone."""
from ..argmax import *
from .. import tables


class SClient(Client):
    wants_loops = True
    lab = None

    def intercept(self, ip, f, obj, args, st, e):
        if f['q'] == NS + 'Language::match':
            vs = vals(ip, st, args)
            ip.event('mgr', 'match', st.copy(), ip.where(e), ip.trace(), vs)
            return [(st, fun('u', 'match', *[fget(v, self.lab.spec_field()) for v in vs]))]
        return None

    def on_loop_done(self, ip, node, inst, before, entry, heads, trans, leave):
        ip.event('loop', LoopRec(node, inst, ip.fr.f, before, entry, heads, trans, leave))


class SLab(Lab):
    spec_field = MgrLab.spec_field

    def __init__(self, prog):
        c = SClient()
        Lab.__init__(self, prog, c)
        c.lab = self


def index_of(t):
    """mget(map, key) inside the list of rows"""
    return (t.a[0], t.a[1]) if t.op == 'mget' else (None, None)


def search(ctx, rule='search'):
    prog = ctx.prog
    lab = SLab(prog)
    ip = lab.ip
    f = lab.public('Language', 'from_spec', 3, static=True)
    get = [lab.public('Language', n, 0) for n in ('get_language', 'get_country', 'get_modifier')]
    where = ctx.where(f)
    args = sym_args(ip, lab.st0, f)
    st0 = lab.st0.copy()
    texts = [ip.read(st0, a) if a.op in LOCOPS else a for a in args]
    ip.buf = []
    res, thr = run(ip, st0, f, None, args)
    r = Run(lab, res, thr)
    for t in thr:
        ctx.judge(None if t[0].imp else False, rule, 'no exception', where, 'throws %s' % (t[1],))
    # what is scored
    O = object_at(ip, 'scored', rec_ty(NS + 'Language'))
    wants = set()
    for s, w, tr, vs in r.of('match'):
        ok, bad = False, False
        for v in vs:
            p = fget(v, lab.spec_field())
            if p.op == 'at':
                continue
            s2 = s.copy()
            ip.write(s2, O, v)
            got = [(same(s3, x, t), x) for g, t in zip(get, texts) for s3, x in lab.seq([s2], g, O, [])[0]]
            if all(y is True for y, x in got):
                ok = True
                wants.add(p)
            elif all(y is True or not unknown(x) for y, x in got):
                bad = True
                wants.add(p)
        ctx.judge(True if ok else None if s.imp or not bad else False, rule, 'the score is against what was asked for', w, 'another language is scored', tr)
    xs = {}
    for l in r.loops:
        for k, h in l.all_heads():
            for b in l.trans[k]:
                for t in list(b.P) + list(b.z) + list(b.store.values()):
                    for y in subterms(t):
                        if y.op == 'fun' and y.a[1] == 'match':
                            for p in y.a[2:]:
                                if p.op == 'at' and l.owns(p.a[1]) and p not in wants:
                                    xs.setdefault(id(l), (l, set()))[1].add(p)
    m = None
    for l, ys in xs.values():
        for x in ys:
            m, key = index_of(x.a[0])
            ctx.judge(True if key is texts[0] else None if key is None or unknown(key) else False, rule, 'the rows of the language code', l.where(), 'searches %s' % show(x.a[0])[-100:])
    if len(xs) != 1 or len(list(xs.values())[0][1]) != 1 or len(wants) != 1:
        ctx.undecided(rule, 'a loop over the rows', where, '%d loops, %d questions' % (len(xs), len(wants)))
        return lab, m
    l, x = list(xs.values())[0]
    x = list(x)[0]
    want = list(wants)[0]
    base, idx = x.a[0], x.a[1]
    m, key = index_of(base)
    v, msg, step = visits_all(r, base, idx)
    ctx.judge(v, rule, 'every row', l.where(), msg)
    bests = set()
    for k, h in l.all_heads():
        for b in l.trans[k]:
            for k2, h2 in l.all_heads():
                for rt, v2 in h2.store.items():
                    for y in v2.leaves:
                        if l.is_phi(y) and l.now(b, y) is x:
                            bests.add(y)
    if len(bests) != 1:
        ctx.undecided(rule, 'the best row', l.where(), '%d variables hold a row' % len(bests))
        return lab, m
    best = list(bests)[0]
    best_step(ctx, l, best, x, lambda z: z.op == 'fun' and z.a[1] == 'match', want, 'row', rule, key is texts[0])
    # the answer
    for s, v in res:
        p = fget(v, lab.spec_field())
        if s.is_null(p):
            none = m is not None and s.ev(s.has(m, key)) is False
            ctx.judge(True if none else False if s.ev(IsNull(best)) is False and not s.imp else None, rule, 'undefined only if the code is unknown', where, 'undefined for a known language')
        else:
            ctx.judge(True if p is best else None if unknown(p) or s.imp else False, rule, 'the answer is the best row', where, 'answers %s' % show(p)[:100])
    return lab, m


def index(ctx, lab, m, rule='index'):
    """how the index is filled"""
    prog, ip = ctx.prog, lab.ip
    qs = [y.a[1] for y in subterms(m)] if m is not None else []
    g = None
    f = lab.public('Language', 'from_spec', 3, static=True)
    _, globs = tables.reachable(prog, f)
    cands = [(q, x) for q, x in globs.items() if x is not None and x['t'].k == 'rec' and x['t'].name in ('std::unordered_map', 'std::map')
             and x.get('init') is not None and str(q) in str(show(m))] if m is not None else []
    if len(cands) != 1:
        ctx.undecided(rule, 'the index', ctx.where(f), '%d maps' % len(cands))
        return
    q, g = cands[0]
    where = '%s:%s (%s)' % (g.get('file', '?'), g.get('l', g.get('line', '?')), q)
    ip.buf = []
    st = lab.st0.copy()
    got = []
    for s, v in ip.ev_noclean(g['init'], st):
        if g['init'].get('lv'):
            v = ip.read(s, v, g['t'])
        got.append((s, v))
    loops = [ev[1] for ev in ip.events() if ev[0] == 'loop']
    for s, v in got:
        ls = [l for l in loops if l.owns(v)]
        if len(ls) != 1 or not ls[0].is_phi(v):
            ctx.judge(None if s.imp or unknown(v) else False, rule, 'filled by a loop', where, 'the index is %s' % show(v)[:80])
            continue
        ctx.ok(rule, 'filled by a loop', where)
        l = ls[0]
        base = idx = None
        for k, h in l.all_heads():
            for b in l.trans[k]:
                old, new = l.now(h, v), l.now(b, v)
                if new is old:
                    ctx.judge(None if b.imp else False, rule, 'every row is added', l.where(), 'an iteration adds nothing')
                    continue
                if new.op not in ('put', 'ins') or new.a[0] is not old:
                    ctx.judge(None, rule, 'one list is changed', l.where(), 'the index becomes %s' % show(new)[:80])
                    continue
                ctx.ok(rule, 'one list is changed', l.where())
                key, val = new.a[1], new.a[2]
                k1 = key.a[0] if key.op == 'content' else key
                if k1.op != 'fldn' or k1.a[0].op != 'at' or not l.owns(k1.a[0].a[1]):
                    ctx.judge(None if b.imp or unknown(key) else False, rule, 'under its own code', l.where(), 'the key is %s' % show(key)[-80:])
                    continue
                ctx.judge(k1.a[1] == 'language', rule, 'under its own code', l.where(), 'the key is the %s' % k1.a[1])
                base, idx = k1.a[0].a[0], k1.a[0].a[1]
                last = val.a[-1] if val.op in ('push', 'vec') and val.a else None
                rest = val.a[0] if val.op == 'push' else None
                okv = last is not None and last.op == '[]' and last.a[1] is idx if last is not None else False
                if last is not None and not okv:
                    okv = last.op in LOCOPS and idx in last.a
                ctx.judge(True if okv else None if b.imp or last is None else False, rule, 'the row itself', l.where(), 'adds %s' % show(val)[-80:])
                had = b.ev(b.has(old, key))
                if had is False:
                    ctx.judge(True if val.op == 'vec' and len(val.a) == 1 else None if b.imp or unknown(val) else False, rule, 'a new list', l.where(), 'becomes %s' % show(val)[-80:])
                else:
                    okr = rest is not None and rest.op == 'mget' and rest.a[0] is old and rest.a[1] is key
                    ctx.judge(True if okr else None if b.imp or val.op not in ('vec', 'push') else False, rule, 'the list is kept', l.where(), 'becomes %s' % show(val)[-80:])
        if idx is None:
            ctx.undecided(rule, 'every row', l.where(), 'no row is added')
            continue
        c = Course(l, idx)
        first = list(c.firsts)[0] if len(c.firsts) == 1 else None
        ctx.judge(True if c.step == 1 and first is ZERO else None if c.step is None or first is None or unknown(first) else False, rule, 'from the first row on', l.where(),
                  'begins at %s, step %s' % (first and show(first)[:40], c.step))
        end = IsNull(mk('fldn', mk('at', base, idx, 'o'), 'language', 'p'))
        for k, (ex, away) in l.leave.items():
            for s2 in ex:
                ok = s2.ev(end) or base.op == 'vec' and s2.ev(Le(I(len(base.a)), idx))
                ctx.judge(True if ok else None if s2.imp else False, rule, 'up to the end', l.where(), 'the loop ends early')
            for s2 in away:
                ctx.judge(None if s2.imp else False, rule, 'up to the end', l.where(), 'the loop is left early')


def check(ctx):
    ctx.floor('search', 1)
    lab, m = search(ctx)
    index(ctx, lab, m)
