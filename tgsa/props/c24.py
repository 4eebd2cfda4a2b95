"""Abstract interpretation of Language::match on two arbitrary languages, each path refined by what the public getters
answer for both: language codes equal or not; countries (modifiers) equal, one of them empty, or both non-empty and
different. Rules: the score is a constant per class (so it depends on nothing else, and not on the order of the two
arguments); it is 0 exactly for different codes; it falls strictly from agreement over a missing part to a difference, for
the country and for the modifier; the class with the better country and worse modifier scores higher than its mirror
image; exact agreement scores highest."""
from ..lab import *

CLS = ('equal', 'missing on one side', 'different')
GET = ('get_language', 'get_country', 'get_modifier')


def parts(lab, st, f, A, B):
    """[(state, value of A, value of B)]"""
    out = []
    for s, a in lab.seq([st], f, A, [])[0]:
        for s2, b in lab.seq([s], f, B, [])[0]:
            out.append((s2, a, b))
    return out


def classes(lab, st, a, b):
    """[(state, class)]"""
    out = []
    for s, e in fork(lab.ip, st, Eqs(a, b)):
        if e:
            out.append((s, 0))
            continue
        for s2, ea in fork(lab.ip, s, Eqs(a, S(''))):
            if ea:
                out.append((s2, 1))
                continue
            for s3, eb in fork(lab.ip, s2, Eqs(b, S(''))):
                out.append((s3, 1 if eb else 2))
    return out


def table(ctx):
    lab = Lab(ctx.prog)
    f = lab.public('Language', 'match', 2, static=True)
    get = [lab.public('Language', n, 0) for n in GET]
    A, B = lab.obj('A', 'Language'), lab.obj('B', 'Language')
    where = ctx.where(f)
    T = {}
    unclear = []
    # the classes are made first, so that the order in which the function asks does not matter
    work = []
    for s, a, b in parts(lab, lab.st0, get[0], A, B):
        for s1, e in fork(lab.ip, s, Eqs(a, b)):
            if not e:
                work.append((s1, None))
                continue
            for s2, a2, b2 in parts(lab, s1, get[1], A, B):
                for s3, c in classes(lab, s2, a2, b2):
                    for s4, a4, b4 in parts(lab, s3, get[2], A, B):
                        for s5, m in classes(lab, s4, a4, b4):
                            work.append((s5, (c, m)))
    for s, k in work:
        res, thr = lab.seq([s], f, None, [A, B])
        for t in thr:
            unclear.append((k, 'throws ' + str(t[1])))
        for s2, v in res:
            T.setdefault(k, {}).setdefault(v, []).append(s2)
    return where, T, unclear, len(work)


def name(k):
    return 'other language' if k is None else 'country %s, modifier %s' % (CLS[k[0]], CLS[k[1]])


def check(ctx):
    where, T, unclear, n = table(ctx)
    ctx.note('pairs_of_abstract_languages', n)
    ctx.floor('one score per class', 6)
    ctx.floor('order', 15)
    val = {}
    for k in [None] + [(c, m) for c in range(3) for m in range(3)]:
        vs = T.get(k, {})
        if not vs:
            ctx.undecided('one score per class', name(k), where, 'no path')
            continue
        if len(vs) == 1 and list(vs)[0].op == 'i':
            val[k] = list(vs)[0].a[0]
            ctx.ok('one score per class', name(k), where)
        elif all(v.op == 'i' for v in vs) and not any(s.imp for ss in vs.values() for s in ss):
            ctx.bad('one score per class', name(k), where, 'scores %s' % sorted(v.a[0] for v in vs))
        else:
            ctx.undecided('one score per class', name(k), where, 'scores %s' % [show(v)[:60] for v in vs])
    for k, w in unclear:
        ctx.undecided('one score per class', name(k), where, w)
    if None in val:
        ctx.judge(val[None] == 0, 'zero', name(None), where, 'score %d' % val[None])
    for k, v in val.items():
        if k is not None:
            ctx.judge(v > 0, 'zero', name(k), where, 'score %d' % v)

    def above(a, b):
        if a in val and b in val:
            ctx.judge(val[a] > val[b], 'order', '%s > %s' % (name(a), name(b)), where, 'scores %d and %d' % (val[a], val[b]))
        else:
            ctx.undecided('order', '%s > %s' % (name(a), name(b)), where, 'not constant')
    for i in range(3):
        for j in range(2):
            above((i, j), (i, j + 1))
            above((j, i), (j + 1, i))
    for i in range(3):
        for j in range(i + 1, 3):
            above((i, j), (j, i))
