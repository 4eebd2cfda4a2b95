"""Abstract interpretation of get_dictionary on an arbitrary manager and language; listings, scores and the mapping of names to
languages are uninterpreted. The name of the file opened is the directory, a slash, and a variable that a loop over the
files of the directory sets (the best name so far). Rule, for every path through an iteration of that loop (an inductive
step): the best name becomes the file of this iteration only if the file ends in .po, its score against the requested
language is above 0 and not below the best score so far, which becomes its score; it is kept, with its score, only if the
file does not end in .po, has no known language or scores not above the best so far. In the beginning there is no best name
and no file is opened in that case; the loop visits every file."""
from ..mgrlab import *


def numbers(h, l):
    """numeric variables of the loop: (path, head value)"""
    out = []
    for r, v in h.store.items():
        for y in v.leaves:
            if l.is_phi(y) and kind(y) == 'n':
                out.append((r, y))
    return out


def scored(l):
    """variables of the loop that hold a score"""
    out = set()
    for k, h in l.all_heads():
        for b in l.trans[k]:
            for y, z in l.change(h, b).items():
                if kind(y) == 'n' and z.op == 'fun' and z.a[1] == 'match':
                    out.add(y)
    return out


def check(ctx):
    prog = ctx.prog
    ctx.floor('step', 1)
    lab = MgrLab(prog, fail=False)
    ip = lab.ip
    r = lab.load()
    f = lab.get_lang
    want = ip.read(lab.st0.copy(), mk('.f', lab.lang, lab.spec_field()))
    fl = {id(l): (l, fs) for l, fs in file_loops(r)}
    listed = {p for st, w, t, p, base, idx in dir_terms(r)}
    opens = r.of('open_file')
    if not opens:
        ctx.undecided('name', 'file name', ctx.where(f), 'no file is opened')
    all_looked_at(r, ctx, 'every file', 'files of every directory')
    all_directories(r, ctx, 'every file', 'directories before the result', ctx.where(f), loaded(lab))
    done = set()
    for st, w, t, more in opens:
        p = more[0]
        parts = p.a if p.op == 'cat' else ()
        if len(parts) != 3 or parts[0] not in listed or parts[1] is not S('/'):
            known = p.op == 'cat' and all(x in listed or x.op == 's' or x.op == 'y' or x.op == 'at' for x in parts)
            ctx.judge(None if st.imp or not known else False, 'name', 'directory, slash, name', w, 'opens %s' % show(p)[:120], t)
            continue
        ctx.ok('name', 'directory, slash, name', w)
        best = parts[2]
        ls = [l for l, fs in fl.values() if l.owns(best)]
        if len(ls) != 1:
            ctx.undecided('step', 'best name', w, 'the name is not set by a loop over the files: %s' % show(best)[:80])
            continue
        l = ls[0]
        # nothing found: nothing opened
        firsts = set()
        for k, h in l.all_heads():
            for s in l.before:
                firsts.add(l.change(h, s).get(best))
        none = list(firsts)[0] if len(firsts) == 1 else None
        if none is None or none.op != 's':
            ctx.undecided('no match', 'no best name in the beginning', w, 'begins as %s' % (none and show(none)[:60]))
        else:
            tops = scored(l)
            e = st.ev(Eqs(best, none)) is False or any(st.ev(Lt(ZERO, y)) for y in tops)
            ctx.judge(True if e else None if tops and st.imp else False, 'no match', 'nothing is opened without a match', w, 'opened without a match', t)
            for l2, fs2 in dir_loops(r):
                for k, h in l2.all_heads():
                    for b in l2.trans[k]:
                        v = b.store.get(PARSED)
                        ok = v is not None and v.op == 'parsed'
                        ok = ok or b.ev(Eqs(best, none)) or any(b.ev(Le(y, ZERO)) for y in tops) or any(b.ev(Eq(size(z), ZERO)) for z in fs2)
                        ctx.judge(True if ok else None if b.imp else False, 'no match', 'the match is loaded', l2.where(), 'a matching file is not loaded')
        if l in done:
            continue
        done.add(l)
        fs = fl[id(l)][1]
        if len(fs) != 1:
            ctx.undecided('step', 'best name', l.where(), 'several files in one iteration')
            continue
        x = list(fs)[0]
        v, msg, step = visits_all(r, x.a[0], x.a[1])
        ctx.judge(v, 'every file', 'files of the directory', l.where(), msg)
        # the score variable
        cand = {}
        for k, h in l.all_heads():
            for b in l.trans[k]:
                m = l.change(h, b)
                for y, z in m.items():
                    if kind(y) == 'n' and z.op == 'fun' and z.a[1] == 'match':
                        cand.setdefault(y, set()).add(z)
        if len(cand) != 1:
            others = {y for k, h in l.all_heads() for v in h.store.values() for y in v.leaves if l.is_phi(y) and y is not best and y not in x.leaves}
            reads = any(z.op == 'fun' and best in z.leaves for k, h in l.all_heads() for b in l.trans[k]
                        for y in list(b.P) + list(b.store.values()) for z in subterms(y))
            takes = [b for k, h in l.all_heads() for b in l.trans[k] if l.change(h, b).get(best) is x]
            if not cand and not others and not reads and takes and not any(b.imp or other_tests(b, x) for b in takes):
                ctx.bad('step', 'a file becomes the best: its score is the best', l.where(), 'nothing is kept of the score of the best file')
            else:
                ctx.undecided('step', 'best score', l.where(), '%d variables hold a score' % len(cand))
            continue
        top = list(cand)[0]
        low = 0
        for s in l.before:
            for k, h in l.all_heads():
                z = l.change(h, s).get(top)
                if z is not None:
                    if z.op == 'i':
                        low = min(low, z.a[0])
                    kept = any(l2.is_phi(z) and l2 is not l and top in (l2.change(h2, b2).get(z) or z).leaves
                               for l2 in r.loops for k2, h2 in l2.all_heads() for b2 in l2.trans[k2] if not b2.imp)
                    ctx.judge(True if s.ev(Le(z, ZERO)) else False if kept else None if unknown(z) else False, 'step', 'the first score counts as no match', l.where(),
                              'the best score begins as %s' % show(z)[:40])
        for k, h in l.all_heads():
            for b in l.trans[k]:
                m = l.change(h, b)
                nb, ns = m.get(best), m.get(top)
                po = is_po(b, x)
                scores = {z for z in cand[top] if x.leaves <= z.leaves}
                if nb is x:
                    key = 'a file becomes the best'
                    ctx.judge(True if po else None if b.imp or other_tests(b, x, False) else False, 'step', key + ': it ends in .po', l.where(), 'a file without ending .po is taken')
                    sc = ns if ns is not None and ns in scores else None
                    if sc is None:
                        ctx.judge(None if b.imp or ns is None or unknown(ns) and ns is not top else False, 'step', key + ': its score is the best', l.where(),
                                  'the best score becomes %s' % (show(ns)[:80] if ns is not None else '?'))
                        continue
                    ctx.ok('step', key + ': its score is the best', l.where())
                    ls2 = set(sc.a[2:])
                    ctx.judge(True if want in ls2 else None if any(unknown(y) for y in ls2 if not x.leaves <= y.leaves) else False, 'step', key + ': score against the requested language', l.where(),
                              'scores %s' % show(sc)[:100])
                    # the best score is never below the first one
                    b2 = b.copy()
                    b2.add_le(I(low), top)
                    ctx.judge(True if b2.ev(Le(top, sc)) else None if b.imp else False, 'step', key + ': not below the best', l.where(), 'a worse file is taken')
                    ctx.judge(True if b2.ev(Lt(ZERO, sc)) else None if b.imp else False, 'step', key + ': above 0', l.where(), 'a file of another language is taken')
                elif nb is best or nb is None:
                    key = 'the best is kept'
                    ctx.judge(True if ns is top or ns is None else None if b.imp else False, 'step', key + ': so is its score', l.where(), 'the best score becomes %s' % (show(ns)[:80] if ns is not None else ''))
                    nul = [y for y, v in b.P.items() if y.op == 'isnull' and v and y.a[0].op == 'fun' and x.leaves <= y.a[0].leaves]
                    b2 = b.copy()
                    b2.add_le(I(low), top)
                    ok = po is False or bool(nul) or any(b2.ev(Le(y, top)) for y in scores)
                    ctx.judge(True if ok else None if b.imp or other_tests(b, x, True) else False, 'step', key + ': not better', l.where(), 'a better file is left out')
                else:
                    ctx.judge(None if b.imp or unknown(nb) else False, 'step', 'the best name is a file', l.where(), 'the best name becomes %s' % show(nb)[:80])
