"""Abstract interpretation of get_languages and get_dictionary on an arbitrary manager; the listing of a directory and the
mapping of names to languages are uninterpreted functions. Both operations map a file name to a language by the same term
(compared after replacing the file by a variable). Every iteration over the files of a directory inserts that language
exactly when the name ends in .po and the language is known; loops visit every file of every directory of the search path
(index analysis); what is returned is the set that was filled."""
from ..mgrlab import *

X = mk('y', 'o', ('the file',), 0)


def check(ctx):
    prog = ctx.prog
    ctx.floor('iteration', 1)
    lab = MgrLab(prog, fail=False)
    r = lab.list()
    f = lab.get_languages
    fl = file_loops(r)
    if not fl:
        ctx.undecided('iteration', 'files', ctx.where(f), 'no loop over the files of a directory')
    maps = set()
    fld = lab.spec_field()
    for l, fs in fl:
        if len(fs) != 1:
            ctx.undecided('iteration', 'files', l.where(), 'several files in one iteration')
            continue
        x = list(fs)[0]
        v, msg, step = visits_all(r, x.a[0], x.a[1])
        ctx.judge(v, 'every file', 'files of a directory', l.where(), msg)
        for k, h in l.all_heads():
            for b in l.trans[k]:
                now, then = b.store.get(GHOST), h.store.get(GHOST)
                po = is_po(b, x)
                if now is not then:
                    v = now.a[0] if now.op == 'inserted' else None
                    lang = fget(v, fld) if v is not None and v.op == 'rec' else None
                    if lang is None:
                        ctx.undecided('iteration', 'inserted language', l.where(), show(now)[:100])
                        continue
                    maps.add(subst(lang, {x: X}))
                    key = 'only .po files are listed'
                    ctx.judge(True if po else None if b.imp or other_tests(b, x, False) else False, 'iteration', key, l.where(), 'a file without ending .po is listed')
                    known = b.ev(IsNull(lang))
                    ctx.judge(True if known is False else None if b.imp else False, 'iteration', 'only known languages are listed', l.where(),
                              'an undefined language is listed')
                else:
                    nul = [t for t, v in b.P.items() if t.op == 'isnull' and v and t.a[0].op == 'fun' and x.leaves <= t.a[0].leaves]
                    ok = po is False or bool(nul)
                    for t in nul:
                        maps.add(subst(t.a[0], {x: X}))
                    ctx.judge(True if ok else None if b.imp or other_tests(b, x, True) else False, 'iteration', 'every known language is listed', l.where(),
                              'a .po file of a known language may be left out')
    for st, w, t, p, base, idx in dir_terms(r):
        if idx is None:
            ctx.undecided('every file', 'directories', w, 'lists %s' % show(p)[:80])
        else:
            v, msg, step = visits_all(r, base, idx)
            ctx.judge(v, 'every file', 'directories of the search path', w, msg, t)
    all_looked_at(r, ctx, 'every file', 'files of every directory')
    all_directories(r, ctx, 'every file', 'directories before the result', ctx.where(f))
    # the same mapping as for loading
    r2 = lab.load()
    maps2 = set()
    for l, fs in file_loops(r2):
        x = list(fs)[0]
        for k, h in l.all_heads():
            for b in l.trans[k]:
                for t in list(b.P) + list(b.store.values()):
                    for y in subterms(t):
                        if y.op == 'fun' and y.a[1] in ('from_env', 'from_name', 'from_spec') and x.leaves <= y.leaves:
                            maps2.add(subst(y, {x: X}))
    if len(maps) == 1 and len(maps2) == 1:
        a, b = list(maps)[0], list(maps2)[0]
        ctx.judge(True if a is b else None if unknown(a) or unknown(b) else False, 'mapping', 'file name to language', ctx.where(f),
                  'listing: %s; loading: %s' % (show(a)[:100], show(b)[:100]))
    elif maps and maps2:
        ctx.bad('mapping', 'file name to language', ctx.where(f), 'listing: %s; loading: %s' % (sorted(show(x)[:80] for x in maps), sorted(show(x)[:80] for x in maps2)))
    else:
        ctx.undecided('mapping', 'file name to language', ctx.where(f), 'no mapping found')
    # the result
    sets = {more[0] for st, w, t, more in r.of('insert')}
    for s, v in r.res:
        if v.op == 'set0' or v.op == 'vec':
            nothing = s.ev(Eq(size(ip_path(lab, s)), ZERO))
            ctx.judge(True if nothing or s.store.get(GHOST) is lab.st0.store[GHOST] else None, 'result', 'the set is returned', ctx.where(f), 'returns an empty set')
        else:
            ends = {x.store.get(c) for l in r.loops for ex, away in l.leave.values() for x in ex for c in sets}
            ctx.judge(True if v in ends or any(v is y for y in ends) or v.op == 'y' else None, 'result', 'the set is returned', ctx.where(f), 'returns %s' % show(v)[:80])


def ip_path(lab, s):
    m = members(lab.prog).get('path')
    return lab.ip.read(s, mk('.f', lab.M, m['name']), m['t']) if m else mk('vec')
