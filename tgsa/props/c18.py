"""Abstract interpretation of every public operation on an arbitrary manager (states as for C17), also with failing
directories, files and parsers, and of the destructor; events of new and delete are followed. Rules: on a path on which
no setting changes, the cache afterwards is the cache before, or that with a new dictionary under a key that was not there,
and no dictionary of the cache is deleted; a dictionary that is made is in the cache at every way out of the operation,
exceptional ones included; a deleted one is not in the cache and not returned; looking the same language up again returns
the same object and makes none; where the cache is emptied, and in the destructor, a loop (index analysis as for C16)
deletes each of its dictionaries exactly once; nothing else deletes a dictionary."""
from ..mgrlab import *


def is_dict(lab, p):
    t = lab.ip.root_ty.get(p) or lab.ip.root_ty.get(mk('deref', p))
    return t is None or t.rec() in ('', NS + 'Dictionary')


def chain(m):
    """[(key, value)] put on top, and the map below"""
    out = []
    while m.op in ('ins', 'put', 'del'):
        out.append((m.op, m.a[1], m.a[2] if m.op != 'del' else None))
        m = m.a[0]
    return out, m


def emptied(ctx, r, old, where, key):
    """every dictionary of the cache `old` is deleted once"""
    dels = r.of('delete')
    if not dels:
        ctx.bad('freed', key, where, 'the dictionaries of the cache are not deleted')
        return
    good = 0
    for st, w, t, more in dels:
        p = more[0]
        if p.op == 'mget' and p.a[0] is old and p.a[1].op == 'keyat' and p.a[1].a[0] is old:
            idx = p.a[1].a[1]
            v, msg, step = visits_all(r, old, idx)
            ctx.judge(v, 'freed', key + ': every one', w, msg, t)
            good += 1
            ls = r.loop_of(idx)
            for l in ls:
                for k, h in l.all_heads():
                    for b in l.trans[k]:
                        f = b.store.get(FREED)
                        ok = f is not None and f.op == 'freed' and f.a[0] is p or b.is_null(p)
                        ctx.judge(True if ok else None if b.imp else False, 'freed', key + ': every one', w, 'an iteration does not delete the dictionary')
        else:
            ctx.judge(None if st.imp or unknown(p) else False, 'freed', key + ': only its own', w, 'deletes %s' % show(p)[:100], t)
    if good > 1:
        ctx.judge(None, 'freed', key + ': once', where, '%d places delete' % good)
    for st, w, t, more in r.of('twice'):
        ctx.judge(None if st.imp else False, 'freed', key + ': once', w, 'deletes %s twice' % show(more[0])[:80], t)


def check(ctx):
    prog = ctx.prog
    ctx.floor('kept', 2)
    ctx.floor('freed', 1)
    for fail in (False, True):
        lab = MgrLab(prog, fail=fail)
        sh = Shape(lab)
        ip = lab.ip
        for nm, f in sh.ops():
            w = ctx.where(f)
            st = lab.st0.copy()
            old = sh.get(st, 'map')
            if f['m'] == lab.get_lang['m']:
                r = lab.load(st.copy())
            else:
                r, args = sh.apply(st, f)
            made = news(r)
            for s, v in r.res + [(x[0], None) for x in r.thr]:
                mp = sh.get(s, 'map')
                top, base = chain(mp)
                held = [x for op, k, x in top if op != 'del']
                if base is old:
                    for op, k, x in top:
                        if op == 'del':
                            ctx.judge(None if unknown(k) or s.imp else False, 'kept', nm, w, 'an entry of the cache is removed')
                        elif op == 'put':
                            e = s.has(old, k)
                            e = e if e.__class__ is bool else s.ev(e)
                            ctx.judge(True if e is False else None if s.imp or unknown(k) else False, 'kept', nm + ': never replaced', w, 'an entry of the cache may be replaced')
                    ctx.ok('kept', nm, w)
                elif base.op == 'map0' and not unknown(base):
                    ch = sh.changed(st, s)
                    cur = sh.get(s, 'cur')
                    ctx.judge(True if cur is ZERO or s.is_null(cur) or cur in held else None if s.imp or unknown(cur) else False, 'valid', nm + ': no stale current dictionary', w,
                              'the current dictionary is still a deleted one')
                    ctx.judge(True if ch else None if s.imp else False, 'kept', nm + ': emptied only when settings change', w, 'the cache is emptied though no setting changes')
                else:
                    ctx.undecided('kept', nm, w, 'the cache becomes %s' % show(mp)[:100])
                mine = [x for x in made if x in s.store]
                for x in mine:
                    ctx.judge(True if x in held else None if s.imp or unknown(base) else False, 'owned', nm, w, 'a dictionary that was made is not in the cache%s' % (' after an exception' if v is None else ''))
                fr = s.store.get(FREED)
                if fr is not None and fr.op == 'freed':
                    p = fr.a[0]
                    if p in held or v is not None and v in (p, mk('deref', p)):
                        ctx.judge(None if s.imp else False, 'valid', nm, w, 'a deleted dictionary is kept or returned')
                if v is not None and nm.startswith('get_dictionary'):
                    if v in made:
                        ctx.judge(True if v in held else None if s.imp or unknown(base) else False, 'valid', nm, w, 'the dictionary returned is not in the cache')
                    elif v is sh.loc('empty') or v.op == 'deref':
                        ctx.ok('valid', nm, w)
                    else:
                        ctx.undecided('valid', nm, w, 'returns %s' % show(v)[:80])
                    if nm == 'get_dictionary(1)' and f['m'] == lab.get_lang['m']:
                        r2 = lab.load(s.copy())
                        for s2, v2 in r2.res:
                            ok = (v2 is v or s2.ev(Eq(v2, v)) is True) and v2 not in news(r2)
                            ctx.judge(True if ok else None if s2.imp or unknown(v2) or unknown(v) else False, 'stable', 'looked up again', w,
                                      '%s, then %s' % (show(v)[:80], show(v2)[:80]))
            some = any(chain(sh.get(s, 'map'))[1].op == 'map0' for s, v in r.res)
            if some:
                if not fail:
                    emptied(ctx, r, old, w, nm)
            else:
                for st2, w2, t, more in r.of('delete'):
                    p = more[0]
                    if p in made:
                        continue
                    if p.op == 'mget' and p.a[0] is old or sh.get(st2, 'cur') is p:
                        ctx.judge(None if st2.imp else False, 'kept', nm + ': not deleted', w2, 'a dictionary of the cache is deleted', t)
                    elif is_dict(lab, p) and p.op != 'fun':
                        ctx.undecided('kept', nm + ': not deleted', w2, 'deletes %s' % show(p)[:100])
    # the end
    lab = MgrLab(prog, fail=False)
    sh = Shape(lab)
    d = [f for f in prog.byq.get(NS + 'DictionaryManager::(dtor)', []) if f.get('body') is not None]
    if not d:
        ctx.undecided('freed', 'destructor', '', 'there is no destructor with a body')
    for f in d:
        st = lab.st0.copy()
        old = sh.get(st, 'map')
        r, args = sh.apply(st, f)
        emptied(ctx, r, old, ctx.where(f), 'destructor')
    ctx.note('operations', len(sh.ops()))
