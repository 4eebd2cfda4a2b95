"""Abstract interpretation of sequences of operations on an arbitrary manager that satisfies an invariant: the current
dictionary is not set, or is the one kept for the current language. Every public operation is run from these states and
(inductive step) leads to such states again. Rules: on every path on which a setting (a member other than the cache, the
current language and dictionary) is different afterwards, get_dictionary(language) for any language and get_dictionary()
return a dictionary made by that call, not one made before; after set_language(language), get_dictionary() is what
get_dictionary(language) is."""
from ..mgrlab import *


def check(ctx):
    prog = ctx.prog
    ctx.floor('fresh', 2)
    lab = MgrLab(prog, fail=False)
    sh = Shape(lab)
    ip = lab.ip

    def rec_of(t):
        return t.to.rec() if t.k == 'ref' else t.rec()
    empty = sh.loc('empty')

    def old(s, v):
        """is v surely an object that was there before?"""
        return not unknown(v)

    def current_ok(name, s, key):
        """the invariant, in state s"""
        cur = sh.get(s, 'cur')
        if s.is_null(cur) or cur is ZERO:
            ctx.ok('current', key, name)
            return
        s2 = s.copy()
        ip.write(s2, lab.lang, sh.get(s, 'lang'))
        sp = sh.spec(s2)
        for s3, null in fork(ip, s2, IsNull(sp)):
            if null:
                ctx.judge(None if s3.imp or unknown(cur) or s3.is_null(cur) is None else False, 'current', key, name, 'a current dictionary without a language')
                continue
            r = lab.load(s3)
            for s4, v in r.res:
                t = target(cur)
                ok = v is t or s4.ev(Eq(v, cur)) is True
                ctx.judge(True if ok else None if s4.imp or unknown(v) or unknown(cur) else False, 'current', key, name,
                          'the current dictionary is not the one of the current language')

    n = 0
    for nm, f in sh.ops():
        w = ctx.where(f)
        for sn, st in sh.states():
            runs = []
            if len(f['params']) == 1 and rec_of(f['params'][0]['t']) == NS + 'Language':
                for ln, s in sh.languages(st):
                    if ln != 'no language' or f['m'] != lab.get_lang['m']:
                        runs.append(sh.apply(s, f, [lab.lang])[0])
            else:
                runs.append(sh.apply(st, f)[0])
            for s, v in [x for r in runs for x in r.res]:
                n += 1
                current_ok(w, s, nm + ' keeps the current dictionary in step')
                ch = sh.changed(st, s)
                if not ch:
                    continue
                for how in ('get_dictionary(language)', 'get_dictionary()'):
                    if how == 'get_dictionary(language)':
                        r2 = lab.load(s.copy())
                    else:
                        r2, a2 = sh.apply(s, lab.get_cur)
                    made = news(r2)
                    for s2, v2 in r2.res:
                        ok = v2 in made or v2 is empty
                        ctx.judge(True if ok else None if s2.imp or not old(s2, v2) else False, 'fresh', '%s after %s' % (how, nm), w,
                                  'after a change of %s, a dictionary loaded before is returned: %s' % (', '.join(ch), show(v2)[:80]))
    # selecting a language
    f = lab.public('DictionaryManager', 'set_language', 1)
    w = ctx.where(f)
    for sn, st in sh.states():
        for ln, s0 in sh.languages(st):
            null = ln == 'no language'
            r, args = sh.apply(s0, f, [lab.lang])
            for s, v in r.res:
                r1, a1 = sh.apply(s, lab.get_cur)
                for s1, v1 in r1.res:
                    if null:
                        e = v1 is empty
                        ctx.judge(True if e else None if s1.imp or unknown(v1) else False, 'selected', 'no language', w, 'get_dictionary() is %s' % show(v1)[:80])
                        continue
                    r2 = lab.load(s1.copy())
                    for s2, v2 in r2.res:
                        same_ = v1 is v2 or s2.ev(Eq(v1, v2)) is True
                        ctx.judge(True if same_ and not (v2 in news(r2)) else None if s2.imp or unknown(v1) or unknown(v2) else False, 'selected',
                                  'get_dictionary() after set_language', w, 'is %s, not %s' % (show(v1)[:80], show(v2)[:80]))
    # a new manager
    for c in prog.byq.get(NS + 'DictionaryManager::(ctor)', []):
        if c.get('body') is None or any(p['t'].rec() == NS + 'DictionaryManager' or p['t'].k == 'ref' and p['t'].to.rec() == NS + 'DictionaryManager' for p in c['params']):
            continue
        st = lab.st0.copy()
        r, args = sh.apply(st, c)
        for s, v in r.res:
            cur = sh.get(s, 'cur')
            ctx.judge(True if cur is ZERO or s.is_null(cur) else None if s.imp else False, 'current', 'a new manager has none', ctx.where(c), 'is %s' % show(cur)[:60])
            mp = sh.get(s, 'map')
            ctx.judge(True if mp.op == 'map0' else None if s.imp or unknown(mp) else False, 'fresh', 'a new manager has loaded nothing', ctx.where(c), show(mp)[:60])
    ctx.note('states_after_operations', n)
