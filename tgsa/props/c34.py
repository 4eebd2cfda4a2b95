"""Abstract interpretation of Language::from_env on an arbitrary text, split beforehand into the cases which of the three
separators occur and in which order their first occurrences stand (all 16); Language::from_spec is an uninterpreted function.
Rule: on every path the arguments of from_spec are the parts of the text that the grammar LANGUAGE_COUNTRY.CODESET@MODIFIER
assigns, compared as terms: an underscore counts only before the first dot and at sign, a dot only before the first at sign."""
from itertools import permutations
from ..lab import *
from ..mgrlab import vals, fun
from ..models import Contains, NPOS
from ..concrete import agrees, cev, Unclear
from itertools import product

SEP = '_.@'
WORDS = ['']


def witnesses():
    """texts that exercise each arrangement"""
    out = []
    parts = ['', 'a', 'de', 'DE', 'x']
    for n in range(4):
        for seps in product(SEP, repeat=n):
            for a in (('de', 'AT', 'x', 'yz'), ('de', '', 'x', ''), ('', 'AT', '', 'q'), ('a', 'B', 'c', '')):
                w = a[0]
                for c, p in zip(seps, a[1:]):
                    w += c + p
                out.append(w.encode())
    return list(dict.fromkeys(out))


class EClient(Client):
    lab = None
    calls = ()

    def intercept(self, ip, f, obj, args, st, e):
        if f['q'] == NS + 'Language::from_spec':
            vs = vals(ip, st, args)
            ip.event('spec', st.copy(), ip.where(e), ip.trace(), vs)
            fs = [x['name'] for x in ip.prog.fields(NS + 'Language') if x['t'].k == 'ptr']
            return [(st, rec(NS + 'Language', (fs[0],), (fun('p', 'from_spec', *vs),)))]
        return None


def cases(ip, st, E):
    """[(state, order, positions)]: order: the separators that occur, by first occurrence"""
    out = []
    for n in range(4):
        for order in permutations(SEP, n):
            s = st.copy()
            pos = {}
            good = True
            for c in SEP:
                t = Contains(E, S(c), ZERO)
                good = good and s.assume(t, c in order) and s.assume(Contains(E, mk('rf', S(c)), NPOS), c in order)
                if c in order:
                    r = mk('find', E, S(c), ZERO)
                    pos[c] = r
                    good = good and s.add_le(ZERO, r) and s.add_le(addc(r, 1), size(E)) and s.set_mask(at(E, r), 1 << ord(c))
                    s.add_ne(r, NPOS)
            for a, b in zip(order, order[1:]):
                good = good and s.add_le(addc(pos[a], 1), pos[b])
            for k in (2, 3):
                for cs in permutations(SEP, k):
                    x = mk('charset', 'find_first_of', S(''.join(cs)))
                    first = [c for c in order if c in cs]
                    good = good and s.assume(Contains(E, x, ZERO), bool(first))
                    if first:
                        r = mk('find', E, x, ZERO)
                        good = good and s.add_le(r, pos[first[0]]) and s.add_le(pos[first[0]], r)
            if good:
                out.append((s, order, pos))
    return out


def parts(E, order, pos):
    """language, country, modifier"""
    end = size(E)
    a = pos.get('@')
    d = pos.get('.') if '.' in order and ('@' not in order or order.index('.') < order.index('@')) else None
    u = pos.get('_') if '_' in order and order[0] == '_' else None
    stop = d if d is not None else a if a is not None else end
    lang = substr(E, ZERO, u if u is not None else stop)
    country = substr(E, addc(u, 1), stop) if u is not None else S('')
    mod = substr(E, addc(a, 1), end) if a is not None else S('')
    return lang, country, mod


def check(ctx):
    prog = ctx.prog
    ctx.floor('split', 6)
    c = EClient()
    lab = Lab(prog, c)
    ip = lab.ip
    f = lab.public('Language', 'from_env', 1, static=True)
    where = ctx.where(f)
    words = witnesses()
    args = sym_args(ip, lab.st0, f)
    st0 = lab.st0.copy()
    E = ip.read(st0, args[0]) if args[0].op in LOCOPS else args[0]
    fld = [x['name'] for x in prog.fields(NS + 'Language') if x['t'].k == 'ptr'][0]
    for st, order, pos in cases(ip, st0, E):
        name = 'first separators: ' + (' '.join(order) or 'none')
        want = parts(E, order, pos)
        ip.buf = []
        res, thr = run(ip, st.copy(), f, None, list(args))
        for s, t, v in [(x[0], x[1], None) for x in thr]:
            ctx.judge(None if s.imp else False, 'split', name, where, 'throws %s' % t)
        for s, v in res:
            p = fget(v, fld)
            if p.op != 'fun' or p.a[1] != 'from_spec':
                ctx.judge(None if unknown(p) or s.imp or not s.is_null(p) else False, 'split', name, where, 'answers %s' % show(p)[:80])
                continue
            got = list(p.a[2:]) + [S('')] * (5 - len(p.a))
            for what, g, w in zip(('language', 'country', 'modifier'), got, want):
                ok = True if g is w else same(s, g, w)
                msg = ''
                if ok is not True:
                    ok = None
                    for x in () if s.imp or unknown(g) else words:
                        if agrees(s, E, x):
                            try:
                                if cev(g, {E: x}) != cev(w, {E: x}):
                                    ok = False
                                    msg = 'for "%s" the %s is "%s", not "%s"' % (x.decode(), what, cev(g, {E: x}).decode(), cev(w, {E: x}).decode())
                                    break
                            except (Unclear, TypeError):
                                pass
                    if ok is None:
                        msg = 'the %s is %s, not %s' % (what, show(g)[:80], show(w)[:80])
                ctx.judge(ok, 'split', '%s: %s' % (name, what), where, msg)
