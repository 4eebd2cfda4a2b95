"""Abstract interpretation of the .po parser on an arbitrary stream, with IConv::convert as an uninterpreted function. Rules,
on every path to an addition: the translation of a singular entry, and each form of a plural entry where it is put in its
place, is convert(the text read behind msgstr), with convert applied once; ids, plural ids and contexts contain no conversion;
the converter used is the one that the header sets up, and it converts to the charset of the dictionary, from one that is
taken from the text of the header (or a constant when that names none)."""
from ..parselab import *


def check(ctx):
    lab = analyse(ctx)
    for r in ('singular', 'plural', 'unconverted', 'converter', 'charsets'):
        ctx.floor(r, 1)
    used, set_up, forms = set(), set(), []
    for what, s, w, tr, more in lab.events:
        if what == 'add':
            f, vs = more
            rs = roles(f)
            if rs is None:
                ctx.undecided('singular', w, w, 'unknown form of add_translation')
                continue
            for kw, x in zip(rs, vs):
                if kw == b'msgstr':
                    t = s.store.get(T(kw))
                    v = None if t is None else converted(x, t)
                    ctx.judge(None if v is False and soft(s) else v, 'singular', '%s %s' % (w, sort_of(s.g)), w,
                              'stores %s for the text %s' % (shown(x), shown(t) if t is not None else '?'), tr)
                elif kw != b'msgstr[':
                    bad = any(y.op == 'fun' and y.a[1].startswith('convert') for y in subterms(x))
                    ctx.judge(not bad or (None if soft(s) else False), 'unconverted', '%s %s' % (w, kw.decode()), w,
                              'the %s is converted: %s' % (kw.decode(), shown(x)), tr)
        elif what == 'form':
            i, x, base = more
            t = s.store.get(T(b'msgstr['))
            forms.append((x, t, s, w, tr))
        elif what == 'convert':
            used.add((more[1], more[2], w))
        elif what == 'charsets':
            (fr, to), where = more[0], more[1]
            set_up.add(where)
            good = to is mk('y', 'o', ('dictionary', 'charset'), 0)
            ctx.judge(good or (None if soft(s) or unknown(to) else False), 'charsets', '%s target' % w, w,
                      'converts to %s, not to the charset of the dictionary' % shown(to), tr)
            ls = s.labels(fr)
            good = fr.op == 's' or bool(ls) and all(x[0] == 'text' and x[1] == b'msgstr' and x[2] == 'cur' for x in ls if isinstance(x, tuple))
            ctx.judge(good or (None if soft(s) or not ls and unknown(fr) else False), 'charsets', '%s source %s' % (w, 'constant' if fr.op == 's' else 'declared'), w,
                      'converts from %s, which is not from the header' % shown(fr), tr)
    plural(ctx, forms)
    for where, n, w in sorted(used, key=str):
        ctx.judge(where == 'own' and n in set_up, 'converter', w, w, 'a converter that the header does not set up')


def plural(ctx, forms):
    """the forms where they are put in their places; some may be put there again, converted"""
    late = [x for x in forms if x[0].op == 'fun' and x[0].a[1] == 'convert' and x[0].a[2].op == 'at' and x[0].a[2] is not x[1]]
    now = [x for x in forms if x not in late]
    vs = [None if t is None else converted(x, t) for x, t, s, w, tr in now]
    for (x, t, s, w, tr), v in zip(now, vs):
        if v is False and late:
            v = None
        ctx.judge(None if v is False and soft(s) else v, 'plural', '%s' % sort_of(s.g), w, 'stores %s for the text %s' % (
            shown(x), shown(t) if t is not None else '?'), tr)
    for x, t, s, w, tr in late:
        twice = bool(vs) and all(v is True for v in vs)
        ctx.judge(False if twice and not soft(s) else None, 'plural', '%s, again' % sort_of(s.g), w, 'a form is converted that has been converted before', tr)
