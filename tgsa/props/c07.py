"""Abstract interpretation of the .po parser on an arbitrary stream; the texts read behind each keyword of the entry are kept
apart. Rules, on every path to an addition: the id, the plural id and the context given are the texts read behind msgid,
msgid_plural and msgctxt in this entry (compared as terms), with a context exactly when a msgctxt line was read, and a plural
addition exactly when a msgid_plural line was read; the forms contain no text of an earlier entry; each form is put at the
index that the digit of its line says, and making room for a form drops none; an entry is added at most once; what is read is
the string right behind the keyword (the reader is interpreted on such a line)."""
from ..parselab import *


def check(ctx):
    lab = analyse(ctx)
    for r in ('key', 'index', 'behind'):
        ctx.floor(r, 1)
    for what, s, w, tr, more in lab.events:
        g = s.g
        if what == 'add':
            f, vs = more
            rs = roles(f)
            if rs is None:
                ctx.undecided('key', w, w, 'unknown form of add_translation')
                continue
            here = '%s %s' % (w, sort_of(g))
            for kw, x in zip(rs, vs):
                key = '%s %s' % (here, kw.decode())
                if kw == b'msgstr[':
                    old = [l for l in s.labels(x) if isinstance(l, tuple) and l[-1] == 'old']
                    ctx.judge(not old or (None if soft(s) else False), 'key', key, w, 'forms of an earlier entry are among those stored', tr)
                    continue
                if kw == b'msgstr':
                    x = strip(x)
                t = s.store.get(T(kw))
                if t is None:
                    read = any(isinstance(l, tuple) and l[1] is None for l in s.labels(x)) or soft(s) or kw != b'msgctxt' and None in [k for m, k, c in lab.client.used]
                    ctx.judge(None if read else False, 'key', key, w, 'no %s line was read in this entry, but %s is stored as that' % (kw.decode(), shown(x)), tr)
                    continue
                e = same(s, x, t)
                ctx.judge(True if e else None if soft(s) or unknown(x) and not s.labels(x) else False, 'key', key, w,
                          'the text behind %s is %s, but %s is stored' % (kw.decode(), shown(t), shown(x)), tr)
            ctx.judge((b'msgctxt' in rs) == bool(g.get('ctx')) or (None if soft(s) else False), 'key', here + ' context', w,
                      'stored %s context' % ('with a' if b'msgctxt' in rs else 'without'), tr)
            ctx.judge((b'msgid_plural' in rs) == (b'msgid_plural' in g.get('seq', ())) or (None if soft(s) else False), 'key', here + ' number', w,
                      'stored as %s' % ('plural' if b'msgid_plural' in rs else 'singular'), tr)
            ctx.judge(not g.get('add') or (None if soft(s) else False), 'key', here + ' once', w, 'stored twice', tr)
        elif what == 'form':
            i, x, base = more
            d = s.store.get(DIGIT)
            if d is None:
                ctx.undecided('index', sort_of(g), w, 'no digit')
                continue
            want = addc(d, -48)
            e = s.ev(Eq(i, want)) if i is not want else True
            ctx.judge(True if e else None if soft(s) or unknown(i) and not (i.leaves & d.leaves) and e is not False and i.op == 'y' else False,
                      'index', 'form ' + sort_of(g), w, 'form [N] of the file is put at %s' % shown(i), tr)
        elif what == 'grow':
            n, m = more
            e = s.ev(Le(n, m))
            if e is None:
                b = s.copy()
                e = False if b.assume(Lt(m, n), True) and not soft(s) else None
            ctx.judge(e, 'index', 'room ' + sort_of(g), w, 'making room for a form can drop forms read before it (%s becomes %s)' % (shown(n), shown(m)), tr)
    for m, kw, consts in sorted(lab.client.used, key=str):
        f = lab.prog.funcs[m]
        if kw is None:
            ctx.undecided('behind', '%s %s' % (f['q'], consts), ctx.where(f), 'a string is read from a line whose keyword is not known')
            continue
        r = lab.reads_behind(m, kw, consts)
        ctx.judge(None if r is None else r is True, 'behind', '%s %s' % (f['q'], kw.decode()), ctx.where(f), r)


def strip(x):
    while x.op == 'fun' and x.a[1].startswith('convert'):
        x = x.a[2]
    return x
