"""Abstract interpretation of the .po parser on an arbitrary stream with a typestate of the entry being read; functions that read
strings are analysed on their own and replaced by summaries. Where the parser decides about a line, the facts of the path are
evaluated on sample lines (a line is replaced by a text and the facts folded). Rules: after an error has been reported, no
line that is skipped can be an empty one; when reading goes on, the current line cannot be one that is not empty, or the end
is reached; an entry that is incomplete when reading goes on was reported; an error that was reported does not leave the
parser as an exception; what is stored contains no text of an earlier entry, an entry without context is not stored with one
where another like it is not, and an entry without flag comment of its own is not dropped."""
from ..parselab import *


def check(ctx):
    lab = analyse(ctx)
    for r in ('recovery', 'reported', 'carried over'):
        ctx.floor(r, 1)

    def skip(ev, who):
        what, s, w, tr, more = ev
        x = more[0]
        ctx.judge(None if x is False or x is not None and soft(s) else x is None, 'recovery', 'skipped line, ' + who, w,
                  'the line %r, which is empty, can be skipped after an error' % x, tr)
    for r in lab.client.readers.values():
        n = r.f['q'].replace(NS, '')
        for ev in r.events:
            if ev[1] == 'skip':
                skip(ev[1:], n)
        for ok, rep, s in r.ends:
            ctx.judge(rep or (None if soft(s) else False), 'reported', n, ctx.where(r.f), 'a parse error is thrown without a report')
    plain = {sort_of(s.g) for what, s, w, tr, more in lab.events if what == 'add' and not s.g.get('ctx') and b'msgctxt' not in (roles(more[0]) or ())}
    for what, s, w, tr, more in lab.events:
        g = s.g
        seq = g.get('seq', ())
        if what == 'skip':
            skip((what, s, w, tr, more), 'parse')
        elif what == 'end':
            if g.get('rep'):
                x = g.get('end')
                ctx.judge(True if x is True else None if x is None or soft(s) else False, 'recovery', 'goes on', w,
                          'reading goes on at a line like %r after an error' % x, tr)
            elif seq and seq[-1] not in (b'msgstr', b'msgstr['):
                ctx.judge(None if soft(s) else False, 'reported', 'entry that ends with ' + seq[-1].decode(), w, 'an incomplete entry is not reported', tr)
            elif seq:
                ctx.ok('reported', 'complete entry', w)
                if not g.get('add') and not g.get('fz') and g.get('msg') == 'n' and not (g.get('id') == 'e' and not g.get('ctx')):
                    ctx.judge(None if soft(s) else False, 'carried over', 'flag', w, 'an entry without flag is dropped', tr)
                else:
                    ctx.ok('carried over', 'flag', w)
        elif what == 'add':
            old = [l for x in more[1] for l in s.labels(x) if isinstance(l, tuple) and l[-1] == 'old']
            if not g.get('ctx') and sort_of(g) in plain:    # entries like this one are stored without a context, too
                ctx.judge(b'msgctxt' not in (roles(more[0]) or ()) or (None if soft(s) else False), 'carried over', 'context ' + sort_of(g), w,
                          'that an earlier entry has a context decides how one without is stored', tr)
            ctx.judge(not old or (None if soft(s) else False), 'carried over', 'texts ' + sort_of(g), w,
                      'text of the %s of an earlier entry is stored' % (old and old[0][1] or b'').decode(), tr)
    for s, t, v in lab.thr:
        ctx.judge(not s.g.get('rep') or (None if soft(s) else False), 'reported', 'leaves parse: ' + t, '', 'the error about an entry leaves POParser::parse as exception %s' % t)
