"""Abstract interpretation of the .po parser on an arbitrary stream with a typestate of the entry being read. Rules: the
charsets of the converter and the plural rule of the dictionary are changed only on paths on which the entry is a singular
one whose id was read and is empty, and that has no msgctxt line; the texts they are taken from are that entry's; at the end of
such an entry with a text, the charsets have been set and nothing was stored; at the end of any other entry they have not."""
from ..parselab import *

NAME = {'charsets': 'the charset', 'rule': 'a plural rule', 'setrule': 'the plural rule'}


def check(ctx):
    lab = analyse(ctx)
    for r in ('header only', 'header'):
        ctx.floor(r, 1)
    for what, s, w, tr, more in lab.events:
        g = s.g
        seq = g.get('seq', ())
        if what in NAME:
            ok = g.get('id') == 'e' and not g.get('ctx') and seq == (b'msgid', b'msgstr')
            ctx.judge(ok or (None if soft(s) else False), 'header only', '%s %s' % (what, w), w,
                      'takes %s from an entry that is not the header (%s)' % (NAME[what], sort_of(g)), tr)
            if what == 'rule':
                ls = [l for l in s.labels(more[0]) if isinstance(l, tuple) and l[0] == 'text']
                ok = all(l[1] == b'msgstr' and l[2] == 'cur' for l in ls)
                ctx.judge(ok or (None if soft(s) else False), 'header only', 'text ' + w, w, 'the plural rule is taken from another text', tr)
        elif what == 'end' and not g.get('rep') and seq and seq[-1] in (b'msgstr', b'msgstr['):
            hd = g.get('id') == 'e' and not g.get('ctx') and seq == (b'msgid', b'msgstr')
            if not hd:
                ctx.judge(not g.get('hdr') or (None if soft(s) else False), 'header', 'other ' + sort_of(g), w, 'taken for the header', tr)
                continue
            if g.get('msg') == 'n':
                ctx.judge(bool(g.get('hdr')) or (None if soft(s) else False), 'header', 'read ' + sort_of(g), w, 'the header is not interpreted', tr)
            ctx.judge(not g.get('add') or (None if soft(s) else False), 'header', 'stored ' + sort_of(g), w, 'the header is stored as a translation', tr)
