"""Abstract interpretation of the .po parser on an arbitrary stream with a typestate of the entry being read. Where a line is
left, the facts the path has gathered about it are evaluated on texts that are, and on texts that are not, flag comments that
say fuzzy; the typestate follows each that is possible. Rules: nothing is stored on a path on which the entry is flagged,
unless the path has found use_fuzzy to be true; at the end of a complete entry with a non-empty text (the header aside) that
has not been stored, it is flagged and use_fuzzy is false; where an error is reported, the line is none that can follow
(evaluated on the lines that the grammar allows after the keywords read so far), so no well-formed entry is dropped."""
from ..parselab import *


def check(ctx):
    lab = analyse(ctx)
    for r in ('stored', 'dropped', 'rejected'):
        ctx.floor(r, 1)
    for what, s, w, tr, more in lab.events:
        g = s.g
        if what == 'add':
            use = s.ev(lab.fuzzy)
            if g.get('fz') == 'unclear':
                ctx.undecided('stored', '%s %s' % (w, sort_of(g)), w, 'comment lines are not understood')
            else:
                ok = not g.get('fz') or use is True
                ctx.judge(ok or (None if soft(s) else False), 'stored', '%s %s' % (w, sort_of(g)), w,
                          'stores a fuzzy entry (flag comment: %s) although use_fuzzy can be false' % g.get('fzline', b'').decode(), tr)
        elif what == 'end' and not g.get('rep'):
            seq = g.get('seq', ())
            if not seq or seq[-1] not in (b'msgstr', b'msgstr[') or g.get('msg') != 'n':
                continue
            if g.get('id') == 'e' and not g.get('ctx') and b'msgid_plural' not in seq:
                continue
            if g.get('add'):
                ctx.ok('dropped', sort_of(g) + ' stored', w)
                continue
            use = s.ev(lab.fuzzy)
            if g.get('fz') == 'unclear':
                ctx.undecided('dropped', sort_of(g), w, 'comment lines are not understood')
                continue
            ok = g.get('fz') == 'yes' and use is False
            ctx.judge(ok or (None if soft(s) else False), 'dropped', sort_of(g), w,
                      'a complete entry (%s) is not stored%s' % (sort_of(g), ' although use_fuzzy can be true' if g.get('fz') else ''), tr)
        elif what == 'error':
            last, x = more
            key = 'after %s' % (last.decode() if last else 'the last entry')
            if x is False:
                ctx.undecided('rejected', key, w, 'not clear which lines are rejected')
            else:
                ctx.judge(x is None or (None if soft(s) else False), 'rejected', key, w,
                          'the line %r is reported as an error %s' % (x, key), tr)
