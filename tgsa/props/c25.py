"""Constant propagation into the tables. The rows are the constant elements of the array of the class that Language points
to; aliases are all constant string associations reachable from Language::from_name. Rules, per row or alias: a row with
language code follows no row without one (the search ends there); language, country and modifier together are unique;
language and name are there and not empty, country, modifier and localized name are absent or not empty; the codes
can be written as a locale string (no separator inside a part, no lower case letter at the beginning of a country, which
the file name mapping would change); each language has a row without country and modifier; the language part of each
alias is a code of the table, its country has a row for that language, and the alias is (a word of) a name of that language."""
from .. import tables, entry
from ..lab import *
import re


def text(v):
    return v.a[0].decode('utf-8', 'replace') if v.op == 's' else None


def rows_of(ctx):
    """[(where, row)], and the class of the rows"""
    prog = ctx.prog
    cls = None
    for f in prog.fields(NS + 'Language'):
        if f['t'].k == 'ptr' and f['t'].to.k == 'rec':
            cls = f['t'].to.name
    if cls is None:
        raise Broken('Language does not point to a row of a table any more')
    best = ('', [])
    for q, rows in entry.table_rows(prog, cls):
        if len(rows) > len(best[1]):
            best = (q, rows)
    return cls, best


def check(ctx):
    prog = ctx.prog
    ctx.floor('row', 100)
    ctx.floor('bare row', 50)
    ctx.floor('alias', 20)
    cls, (q, rows) = rows_of(ctx)
    g = prog.globals.get(q)
    if not rows:
        raise Broken('no constant table of %s found' % cls)
    names = [f['name'] for f in prog.fields(cls)]
    for n in ('language', 'country', 'modifier', 'name', 'name_localized'):
        if n not in names:
            raise Broken('the rows have no %s' % n)
    seen, langs, bare, countries, words = {}, {}, set(), {}, {}
    ended = None
    for i, r in enumerate(rows):
        d = {n: text(fget(r, n)) for n in names}
        null = {n for n in names if fget(r, n) is ZERO}
        odd = [n for n in names if d[n] is None and n not in null]
        if odd:
            ctx.undecided('row', 'row %d' % i, q, 'not constant: %s' % odd)
            continue
        if 'language' in null:
            if null == set(names) and ended is None:
                ended = i
            elif ended is None:
                ctx.bad('row', 'row %d' % i, q, 'has no language code: %s' % d)
                ended = i
            continue
        key = d['language'] + ('_' + d['country'] if d['country'] is not None else '') + ('@' + d['modifier'] if d['modifier'] is not None else '')
        why = []
        if ended is not None:
            why.append('lies behind the end of the table (row %d)' % ended)
        t = (d['language'], d['country'] or '', d['modifier'] or '')
        if t in seen:
            why.append('is the same as row %d' % seen[t])
        seen[t] = i
        langs.setdefault(t[0], i)
        countries.setdefault(t[0], set()).add(t[1])
        for n in ('name', 'name_localized'):
            words.setdefault(t[0], set()).update(re.findall(r'\w+', (d[n] or '').lower()))
        if not t[1] and not t[2]:
            bare.add(t[0])
        if not d['language']:
            why.append('the language code is empty')
        if not d['name']:
            why.append('it has no name')
        for n in ('country', 'modifier', 'name_localized'):
            if d[n] == '':
                why.append('%s is empty, not absent' % n)
        if any(c in t[0] for c in '_.@'):
            why.append('separator in the language code')
        if any(c in t[1] for c in '.@'):
            why.append('separator in the country')
        m = 0
        while m < len(t[1]) and t[1][m].isalpha():
            m += 1
        if t[1][:m] != t[1][:m].upper():
            why.append('a file name cannot denote the country %s' % t[1])
        if why:
            ctx.bad('row', key + (' (row %d)' % i if seen.get(t) != i or 'same' in ' '.join(why) else ''), q, '; '.join(why))
        else:
            ctx.ok('row', key, q)
    ctx.judge(ended is not None, 'end', 'the table ends with an empty row', q, 'no empty row')
    for l in sorted(langs):
        ctx.judge(l in bare, 'bare row', l, q, 'there is no row for %s without country and modifier' % l)
    f = [f for f in prog.byq.get(NS + 'Language::from_name', []) if f.get('body') is not None]
    if not f:
        raise Broken('Language::from_name not found')
    assoc, errors = tables.associations(prog, f[0], False)
    for e in errors:
        ctx.undecided('alias', e[0], '', e[1])
    for k, v, w in assoc:
        if v.op == 'rec':
            ss = [x for x in v.a[2] if x.op == 's']
            if v.a[0] == cls or len(v.a[2]) != 2 or len(ss) != 2 or ss[0].a[0] != k:
                continue
            v = ss[1]
        if v.op != 's':
            continue
        t = text(v)
        code = t
        for c in '_.@':
            code = code.split(c)[0]
        k = k.decode('utf-8', 'replace')
        why = []
        if code not in langs:
            why.append('there is no language %s' % code)
        else:
            country = t.split('_')[1].split('.')[0].split('@')[0] if '_' in t else ''
            if country and country not in countries[code]:
                why.append('there is no row for %s in %s' % (code, country))
            if '_' not in k:
                b = k.split('.')[0].lower()
                if not any(b[:5] == w2[:min(5, len(b))] for w2 in words[code]):
                    why.append('it is no name of %s (%s)' % (code, ', '.join(sorted(words[code]))))
        ctx.judge(not why, 'alias', '%s -> %s' % (k, t), w, '; '.join(why))
    ctx.note('rows', len(rows))
