"""Abstract interpretation of the functions of the parser that read quoted text, each on its own, on an arbitrary line.
The loop over the characters is compared with the specified decoder, transition by transition: a round of the loop moves on
by d characters and appends a text; for all values of these characters that the conditions of the path allow (all 256, and
all 65536 pairs where a unit of two characters begins), the decoder must make the same of them; ways out of the loop
allow nothing but the closing quote, and an error is reported only where the line ends too early; an unknown escape, and
no other, is warned about. The text begins behind the opening quote, and is empty at first. Continuation lines: the text returned is
the texts read, in order and nothing else (compared as terms); the scan for a continuation skips blanks only, from the first
character on, reads where it finds a quote and stops at anything else."""
from ..parselab import *
from ..state import MARK_LOST, LOST
from ..mgrlab import LoopRec
from ..induct import Course
from ..concrete import cev, Unclear

QUOTE, BACK = 34, 92
ESC = {ord('a'): b'\a', ord('b'): b'\b', ord('f'): b'\f', ord('n'): b'\n', ord('r'): b'\r', ord('t'): b'\t', ord('v'): b'\v',
       QUOTE: b'"', BACK: b'\\'}
LEAD = set(range(0x81, 0xff))
SPACES = (9, 10, 11, 12, 13, 32)
SPACE = sum(1 << c for c in SPACES)
SEQ = mk('L', 'ghost', 'texts')
LAST = mk('L', 'ghost', 'last')
SCAN = mk('L', 'ghost', 'scan')


class Dec(PClient):
    wants_loops = True

    def on_loop_done(self, ip, node, inst, before, entry, heads, trans, leave):
        ip.event('loop', LoopRec(node, inst, ip.fr.f, before, entry, heads, trans, leave))

    def on_icall(self, ip, e, st, fp, args):
        if self.alone is not None and fp.op == 'y' and isinstance(fp.a[1], tuple) and fp.a[1] and fp.a[1][0] == 'callback':
            if fp.a[1][1].endswith('log_error_callback') and not st.g.get('rep'):
                self.ev(ip, 'report', st, e)
            if fp.a[1][1].endswith('log_warning_callback'):
                st.g['warned'] = 1
        return PClient.on_icall(self, ip, e, st, fp, args)

    def on_assume(self, ip, st, t, v):
        # states with and without Big5 are not merged
        if self.alone is not None:
            for u in subterms(t):
                if u.op == 'y' and kind(u) == 'b' and u.a[1].__class__ is tuple and 'big5' in show(u).lower():
                    r = st.ev(u)
                    if r is not None:
                        st.g['b5'] = r

    def on_write(self, ip, st, loc, v):
        if v.op == 'cat' and v.a[0].op == 'y' and all(x.op in ('chr', 's') for x in v.a[1:]) and loc.op in LOCOPS and not (loc.op == 'L' and loc.a[0] == 'ghost'):
            st.g['w%d' % loc.id] = v.id
        PClient.on_write(self, ip, st, loc, v)

    def on_back(self, ip, node, inst, st, depth):
        self.calm(st)
        PClient.on_back(self, ip, node, inst, st, depth)

    def calm(self, st):
        for k in [k for k in st.g if k in ('warned', 'b5') or k[0] == 'w' and k[1:].isdigit()]:
            st.g.pop(k)

    def before_line(self, ip, st, loc, e):
        self.calm(st)
        st.g.pop('scan', None)
        st.g['next'] = 1
        return PClient.before_line(self, ip, st, loc, e)

    def read(self, ip, r, obj, args, st, e):
        line = self.line(ip, st)
        seq = st.store.get(SEQ, S(b''))
        outs = [a for a, t in zip(args, r.f['pt']) if is_out(t)]
        for a in outs:
            old = ip.read(st, a)
            if old is not seq:
                self.ev(ip, 'apart', st, e, old, seq)
        idx = [a for a, t in zip(args, r.f['pt']) if t.k == 'int']
        self.ev(ip, 'part', st, e, line, idx[0] if len(idx) == 1 else None)
        out = []
        for s, v in PClient.read(self, ip, r, obj, args, st, e):
            x = [t for t in (ip.read(s, a) for a in outs)] or [v]
            old = [ip.read(st, a) for a in outs]
            t = x[0] if not outs else None
            if outs:
                p = x[0].a[-1] if x[0].op == 'cat' else x[0]
                t = S(b'') if x[0] is old[0] else p
            s.store[SEQ] = cat(seq, t)
            s.store[LAST] = t
            s.g.pop('next', None)
            s.g.pop('scan', None)
            out.append((s, v))
        return out

    def on_append(self, ip, st, loc, old, x, e):
        if self.alone is None:
            return
        seq = st.store.get(SEQ)
        if seq is None or seq.op == 's':
            return
        if old is seq and x is not S(b''):
            self.ev(ip, 'stray', st, e, x)

    def on_exits(self, ip, node, inst, exits):
        PClient.on_exits(self, ip, node, inst, exits)
        if self.alone is None:
            return
        tag = ('loop', inst)
        for s in exits:
            line = self.line(ip, s)
            if line is None or s.g.get('rep'):
                continue
            best = 'stop' if s.ev(Le(size(line), ZERO)) else None
            for r, v in list(s.store.items()):
                if v.op == 'y' and kind(v) in 'nu' and v.a[1].__class__ is tuple and v.a[1][:2] == ('phi', tag):
                    if s.ev(Le(size(line), v)):
                        best = 'stop'
                        continue
                    if at(line, v) not in s.M:
                        continue
                    m = s.mask(at(line, v))
                    if m == 1 << QUOTE:
                        best = 'quote'
                    elif not m & (1 << QUOTE | SPACE):
                        best = 'stop'
                    else:
                        best = 'mixed'
                        s.store[SCAN] = v
            if best:
                s.g['scan'] = best


def check(ctx):
    prog = ctx.prog
    for r in ('character', 'end', 'joined'):
        ctx.floor(r, 1)
    MARK_LOST[0] = True
    lab = PLab(prog)
    lab.client = Dec(lab)
    lab.summarise()
    rs = list(lab.client.readers.values())
    ctx.note('readers', sorted(r.f['q'] for r in rs))
    flag = [fl['name'] for fl in prog.fields(P) if fl['t'].k == 'bool' and 'big5' in fl['name'].lower()]
    n = 0
    for r in rs:
        inner = [ev for ev in r.events if ev[1] == 'part']
        if inner:
            joined(ctx, lab, r)
        for l in r.loops:
            o = outputs(l)
            if o and not (inner and any(x in texts(r) for b in all_trans(l) for x in subterms(b.store.get(o[0], ZERO)))):
                n += 1
                decoder(ctx, lab, r, l, o, flag[0] if len(flag) == 1 else None)
    if not n:
        ctx.undecided('character', 'the loop over the characters', '', 'no loop appends characters of the line')
        ctx.undecided('end', 'the loop over the characters', '', 'no loop appends characters of the line')
    if not any(ev[1] == 'part' for r in rs for ev in r.events):
        ctx.undecided('joined', 'continuation lines', '', 'no function reads several parts')


def texts(r):
    return set()


def all_trans(l):
    return [b for k, h in l.all_heads() for b in l.trans[k]]


def outputs(l):
    """places whose text grows by characters"""
    out = []
    for k, h in l.all_heads():
        for r, v in h.store.items():
            if v.op == 'y' and l.is_phi(v) and kind(v) == 'o' and r not in out and not (r.op == 'L' and r.a[0] == 'ghost'):
                for b in l.trans[k]:
                    w = b.store.get(r)
                    if w is not None and w.op == 'cat' and w.a[0] is v and all(x.op in ('chr', 's') for x in w.a[1:]):
                        out.append(r)
                        break
    return out


def position(l):
    """(text, variable) of the characters looked at"""
    found = set()
    for k, h in l.all_heads():
        for b in list(l.trans[k]) + [s for side in l.leave.get(k, ((), ())) for s in side]:
            for t in list(b.M):
                for z in subterms(t):
                    if z.op == 'at' and len(z.a) == 2 and not l.owns(z.a[0]):
                        ph = [y for y in z.a[1].leaves if l.is_phi(y)]
                        if len(ph) == 1:
                            found.add((z.a[0], ph[0], z.a[1]))
    if len({(a, b) for a, b, c in found}) != 1:
        return None
    a, b, c = list(found)[0]
    offs = []
    for _, _, p in found:
        d = sub(p, b)
        if d is None or d.op != 'i':
            return None
        offs.append(d.a[0])
    return a, addc(b, min(offs))


def spec(cs, big5):
    """(text, ending) of the decoder on these characters; ending: '', 'quote' or 'mid'; and whether it warns"""
    out, i, warn = b'', 0, False
    while i < len(cs):
        c = cs[i]
        if c == QUOTE:
            return out, 'quote', warn
        if c == BACK or big5 and c in LEAD:
            if i + 1 == len(cs):
                return out, 'mid', warn
            d = cs[i + 1]
            if c == BACK:
                warn = warn or d not in ESC
                out += ESC.get(d, bytes([c, d]))
            else:
                out += bytes([c, d])
            i += 2
        else:
            out += bytes([c])
            i += 1
    return out, '', warn


def facts(s, keys):
    """facts of the path on these characters: [(test(env) -> bool or None)]"""
    out = []

    def about(t):
        return any(y in keys for y in subterms(t))
    for t, v in s.P.items():
        if about(t):
            out.append(lambda env, t=t, v=v: cev(t, env) == v)
    for t, m in s.M.items():
        if t in keys or about(t):
            out.append(lambda env, t=t, m=m: bool(m >> (cev(t, env) & 255) & 1))
    for t, d in s.z.items():
        for u, k in d.items():
            if about(t) or about(u):
                out.append(lambda env, t=t, u=u, k=k: cev(t, env) - cev(u, env) <= k)
    return out


def allowed(fs, env):
    """True: possible, False: not, None: not clear"""
    r = True
    for f in fs:
        try:
            if not f(env):
                return False
        except (Unclear, TypeError, AttributeError):
            r = None
    return r


def signed(c):
    return c - 256 if c > 127 else c


def others(l, s, mine):
    """does the path depend on other variables of the loop?"""
    for t in list(s.P) + list(s.M) + list(s.z) + [u for d in s.z.values() for u in d]:
        if any(l.is_phi(y) and y not in mine and kind(y) in 'nbc' for y in t.leaves):
            return True
    return False


def modes(s, flag):
    """values of the Big5 flag that the path allows"""
    if 'b5' in s.g:
        return (s.g['b5'],)
    for t, v in s.P.items():
        if t.op == 'y' and flag in show(t):
            return (bool(v),)
    # unknown: both
    return (False, True)


def what(c, big5):
    return 'escape' if c == BACK else 'Big5 character' if big5 and c in LEAD else 'closing quote' if c == QUOTE else 'plain character'


def ch(c):
    return "'%c'" % c if 32 < c < 127 else '0x%02x' % c


def decoder(ctx, lab, r, l, o, flag):
    where = l.where()
    p = position(l)
    if p is None or len(o) != 1 or flag is None:
        for rule in ('character', 'end'):
            ctx.undecided(rule, 'the loop over the characters', where, 'its position or its result is not followed')
        return
    text, pos = p
    o = o[0]
    var = list(pos.leaves & {y for y in pos.leaves if l.is_phi(y)})[0]
    c0 = at(text, pos)
    course = Course(l, pos)
    # where it begins
    for s in l.before:
        p0 = course.at(s)
        ok = None
        if p0 is not None:
            m = s.mask(at(text, addc(p0, -1))) if text is not None else 0
            ok = True if m == 1 << QUOTE else False if not m >> QUOTE & 1 and not s.imp else None
        ctx.judge(ok, 'end', 'begins behind the quote', where, 'the text does not begin behind a quote')
        out0 = s.store.get(o)
        ctx.judge(True if out0 is S(b'') else None, 'character', 'begins with nothing', where, 'begins with %s' % (out0 and show(out0)[:60]))
    for k, h in l.all_heads():
        yo = h.store.get(o)
        for b in l.trans[k]:
            p1 = course.at(b)
            d = sub(p1, course.at(h)) if p1 is not None else None
            new = b.store.get(o)
            parts = None
            if new is yo:
                parts = ()
            elif new is not None and new.op == 'cat' and new.a[0] is yo:
                parts = new.a[1:]
            if d is None or d.op != 'i' or not 1 <= d.a[0] <= 2 or parts is None:
                ctx.undecided('character', 'a round', where, 'moves by %s and appends %s' % (d and show(d)[:40], new and show(new)[:80]))
                continue
            n = d.a[0]
            keys = [at(text, addc(pos, i)) for i in range(n)]
            fs = facts(b, set(keys))
            soft_ = b.imp or others(l, b, {var})
            inside = b.ev(Le(addc(pos, n), size(text)))
            if inside is None and not soft_:
                b2 = b.copy()
                inside = False if b2.assume(Lt(size(text), addc(pos, n)), True) else True
            ctx.judge(True if inside else None if soft_ else inside, 'end', 'stays in the line', where, 'goes on behind the end of the line')
            res = {}
            for big5 in modes(b, flag):
                for c in range(256):
                    if n == 2 and allowed([f for f in fs], {keys[0]: signed(c)}) is False:
                        continue
                    for c2 in range(256) if n == 2 else (None,):
                        cs = (c,) if n == 1 else (c, c2)
                        env = {t: signed(x) for t, x in zip(keys, cs)}
                        a = allowed(fs, env)
                        if a is False:
                            continue
                        want, ending, warn = spec(cs, big5)
                        kd = what(c, big5)
                        msg = None
                        if ending == 'quote':
                            msg = 'a quote is taken for text'
                        elif ending == 'mid':
                            msg = '%s is taken on its own' % ch(cs[-1])
                        else:
                            try:
                                got = b''.join(bytes([cev(x.a[0], env) & 255]) if x.op == 'chr' else cev(x, env) for x in parts)
                                if got != want:
                                    msg = '%s becomes %r' % (' '.join(map(ch, cs)), got)
                            except (Unclear, TypeError):
                                msg, a = 'not clear what %s becomes' % ' '.join(map(ch, cs)), None
                            if msg is None and not h.g.get('warned') and bool(b.g.get('warned')) != warn:
                                msg = '%s is %swarned about' % (' '.join(map(ch, cs)), '' if b.g.get('warned') else 'not ')
                        old = res.get(kd, (True, ''))
                        if msg is None:
                            res.setdefault(kd, (True, ''))
                        elif a and not soft_:
                            if old[0] is not False:
                                res[kd] = (False, msg)
                        elif old[0] is True:
                            res[kd] = (None, msg)
            for kd, (v, msg) in sorted(res.items()):
                ctx.judge(v, 'character', kd, where, msg)
        ways = [(s, 'the loop ends') for s in l.leave[k][0]] + [(s, 'the text ends') for s in l.leave[k][1] if not s.g.get('rep')]
        for s, msg in ways:
            one_char(ctx, l, s, text, pos, c0, var, {QUOTE}, 'the closing quote ends it', where, msg, flag)
            w = s.store.get(o)
            ctx.judge(True if w is yo or w is None else None if s.imp - LOST or unknown(w) and l.owns(w) is False else False, 'end', 'nothing is added at the end', where,
                      'the text becomes %s' % (w and show(w)[:80]))
    for ev in r.events:
        if ev[1] == 'report':
            s = ev[2]
            if not any(var in t.leaves for d in (s.M, s.z, s.P) for t in d):
                continue
            early(ctx, l, s, text, pos, c0, var, ev[3], flag, ev[4])
    # what is returned
    for s, v in r.results:
        got = ret_text(lab, r, s, v)
        if got is None:
            continue
        if got.op == 'y' and l.is_phi(got):
            ctx.ok('end', 'what is returned', where)
        elif any(ev[1] == 'part' for ev in r.events):
            continue
        else:
            ctx.judge(None if s.imp - LOST or not l.owns(got) else False, 'end', 'what is returned', where, 'returns %s' % show(got)[:80])


def ret_text(lab, r, s, v):
    f = r.f
    for a, p in zip(r.args, f['params']):
        if is_out(p['t']):
            return s.store.get(a)
    return v


def one_char(ctx, l, s, text, pos, c0, var, good, key, where, msg, flag):
    if s.ev(Le(size(text), pos)):
        ctx.judge(None if s.imp else False, 'end', key, where, msg + ' at the end of the line, without a quote')
        return
    fs = facts(s, {c0})
    v, m = True, ''
    for c in range(256):
        if c in good:
            continue
        a = allowed(fs, {c0: signed(c)})
        if a is False:
            continue
        if a and not s.imp and not others(l, s, {var}):
            v, m = False, '%s at %s' % (msg, ch(c))
            break
        v, m = None, msg
    ctx.judge(v, 'end', key, where, m)


def early(ctx, l, s, text, pos, c0, var, where, flag, tr):
    """an error in the loop: the line must end too early"""
    key = 'only an unfinished text is an error'
    if s.ev(Le(size(text), pos)):
        ctx.ok('end', key, where)
        return
    t = s.copy()
    if not t.assume(Lt(pos, size(text)), True):
        ctx.ok('end', key, where)
        return
    short = t.ev(Le(size(text), addc(pos, 1)))
    fs = facts(t, {c0})
    v, m = True, ''
    for big5 in modes(t, flag):
        for c in range(256):
            a = allowed(fs, {c0: signed(c)})
            if a is False:
                continue
            if short and (c == BACK or big5 and c in LEAD):
                continue
            if a and not s.imp and not others(l, t, {var}):
                v, m = False, '%s is reported as an error' % ch(c)
            elif v:
                v, m = None, '%s may be reported as an error' % ch(c)
    ctx.judge(v, 'end', key, where, m, tr)


def joined(ctx, lab, r):
    f = r.f
    where = ctx.where(f)
    bad = False
    for ev in r.events:
        if ev[1] == 'apart':
            s, old, seq = ev[2], ev[5][0], ev[5][1]
            if old.op == 's' and seq.op != 's':
                bad = True
                ctx.judge(None if s.imp else False, 'joined', 'in order', ev[3], 'the parts read before are dropped', ev[4])
        elif ev[1] == 'stray':
            s, x = ev[2], ev[5][0]
            if x is s.store.get(LAST):
                continue
            bad = True
            ctx.judge(None if s.imp or unknown(x) and not s.labels(x) else False, 'joined', 'nothing else', ev[3], '%s is put behind a part' % show(x)[:60], ev[4])
        elif ev[1] == 'part':
            s, (line, idx) = ev[2], ev[5]
            if s.store.get(SEQ) is None:
                ctx.ok('joined', 'the first part', ev[3])
                continue
            part(ctx, lab, r, s, line, idx, ev[3], ev[4])
    for s, v in r.results:
        got = ret_text(lab, r, s, v)
        seq = s.store.get(SEQ, S(b''))
        ctx.judge(True if got is seq else None, 'joined', 'what is returned', where, 'returns %s, read was %s' % (got is not None and show(got)[:80], show(seq)[:80]))
        if not s.g.get('next'):
            ctx.judge(None if s.imp else False, 'joined', 'looks for another part', where, 'returns without a look at the next line')
            continue
        sc = s.g.get('scan')
        p, line = s.store.get(SCAN), lab.client.line(r.ip, s)
        if sc == 'mixed' and p is not None and line is not None:
            # what has been found out since about the character where the scan ended
            m = s.mask(at(line, p)) if at(line, p) in s.M else -1
            if not m & (1 << QUOTE | SPACE) or s.ev(Le(size(line), p)):
                sc = 'stop'
        ctx.judge(True if sc == 'stop' else None if sc is None or s.imp else False, 'joined', 'looks for another part', where,
                  'returns although the line can begin with %s' % ('a quote' if sc == 'quote' else 'blanks and a quote'))


def part(ctx, lab, r, s, line, idx, where, tr):
    """another part is read at index idx of the line"""
    key = 'where another part begins'
    if idx is None or line is None:
        ctx.undecided('joined', key, where, 'where it is read is not followed')
        return
    ls = [l for l in r.loops if l.owns(idx)]
    if not ls or len({l.tag for l in ls}) != 1:
        ctx.undecided('joined', key, where, 'reads at %s' % show(idx)[:60])
        return
    m = s.mask(at(line, idx)) if at(line, idx) in s.M else None
    ctx.judge(True if m == 1 << QUOTE else None if m is None or s.imp else False, 'joined', key, where, 'reads another part at something else than a quote', tr)
    for l in ls:
        scan(ctx, lab, r, l, idx)


def scan(ctx, lab, r, l, idx):
    c = Course(l, idx)
    if c.firsts != {ZERO} or c.step != 1 and all_trans(l):
        known = all(x.op == 'i' for x in c.firsts) and c.firsts and (c.step is not None or not all_trans(l))
        ctx.judge(False if known else None, 'joined', 'the scan for it', l.where(), 'begins at %s and moves by %s' % (', '.join(show(x)[:30] for x in c.firsts), c.step))
        return
    for k, h in l.all_heads():
        p = c.at(h)
        for b in l.trans[k]:
            x = lab.client.line(r.ip, b)
            t = at(x, p) if x is not None and p is not None else None
            if t is None or t not in b.M:
                ctx.undecided('joined', 'the scan for it', l.where(), 'what it skips is not followed')
                continue
            m = b.mask(t)
            ctx.judge(not m & ~SPACE or (None if b.imp else False), 'joined', 'the scan for it', l.where(), 'skips other characters than blanks')
