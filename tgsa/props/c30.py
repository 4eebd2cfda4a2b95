"""Typestate of a conversion: abstract interpretation of IConv::convert with an open descriptor that earlier conversions
left in any shift state, an arbitrary text, and iconv() with every outcome its manual allows at every call. Rules: the
first text goes in with the descriptor in its initial state; every call goes on in the text and in the output where the
last one stopped, and gets no more room than the buffer has; when room was missing, there is more of it at the next call;
convert returns only after the whole text or an invalid sequence and the final sequence back to the initial state, with
exactly what was written; an invalid sequence is reported and neither stops the program nor throws."""
from ..iconvlab import *
from ..concrete import cev, Unclear


def check(ctx):
    prog = ctx.prog
    ctx.floor('calls', 2)
    ctx.floor('end', 1)
    lab = IconvLab(prog)
    ip = lab.ip
    f = lab.public('IConv', 'convert', 1)
    where = ctx.where(f)
    args = sym_args(ip, lab.st0, f)
    st, cd = lab.shape('open')
    st.g['shift'] = 'dirty'
    st.store[END] = ZERO
    st.store[INPOS] = ZERO
    st.store[ROOM] = ZERO
    T = ip.read(st, args[0]) if args[0].op in LOCOPS else args[0]
    ip.buf = []
    res, thr = run(ip, st.copy(), f, lab.O, list(args))
    bufs = {}
    n = 0
    for ev in ip.events():
        if ev[0] == 'oblig' and ev[1] in ('assert', 'abort') and ev[3] != 'ok':
            ctx.judge(False if ev[3] == 'bad' and not ev[6] else None, 'calls', 'the program goes on', ev[2], ev[4], ev[5])
        if ev[0] != 'iconv':
            continue
        kind, s, w, tr, more = ev[1:6]
        if kind == 'assert':
            ctx.judge(None if s.imp else False, 'calls', 'the program goes on', w, 'an assertion fails', tr)
        if kind == 'start':
            n += 1
            ctx.judge(True if more[0] else None if s.imp else False, 'calls', 'text goes in after the initial state', w, 'a text is converted in the state that the last one left', tr)
        elif kind == 'input':
            base, i, left, pos = more
            if base is None or unknown(i) and i is not pos and not s.ev(Eq(i, pos)):
                ctx.judge(None if base is None or not s.ev(Eq(i, pos)) else True, 'calls', 'the text goes on where it stopped', w, 'reads at %s' % (i and show(i)[:60]), tr)
            else:
                e = s.ev(Eq(i, pos))
                ctx.judge(True if e else False if e is False and not s.imp else None, 'calls', 'the text goes on where it stopped', w, 'reads at %s, not %s' % (show(i)[:60], show(pos)[:60]), tr)
            if base is not None:
                e = s.ev(Eq(addc(left, 0), sub(size(ip.read(s, base)), i)))
                if e is None:
                    x = s.ev(Le(add(i, left), size(ip.read(s, base))))
                    e = None if x is not False else False
                if e is not True and pos is ZERO and i is ZERO and e is None and not s.imp and not unknown(left):
                    e = False
                ctx.judge(e if not s.imp or e else None, 'calls', 'the whole rest of the text', w, 'reads %s characters' % show(left)[:60], tr)
        elif kind == 'output':
            base, i, room, buf, end, before = more
            if base is None:
                ctx.undecided('calls', 'the output goes on where it stopped', w, 'writes to an unknown place')
                continue
            bufs[base] = True
            text = kind_of(buf) == 'o' and base.op == 'L'
            e = s.ev(Eq(i, end))
            bad = text and not s.imp and e is False
            ctx.judge(True if e else False if bad else None, 'calls', 'the output goes on where it stopped', w, 'writes at %s, not %s' % (show(i)[:60], show(end)[:60]), tr)
            e = s.ev(Le(add(i, room), size(buf)))
            ctx.judge(True if e else False if not s.imp and (e is False or beyond(s, i, room, size(buf))) else None, 'calls', 'no more room than there is', w,
                      'room for %s at %s in a buffer of %s' % (show(room)[:60], show(i)[:60], show(size(buf))[:60]), tr)
            if before is not None:
                lim = norm(add(i, room))
                e = s.ev(Lt(before, lim))
                ctx.judge(True if e else False if not s.imp and (e is False or lim is before or stuck(sub(lim, before), T)) else None, 'calls', 'more room after too little', w, 'room up to %s after %s' % (show(lim)[:60], show(before)[:60]), tr)
    for t in thr:
        ctx.judge(None if t[0].imp else False, 'end', 'no exception', where, 'throws %s' % (t[1],))
    for s, v in res:
        imp = s.imp
        if s.g.get('conv') is None:
            e = s.ev(Eqs(T, S(''))) or s.ev(Le(size(T), ZERO))
            ctx.judge(True if e else None if imp else False, 'end', 'the text is converted', where, 'returns without converting the text')
            continue
        p, sh = s.g.get('pend'), s.g.get('shift')
        ctx.judge(False if p == 'toobig' and not imp else None if p == 'toobig' else True, 'end', 'not while room is missing', where, 'the output is cut off when it is too long')
        ctx.judge(True if sh == 'end' or p == 'toobig' else None if imp else False, 'end', 'back in the initial state', where, 'ends without the sequence for the initial state')
        ctx.judge(None if imp and s.g.get('bad') else not s.g.get('bad'), 'end', 'an invalid sequence is reported', where, 'an invalid sequence is not reported')
        if not s.g.get('invalid') and p != 'toobig':
            e = s.ev(Eq(s.store.get(INPOS, ZERO), size(T)))
            ctx.judge(True if e else False if e is False and not imp else None, 'end', 'the whole text', where, 'converts only %s' % show(s.store.get(INPOS, ZERO))[:60])
        end = s.store.get(END)
        z = size(v)
        e = s.ev(Eq(z, end))
        if v.op == 'sub' and v.a[1] is not ZERO and not unknown(v.a[1]) and s.ev(Lt(ZERO, v.a[1])):
            e = False
        ctx.judge(True if e else False if e is False and not imp else None, 'end', 'exactly what was written', where, 'returns %s characters, %s were written' % (show(z)[:80], show(end)[:80]))


def kind_of(v):
    return kind(v) if v is not None else None


def stuck(d, T):
    """is there no more room for some short text?"""
    for n in range(1, 4):
        try:
            if cev(d, {T: b'a' * n}) <= 0:
                return True
        except (Unclear, KeyError):
            return False
    return False


def beyond(s, i, room, z):
    """may the room reach beyond the end, as the terms stand?"""
    d = sub(z, add(i, room))
    return d.op == 'i' and d.a[0] < 0
