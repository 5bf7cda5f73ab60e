"""Round trips: the items a reader consumes are aligned with the items the writer
produced, then what the result shows is compared with what the original showed.
(C02 items and counts, C03 collections, C04 wrappers, C05 in place)"""
import limits
from cmp import *
from terms import *


def sourceguards(evs, path=()):
    """Conditions the source object satisfies (the alternative of a variant is
    in range, ...); a condition met on one path only is an implication."""
    r = []
    for e in evs:
        if e[0] == 'guard' and not hask(e[1], ('in', 'thrown', 'uthrow', 'iofail', 'ioeof', 'iobad', 'opq', 'sysfail')):
            for c in conj(e[1]):
                for p, v in path:
                    c = bor(bnot(p) if v else p, c)
                r += lit(c, True)
        elif e[0] == 'if' and len(path) < 3 and not hask(e[1], ('in', 'thrown', 'uthrow', 'iofail', 'ioeof', 'iobad', 'opq', 'sysfail')):
            r += sourceguards(e[2], path + lit(e[1], True))
            r += sourceguards(e[3], path + lit(e[1], False))
    return tuple(x for x in r if x[0].k != 'c')


def conj(c):
    if c.k == 'and':
        return conj(c.a[0]) + conj(c.a[1])
    return [c]


def ults(c):
    if c.k == 'ult':
        return [c]
    if c.k in ('not', 'and'):
        return [u for x in c.a for u in ults(x)]
    return []


def choices(asm):
    """A source quantity with few values (the alternative of a variant) is
    treated value by value: the substitutions to make, and what is left."""
    for a, v in asm:
        for a in ults(a):
            if a.a[1].k != 'c' or a.a[1].a[0] > 8:
                continue
            x = a.a[0]
            while x.k in ('sext', 'zext'):
                x = x.a[0]
            if x.k in ('ld', 'arg'):
                return [{x: C(i, x.w)} for i in range(a.a[1].a[0])]
    return [None]


@limits.bounded(90, lambda: (None, None, 'out of time'))
def roundtrip(cx, t, w, r):
    io, see, st = attempt(cx, t, w, r, False)
    if io is not None and any(l.status != 'ok' for l in io + see):
        io2, see2, st2 = attempt(cx, t, w, r, True)
        if io2 is not None:
            return io2, see2, st2
    return io, see, st


def works(tr, fs):
    """The assumption that no system call fails."""
    for e in tr:
        if e[0] == 'sys':
            fs[e[5]] = FALSE
        elif e[0] == 'if':
            works(e[2], fs)
            works(e[3], fs)
        elif e[0] == 'loop':
            works(e[1].body, fs)
    return fs


def attempt(cx, t, w, r, split):
    """Returns (io leaves, observation leaves, statistics) or an error text."""
    W, R, O = cx.sum(w + t), cx.sum(r), cx.sum('ob_' + t)
    for x in (W, R, O):
        if x.err:
            return None, None, x.err
        if x.st is None:
            return [Leaf('diff', '%s never returns normally' % x.name, '')], [], {'items': 0, 'worlds': 0, 'undecided': []}
    asm0 = []
    for x in sourceguards(O.trace) + sourceguards(W.trace):
        if x not in asm0:
            asm0.append(x)
    ms = choices(asm0) if split else [None]
    if split and ms == [None]:
        return None, None, 'no choice'
    io, see = [], []
    tot = {'items': 0, 'worlds': 0, 'undecided': []}
    wn, rn = norm(W.trace, want_write), norm(R.trace, want_read)
    ob, rs = norm(O.trace, want_see), norm(R.trace, want_see)
    ok = works(W.trace, works(R.trace, {}))
    if ok:
        wn, rn, rs = sub_evs(wn, ok), sub_evs(rn, ok), sub_evs(rs, ok)
    for m in ms:
        f = (lambda e: e) if m is None else (lambda e: sub_evs(e, m))
        asm = []
        for c, v in asm0 if m is None else [(subst(c, m), v) for c, v in asm0]:
            asm += lit(c, v)
        asm = [x for x in asm if x[0].k != 'c']
        a = Align()
        l = a.run(f(wn), f(rn), None, tuple(asm))
        io += l
        tot['items'] += a.items
        tot['undecided'] += a.undecided
        tot['worlds'] += len(l)
        ob1, rs1 = f(ob), f(rs)
        for l in l:
            if l.status != 'ok':
                continue
            b = Align('in the original', 'in the result')
            see += b.run(map_evs(ob1, lambda t, m=l.asm: under2(t, m)), rs1, l.env, l.asm)
            tot['items'] += b.items
            tot['undecided'] += b.undecided
    return io, see, tot
