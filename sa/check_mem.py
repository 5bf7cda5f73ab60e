"""Sizes and destinations of the bytes written.  (C01)"""
import limits
from cmp import *
from terms import *
from check_rt import sourceguards, choices


class Walk:
    """Follows the writes of a trace and compares each destination with the
    number of bytes written before it."""

    def __init__(s, tag):
        s.tag = tag
        s.leaves = []
        s.base = {}

    def cmp(s, a, b, asm, what, loc):
        v = eqv(a, b, asm)
        s.leaves.append(Leaf('ok' if v == 'eq' else 'diff' if v == 'diff' else 'unk', '%s: %s' % (what, short(a, b)), loc, asm))

    def walk(s, tr, offs, asm):
        for e in tr:
            if e[0] == 'write' and e[3] is not None:
                p = e[3]
                if p.k != 'p':
                    s.leaves.append(Leaf('unk', 'destination %s' % str(p)[:80], e[4], asm))
                    continue
                b, o = p.a
                if b not in offs:
                    s.base[b] = o
                    offs[b] = Z
                s.cmp(sub(o, s.base[b]), offs[b], asm, 'bytes written out of place', e[4])
                offs[b] = add(offs[b], e[2])
            elif e[0] == 'if':
                if contradictory(asm + lit(e[1], True)):
                    s.walk(e[3], offs, asm)
                    continue
                if contradictory(asm + lit(e[1], False)):
                    s.walk(e[2], offs, asm)
                    continue
                a, b = dict(offs), dict(offs)
                s.walk(e[2], a, asm + lit(e[1], True))
                s.walk(e[3], b, asm + lit(e[1], False))
                for k in set(a) | set(b):
                    offs[k] = ite(e[1], a[k], b[k]) if k in a and k in b else a.get(k, b.get(k))
            elif e[0] == 'loop':
                L = e[1]
                per = {}
                count(L.body, per)
                in_ = dict(offs)
                for b in per:
                    if b not in in_:
                        s.leaves.append(Leaf('unk', 'first write inside a loop', e[-1] if isinstance(e[-1], str) else '', asm))
                        return
                K2 = mk('K', 'prev', L.K)
                for b, d in per.items():
                    in_[b] = add(offs[b], tsum(K2, L.K, subst(d, {L.K: K2})))
                s.walk(L.body, in_, asm)
                for b, d in per.items():
                    offs[b] = add(offs[b], tsum(L.K, L.trip, d))


def count(tr, r):
    for e in tr:
        if e[0] == 'write' and e[3] is not None and e[3].k == 'p':
            b = e[3].a[0]
            r[b] = add(r.get(b, Z), e[2])
        elif e[0] == 'if':
            x, y = {}, {}
            count(e[2], x)
            count(e[3], y)
            for b in set(x) | set(y):
                r[b] = add(r.get(b, Z), ite(e[1], x.get(b, Z), y.get(b, Z)))
        elif e[0] == 'loop':
            x = {}
            count(e[1].body, x)
            for b, d in x.items():
                r[b] = add(r.get(b, Z), tsum(e[1].K, e[1].trip, d))


def short(a, b):
    return ('%s instead of %s' % (a, b))[:240]


def allocs(tr, r, asm):
    for e in tr:
        if e[0] == 'alloc':
            r[e[1]] = (e[2], e[3])
        elif e[0] == 'if':
            allocs(e[2], r, asm)
            allocs(e[3], r, asm)
        elif e[0] == 'loop':
            allocs(e[1].body, r, asm)


def asks(tr, r, asm=(), n=''):
    for e in tr:
        if e[0] == 'ask':
            r.append((e, asm))
        elif e[0] == 'if':
            asks(e[2], r, asm + lit(e[1], True))
            asks(e[3], r, asm + lit(e[1], False))
        elif e[0] == 'loop':
            asks(e[1].body, r, asm + (('loop',),))


def worlds(cx, t):
    """The source states, split where a quantity has few values."""
    O, W = cx.sum('ob_' + t) if cx.has('ob_' + t) else None, cx.sum('wr_' + t) if cx.has('wr_' + t) else None
    g = []
    for x in (O, W):
        if x is not None and not x.err:
            for c in sourceguards(x.trace):
                if c not in g:
                    g.append(c)
    return tuple(g)


def agree(a, b, asm):
    v = eqv(a, b, asm)
    if v == 'unk':
        ms = choices(asm)
        if ms != [None]:
            vs = [eqv(subst(a, m), subst(b, m), tuple(y for c, x in asm for y in lit(subst(c, m), x) if y[0].k != 'c')) for m in ms]
            return 'eq' if all(x == 'eq' for x in vs) else 'diff' if 'diff' in vs else 'unk'
    return v


@limits.bounded(60, lambda: [Leaf('unk', 'out of time')])
def sizes(cx, t):
    out = []
    S = cx.sum('sz_' + t)
    asm = worlds(cx, t)

    def put(a, b, what, loc, more=()):
        v = agree(a, b, asm + more)
        out.append(Leaf('ok' if v == 'eq' else 'diff' if v == 'diff' else 'unk', '%s: %s' % (what, short(a, b)), loc, more))

    def noret(x, what):
        if x.err:
            out.append(Leaf('unk', '%s: %s' % (x.name, x.err), ''))
        elif x.st is None or x.ret is None:
            out.append(Leaf('diff', '%s never returns normally' % what, x.outs[0].loc if x.outs else ''))
        else:
            return False
        return True
    if noret(S, 'measuring'):
        return out
    # the stream
    if cx.has('wr_' + t):
        W = cx.sum('wr_' + t)
        if W.err or W.st is None:
            out.append(Leaf('unk' if W.err else 'diff', '%s: %s' % (W.name, W.err or 'never returns normally'), ''))
        else:
            n = total(norm(W.trace, want_write))
            put(S.ret, n, 'the measured size differs from the bytes written to a stream', lastloc(W.trace))
    for e, where in (('mw_', 'memory'), ('fw_', 'the mapped file')):
        if not cx.has(e + t):
            continue
        M = cx.sum(e + t)
        if M.err or M.st is None:
            out.append(Leaf('unk' if M.err else 'diff', '%s: %s' % (M.name, M.err or 'never returns normally'), ''))
        else:
            if e == 'mw_':
                put(M.ret, S.ret, 'the size reported with the buffer differs from the measured size', '')
            w = Walk(t)
            offs = {}
            w.walk(M.trace, offs, asm)
            out += w.leaves
            al = {}
            allocs(M.trace, al, ())
            for b, n in offs.items():
                put(n, S.ret, 'the bytes written to %s differ' % where + ' from the measured size', lastloc(M.trace))
                if b in al:
                    put(al[b][0], S.ret, 'the size of the allocated buffer differs from the measured size', al[b][1])
            if not offs:
                put(Z, S.ret, 'nothing is written to memory', '')
    return out


def lastloc(tr):
    r = ''
    for e in tr:
        if e[0] == 'write':
            r = e[4]
        elif e[0] == 'if':
            r = lastloc(e[2]) or lastloc(e[3]) or r
        elif e[0] == 'loop':
            r = lastloc(e[1].body) or r
    return r
