"""Bytes or traversal (C19): the runs of bytes transferred and the serialize
functions run, by each serializer, against those a reference prescribes."""
import limits
from cmp import *
from terms import *


def visited(e, where=True):
    if e[0] == 'user' and e[1] == 'visit':
        return Ev('see', (e[2][0],) if where else (), None, e[-1], 'visit %s' % (e[2][1],))
    return None


def run(e):
    if e[0] == 'user' and e[1] == 'run':
        return Ev('see', (e[2][1],), None, e[-1], 'run')
    return None


def ran(e):
    return run(e) or visited(e)


def wrote(e):
    if e[0] == 'write':
        return Ev('see', (e[2],), None, e[4], 'run')
    return visited(e)


def moves(e):
    """Items and visits, to align a reader with a writer."""
    if e[0] == 'user':
        return visited(e, False)
    return want_write(e) or want_read(e)


def after(tr, kind):
    """What follows the measuring (creation) of the object."""
    for i, e in enumerate(tr):
        if e[0] == kind:
            return tr[i:]
    return None


def wrapping(cx, w):
    """How many items come before and after the data of the object."""
    s = cx.sum(w + 'long')
    if s.err or s.st is None:
        return None
    it = [e for e in after(s.trace, 'write') or () if e[0] == 'write']
    at = [i for i, e in enumerate(it) if e[2] is C(8) and hask(e[1], ('ld',))]
    if len(at) != 1:
        return None
    return at[0], len(it) - at[0] - 1


def late():
    return [Leaf('unk', 'out of time')]


def order(spec, got, what):
    a = Align('prescribed', what)
    ls = a.run(spec, got)
    # a difference shows the two sequences, not values that became others
    return ls + [Leaf('unk', str(u)[:200]) for u in a.undecided]


@limits.bounded(60, late)
def writes(cx, t):
    S = cx.sum('ko_' + t)
    if S.err:
        return [Leaf('unk', S.err)]
    spec = norm(S.trace, ran)
    out = []
    for p in ('kr_', 'wr_', 'mn_', 'sz_'):
        s = cx.sum(p + t)
        if s.err:
            out.append(Leaf('unk', p + t + ': ' + s.err))
            continue
        if s.st is None:
            out.append(Leaf('diff', p + t + ' never returns normally', ''))
            continue
        if p == 'kr_':
            ls = order(spec, norm(s.trace, ran), 'transferred')
        elif p == 'sz_':
            ls = order(norm(S.trace, visited), norm(s.trace, visited), 'measured')
        else:
            x = wrapping(cx, p)
            tr = after(s.trace, 'write')
            if x is None or tr is None:
                out.append(Leaf('unk', p + t + ': the data is not told from what wraps it'))
                continue
            got = norm(tr, wrote)
            for i in range(x[0]):
                got = got[1:] if got and got[0].x == 'run' else None
                if got is None:
                    break
            for i in range(x[1]):
                got = got[:-1] if got and got[-1].x == 'run' else None
                if got is None:
                    break
            if got is None:
                out.append(Leaf('unk', p + t + ': the data is not told from what wraps it'))
                continue
            ls = order(spec, got, 'written')
        for l in ls:
            l.msg = p + t + ': ' + l.msg
        out += ls
    return out


@limits.bounded(60, late)
def reads(cx, t, w, r):
    W, R = cx.sum(w + t), cx.sum(r + t)
    for s in (W, R):
        if s.err:
            return [Leaf('unk', s.err)]
        if s.st is None:
            return [Leaf('diff', s.name + ' never returns normally', '')]
    x, y = after(W.trace, 'write'), after(R.trace, 'read')
    if x is None or y is None:
        return [Leaf('unk', 'nothing is transferred')]
    a = Align()
    ls = a.run(norm(x, moves), norm(y, moves))
    return ls + [Leaf('unk', str(u)[:200]) for u in a.undecided]
