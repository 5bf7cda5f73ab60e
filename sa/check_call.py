"""Memory the caller supplies, for the bytes or for the object (C08)."""
import limits
from cmp import *
from terms import *
from check_fx import exits
from check_mem import count, lastloc, agree, worlds
from interp import events

OUT, PLACE, INPUT = (mk('ext', x) for x in ('outbuf', 'place', 'input'))


def project(tr, m):
    """The trace in the world where the conditions in m have these values."""
    r = []
    for e in tr:
        if e[0] == 'if':
            c = subst(e[1], m)
            if c.k == 'c':
                r += project(e[2] if c.a[0] else e[3], m)
            else:
                r.append(('if', c, project(e[2], m), project(e[3], m)) + tuple(e[4:]))
        elif e[0] == 'guard':
            r.append(('guard', subst(e[1], m)) + tuple(e[2:]))
        elif e[0] == 'see':
            r.append(e[:2] + (tuple(subst(x, m) if isinstance(x, T) else x for x in e[2]),) + tuple(e[3:]))
        else:
            r.append(e)
    return r


def asked(tr, what):
    """(least, most) times the caller is asked, and the events."""
    lo = hi = 0
    es = []
    for e in tr:
        if e[0] == 'ask' and e[1] == what.a[0]:
            lo, hi = lo + 1, hi + 1
            es.append(e)
        elif e[0] == 'if':
            a, b, x = asked(e[2], what)
            c, d, y = asked(e[3], what)
            lo, hi = lo + min(a, c), hi + max(b, d)
            es += x + y
        elif e[0] == 'loop':
            a, b, x = asked(e[1].body, what)
            if b:
                hi += 2
            es += x
    return lo, hi, es


def flat(tr):
    for e in tr:
        yield e
        if e[0] == 'if':
            yield from flat(e[2])
            yield from flat(e[3])
        elif e[0] == 'loop':
            yield from flat(e[1].body)


def extent(reg, seen=None):
    """(offset, size) of every cell written in a region; None: not known."""
    for o, (z, v) in reg.cells.items():
        yield C(o), C(z)
    for e in reg.log:
        if e[0] == 'mix':
            yield from extent(e[2])
            yield from extent(e[3])
        elif e[0] == 'w':
            yield e[1], e[2] if isinstance(e[2], T) else C(e[2])
        elif e[0] == 'blk':
            yield e[1], e[2]
        elif e[0] == 'cells':
            for o, z, v in e[1]:
                yield C(o) if isinstance(o, int) else o, C(z) if isinstance(z, int) else z
        else:
            yield None


def kept(s):
    """What holds at every exit: the caller's memory is not given back, and
    what was only lent for reading is as it was."""
    out = []
    for kind, text, loc in s.bad:
        if kind in ('badfree',):
            out.append(Leaf('diff', text, loc))
    for what, st, loc, cond in exits(s):
        r = st.mem.get(INPUT)
        if r is not None and (r.cells or r.log):
            out.append(Leaf('diff', 'the memory read from is modified (%s)' % what, loc))
        out.append(Leaf('ok', '', loc))
    return out


def null(b):
    return mk('isnullp', ptr(b), w=1)


@limits.bounded(60, lambda: [Leaf('unk', 'out of time')])
def bytes_(cx, t, e):
    """A writer to memory: cb_ (with a callback) or nc_ (without)."""
    s, S = cx.sum(e + t), cx.sum('sz_' + t)
    for x in (s, S):
        if x.err:
            return [Leaf('unk', x.err)]
    if s.st is None or S.ret is None:
        return [Leaf('unk', 'no normal exit')]
    out = kept(s)
    asm = worlds(cx, t)
    put = lambda v, what, loc: out.append(Leaf('ok' if v == 'eq' else 'diff' if v == 'diff' else 'unk', what, loc))
    for o in s.outs:
        hi = asked(events(o.st.trace), OUT)[1]
        put('eq' if hi <= 1 else 'diff', 'the caller is asked for memory more than once (failing)', o.loc)
    ms = [{null(OUT): FALSE}, {null(OUT): TRUE}] if e != 'nc_' else [{}]
    for m in ms:
        given = m and m[null(OUT)] is FALSE
        tr = project(s.trace, m)
        lo, hi, es = asked(tr, OUT)
        want = 1 if m else 0
        if (lo, hi) != (want, want):
            put('diff', 'the caller is asked for memory %s times' % (lo if lo == hi else '%d to %d' % (lo, hi)), es[-1][-1] if es else lastloc(tr))
            continue
        for a in es:
            put(agree(a[2][0], S.ret, asm), 'the caller is asked for %s bytes, %s were measured' % (a[2][0], S.ret), a[-1])
        per = {}
        count(tr, per)
        per = {b: n for b, n in per.items() if n is not Z}
        for b in per:
            ok = (b is OUT) if given else b.k == 'hp'
            put('eq' if ok else 'diff', 'data is written to %s although the caller %s' % (what_is(b), 'supplied memory' if given else 'supplied none'), lastloc(tr))
        tot = Z
        for n in per.values():
            tot = add(tot, n)
        put(agree(tot, S.ret, asm), '%s of the %s bytes measured are written' % (tot, S.ret), lastloc(tr))
        got = [x for x in flat(tr) if x[0] == 'see' and x[1] == 'see_p']
        for x in got:
            p = x[2][0]
            v = 'unk' if p.k != 'p' else 'eq' if p.a[1] is Z and p.a[0] in per else 'diff'
            put(v, 'the buffer returned is %s, not where the data is' % str(p)[:80], x[-1])
        if not given:
            al = {x[1]: x for x in flat(tr) if x[0] == 'alloc'}
            for b in per:
                if b in al:
                    put(agree(al[b][2], S.ret, asm), 'a buffer of %s bytes is allocated, %s were measured' % (al[b][2], S.ret), al[b][3])
                fr = [i for i, x in enumerate(flat(tr)) if x[0] == 'free' and x[1] is b]
                se = [i for i, x in enumerate(flat(tr)) if x[0] == 'see' and x[1] == 'see_p']
                put('diff' if fr and se and min(fr) < max(se) else 'eq', 'the buffer is freed before it is returned', lastloc(tr))
    return out


def what_is(b):
    return {'ext': 'memory of the caller', 'hp': 'memory allocated by the library'}.get(b.k, str(b)[:60])


def within(s, base, size):
    out = []
    for what, st, loc, cond in exits(s):
        r = st.mem.get(base)
        if r is None:
            continue
        for x in extent(r):
            if x is None or x[0].k != 'c' or x[1].k != 'c':
                out.append(Leaf('unk', 'extent of what is written to the memory supplied', loc))
            elif x[0].a[0] + x[1].a[0] > size:
                out.append(Leaf('diff', 'the memory supplied for the object, %d bytes, is written up to byte %d' % (size, x[0].a[0] + x[1].a[0]), loc))
            else:
                out.append(Leaf('ok', '', loc))
    return out


@limits.bounded(60, lambda: [Leaf('unk', 'out of time')])
def object_(cx, t):
    """pl_: an object created on memory of the caller."""
    s, z = cx.sum('pl_' + t), cx.sum('so_' + t)
    for x in (s, z):
        if x.err:
            return [Leaf('unk', x.err)]
    if s.st is None:
        return [Leaf('unk', 'no normal exit')]
    size = z.ret.a[0]
    out = kept(s) + within(s, PLACE, size)
    m = {null(PLACE): FALSE}
    tr = project(s.trace, m)
    for x in flat(tr):
        if x[0] == 'see' and x[1] == 'see_p':
            p = x[2][0]
            out.append(Leaf('ok' if p is ptr(PLACE) else 'unk' if p.k not in ('p', 'c') else 'diff', 'the object is created at %s, not in the memory supplied' % str(p)[:60], x[-1]))
            break
    return out


@limits.bounded(60, lambda: [Leaf('unk', 'out of time')])
def inplace(cx, t):
    """mi_: an existing object of the caller."""
    s = cx.sum('mi_' + t)
    z = cx.sum('so_' + t)
    for x in (s, z):
        if x.err:
            return [Leaf('unk', x.err)]
    a1 = mk('arg', 1)
    out = kept(s) + within(s, a1, z.ret.a[0])
    return out
