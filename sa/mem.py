"""Abstract memory: one region per allocation, with constant-offset cells and a
log of writes at symbolic offsets (written by loops, by bulk reads or by
container operations)."""
import math
from terms import *

INITKINDS = ('arg', 'argitems', 'pt', 'ext')


class Region:
    __slots__ = ('cells', 'log', 'dflt', 'base')

    def __init__(s, base, dflt, cells=None, log=()):
        s.base = base
        s.dflt = dflt
        s.cells = cells if cells is not None else {}
        s.log = log

    def same(a, b):
        return a is b or (a.base is b.base and a.dflt == b.dflt and a.log == b.log and a.cells == b.cells)

    def __eq__(a, b):
        return isinstance(b, Region) and a.same(b)

    def __hash__(s):
        return hash((s.base, len(s.log), len(s.cells)))

    def with_cell(s, off, size, val):
        c = dict(s.cells)
        for o in list(c):
            if o + c[o][0] <= off or o >= off + size:
                continue
            os, ov = c[o]
            if o < off:
                c[o] = (off - o, _cut(ov, 0, off - o))
            elif o + os > off + size or o > off or os != size:
                if o != off or os > size:
                    # keep the tail
                    tail = o + os - (off + size)
                    if tail > 0:
                        c[off + size] = (tail, _cut(ov, os - tail, tail))
                if o != off:
                    del c[o]
            if o < off and o + os > off + size:
                c[off + size] = (o + os - off - size, _cut(ov, off + size - o, o + os - off - size))
        c[off] = (size, val)
        return Region(s.base, s.dflt, c, s.log)

    def with_log(s, entry):
        log = s.log
        if s.cells:
            log = log + (('cells', tuple(sorted((o, z, v) for o, (z, v) in s.cells.items()))),)
        return Region(s.base, s.dflt, {}, log + (entry,))

    def subst(s, m, memo=None):
        if memo is None:
            memo = {}
        f = lambda x: subst(x, m, memo)
        cells = {o: (z, f(v)) for o, (z, v) in s.cells.items()}
        return Region(f(s.base), s.dflt, cells, tuple(sub_entry(e, f, m) for e in s.log))

    # ---------------------------------------------------------------- reads
    def read(s, off, size, ty, w=None):
        w = w or (64 if ty == 'p' else size * 8)
        if off.k == 'ite':
            return ite(off.a[0], s.read(off.a[1], size, ty, w), s.read(off.a[2], size, ty, w))
        if off.k == '+':
            for t, k in off.a[1]:
                if t.k == 'ite':
                    rest = sub(off, scale(t, k))
                    return ite(t.a[0], s.read(add(rest, scale(t.a[1], k)), size, ty, w), s.read(add(rest, scale(t.a[2], k)), size, ty, w))
        if off.k == 'c':
            o = signed(off)
            c = s.cells.get(o)
            if c is not None and c[0] == size:
                return c[1]
            for o2, (z, v) in s.cells.items():
                if o2 < o + size and o < o2 + z:
                    return s._partial(o, size, ty, w)
        elif s.cells:
            for o2, (z, v) in s.cells.items():
                r = _rel(off, size, C(o2), z)
                if r != 'no':
                    return mk('rd', snap(s), off, size, ty, w=w)
        return s._readlog(len(s.log) - 1, off, size, ty, w)

    def _partial(s, o, size, ty, w):
        # bytes from different cells: constants only, or part of a wider value
        for o2, (z, v) in s.cells.items():
            if o2 <= o and o + size <= o2 + z:
                return fixty(_cut(v, o - o2, size), ty, w)
        parts = []
        at = o
        while at < o + size:
            hit = None
            nxt = o + size
            for o2, (z, v) in s.cells.items():
                if o2 <= at < o2 + z:
                    hit = (o2, z, v)
                elif at < o2 < nxt:
                    nxt = o2
            if hit:
                n = min(hit[0] + hit[1], o + size) - at
                x = _cut(hit[2], at - hit[0], n)
            else:
                n = nxt - at
                while n not in (1, 2, 4, 8):
                    n -= 1
                x = s._readlog(len(s.log) - 1, C(at), n, 'i', 8 * n)
            parts.append((at - o, n, x))
            at += n
        return cat(parts, size, ty, w)

    def _readlog(s, i, off, size, ty, w):
        while i >= 0:
            e = s.log[i]
            k = e[0]
            i -= 1
            if k == 'cells':
                return Region(s.base, s.dflt, {o: (z, v) for o, z, v in e[1]}, s.log[:i + 1]).read(off, size, ty, w)
            if k == 'w':
                r = _rel(off, size, e[1], e[2])
                if r == 'eq':
                    return fixty(e[3], ty, w)
                if r == 'no':
                    continue
                if isinstance(r, int):
                    return fixty(_cut(e[3], r, size), ty, w)
            elif k == 'zero':
                lo, ln = e[1], e[2]
                if le_proved(lo, off) and le_proved(add(off, C(size)), add(lo, ln)):
                    return NULL if ty == 'p' else C(0, w)
                if le_proved(add(off, C(size)), lo) or le_proved(add(lo, ln), off):
                    continue
            elif k == 'fill':
                _, lo, hi, stride, proto = e
                # offsets are in bytes; lo/hi element indices
                x, rem = divs(off, stride)
                if x is not None:
                    if le_proved(lo, x) and lt_proved(x, hi):
                        return proto.read(C(rem), size, ty, w)
                    if lt_proved(x, lo) or le_proved(hi, x):
                        continue
                    under = Region(s.base, s.dflt, {}, s.log[:i + 1]).read(off, size, ty, w)
                    p = proto.read(C(rem), size, ty, w)
                    return ite(band(bnot(ult(x, lo)), ult(x, hi)), p, under)
            elif k == 'fam':
                _, K, trip, ents = e
                for (eo, es, ev) in reversed(ents):
                    r = _fam(off, size, K, trip, eo, es)
                    if r == 'no':
                        continue
                    if isinstance(r, tuple) and r[0] == 'hit':
                        v = subst(ev, {K: r[1]})
                        return fixty(v if r[2] == 0 and es == size else _cut(v, r[2], size), ty, w)
                    if isinstance(r, tuple) and r[0] == 'cond':
                        v = subst(ev, {K: r[1]})
                        v = fixty(v if r[2] == 0 and es == size else _cut(v, r[2], size), ty, w)
                        under = Region(s.base, s.dflt, {}, s.log[:i + 1]).read(off, size, ty, w)
                        return ite(r[3], v, under)
                    break
                else:
                    continue
            elif k == 'blk':
                _, lo, ln, v = e
                if le_proved(lo, off) and le_proved(add(off, C(size)), add(lo, ln)):
                    return fixty(subval(v, sub(off, lo), size, w), ty, w)
                if le_proved(add(off, C(size)), lo) or le_proved(add(lo, ln), off):
                    continue
            elif k == 'mix':
                return ite(e[1], e[2].read(off, size, ty, w), e[3].read(off, size, ty, w))
            return mk('rd', snap(s), off, size, ty, w=w)
        if s.dflt == 'undef':
            return UNDEF
        if s.dflt == 'zero':
            return NULL if ty == 'p' else C(0, w)
        return initval(s.dflt[1] if isinstance(s.dflt, tuple) else s.base, off, size, ty, w)


def cat(parts, size, ty, w):
    """A value assembled from parts (offset, size, value), lowest byte first."""
    if all(v.k == 'undef' for _, _, v in parts):
        return UNDEF
    if all(v.k in ('c',) for _, _, v in parts):
        r = 0
        for o, n, v in parts:
            r |= v.a[0] << (8 * o)
        return fixty(C(r, w), ty, w)
    v0 = parts[0][2]
    if ty != 'p' and v0.k == 'ld' and sum(n for _, n, _ in parts) == size:
        # pieces of one initial value
        at = v0.a[1]
        for o, n, v in parts:
            if v.k != 'ld' or v.a[0] is not v0.a[0] or v.a[1] is not at or v.a[2] != n:
                break
            at = add(at, C(n))
        else:
            return initval(v0.a[0], v0.a[1], size, ty, w)
    if any(v.k == 'G' or v.k == 'G0' for _, _, v in parts):
        return mk('catG', tuple(parts), w=w)
    return mk('cat', tuple(parts), w=w)


def initval(base, off, size, ty, w):
    if ty == 'G':
        return mk('G0', base, off)
    t = mk('ld', base, off, size, 'p' if ty == 'p' else 'i', w=w)
    if ty == 'p':
        return ptr(mk('pt', t))
    return t


def fixty(v, ty, w):
    if ty == 'p' and v.k == 'c' and v.a[0] == 0:
        return NULL
    if ty == 'p' and v.k in ('in', 'sub', 'ld', 'rd') :
        return ptr(mk('pt', v))
    if ty != 'p' and ty != 'G' and isptr(v):
        return NULL_INT if v is NULL else mk('p2i', v, w=w)
    if ty not in ('p', 'G') and v.k not in ('undef', 'G') and v.w != w and v.w == 1:
        return zext(v, w)
    return v


NULL_INT = C(0)


def _cut(v, off, size):
    if v.k == 'undef':
        return v
    if v.k == 'c':
        return C(v.a[0] >> (8 * off), size * 8)
    if v is NULL:
        return C(0, size * 8)
    if v.k == 'cat':
        r = []
        for o, n, x in v.a[0]:
            lo, hi = max(o, off), min(o + n, off + size)
            if lo < hi:
                y = _cut(x, lo - o, hi - lo) if (lo, hi) != (o, o + n) else x
                r.append((lo - off, hi - lo, y))
        if len(r) == 1:
            return r[0][2]
        return cat(r, size, 'i', size * 8)
    if v.k == 'ite':
        return ite(v.a[0], _cut(v.a[1], off, size), _cut(v.a[2], off, size))
    if off == 0 and v.k in ('zext', '+', 'ld') and v.w > size * 8 and v.k != 'ld':
        return trunc(v, size * 8)
    if v.k == 'ld':
        return mk('ld', v.a[0], add(v.a[1], C(off)), size, 'i', w=size * 8)
    return subval(v, C(off), size, size * 8)


def _rel(off, size, eo, es):
    d = sub(off, eo)
    if d.k == 'c':
        x = signed(d)
        if x == 0 and size == es:
            return 'eq'
        if x >= es or x + size <= 0:
            return 'no'
        if x >= 0 and x + size <= es:
            return x
        return '?'
    if nonneg(sub(d, C(es))) or nonneg(sub(scale(d, -1), C(size))):
        return 'no'
    if d.k == '+':
        # element strides are multiples of g, which do not wrap around
        g = 0
        for x, k in d.a[1]:
            g = math.gcd(g, k if k < 1 << 63 else (1 << 64) - k)
        c = signed(C(d.a[0])) % g if g else 0
        if g > 1 and c >= es and c + size <= g:
            return 'no'
    return '?'


rel = _rel


def cellentry(r):
    return (('cells', tuple(sorted((o, z, v) for o, (z, v) in r.cells.items()))),) if r.cells else ()


def vanishes(e, t):
    """Does a write entry write nothing when the size t is zero?"""
    n = e[2] if e[0] in ('fam', 'blk', 'zero') else None
    if n is None:
        return False
    if n is t:
        return True
    if t.k in ('+', '*', 'zext', 'c'):
        x, y = lin(n, t.a[0]) if t.k == 'zext' else (None, None)
        q = n.k == '+' and t.k == '+' and scale(t, signed(C(n.a[1][0][1])) // max(1, signed(C(t.a[1][0][1]))))
        return n is q
    return subst(n, {t: C(0, t.w)}) is Z


def divs(off, stride):
    """off = stride * x + rem with 0 <= rem < stride."""
    if off.k == 'c':
        v = signed(off)
        return C(v // stride), v % stride
    c, m = (off.a[0], dict(off.a[1])) if off.k == '+' else (0, {off: 1})
    if c >> 63:
        c -= 1 << 64
    ms = {}
    for t, k in m.items():
        if k >> 63:
            k -= 1 << 64
        if k % stride:
            return None, None
        ms[t] = k // stride
    r = C(c // stride)
    for t, k in ms.items():
        r = add(r, scale(t, k))
    return r, c % stride


def lin(t, K):
    """t = a*K + b with a constant, b free of K."""
    if not has(t, K):
        return 0, t
    if t is K:
        return 1, Z
    if t.k == '+':
        a = 0
        b = C(t.a[0], t.w)
        for x, c in t.a[1]:
            if x is K:
                a = c - (1 << 64) if c >> 63 else c
            elif has(x, K):
                return None, None
            else:
                b = add(b, scale(x, c))
        return a, b
    return None, None


def _fam(off, size, K, trip, eo, es):
    a, b = lin(eo, K)
    if a is None:
        return '?'
    if a == 0:
        r = _rel(off, size, b, es)
        if r == 'no':
            return 'no'
        if r in ('eq',) or isinstance(r, int):
            if nonneg(sub(trip, C(1))):
                return ('hit', sub(trip, C(1)), 0 if r == 'eq' else r)
        return '?'
    if a < 0:
        # downwards: the same entries, counted from the other end
        if -a < es:
            return '?'
        last = sub(trip, C(1))
        r = _fam(off, size, K, trip, add(scale(K, -a), add(b, scale(last, a))), es)
        if isinstance(r, tuple):
            return (r[0], sub(last, r[1])) + r[2:]
        return r
    d = sub(off, b)
    x, rem = divs(d, a)
    if x is None:
        return '?'
    if rem >= es:
        if rem + size <= a:
            return 'no'
        return '?'
    if rem + size > es:
        return '?'
    if lt_proved(x, trip) and nonneg(x):
        return ('hit', x, rem)
    if le_proved(trip, x) or nonneg(sub(scale(x, -1), C(1))):
        return 'no'
    lo, lr = divs(b, a)
    if lo is None:
        return '?'
    y = add(x, lo)
    return ('cond', x, rem, band(bnot(ult(y, lo)), ult(y, add(lo, trip))))


def sub_entry(e, f, m):
    k = e[0]
    if k == 'cells':
        return ('cells', tuple((o, z, f(v)) for o, z, v in e[1]))
    if k == 'w':
        return ('w', f(e[1]), e[2], f(e[3]))
    if k == 'fill':
        return ('fill', f(e[1]), f(e[2]), e[3], e[4].subst(m))
    if k == 'fam':
        return ('fam', e[1], f(e[2]), tuple((f(o), z, f(v)) for o, z, v in e[3]))
    if k == 'blk':
        return ('blk', f(e[1]), f(e[2]), f(e[3]))
    if k == 'zero':
        return ('zero', f(e[1]), f(e[2]))
    if k == 'mix':
        c = f(e[1])
        return ('mix', c, e[2].subst(m), e[3].subst(m))
    raise Exception(k)


# ---------------------------------------------------------------- snapshots
_snaps = {}
_snapof = {}


def regkey(r):
    return (r.base, r.dflt, tuple(sorted(r.cells.items())), tuple(entkey(e) for e in r.log))


def entkey(e):
    return tuple(regkey(x) if isinstance(x, Region) else x for x in e)


def snap(r):
    k = regkey(r)
    t = _snapof.get(k)
    if t is None:
        t = mk('snap', len(_snapof), *deps(r))
        _snapof[k] = t
        _snaps[t.a[0]] = r
    return t


def deps(r):
    """Terms occurring in a region (so that substitution sees them)."""
    s = []

    def ent(e):
        for x in e:
            if isinstance(x, T):
                s.append(x)
            elif isinstance(x, Region):
                s.extend(deps(x))
            elif isinstance(x, tuple):
                ent(x)
    s.append(r.base)
    for o, (z, v) in r.cells.items():
        s.append(v)
    for e in r.log:
        ent(e)
    seen = []
    ss = set()
    for x in s:
        if x not in ss and x.k != 'c':
            ss.add(x)
            seen.append(x)
    return tuple(seen)


def snapregion(t):
    return _snaps[t.a[0]]


def _snapsub(t, f):
    r = _snaps[t.a[0]]
    return snap(mapregion(r, f))


def mapregion(r, f):
    cells = {o: (z, f(v)) for o, (z, v) in r.cells.items()}
    return Region(f(r.base), r.dflt, cells, tuple(mapentry(e, f) for e in r.log))


def mapentry(e, f):
    def g(x):
        if isinstance(x, T):
            return f(x)
        if isinstance(x, Region):
            return mapregion(x, f)
        if isinstance(x, tuple):
            return tuple(g(y) for y in x)
        return x
    if e[0] == 'fam':
        return ('fam', e[1], f(e[2]), tuple((f(o), z, f(v)) for o, z, v in e[3]))
    return tuple(g(x) for x in e)


HOOKS['snap'] = _snapsub


def _rdsub(t, f):
    s = f(t.a[0])
    r = _snaps[s.a[0]]
    return r.read(f(t.a[1]), t.a[2], t.a[3], t.w)


HOOKS['rd'] = _rdsub


def _blobread(v, off, n, w):
    s, o, ln = v.a
    r = _snaps[s.a[0]]
    x = r.read(add(o, off), n, 'i', w)
    return x


HOOKS['_blobread'] = _blobread


def blob(region, off, ln):
    if ln.k == 'c':
        region = trim(region, off, ln.a[0])
        if region is None:
            return UNDEF
    return mk('blob', snap(region), off, ln, w=0)


def trim(r, off, n):
    """The region without the writes that cannot affect [off, off+n); None if
    that range was never written."""
    cells = {o: x for o, x in r.cells.items() if _rel(off, n, C(o), x[0]) != 'no'}
    log = []
    for e in r.log:
        k = e[0]
        if k == 'cells':
            c = tuple(x for x in e[1] if _rel(off, n, C(x[0]), x[1]) != 'no')
            if not c:
                continue
            e = ('cells', c)
        elif k == 'w':
            if _rel(off, n, e[1], e[2]) == 'no':
                continue
        elif k in ('zero', 'blk'):
            if le_proved(add(off, C(n)), e[1]) or le_proved(add(e[1], e[2]), off):
                continue
        elif k == 'fam':
            if all(_fam(off, n, e[1], e[2], eo, es) == 'no' for eo, es, _ in e[3]):
                continue
        elif k == 'mix':
            a, b = trim(e[2], off, n), trim(e[3], off, n)
            if a is None and b is None:
                continue
        log.append(e)
    if not cells and not log and r.dflt == 'undef':
        return None
    if len(cells) == len(r.cells) and len(log) == len(r.log):
        return r
    return Region(r.base, r.dflt, cells, tuple(log))


def _inrebuild(t, f):
    return mk('ld', f(t.a[0]), f(t.a[1]), t.a[2], t.a[3], w=t.w)


HOOKS['ld'] = _inrebuild


def _catrebuild(t, f):
    return cat([(o, n, f(v)) for o, n, v in t.a[0]], t.w // 8, 'i', t.w)


HOOKS['cat'] = _catrebuild
HOOKS['_cut'] = _cut
