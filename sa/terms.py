"""Canonical symbolic terms.

Every value the analysis computes is a hash-consed term, so two values that are
computed differently but denote the same function of the inputs are, for the
forms that matter here (linear arithmetic, pointers, comparisons, conditionals,
sums over loops), the same Python object.
"""
import sys
sys.setrecursionlimit(100000)

_tab = {}


class T:
    __slots__ = ('k', 'a', 'w', 'id', '_ks', '__weakref__')
    n = 0

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(k, *a, w=64):
    key = (k, w) + a
    t = _tab.get(key)
    if t is None:
        t = T()
        t.k = k
        t.a = a
        t.w = w
        T.n += 1
        t.id = T.n
        t._ks = None
        _tab[key] = t
    return t


def skey(t):
    """Structural sort key, stable across runs (ids are not)."""
    if t._ks is None:
        t._ks = (t.k, t.w) + tuple(_sk(x) for x in t.a)
        t._ks = repr(t._ks)
        if len(t._ks) > 200:
            import hashlib
            t._ks = hashlib.sha1(t._ks.encode()).hexdigest()
    return t._ks


def _sk(x):
    if isinstance(x, T):
        return skey(x)
    if isinstance(x, tuple):
        return tuple(_sk(y) for y in x)
    return x


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ','.join(show(x, d + 1) for x in t) + ')'
        return str(t)
    if d > 12:
        return '…'
    if t.k == 'c':
        v = t.a[0]
        if t.w == 1:
            return 'true' if v else 'false'
        if v >> (t.w - 1) and t.w > 1 and (1 << t.w) - v < 1 << 20:
            v -= 1 << t.w
        return str(v)
    if t.k == '+':
        r = []
        for m, c in t.a[1]:
            if c >> (t.w - 1):
                c -= 1 << t.w
            r.append((str(c) + '*' if c != 1 else '') + show(m, d + 1))
        if t.a[0]:
            c = t.a[0]
            if c >> (t.w - 1):
                c -= 1 << t.w
            r.append(str(c))
        return '(' + '+'.join(r) + ')'
    if t.k == 'p':
        return '&' + show(t.a[0], d + 1) + ('' if t.a[1].k == 'c' and t.a[1].a[0] == 0 else '+' + show(t.a[1], d + 1))
    if t.k == 'K':
        return 'k%s' % t.a[0]
    return t.k + '(' + ','.join(show(x, d + 1) for x in t.a) + ')'


# ---------------------------------------------------------------- integers
def C(v, w=64):
    return mk('c', v & ((1 << w) - 1), w=w)


TRUE = C(1, 1)
FALSE = C(0, 1)
Z = C(0)
UNDEF = mk('undef')


def isc(t, v=None):
    return t.k == 'c' and (v is None or t.a[0] == (v & ((1 << t.w) - 1)))


def signed(t):
    v = t.a[0]
    return v - (1 << t.w) if v >> (t.w - 1) else v


def _poly(t):
    if t.k == 'c':
        return t.a[0], {}
    if t.k == '+':
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def _mkpoly(c, ms, w):
    m = (1 << w) - 1
    c &= m
    ms = {t: k & m for t, k in ms.items() if k & m}
    if not ms:
        return C(c, w)
    its = [t for t in ms if t.k == 'ite' and t.w > 1 and not isptr(t)]
    if its and not (len(ms) == 1 and ms[its[0]] == 1):
        # conditional terms carry no constant of their own inside a sum
        ch = False
        for t in its:
            b = t.a[2]
            cb = b.a[0] if b.k in ('c', '+') else 0
            if cb:
                k = ms.pop(t)
                c = (c + k * cb) & m
                t2 = ite(t.a[0], add(t.a[1], C(-cb, w)), add(b, C(-cb, w)))
                c2, m2 = _poly(t2)
                c += k * c2
                for x, l in m2.items():
                    ms[x] = (ms.get(x, 0) + k * l) & m
                ch = True
        if ch:
            c &= m
            ms = {t: k for t, k in ms.items() if k}
            if not ms:
                return C(c, w)
    if c and len(ms) == 1:
        (t, k), = ms.items()
        if k == 1 and t.k == 'ite' and not isptr(t):
            return ite(t.a[0], add(t.a[1], C(c, w)), add(t.a[2], C(c, w)))
    if c == 0 and len(ms) == 1:
        (t, k), = ms.items()
        if k == 1:
            return t
    return mk('+', c, tuple(sorted(ms.items(), key=lambda x: skey(x[0]))), w=w)


def add(a, b):
    if a.k == 'undef' or b.k == 'undef':
        return UNDEF
    if a.k == 'ite' and b.k == 'c':
        return ite(a.a[0], add(a.a[1], b), add(a.a[2], b))
    if b.k == 'ite' and a.k == 'c':
        return add(b, a)
    c1, m1 = _poly(a)
    c2, m2 = _poly(b)
    r = dict(m1)
    for t, k in m2.items():
        r[t] = r.get(t, 0) + k
    return _mkpoly(c1 + c2, r, a.w)


def scale(a, n):
    if a.k == 'undef':
        return a
    c, m = _poly(a)
    return _mkpoly(c * n, {t: k * n for t, k in m.items()}, a.w)


def sub(a, b):
    return add(a, scale(b, -1))


def mul(a, b):
    if a.k == 'undef' or b.k == 'undef':
        return UNDEF
    if b.k == 'c':
        a, b = b, a
    if a.k == 'c':
        if b.k == 'ite':
            return ite(b.a[0], mul(a, b.a[1]), mul(a, b.a[2]))
        return scale(b, a.a[0])
    c1, m1 = _poly(a)
    c2, m2 = _poly(b)
    if c1:
        m1[None] = c1
    if c2:
        m2[None] = c2
    c, r = 0, {}
    for t, k in m1.items():
        for u, l in m2.items():
            if t is None and u is None:
                c += k * l
                continue
            fs = []
            for x in (t, u):
                if x is not None:
                    fs += list(x.a[0]) if x.k == '*' else [x]
            fs.sort(key=skey)
            z = fs[0] if len(fs) == 1 else mk('*', tuple(fs), w=a.w)
            r[z] = r.get(z, 0) + k * l
    return _mkpoly(c, r, a.w)


def trunc(a, w):
    if a.k == 'undef' or a.w == w:
        return a
    if a.k == 'c':
        return C(a.a[0], w)
    if a.k in ('zext', 'sext'):
        x = a.a[0]
        if x.w == w:
            return x
        if x.w > w:
            return trunc(x, w)
        return (zext if a.k == 'zext' else sext)(x, w)
    if a.k == '+' and w > 1:
        r = C(a.a[0], w)
        for t, k in a.a[1]:
            r = add(r, scale(trunc(t, w), k))
        return r
    if a.k == '*' and w > 1:
        r = C(1, w)
        for t in a.a[0]:
            r = mul(r, trunc(t, w))
        return r
    if a.k == 'ite':
        return ite(a.a[0], trunc(a.a[1], w), trunc(a.a[2], w))
    if w == 1 and a.k == 'bool':
        return a.a[0]
    if a.k == 'cat' and w % 8 == 0:
        return HOOKS['_cut'](a, 0, w // 8)
    if a.k == 'cat' and w == 1:
        x = HOOKS['_cut'](a, 0, 1)
        if x.k != 'cat':
            return trunc(x, 1)
    return mk('trunc', a, w=w)


def zext(a, w):
    if a.k == 'undef' or a.w == w:
        return a
    if a.k == 'c':
        return C(a.a[0], w)
    if a.k == 'zext':
        return zext(a.a[0], w)
    if a.k == 'trunc' and a.w == 1 and w == 8 and a.a[0].k == 'ldbool':
        return a.a[0]
    if a.k == 'ite':
        return ite(a.a[0], zext(a.a[1], w), zext(a.a[2], w))
    return mk('zext', a, w=w)


def sext(a, w):
    if a.k == 'undef' or a.w == w:
        return a
    if a.k == 'c':
        return C(signed(a), w)
    if a.k == 'sext':
        return sext(a.a[0], w)
    if a.k == 'zext' and a.a[0].w < a.w:
        return zext(a.a[0], w)
    if a.k == 'ite':
        return ite(a.a[0], sext(a.a[1], w), sext(a.a[2], w))
    return mk('sext', a, w=w)


# ---------------------------------------------------------------- booleans
def bnot(a):
    if a.k == 'c':
        return FALSE if a.a[0] else TRUE
    if a.k == 'not':
        return a.a[0]
    if a.k == 'undef':
        return a
    return mk('not', a, w=1)


def band(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE or a is b:
        return b
    if b is TRUE:
        return a
    if a is bnot(b):
        return FALSE
    for x, y in ((a, b), (b, a)):
        p = points(x)
        if p:
            z = subst(y, p)
            if z is not y:
                return band(x, z)
    if skey(b) < skey(a):
        a, b = b, a
    return mk('and', a, b, w=1)


def points(c, d=0):
    """{x: constant} for the loaded values a true condition pins down"""
    if c.k == 'eq0':
        x = c.a[0]
        if x.k == 'ld':
            return {x: C(0, x.w)}
        if x.k == '+' and len(x.a[1]) == 1:
            t, n = x.a[1][0]
            if t.k == 'ld' and t.w == x.w and n % (1 << x.w) in (1, (1 << x.w) - 1):
                v = -x.a[0] if n % (1 << x.w) == 1 else x.a[0]
                return {t: C(v, x.w)}
    elif c.k == 'and' and d < 6:
        r = points(c.a[0], d + 1)
        r.update(points(c.a[1], d + 1))
        return r
    return {}


def bor(a, b):
    return bnot(band(bnot(a), bnot(b)))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.k == 'not':
        return ite(c.a[0], b, a)
    if a.k == 'undef':
        return b
    if b.k == 'undef':
        return a
    if c.k in ('eq0', 'and'):
        p = points(c)
        if p:
            a = subst(a, p)
            if a is b:
                return a
    if a.w == 1 and a is TRUE and b is FALSE:
        return c
    if a.w == 1 and a is FALSE and b is TRUE:
        return bnot(c)
    if a.w == 1 and a.k != 'G':
        if b is FALSE:
            return band(c, a)
        if a is TRUE:
            return bor(c, b)
        if b is TRUE:
            return bor(bnot(c), a)
        if a is FALSE:
            return band(bnot(c), b)
    if a.k == 'ite' and a.a[0] is c:
        a = a.a[1]
    if b.k == 'ite' and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if a.k == 'p' and b.k == 'p' and a.a[0] is b.a[0]:
        return ptr(a.a[0], ite(c, a.a[1], b.a[1]))
    if c.k == 'eq0':
        # x == 0 ? f(0) : f(x)
        x = c.a[0]
        if not isc(b) and x.k != '+' and subst(b, {x: C(0, x.w)}) is a:
            return b
        if x.k == '+' and a.w == b.w == x.w and a.k in ('c', '+', 'csize', 'slack') and b.k in ('+', 'csize', 'slack'):
            # d == 0 ? y : y + n*d
            d = sub(b, a)
            if d.k == '+' and len(d.a[1]) == len(x.a[1]):
                t0, k0 = x.a[1][0]
                n = dict(d.a[1]).get(t0)
                if n is not None and k0 == 1 and scale(x, signed(C(n, x.w))) is d:
                    return b
    if a.w > 1 and a.w == b.w and (a.k == '+' or b.k == '+') and a.k not in ('p', 'fn', 'G', 'c') and b.k not in ('p', 'fn', 'G', 'c'):
        # x + a and x + b share x
        c1, m1 = _poly(a)
        c2, m2 = _poly(b)
        S = {t: k for t, k in m1.items() if m2.get(t) == k}
        if S:
            S = _mkpoly(0, S, a.w)
            n = scale(S, -1)
            return add(S, ite(c, add(a, n), add(b, n)))
    return mk('ite', c, a, b, w=a.w)


def eq(a, b):
    if a.k == 'undef' or b.k == 'undef':
        return mk('cmpundef', a, b, w=1)
    if a is b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if x.k == 'ite' and (y.k in ('c', 'p', 'fn')):
            return ite(x.a[0], eq(x.a[1], y), eq(x.a[2], y))
    if isptr(a) or isptr(b):
        return peq(a, b)
    for x, y in ((a, b), (b, a)):
        if y.k == 'c':
            if x.k == 'zext':
                if y.a[0] >> x.a[0].w:
                    return FALSE
                return eq(x.a[0], C(y.a[0], x.a[0].w))
            if x.k == 'sext':
                v = signed(y)
                n = C(v, x.a[0].w)
                if signed(n) != v:
                    return FALSE
                return eq(x.a[0], n)
            if x.w == 1:
                return x if y is TRUE else bnot(x)
    if a.k == 'zext' and b.k == 'zext' and a.a[0].w == b.a[0].w:
        return eq(a.a[0], b.a[0])
    if a.w == 1:
        return ite(a, b, bnot(b))
    d = sub(a, b)
    if d.k == 'c':
        return TRUE if d.a[0] == 0 else FALSE
    return eq0(d)


def eq0(d):
    # normalise the sign
    if d.k == '+':
        c = d.a[1][0][1]
        if c >> (d.w - 1):
            d = scale(d, -1)
    if d.k == '+':
        # x + c == 0 with common factor
        ks = [k if not k >> (d.w - 1) else (1 << d.w) - k for _, k in d.a[1]] + ([d.a[0] if not d.a[0] >> (d.w - 1) else (1 << d.w) - d.a[0]] if d.a[0] else [])
        from math import gcd
        g = 0
        for k in ks:
            g = gcd(g, k)
        if g > 1:
            def dv(k):
                return k // g if not k >> (d.w - 1) else -(((1 << d.w) - k) // g)
            d = _mkpoly(dv(d.a[0]), {t: dv(k) for t, k in d.a[1]}, d.w)
            if d.k == '+' and d.a[1][0][1] >> (d.w - 1):
                d = scale(d, -1)
    if d.k == 'c':
        return TRUE if d.a[0] == 0 else FALSE
    if d.k == 'zext':
        return eq(d, C(0, d.w))
    if d.k == '+' and len(d.a[1]) == 1 and d.a[1][0][0].k in ('zext', 'sext') and d.a[1][0][1] == 1:
        return eq(d.a[1][0][0], C(-d.a[0], d.w))
    return mk('eq0', d, w=1)


def ult(a, b):
    if a.k == 'undef' or b.k == 'undef':
        return mk('cmpundef', a, b, w=1)
    if a is b:
        return FALSE
    if isptr(a) and isptr(b):
        if a.k == 'p' and b.k == 'p' and a.a[0] is b.a[0]:
            return ult(a.a[1], b.a[1])
        return mk('pult', a, b, w=1)
    if a.k == 'c' and b.k == 'c':
        return TRUE if a.a[0] < b.a[0] else FALSE
    if b.k == 'c':
        if b.a[0] == 0:
            return FALSE
        if b.a[0] == 1:
            return eq(a, C(0, a.w))
    if a.k == 'c':
        if a.a[0] == 0:
            return bnot(eq(b, C(0, b.w)))
        if a.a[0] == (1 << a.w) - 1:
            return FALSE
    if a.k == 'ite' and b.k == 'c':
        return ite(a.a[0], ult(a.a[1], b), ult(a.a[2], b))
    if b.k == 'ite' and a.k == 'c':
        return ite(b.a[0], ult(a, b.a[1]), ult(a, b.a[2]))
    # a < a + b etc. over size-like values: decide by the difference
    d = sub(b, a)
    if a.w == 64 and d.k != 'c' and nonneg(d):
        return bnot(eq0(d)) if not isc(d) else TRUE
    if a.w == 64:
        n = sub(a, b)
        if nonneg(n):
            return FALSE
    return mk('ult', a, b, w=1)


def slt(a, b):
    if a.k == 'undef' or b.k == 'undef':
        return mk('cmpundef', a, b, w=1)
    if a is b:
        return FALSE
    if a.k == 'c' and b.k == 'c':
        return TRUE if signed(a) < signed(b) else FALSE
    return mk('slt', a, b, w=1)


# ---------------------------------------------------------------- bounds
class Facts:
    """Bounds of loop variables (K < trip) and atoms known non-zero; set by the
    interpreter."""
    trip = {}
    nonzero = set()


_SIZELIKE = {'csize', 'slack', 'K', 'bk', 'sum', 'arg', '*', 'zext', 'len', 'trip', 'in', 'ld', 'ite', 'sub', 'fsize', 'bsz', 'max'}


def nonneg(d, depth=0):
    """d >= 0 as a mathematical integer, all atoms being non-negative sizes."""
    if d.k == 'c':
        return not d.a[0] >> (d.w - 1)
    if d.k != '+':
        return d.k in _SIZELIKE
    c = d.a[0]
    if c >> (d.w - 1):
        c -= 1 << d.w
    for t, k in d.a[1]:
        if k >> (d.w - 1):
            if t.k == 'K' and depth < 6 and t in Facts.trip:
                tr = Facts.trip[t]
                return nonneg(subst(d, {t: sub(tr, C(1))}), depth + 1)
            return False
        if t.k not in _SIZELIKE:
            return False
        if t in Facts.nonzero:
            c += k
    return c >= 0


def lt_proved(a, b):
    return nonneg(sub(sub(b, a), C(1)))


def le_proved(a, b):
    return nonneg(sub(b, a))


def maxt(a, b):
    """The larger of two sizes."""
    xs = []
    for x in (a, b):
        xs += x.a if x.k == 'max' else (x,)
    out = []
    for i, x in enumerate(xs):
        if not any(le_proved(x, y) and not (j > i and le_proved(y, x)) for j, y in enumerate(xs) if j != i):
            out.append(x)
    out = sorted(set(out), key=skey)
    return out[0] if len(out) == 1 else mk('max', *out)


# ---------------------------------------------------------------- pointers
NULLB = mk('null')


def ptr(base, off=Z):
    return mk('p', base, off)


NULL = ptr(NULLB, Z)


def isptr(t):
    return t.k in ('p', 'fn') or (t.k == 'ite' and isptr(t.a[1]))


def padd(p, off):
    if p.k == 'p':
        return ptr(p.a[0], add(p.a[1], off))
    if p.k == 'ite':
        return ite(p.a[0], padd(p.a[1], off), padd(p.a[2], off))
    if p.k == 'undef':
        return p
    return mk('padd', p, off)


OWNED = ('fnode', 'fvec', 'al', 'hp', 'gl', 'arg', 'items', 'argitems', 'exc', 'mmap')


def inputbase(b):
    return b.k in ('arg', 'argitems') or b.k == 'pt' and b.a[0].k == 'ld' and inputbase(b.a[0].a[0])


def peq(a, b):
    if a is b:
        return TRUE
    if a.k == 'ite':
        return ite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
    if b.k == 'ite':
        return ite(b.a[0], eq(a, b.a[1]), eq(a, b.a[2]))
    if a.k == 'c':
        a, b = b, a
    if b.k == 'c':
        if b.a[0] == 0:
            b = NULL
        else:
            if a.k == 'p' and a.a[0].k == 'mapfailed':
                return TRUE if signed(b) == -1 else FALSE
            if a.k == 'p' and a.a[0].k in OWNED:
                return FALSE
            return mk('pinteq', a, b, w=1)
    if a.k == 'fn' or b.k == 'fn':
        o = b if a.k == 'fn' else a
        if o.k == 'fn' or o is NULL:
            return FALSE
    if a.k == 'p' and b.k == 'p':
        if a.a[0] is b.a[0]:
            return eq(a.a[1], b.a[1])
        if b is NULL or a is NULL:
            o = a if b is NULL else b
            if o.a[0].k in OWNED or o.a[0].k == 'mapfailed':
                return FALSE
            if o.a[0].k == 'pt':
                return mk('isnull', o.a[0].a[0], w=1)
            return mk('isnullp', o, w=1)
        if a.a[0].k in OWNED and b.a[0].k in OWNED:
            return FALSE
        if any(x.a[0].k == 'ext' and x.a[0].a[0] == 'found' for x in (a, b)) and 'items' in (a.a[0].k, b.a[0].k):
            return FALSE
        for x, y in ((a, b), (b, a)):
            # storage created during the analysis is distinct from what the
            # caller's pointers refer to
            if x.a[0].k in ('hp', 'al', 'items', 'fnode', 'exc') and y.a[0].k == 'pt' and y.a[0].a[0].k == 'ld' and inputbase(y.a[0].a[0].a[0]):
                return FALSE
    if skey(b) < skey(a):
        a, b = b, a
    return mk('peq', a, b, w=1)


# ---------------------------------------------------------------- traversal
def children(t):
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from _tup(x)


def _tup(x):
    for y in x:
        if isinstance(y, T):
            yield y
        elif isinstance(y, tuple):
            yield from _tup(y)


_occ = {}


def atoms(t):
    """All sub-terms of t, as a frozenset."""
    r = _occ.get(t)
    if r is None:
        s = {t}
        for c in children(t):
            s |= atoms(c)
        r = _occ[t] = frozenset(s)
    return r


def has(t, x):
    return x in atoms(t)


def hask(t, kinds):
    return any(x.k in kinds for x in atoms(t))


def subst(t, m, memo=None):
    if memo is None:
        memo = {}
    return _subst(t, m, memo)


def _subst(t, m, memo):
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    ks = atoms(t)
    if not any(x in ks for x in m):
        memo[t] = t
        return t
    r = rebuild(t, lambda x: _subst(x, m, memo))
    memo[t] = r
    return r


def rebuild(t, f):
    k = t.k
    if k == '+':
        r = C(t.a[0], t.w)
        for x, c in t.a[1]:
            y = f(x)
            if isptr(y):
                return mk('ptrarith', t, y)
            r = add(r, scale(y, c))
        return r
    if k == '*':
        r = C(1, t.w)
        for x in t.a[0]:
            r = mul(r, f(x))
        return r
    if k == 'zext':
        return zext(f(t.a[0]), t.w)
    if k == 'sext':
        return sext(f(t.a[0]), t.w)
    if k == 'trunc':
        return trunc(f(t.a[0]), t.w)
    if k == 'not':
        return bnot(f(t.a[0]))
    if k == 'and':
        return band(f(t.a[0]), f(t.a[1]))
    if k == 'ite':
        c = f(t.a[0])
        if c is TRUE:
            return f(t.a[1])
        if c is FALSE:
            return f(t.a[2])
        return ite(c, f(t.a[1]), f(t.a[2]))
    if k == 'eq0':
        return eq(f(t.a[0]), C(0, t.a[0].w))
    if k == 'ult':
        return ult(f(t.a[0]), f(t.a[1]))
    if k == 'slt':
        return slt(f(t.a[0]), f(t.a[1]))
    if k == 'peq':
        return eq(f(t.a[0]), f(t.a[1]))
    if k == 'padd':
        return padd(f(t.a[0]), f(t.a[1]))
    if k == 'isnullp':
        return eq(f(t.a[0]), NULL)
    if k == 'sum':
        K, n, d = t.a
        return tsum(K, f(n), f(d))
    if k == 'sub':
        return subval(f(t.a[0]), f(t.a[1]), t.a[2], t.w)
    if k == 'max':
        r = f(t.a[0])
        for x in t.a[1:]:
            r = maxt(r, f(x))
        return r
    if k in HOOKS:
        return HOOKS[k](t, f)
    if k == 'bop':
        return bop(t.a[0], f(t.a[1]), f(t.a[2]))
    return mk(k, *[_rb(x, f) for x in t.a], w=t.w)


HOOKS = {}


def _rb(x, f):
    if isinstance(x, T):
        return f(x)
    if isinstance(x, tuple):
        return tuple(_rb(y, f) for y in x)
    return x


def bop(o, a, b):
    if a.k == 'undef' or b.k == 'undef':
        return UNDEF
    w = a.w
    if a.k == 'c' and b.k == 'c':
        x, y = a.a[0], b.a[0]
        sx, sy = signed(a), signed(b)
        try:
            return C({'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y,
                      'shl': lambda: x << y, 'lshr': lambda: x >> y, 'ashr': lambda: sx >> y,
                      'udiv': lambda: x // y, 'urem': lambda: x % y,
                      'sdiv': lambda: int(sx / sy), 'srem': lambda: sx - sy * int(sx / sy)}[o](), w)
        except ZeroDivisionError:
            return UNDEF
    if o == 'shl' and b.k == 'c':
        return scale(a, 1 << b.a[0])
    if o in ('udiv', 'sdiv') and b.k == 'c' or o in ('ashr', 'lshr') and b.k == 'c' and b.a[0] < w:
        d = b.a[0] if o in ('udiv', 'sdiv') else 1 << b.a[0]
        if d == 1:
            return a
        c, m = _poly(a)
        def sg(v):
            return v - (1 << w) if v >> (w - 1) else v
        if m and sg(c) % d == 0 and all(sg(k) % d == 0 for k in m.values()):
            return _mkpoly(sg(c) // d, {t: sg(k) // d for t, k in m.items()}, w)
    if o == 'urem' and b.k == 'c':
        c, m = _poly(a)
        if m and all(k % b.a[0] == 0 for k in m.values()) and c % b.a[0] == c:
            return C(c, w)
    if w == 1:
        if o == 'and':
            return band(a, b)
        if o == 'or':
            return bor(a, b)
        if o == 'xor':
            return bnot(a) if b is TRUE else bnot(b) if a is TRUE else ite(a, bnot(b), b)
    if o in ('and', 'or', 'xor', 'mulhi') and skey(b) < skey(a):
        a, b = b, a
    if o == 'and':
        for x, y in ((a, b), (b, a)):
            if isc(x, 0):
                return x
            if isc(x, -1):
                return y
            if x.k == 'c' and y.k == 'zext' and x.a[0] & ((1 << y.a[0].w) - 1) == (1 << y.a[0].w) - 1:
                return y
        if a is b:
            return a
    if o in ('or', 'xor'):
        for x, y in ((a, b), (b, a)):
            if isc(x, 0):
                return y
    if o in ('lshr', 'ashr', 'shl') and isc(b, 0):
        return a
    if o == 'lshr' and a.k == 'cat' and b.k == 'c' and b.a[0] % 8 == 0 and b.a[0] < w:
        n = (w - b.a[0]) // 8
        return zext(HOOKS['_cut'](a, b.a[0] // 8, n), w)
    return mk('bop', o, a, b, w=w)


# ---------------------------------------------------------------- sums
def _bkdepth(t):
    return max([x.a[0] + 1 for x in atoms(t) if x.k == 'bk'] + [0])


def tsum(K, n, d):
    """Sum of d over K = 0 .. n-1 (the bound variable is renamed canonically)."""
    if n is Z:
        return C(0, d.w)
    if not has(d, K):
        return mul(n, d)
    if n.k == '+' and 0 < n.a[0] <= 4:
        m1 = sub(n, C(1))
        return add(tsum(K, m1, d), subst(d, {K: m1}))
    c, m = _poly(d)
    r = mul(n, C(c, d.w)) if c else C(0, d.w)
    for t, k in m.items():
        if not has(t, K):
            r = add(r, scale(mul(n, t), k))
            continue
        b = mk('bk', _bkdepth(t))
        t2 = subst(t, {K: b}) if K.k != 'bk' else (subst(t, {K: b}) if b is not K else t)
        r = add(r, scale(mk('sum', b, n, t2, w=d.w), k))
    return r


def subval(v, off, n, w):
    """n bytes at offset off of an opaque run of bytes v."""
    if v.k == 'blob':
        f = HOOKS.get('_blobread')
        if f:
            r = f(v, off, n, w)
            if r is not None:
                return r
    if v.k == 'ite':
        return ite(v.a[0], subval(v.a[1], off, n, w), subval(v.a[2], off, n, w))
    if v.k == 'sub' and v.k != 'blob':
        return subval(v.a[0], add(v.a[1], off), n, w)
    if isc(off, 0) and v.w == w and v.k not in ('blob', 'in'):
        return v
    return mk('sub', v, off, n, w=w)
