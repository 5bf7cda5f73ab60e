"""Comparison of summaries: aligning the items a writer produces with the items
a reader consumes, aligning observations of the original with observations of
the result, and deciding whether two symbolic values are equal.

A difference is *definite* when the two values are different for an exhibited
assignment of the input quantities that is consistent with the path; equal
canonical terms are equal for every input; anything else is *undecided* and is
never reported as a violation."""
import random
from terms import *
import mem as M


# ---------------------------------------------------------------- evaluation
class Cannot(Exception):
    pass


LEAVES = ('csize', 'slack', 'ld', 'arg', 'in', 'K', 'len', 'isnull', 'isnullp', 'opq', 'iofail', 'ioeof', 'iobad', 'thrown', 'uthrow', 'attr', 'known', 'G0', 'dflt', 'gcount', 'fsize', 'sysres', 'errno')
SIZES = (0, 1, 2, 3, 5, 255, 256, 65535, 65536, (1 << 31) + 3, (1 << 32) + 1)
# when every item transferred has its own fresh value
BYTES = (0, 1, 2, 3, 7, 127, 128, 200, 255)


class Eval:
    def __init__(s, seed, mode=0):
        s.r = random.Random(seed)
        s.v = {}
        s.mode = mode
        s.memo = {}
        s.small = mode % 3 != 2
        s.pool = ()

    def leaf(s, key, w, k):
        x = s.v.get(key)
        if x is None:
            if w == 1:
                x = s.r.randrange(2)
            elif k in ('thrown', 'uthrow', 'iofail', 'ioeof', 'iobad'):
                x = 0
            elif k in ('csize', 'slack', 'K', 'len', 'fsize'):
                x = s.r.choice(SIZES[:5] if s.small else SIZES)
            else:
                c = s.mode % 3
                x = s.r.choice(BYTES) if c == 0 else s.r.choice(s.pool) if c == 1 and s.pool and s.r.random() < .7 else s.r.getrandbits(min(w, 64) or 8)
            if k in ('thrown', 'uthrow', 'iofail', 'ioeof', 'iobad'):
                x = 0
            x &= (1 << (w or 64)) - 1
            s.v[key] = x
        return x

    def ev(s, t):
        r = s.memo.get(t)
        if r is None:
            r = s.memo[t] = s._ev(t)
        return r

    def _ev(s, t):
        k = t.k
        w = t.w
        m = (1 << w) - 1
        e = s.ev
        if k == 'c':
            return t.a[0]
        if k == '+':
            v = t.a[0]
            for x, c in t.a[1]:
                v += c * e(x)
            return v & m
        if k == '*':
            v = 1
            for x in t.a[0]:
                v *= e(x)
            return v & m
        if k == 'zext':
            return e(t.a[0])
        if k == 'sext':
            x = t.a[0]
            v = e(x)
            return (v - (1 << x.w) if v >> (x.w - 1) else v) & m
        if k == 'trunc':
            return e(t.a[0]) & m
        if k == 'not':
            return 1 - e(t.a[0])
        if k == 'and':
            return e(t.a[0]) & e(t.a[1])
        if k == 'ite':
            return e(t.a[1]) if e(t.a[0]) else e(t.a[2])
        if k == 'eq0':
            return int(e(t.a[0]) == 0)
        if k == 'ult':
            return int(e(t.a[0]) < e(t.a[1]))
        if k == 'slt':
            a, b = t.a
            f = lambda x: e(x) - (1 << x.w) if e(x) >> (x.w - 1) else e(x)
            return int(f(a) < f(b))
        if k == 'max':
            return max(e(x) for x in t.a)
        if k == 'bop':
            r = bop(t.a[0], C(e(t.a[1]), t.a[1].w), C(e(t.a[2]), t.a[2].w))
            if r.k != 'c':
                raise Cannot
            return r.a[0]
        if k == 'sum':
            K, n, d = t.a
            n = e(n)
            if n > 40:
                raise Cannot
            v = 0
            for i in range(n):
                v += e(subst(d, {K: C(i)}))
            return v & m
        if k == 'sub':
            v = s.blobv(t.a[0], t.a[1])
            off, n = e(t.a[1]), t.a[2]
            return s.leaf(('sub', v, off, n), w or 8 * n, 'sub')
        if k in LEAVES:
            return s.leaf(s.key(t), w, k)
        if k in ('ldbool',):
            return s.leaf(s.key(t), 1, k)
        if k == 'fop':
            return hash((t.a[0],) + tuple(e(x) for x in t.a[1:])) & m
        if k == 'p2i':
            return hash(s.pt(t.a[0])) & m
        if k == 'peq':
            a, b = t.a
            return int(s.pt(a) == s.pt(b))
        raise Cannot

    def blobv(s, t, off):
        if t.k == 'in':
            return s.key(t)
        raise Cannot

    def pt(s, p):
        if p.k == 'p':
            return (s.key(p.a[0]), s.ev(p.a[1]))
        if p.k == 'fn':
            return p.a[0]
        if p.k == 'ite':
            return s.pt(p.a[1] if s.ev(p.a[0]) else p.a[2])
        raise Cannot

    def key(s, t):
        r = []
        for x in t.a:
            if isinstance(x, T):
                r.append(s.keyof(x))
            elif isinstance(x, tuple):
                r.append(tuple(s.keyof(y) if isinstance(y, T) else y for y in x))
            else:
                r.append(x)
        return (t.k, t.w) + tuple(r)

    def keyof(s, x):
        if x.k == 'p':
            return s.pt(x)
        if x.k in ('argitems', 'pt', 'al', 'hp', 'gl', 'ext', 'items', 'rdseq', 'null', 'exc', 'mmap'):
            return s.key(x)
        if x.k == 'arg':
            return ('arg', x.a[0])
        if x.k == 'ite' and isptr(x):
            return s.pt(x)
        return s.ev(x)


def consts(*ts):
    """Constants compared against in the terms, and their neighbours."""
    r = set()
    for t in ts:
        for x in atoms(t):
            if x.k == 'c' and x.w > 1:
                for d in (-1, 0, 1):
                    r.add((x.a[0] + d) & ((1 << x.w) - 1))
            elif x.k == '+' and x.a[0]:
                for d in (-1, 0, 1):
                    r.add((x.a[0] + d) & ((1 << x.w) - 1))
                    r.add((-x.a[0] + d) & ((1 << x.w) - 1))
    return tuple(sorted(r))


def bounds_ok(ev, t, seen):
    for x in atoms(t):
        if x.k == 'K' and x in Facts.trip and x not in seen:
            seen.add(x)
            tr = Facts.trip[x]
            try:
                if not ev.ev(x) < ev.ev(tr):
                    # bring it into range
                    n = ev.ev(tr)
                    if n == 0:
                        return False
                    ev.v[ev.key(x)] = ev.ev(x) % n
                    ev.memo.clear()
            except Cannot:
                pass
            if not bounds_ok(ev, tr, seen):
                return False
    return True


def witness(pred, terms, asm=(), tries=240, seed=1, extra=lambda ev: True):
    """An assignment, consistent with asm, under which pred(ev) holds; None if
    none was found."""
    pool = consts(*terms, *[c for c, v in asm])
    n = 0
    for i in range(tries):
        ev = Eval(seed * 100003 + i, i)
        ev.pool = pool
        try:
            ok = True
            for t in list(terms) + [c for c, v in asm]:
                if not bounds_ok(ev, t, set()):
                    ok = False
                    break
            if not ok:
                continue
            for c, v in asm:
                if not force(ev, c, v):
                    ok = False
                    break
            if ok and all(bool(ev.ev(c)) == v for c, v in asm) and extra(ev) and pred(ev):
                return ev
        except Cannot:
            n += 1
            if n > 60:
                return None
            continue
    return None


def force(ev, c, v):
    """Try to make condition c evaluate to v by adjusting one leaf."""
    try:
        if bool(ev.ev(c)) == v:
            return True
    except Cannot:
        return False
    if c.k == 'not':
        return force(ev, c.a[0], not v)
    if c.k == 'and' and v:
        return force(ev, c.a[0], True) and force(ev, c.a[1], True)
    if c.k in LEAVES and c.w == 1:
        ev.v[ev.key(c)] = int(v)
        ev.memo.clear()
        return True
    if c.k == 'eq0':
        d = c.a[0]
        ms = d.a[1] if d.k == '+' else ((d, 1),)
        for x, k in ms:
            y = x
            while y.k in ('zext', 'trunc', 'sext') and isinstance(y.a[0], T):
                y = y.a[0]
            if y.k in LEAVES and y.k not in ('thrown', 'uthrow', 'iofail', 'ioeof', 'iobad'):
                key = ev.key(y)
                m = (1 << y.w) - 1 if y.w else 0
                if v:
                    if k in (1, (1 << d.w) - 1):
                        rest = ev.ev(sub(d, scale(x, k)))
                        val = -rest if k == 1 else rest
                        ev.v[key] = val & m
                        ev.memo.clear()
                else:
                    ev.v[key] = (ev.v.get(key, 0) + 1) & m
                    ev.memo.clear()
                if bool(ev.ev(c)) == v:
                    return True
    return False


def eqv(a, b, asm=()):
    """'eq', ('diff', assignment) or 'unk'."""
    if a is b:
        return 'eq'
    if a.k == 'undef' or b.k == 'undef':
        return 'diff'
    if asm:
        a, b = under(a, asm), under(b, asm)
        if a is b:
            return 'eq'
    if isptr(a) != isptr(b) and not (a.k in ('c',) or b.k in ('c',)):
        return 'unk'
    if a.k == 'blob' or b.k == 'blob' or a.w == 0 or b.w == 0:
        return blobeq(a, b, asm)

    def differ(ev):
        if isptr(a) or isptr(b):
            return ev.pt(a) != ev.pt(b)
        return ev.ev(a) != ev.ev(b)
    ts = [t for t in (a, b)]
    if witness(differ, ts, asm):
        return 'diff'
    return bycases(a, b, asm, 8)


def bycases(a, b, asm, depth):
    """Equal in every case of the conditions the two values depend on."""
    c = firstcond(a) or firstcond(b)
    if c is None or not depth:
        return 'unk'
    for v in (True, False):
        l = lit(c, v)
        if contradictory(tuple(asm) + l):
            continue
        x, y = under(a, l), under(b, l)
        if x is not y and bycases(x, y, tuple(asm) + l, depth - 1) != 'eq':
            return 'unk'
    return 'eq'


def firstcond(t, memo=None):
    memo = memo if memo is not None else set()
    if t in memo:
        return None
    memo.add(t)
    if t.k == 'ite':
        return firstcond(t.a[0], memo) or inner(t.a[0])
    from terms import children
    if t.k == 'sum':
        return None
    for x in children(t):
        r = firstcond(x, memo)
        if r is not None:
            return r
    return None


def inner(c):
    while c.k in ('not', 'and'):
        c = c.a[0]
    return c


def blobeq(a, b, asm):
    if a.k == 'blob' and b.k == 'blob':
        ra, rb = M.snapregion(a.a[0]), M.snapregion(b.a[0])
        n = a.a[2]
        if n.k == 'c' and n.a[0] <= 64 and b.a[2] is n:
            r = 'eq'
            o = 0
            while o < n.a[0]:
                z = min(8, n.a[0] - o)
                q = eqv(ra.read(add(a.a[1], C(o)), z, 'i', 8 * z), rb.read(add(b.a[1], C(o)), z, 'i', 8 * z), asm)
                if q == 'diff':
                    return q
                if q == 'unk':
                    r = q
                o += z
            return r
    return 'unk'


def under(t, asm):
    m = {}
    for c, v in asm:
        m[c] = TRUE if v else FALSE
        if c.k == 'eq0' and v:
            x, y = solve(c.a[0])
            if x is not None:
                m[x] = y
    return subst(t, m)


def under2(t, asm):
    if isinstance(t, tuple):
        return tuple(under2(x, asm) for x in t)
    return under(t, asm) if isinstance(t, T) else t


def solve(d):
    """d == 0  ->  (atom, value)"""
    if d.k != '+':
        return (d, C(0, d.w)) if d.k in ('csize', 'slack', 'in', 'ld', 'len') else (None, None)
    for x, k in d.a[1]:
        if x.k in ('csize', 'slack', 'in', 'ld', 'len') and k in (1, (1 << d.w) - 1):
            rest = sub(d, scale(x, k))
            if not has(rest, x):
                return x, (scale(rest, -1) if k == 1 else rest)
    return None, None


# ---------------------------------------------------------------- traces
class Ev:
    """A normalised event list element."""
    __slots__ = ('k', 'val', 'n', 'loc', 'x', 'ta', 'tb')

    def __init__(s, k, val=None, n=None, loc='', x=None, ta=None, tb=None):
        s.k = k
        s.val = val
        s.n = n
        s.loc = loc
        s.x = x
        s.ta = ta
        s.tb = tb

    def __repr__(s):
        if s.k == 'loop':
            return 'loop %s x %s %r' % (show(s.x), show(s.val), s.ta)
        if s.k == 'if':
            return 'if %s %r else %r' % (show(s.val), s.ta, s.tb)
        return '%s(%s)' % (s.k, show(s.val)[:60] if isinstance(s.val, T) else s.val)


def norm(evs, want):
    """Keep the events selected by want(ev) -> Ev or None, with their structure."""
    r = []
    for e in evs:
        if e[0] == 'loop':
            b = norm(e[1].body, want)
            if b:
                r.append(Ev('loop', e[1].trip, None, e[1].loc, e[1].K, b))
        elif e[0] == 'if':
            a, b = norm(e[2], want), norm(e[3], want)
            if a or b:
                r.append(Ev('if', e[1], None, e[4], None, a, b))
        else:
            x = want(e)
            if x is not None:
                r.append(x)
    return simplify(r)


def simplify(evs):
    r = []
    for e in evs:
        if e.k == 'if':
            if e.val is TRUE:
                r += e.ta
                continue
            if e.val is FALSE:
                r += e.tb
                continue
            z = flat(e)
            if z is not None:
                r += z
                continue
        if e.k == 'loop' and e.val is Z:
            continue
        r.append(e)
    return r


def flat(e):
    """if (n != 0) { A } else { } where A is empty anyway when n == 0."""
    c = e.val
    for cc, full, empty in ((c, e.tb, e.ta), (bnot(c), e.ta, e.tb)):
        # cc holds where `empty` runs
        if empty or cc.k != 'eq0':
            continue
        x, y = solve(cc.a[0])
        if x is not None and not sub_evs(full, {x: y}):
            return full
    return None


def sub_evs(evs, m, memo=None):
    memo = memo if memo is not None else {}
    f = lambda t: subst(t, m, memo) if isinstance(t, T) else tuple(f(x) for x in t) if isinstance(t, tuple) else t
    return map_evs(evs, f)


def map_evs(evs, f):
    r = []
    for e in evs:
        if e.k == 'loop':
            n = f(e.val)
            if n is Z:
                continue
            b = map_evs(e.ta, f)
            if b:
                r.append(Ev('loop', n, None, e.loc, f(e.x), b))
        elif e.k == 'if':
            c = f(e.val)
            if c is TRUE:
                r += map_evs(e.ta, f)
            elif c is FALSE:
                r += map_evs(e.tb, f)
            else:
                x = Ev('if', c, None, e.loc, None, map_evs(e.ta, f), map_evs(e.tb, f))
                if x.ta or x.tb:
                    z = flat(x)
                    r += z if z is not None else [x]
        else:
            n = f(e.n) if e.n is not None else None
            if n is Z and e.k == 'item':
                continue
            if e.k == 'guard':
                v = f(e.val)
                if v is not TRUE:
                    r.append(Ev('guard', v, None, e.loc))
                continue
            r.append(Ev(e.k, f(e.val), n, e.loc, e.x))
    return r


def want_write(e):
    return Ev('item', e[1], e[2], e[4]) if e[0] == 'write' else None


def want_read(e):
    if e[0] == 'read':
        return Ev('item', e[1], e[2], e[4])
    if e[0] == 'guard' and not stateguard(e[1]):
        return Ev('guard', e[1], None, e[2])
    return None


def stateguard(c):
    """A condition on the stream having delivered the bytes (short input is the
    subject of a property of its own)."""
    if c.k == 'not':
        return stateguard(c.a[0])
    if c.k == 'and':
        return stateguard(c.a[0]) and stateguard(c.a[1])
    return c.k in ('iofail', 'ioeof', 'iobad', 'thrown', 'uthrow') or c.k in ('eq0', 'ult', 'slt') and hask(c, ('gcount',))


def want_see(e):
    return Ev('see', e[2], None, e[3], e[1]) if e[0] == 'see' else None


# ---------------------------------------------------------------- alignment
class Leaf:
    def __init__(s, status, msg='', loc='', asm=(), env=None):
        s.status = status
        s.msg = msg
        s.loc = loc
        s.asm = asm
        s.env = env

    def __repr__(s):
        return '%s %s @%s %s' % (s.status, s.msg, s.loc, [(show(c), v) for c, v in s.asm])


class Align:
    LIMIT = 400

    def __init__(s, what='written', got='read'):
        s.nleaf = 0
        s.items = 0
        s.worlds = 0
        s.what = what
        s.got = got
        s.undecided = []

    def inst(s, env):
        """Substitution of the items read by the values written."""
        memo = {}

        def f(t):
            if isinstance(t, tuple):
                return tuple(f(x) for x in t)
            if not isinstance(t, T):
                return t
            r = memo.get(t)
            if r is not None:
                return r
            if t.k == 'in' and t.a[0] in env:
                idx = tuple(f(x) for x in t.a[1])
                for pat, val in env[t.a[0]]:
                    m = match(pat, idx)
                    if m is not None:
                        r = subst(val, m) if m else val
                        break
                else:
                    r = mk('in', t.a[0], idx, w=t.w)
            elif t.k in ('iofail', 'ioeof', 'iobad'):
                r = FALSE
            elif t.k == 'K' and t in env:
                r = env[t]
            elif any(x.k in ('iofail', 'ioeof', 'iobad') or x.k == 'in' and x.a[0] in env or x.k == 'K' and x in env for x in atoms(t)):
                r = rebuild(t, f)
            else:
                r = t
            memo[t] = r
            return r
        return f

    def run(s, W, R, env=None, asm=()):
        """Returns leaves: one per world."""
        env = dict(env or {})
        return s.al(list(W), list(R), env, tuple(asm))

    def world(s, W, R, env, asm, c, loc):
        """Split on condition c."""
        s.worlds += 1
        if s.worlds > s.LIMIT:
            return [Leaf('unk', 'too many cases', loc, asm, env)]
        out = []
        while c.k == 'not':
            c = c.a[0]
        for v in (True, False):
            a2 = asm + ((c, v),)
            m = {c: TRUE if v else FALSE}
            if c.k == 'eq0' and v:
                x, y = solve(c.a[0])
                if x is not None:
                    m[x] = y
                elif c.a[0].k == 'K' or c.a[0].k == '+':
                    pass
            if contradictory(a2):
                continue
            W2 = sub_evs(W, m)
            f = s.inst(env)
            R2 = sub_evs(map_evs(R, f), m)
            e2 = {}
            for k, l in env.items():
                e2[k] = subst(l, m) if isinstance(l, T) else [(subp(p, m), subst(x, m)) for p, x in l]
            out += s.al(W2, R2, e2, a2)
        return out

    def al(s, W, R, env, asm):
        bad = []
        W = list(W)
        R = list(R)
        while W or R:
            f = s.inst(env)
            r = R[0] if R else None
            w = W[0] if W else None
            if r is not None and r.k == 'guard':
                c = f(r.val)
                R.pop(0)
                q = s.guard(c, asm)
                if q == 'diff':
                    bad.append(Leaf('diff', 'input that was %s is rejected here' % s.what, r.loc, asm, env))
                    return bad
                if q == 'unk':
                    s.undecided.append(('guard', r.loc))
                continue
            if r is not None and r.k in ('if', 'loop'):
                r2 = map_evs([r], f)
                if len(r2) != 1 or r2[0].k != r.k:
                    R[:1] = r2
                    continue
                r = r2[0]
            if w is None or r is None:
                x = w or r
                if x.k == 'if':
                    # local: only matters when the branch does something
                    return bad + s.world(W, R, env, asm, x.val if w is None else f(x.val), x.loc)
                if x.k == 'loop':
                    q = nonzero(x.val, asm)
                    if q is None:
                        s.undecided.append(('loop', x.loc))
                        return bad + [Leaf('unk', 'extra loop', x.loc, asm, env)]
                    if q is False:
                        (W if w is not None else R).pop(0)
                        continue
                if w is None and not any(y.k != 'guard' for y in [x]):
                    continue
                bad.append(Leaf('diff', ('%s but never %s' % (s.what, s.got)) if w is not None else ('%s without having been %s' % (s.got, s.what)), x.loc, asm, env))
                return bad
            if w.k == 'if' and r.k == 'if':
                cw, cr = w.val, r.val
                sw = same(cw, cr)
                if sw is not None:
                    ra, rb = (r.ta, r.tb) if sw else (r.tb, r.ta)
                    la = s.al(w.ta, ra, env, asm + lit(cw, True))
                    lb = s.al(w.tb, rb, env, asm + lit(cw, False))
                    oka = [x for x in la if x.status == 'ok']
                    okb = [x for x in lb if x.status == 'ok']
                    if len(la) == 1 and len(lb) == 1 and oka and okb:
                        env = joinenv(la[0].env, lb[0].env)
                        W.pop(0)
                        R.pop(0)
                        continue
                return bad + s.world(W, R, env, asm, w.val, w.loc)
            if w.k == 'if' or r.k == 'if':
                x = w if w.k == 'if' else r
                return bad + s.world(W, R, env, asm, x.val, x.loc)
            if w.k == 'loop' and r.k == 'loop':
                q = eqv(w.val, r.val, asm)
                if q == 'eq':
                    e2 = dict(env)
                    e2[r.x] = w.x
                    Facts.trip.setdefault(w.x, w.val)
                    body = sub_evs(r.ta, {r.x: w.x})
                    ls = s.al(w.ta, body, e2, asm)
                    if len(ls) == 1 and ls[0].status == 'ok':
                        env = ls[0].env
                        W.pop(0)
                        R.pop(0)
                        continue
                    d = [x for x in ls if x.status == 'diff']
                    if d:
                        # only if the loop runs at all
                        if nonzero(w.val, asm) is not False:
                            return bad + d
                    # the body splits into several cases: each must align
                    if all(x.status == 'ok' for x in ls):
                        env = joincases(env, ls, len(asm))
                        W.pop(0)
                        R.pop(0)
                        continue
                    return bad + [x for x in ls if x.status != 'ok']
                if q == 'diff':
                    return bad + [Leaf('diff', 'a different number of elements is %s than was %s: %s, not %s' % (s.got, s.what, show(r.val)[:100], show(w.val)[:100]), r.loc, asm, env)]
                return bad + [Leaf('unk', 'loop bounds %s / %s' % (show(w.val)[:100], show(r.val)[:100]), r.loc, asm, env)]
            if w.k == 'loop' or r.k == 'loop':
                l, o = (w, r) if w.k == 'loop' else (r, w)
                q = nonzero(l.val, asm)
                if l.val.k == 'c' and l.val.a[0] <= 16:
                    exp = []
                    for i in range(l.val.a[0]):
                        exp += sub_evs(l.ta, {l.x: C(i)})
                    if l is w:
                        W[:1] = exp
                    else:
                        R[:1] = exp
                    continue
                return bad + [Leaf('unk', 'a loop against a single item', r.loc, asm, env)]
            # two items / observations
            if w.k != r.k:
                return bad + [Leaf('diff', 'unexpected %s' % r.k, r.loc, asm, env)]
            s.items += 1
            if w.k == 'item':
                q = eqv(w.n, f(r.n), asm)
                if q == 'diff':
                    return bad + [Leaf('diff', 'an item of %s bytes was %s where %s bytes are %s' % (show(w.n)[:60], s.what, show(f(r.n))[:60], s.got), r.loc, asm, env)]
                if q == 'unk':
                    return bad + [Leaf('unk', 'item sizes %s / %s' % (show(w.n)[:80], show(f(r.n))[:80]), r.loc, asm, env)]
                it = r.val
                env = dict(env)
                v = w.val
                if it.w and v.w != it.w and v.k not in ('undef',):
                    v = fit(v, it.w)
                idx = tuple(f(x) for x in it.a[1])
                env[it.a[0]] = [(idx, v)] + [p for p in env.get(it.a[0], ()) if p[0] != idx]
            else:
                if w.x != r.x:
                    return bad + [Leaf('diff', 'different observations', r.loc, asm, env)]
                for a, b in zip(w.val, r.val):
                    q = eqv(a, f(b), asm)
                    if q == 'diff':
                        bad.append(Leaf('diff', 'value %s became %s' % (show(a)[:120], show(f(b))[:160]), r.loc, asm, env))
                        return bad
                    if q == 'unk':
                        s.undecided.append(('value', r.loc, show(a)[:200], show(f(b))[:300]))
                        bad.append(Leaf('unk', 'value %s / %s' % (show(a)[:120], show(f(b))[:200]), r.loc, asm, env))
            W.pop(0)
            R.pop(0)
        if bad:
            return bad
        return [Leaf('ok', '', '', asm, env)]

    def guard(s, c, asm):
        c = under(c, asm) if asm else c
        if c is TRUE:
            return 'eq'
        if c is FALSE:
            return 'diff'
        return 'diff' if witness(lambda ev: not ev.ev(c), [c], asm) else 'unk'


def lit(c, v):
    while c.k == 'not':
        c = c.a[0]
        v = not v
    return ((c, v),)


def contradictory(asm):
    d = {}
    for c, v in asm:
        if d.get(c, v) != v:
            return True
        d[c] = v
    cur = asm[-1]
    t = under(cur[0], asm[:-1])
    if t.k == 'c' and bool(t.a[0]) != cur[1]:
        return True
    # two different constants for one quantity
    if cur[1] and cur[0].k == 'eq0':
        for c, v in asm[:-1]:
            if v and c.k == 'eq0' and c.a[0].w == cur[0].a[0].w:
                d = sub(c.a[0], cur[0].a[0])
                if d.k == 'c' and d.a[0]:
                    return True
    return False


def same(a, b):
    if a is b:
        return True
    if a is bnot(b):
        return False
    return None


def subp(p, m):
    return tuple(subst(x, m) for x in p)


def joinenv(a, b):
    r = dict(a)
    for k, v in b.items():
        if k not in r:
            r[k] = v
        elif r[k] is not v and isinstance(v, list):
            r[k] = v + [x for x in r[k] if x not in v]
    return r


def joincases(env, leaves, n):
    """Bindings made in the cases of a loop body: each holds in its case."""
    r = dict(env)
    r.update({k: v for x in leaves for k, v in x.env.items() if isinstance(v, T) and k not in env})
    for x in reversed(leaves):
        c = TRUE
        for d, v in x.asm[n:]:
            c = band(c, d if v else bnot(d))
        for k, v in x.env.items():
            if k in env or not isinstance(v, list):
                continue
            old = dict(r.get(k) or ())
            new = []
            for idx, val in v:
                o = old.pop(idx, None)
                new.append((idx, val if o is None or o is val or o.w != val.w else ite(c, val, o)))
            r[k] = new + list(old.items())
    return r


def match(pat, idx):
    if pat == idx:
        return {}
    if len(pat) != len(idx):
        return None
    m = {}
    for p, i in zip(pat, idx):
        if p is i:
            continue
        if p.k == 'K':
            if m.get(p, i) is not i:
                return None
            m[p] = i
        else:
            return None
    return m


def fit(v, w):
    if isptr(v):
        return v
    if v.w == 1 and w > 1:
        return zext(v, w)
    if v.w > w:
        return trunc(v, w)
    return v


def nonzero(n, asm):
    """True: provably non-zero for some input; False: provably zero."""
    n = under(n, asm) if asm else n
    if n is Z:
        return False
    if n.k == 'c':
        return True
    return True if witness(lambda ev: ev.ev(n) != 0, [n], asm) else None


# ---------------------------------------------------------------- totals
def total(evs):
    r = Z
    for e in evs:
        if e.k == 'item':
            r = add(r, e.n)
        elif e.k == 'loop':
            r = add(r, tsum(e.x, e.val, total(e.ta)))
        elif e.k == 'if':
            r = add(r, ite(e.val, total(e.ta), total(e.tb)))
    return r
