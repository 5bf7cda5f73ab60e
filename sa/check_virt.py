"""Class hierarchies (C15, C16): what happens to an object of a known dynamic
type that is written, and what the reader does with what was written."""
import limits
from cmp import *
from terms import *
from check_fx import flatten

# class -> levels, root first; level -> the members it serializes
CHAIN = {'Base': [0], 'Mid': [0, 1], 'Low': [0, 1, 2], 'Side': [0, 3], 'Root': [4], 'Abs': [4, 5], 'End': [4, 5, 6], 'End2': [4, 5, 6, 7], 'null': [],
         'One': [20], 'Two': [21, 22], 'Three': [23, 24, 25]}
FIELDS = {0: [0], 1: [1], 2: [2], 3: [3, 4], 4: [5], 5: [6], 6: [7], 7: [8]}


def late():
    return [Leaf('unk', 'out of time')]


class Stuck(Exception):
    """The reader refuses what was written, or takes something else."""


class Unknown(Exception):
    pass


FAILS = ('sysfail', 'iofail', 'ioeof', 'iobad', 'uthrow', 'thrown')


class Line:
    """The straight sequence of events of a trace all of whose decisions are
    determined: reads deliver the items given, nothing fails."""

    def __init__(s, items=None):
        s.items = list(items) if items is not None else None
        s.at = 0
        s.vals = {}
        s.out = []

    def val(s, t):
        if not isinstance(t, T):
            return t
        m = {}
        for x in atoms(t):
            if x.k == 'in' and x.a[0] in s.vals:
                v = s.vals[x.a[0]]
                if v.w != x.w:
                    v = trunc(v, x.w) if v.w > x.w else zext(v, x.w)
                m[x] = v
            elif x.k in FAILS:
                m[x] = FALSE
            elif x.k == 'syserr':
                m[x] = C(0, x.w)
        return subst(t, m) if m else t

    def run(s, tr):
        for e in tr:
            k = e[0]
            if k == 'if':
                c = s.val(e[1])
                if c.k == 'c':
                    s.run(e[2] if c.a[0] else e[3])
                elif any(x[0] in ('read', 'write', 'user', 'see', 'alloc') for x, _ in flatten(e[2] + e[3])):
                    raise Unknown('decision on %s' % str(c)[:100], e[4] if len(e) > 4 else '')
            elif k == 'guard':
                c = s.val(e[1])
                if c is FALSE:
                    raise Stuck('what was written is refused', e[-1])
            elif k == 'loop':
                s.loop(e)
            elif k == 'read':
                if s.items is None:
                    raise Unknown('reads', e[4])
                if s.at >= len(s.items):
                    raise Stuck('more is read than was written', e[4])
                v, n, loc = s.items[s.at]
                s.at += 1
                z = s.val(e[2])
                if z is not n:
                    raise Stuck('%s bytes are read where %s were written' % (z, n), e[4])
                s.vals[e[1].a[0]] = v
                s.out.append(('read', v, n, e[4]))
            elif k == 'write':
                s.out.append(('write', s.val(e[1]), s.val(e[2]), e[4]))
            elif k in ('user', 'see'):
                s.out.append((k, e[1], tuple(s.val(x) for x in e[2]), e[-1]))
            elif k == 'alloc':
                s.out.append(('alloc', e[1], s.val(e[2]), e[3]))
            elif k == 'free':
                s.out.append(('free', e[1], e[-1]))
        return s

    def loop(s, e):
        L = e[1]
        n = s.val(L.trip)
        if any(x[0] in ('read', 'write', 'user', 'see', 'alloc') for x, _ in flatten(L.body)):
            raise Unknown('repetition', e[-1] if isinstance(e[-1], str) else '')


def written(line):
    return [e[1:] for e in line if e[0] == 'write']


def calls(line, name):
    return [(e[2], e[-1]) for e in line if e[0] == 'user' and e[1] == name]


def levels(line):
    return [(a[1].a[0] - 10, a[0], loc) for a, loc in calls(line, 'visit')]


def names(ch):
    n = {v[-1]: k for k, v in CHAIN.items() if v}
    return ' > '.join(n.get(l, str(l)) for l in ch) or 'none'


def member(v):
    """The opaque value a written or shown term is made of."""
    r = [x for x in atoms(v) if x.k == 'opq' and x.a[0] == 'pick']
    return r[0] if len(r) == 1 else None


def linear(cx, e, items=None):
    s = cx.sum(e)
    if s.err:
        return None, Leaf('unk', s.err)
    if s.st is None:
        return None, Leaf('diff', 'never returns normally', s.outs[0].loc if s.outs else '')
    try:
        l = Line(items)
        l.run(s.trace)
        return l, None
    except Stuck as x:
        return None, Leaf('diff', x.args[0], x.args[1])
    except Unknown as x:
        return None, Leaf('unk', x.args[0], x.args[1])


WRITERS = ('sz_', 'fp_', 'wr_', 'ws_', 'mw_', 'mn_', 'fw_')


@limits.bounded(60, late)
def order(cx, e, cls):
    """C16 for an operation on an object of class cls."""
    l, bad = linear(cx, e)
    if bad:
        return [bad]
    out = []
    lv = levels(l.out)
    want = CHAIN[cls]
    got = [n for n, p, loc in lv]
    n = len(want)
    loc = lv[-1][2] if lv else ''
    once = e[:3] in ('sz_', 'fp_')
    if n and (not got or len(got) % n or got != want * (len(got) // n)) or not n and got or once and got != want:
        i = next((i for i, x in enumerate(got) if i >= len(want) * 2 or x != (want * 2)[i]), len(got))
        out.append(Leaf('diff', 'the levels %s are visited instead of %s%s' % (names(got), names(want), '' if once else ', once for each pass'), lv[i][2] if i < len(lv) else loc))
    else:
        out += [Leaf('ok', '', loc)] * max(1, len(got))
    obj = {p for n, p, loc in lv}
    mk_ = {a[0] for a, loc in calls(l.out, 'made')}
    for p in obj - mk_:
        out.append(Leaf('diff' if p.k == 'p' else 'unk', 'a level is visited on something other than the object', loc))
    if e[:3] not in ('sz_', 'fp_'):
        vs = [member(v) for v, z, lc in written(l.out)]
        vs = [v for v in vs if v is not None]
        if len(vs) != len(set(vs)):
            out.append(Leaf('diff', 'a member is written twice', loc))
        exp = sum(len(FIELDS[x]) for x in want)
        if len(vs) != exp:
            out.append(Leaf('diff', '%d members of the object are written, it has %d' % (len(vs), exp), loc))
        # in the order of the constructors, which is that of the levels
        made = pickorder(cx, e)
        if made and len(vs) == len(made) and vs != made:
            out.append(Leaf('diff', 'the members are not written in the order of the levels', loc))
    return out


def pickorder(cx, e):
    ps = set()
    for x, _ in flatten(cx.sum(e).trace):
        if x[0] == 'write' and isinstance(x[1], T):
            v = member(x[1])
            if v is not None:
                ps.add(v)
    return sorted(ps, key=lambda v: v.a[1])


PAIRS = (('wr_', 'rd_'), ('ws_', 'rs_'), ('mw_', 'mr_'), ('mn_', 'mr_'), ('fw_', 'fr_'))


@limits.bounded(60, lambda: (late(), []))
def recreated(cx, w, r, P, cls):
    """(C15 leaves, C16 leaves) for the reader r reading what w wrote."""
    a, b = [], []
    L, bad = linear(cx, w)
    if bad:
        return [bad], []
    R, bad = linear(cx, r, written(L.out))
    if bad:
        return [bad], []
    if R.at != len(R.items):
        return [Leaf('diff', '%d items written are not read' % (len(R.items) - R.at), R.out[-1][-1] if R.out else '')], []
    want = CHAIN[cls]
    inpl = r[:3] in ('ip_', 'mi_')
    made = [(x[1].a[0], x[0], loc) for x, loc in calls(R.out, 'made')]
    had = CHAIN[r.split('_')[2]] if inpl else []
    keep = inpl and had and want
    exp = had + (want if not keep else [])
    got = [n for n, p, loc in made]
    see = [(x[2][0], x[-1]) for x in R.out if x[0] == 'see' and x[1] == 'see_p']
    loc = made[-1][2] if made else see[0][1] if see else ''
    if got != exp:
        a.append(Leaf('diff', 'an object written as %s is read as %s' % (cls, names(got[len(had):])), loc))
    else:
        a.append(Leaf('ok', '', loc))
    obj = made[-1][1] if made and want else NULL
    for p, lc in see:
        same = p is obj or p.k == 'c' and obj.k == 'c'
        a.append(Leaf('ok' if same else 'diff' if p.k in ('p', 'c') else 'unk', 'the pointer read is %s, not the object created' % str(p)[:60], lc))
    if want and not keep:
        al = {x[1]: x for x in R.out if x[0] == 'alloc'}
        src = [x for x in L.out if x[0] == 'alloc' and ptr(x[1]) in {y[0] for y, _ in calls(L.out, 'made')}]
        dst = al.get(obj.a[0]) if obj.k == 'p' else None
        if dst is None:
            a.append(Leaf('diff', 'the object is not constructed in memory allocated for it', loc))
        elif src:
            z, y = src[0][2], dst[2]
            ok = z.k == 'c' and y.k == 'c' and y.a[0] >= z.a[0]
            a.append(Leaf('ok' if ok else 'diff' if z.k == y.k == 'c' else 'unk', '%s bytes are allocated for an object of %s bytes' % (y, z), dst[3]))
    lv = levels(R.out)
    g = [n for n, p, lc in lv]
    lc = lv[-1][2] if lv else loc
    if g != want:
        b.append(Leaf('diff', 'the levels %s are read instead of %s' % (names(g), names(want)), lc))
    else:
        b += [Leaf('ok', '', lc)] * max(1, len(g))
    for n, p, lc in lv:
        if p is not obj:
            b.append(Leaf('diff' if p.k == 'p' else 'unk', 'a level is read into something other than the object', lc))
    # what the members hold
    wr = [v for v, z, l2 in written(L.out) if member(v) is not None]
    sh = [(x[2][0], x[-1]) for x in R.out if x[0] == 'see' and x[1] == 'see_i']
    if want and len(sh) == len(wr):
        for v, (x, l2) in zip(wr, sh):
            y = sext(v, x.w) if v.w < x.w else v
            q = eqv(x, y, ())
            b.append(Leaf('ok' if q == 'eq' else 'diff' if q == 'diff' else 'unk', 'a member written as %s is read as %s' % (str(y)[:60], str(x)[:60]), l2))
    elif want:
        b.append(Leaf('diff', '%d members are shown, %d were written' % (len(sh), len(wr)), lc))
    return a, b


@limits.bounded(60, late)
def recordedonce(cx, w, P, cls):
    """The dynamic type is one item more than a null pointer takes."""
    out = []
    base = {'Base': 'Base', 'Mid': 'Base', 'Root': 'Root', 'Abs': 'Root'}[P]
    L, bad = linear(cx, w + P + '_' + cls)
    N, bad2 = linear(cx, w + base + '_null')
    if bad or bad2:
        return [bad or bad2]
    x = [(v, z, l) for v, z, l in written(L.out) if member(v) is None]
    y = written(N.out)
    if cls == 'null':
        ok = not any(member(v) is not None for v, z, l in y)
        return [Leaf('ok' if ok else 'diff', 'data is written for a null pointer', y[-1][2] if y else '')]
    if len(x) != len(y) + 1:
        return [Leaf('diff', 'besides its members, an object takes %d items more than a null pointer, instead of the record of its dynamic type alone' % (len(x) - len(y)), x[-1][2] if x else '')]
    first = next((i for i, e in enumerate(L.out) if e[0] == 'write' and member(e[1]) is not None), None)
    n = sum(1 for e in L.out[:first] if e[0] == 'write')
    return [Leaf('ok' if n >= len(y) else 'diff', 'the dynamic type is recorded after data', L.out[first][-1] if first is not None else '')]


@limits.bounded(60, late)
def recordedwhole(cx, e, cls):
    """The record of the dynamic type holds the number of the class, however
    many classes are registered: with that number unknown, the bytes written
    still determine it."""
    import mem
    gs = [b for b in cx.st0.mem if b.k == 'gl' and 'objregistry4Type' in b.a[0] and b.a[0].endswith('3idxE') and '%d%sE' % (len(cls), cls) in b.a[0] and not b.a[0].startswith('_ZGV')]
    if len(gs) != 1:
        return [Leaf('unk', 'the number of the class is not in one place')]
    st = cx.st0.copy()
    st.mem[gs[0]] = mem.Region(gs[0], 'init')
    keep, cx.cache = cx.cache, {}
    s = cx.sum(e, st)
    cx.cache = keep
    if s.err:
        return [Leaf('unk', s.err)]
    out = []
    for x, _ in flatten(s.trace):
        if x[0] != 'write' or not isinstance(x[1], T):
            continue
        ls = [y for y in [x[1]] + list(atoms(x[1])) if y.k == 'ld' and y.a and isinstance(y.a[0], T) and gs[0] in (y.a[0], *y.a[0].a)]
        if not ls:
            continue
        v = x[1]
        while v.k in ('zext', 'sext'):
            v = v.a[0]
        if v is ls[0] or v.k == '+' and dict(v.a[1]).get(ls[0]) in (1, (1 << v.w) - 1):
            out.append(Leaf('ok', '', x[4]))
        elif v.k == 'trunc' and v.w < ls[0].w:
            out.append(Leaf('diff', 'only %d of the %d bits of the number of the dynamic type are recorded' % (v.w, ls[0].w), x[4]))
        else:
            out.append(Leaf('unk', 'the dynamic type is recorded as %s' % str(v)[:80], x[4]))
    return out or [Leaf('unk', 'the number of the class is not written as such')]


VALUES = {'One': [[30]], 'Two': [[31, 33]], 'Three': [[31, 32, 34]], 'Has': [[31, 33], [31, 32, 34]], 'Own': [[31, 35], [31, 33]]}


@limits.bounded(60, late)
def chained(cx, e):
    """C16 for hierarchy objects held by value: wherever one of an object's
    levels is visited, all are, base first."""
    s = cx.sum(e)
    if s.err:
        return [Leaf('unk', s.err)]
    t = e.split('_', 1)[1]
    cls = next(c for c in VALUES if t.endswith(c))
    out = []

    def has(tr):
        return any(x[0] == 'user' and x[1] == 'visit' for x, _ in flatten(tr))

    def run(tr):
        cur = []
        lost = False
        for x in tr:
            if x[0] == 'user' and x[1] == 'visit':
                lv, p, loc = x[2][1].a[0], x[2][0], x[-1]
                if not cur:
                    cand = VALUES[cls]
                    lost = False
                cand = [c for c in cand if len(c) > len(cur) and c[len(cur)] == lv]
                if not cand:
                    if not lost:
                        out.append(Leaf('diff', 'level %d is visited after %s' % (lv - 29, [l - 29 for l, q in cur] or 'none'), loc))
                    cur = []
                    lost = True
                    cand = VALUES[cls]
                    continue
                if cur and cur[0][1] is not p:
                    out.append(Leaf('diff', 'levels of different objects are visited in turn', loc))
                cur.append((lv, p))
                if cand == [[l for l, q in cur]]:
                    out.append(Leaf('ok', '', loc))
                    cur = []
            elif x[0] in ('if', 'loop'):
                subs = (x[2], x[3]) if x[0] == 'if' else (x[1].body,)
                for y in subs:
                    if has(y):
                        if cur:
                            out.append(Leaf('unk', 'levels are visited in different branches', ''))
                            cur = []
                            lost = True
                        run(y)
        if cur:
            out.append(Leaf('diff', 'the levels after %s are not visited' % [l - 29 for l, q in cur], ''))

    run(s.trace)
    if not out:
        out.append(Leaf('diff', 'no level is visited', s.trace and str(s.trace[0][-1]) or ''))
    return out
