"""What is asked of the caller's stream (C12)."""
import limits
from cmp import *
from terms import *

HARMLESS = ('flush', 'tellg', 'tellp', 'good', 'rdbuf', 'exceptions', 'width', 'precision', 'flags', 'getloc', 'tie', 'narrow', 'widen', 'fill')
WAYS = (('the input ends', {'ioeof': TRUE, 'iobad': FALSE}),
        ('the stream breaks', {'ioeof': FALSE, 'iobad': TRUE}),
        ('the stream had failed before', {'ioeof': FALSE, 'iobad': FALSE}))


def reads(tr, r=None, path=()):
    """The reads, each with the branches it lies in."""
    r = [] if r is None else r
    for e in tr:
        if e[0] == 'read' and e[3] is None:
            r.append((e, path))
        elif e[0] == 'if':
            reads(e[2], r, path + lit(e[1], True))
            reads(e[3], r, path + lit(e[1], False))
        elif e[0] == 'loop':
            reads(e[1].body, r, path)
    return r


def outcome(v, f):
    """State v of the stream, f giving the value after a certain read."""
    if v.k == 'ite':
        a, b = outcome(v.a[1], f), outcome(v.a[2], f)
        return None if a is None or b is None else ite(v.a[0], a, b)
    return f(v.a[0]) if v.k == 'rdseq' else None


def state_atoms(tr, r=None):
    """Atoms describing the state of the stream."""
    r = set() if r is None else r

    def look(t):
        for x in [t] + list(atoms(t)):
            if x.k in ('iofail', 'ioeof', 'iobad', 'gcount'):
                r.add(x)
    for e in tr:
        if e[0] in ('guard', 'if'):
            look(e[1])
        if e[0] == 'if':
            state_atoms(e[2], r)
            state_atoms(e[3], r)
        elif e[0] == 'loop':
            state_atoms(e[1].body, r)
        elif e[0] == 'read':
            look(e[2])
    return r


@limits.bounded(60, lambda: ([Leaf('unk', 'out of time')], 0))
def shortfalls(s):
    """For each read of the stream: if it fails, so do the later ones; nothing
    read is used and no path reaches the normal exit."""
    out = []
    if s.st is None:
        return [Leaf('unk', 'never returns normally', '')], 0
    rs = reads(s.trace)
    sa = state_atoms(s.trace)
    pos = {e[1].a[0]: i for i, (e, _) in enumerate(rs)}
    for i, (e, path) in enumerate(rs):
        later = {x[1].a[0] for x, _ in rs[i:]}
        for what, fl in WAYS:
            m = {c: TRUE if v else FALSE for c, v in path}

            def after(rid, k):
                j = pos.get(rid)
                if j is None:
                    return None
                n = rs[j][0][2]
                if k == 'gcount':
                    return n if j < i else sub(n, C(1)) if j == i and what != WAYS[2][0] else Z
                return FALSE if j < i else TRUE if k == 'iofail' else fl[k]
            for x in sa:
                v = outcome(x.a[0], lambda rid: after(rid, x.k))
                if v is None:
                    return [Leaf('unk', 'state of the stream %s' % x, '')], 0
                m[x] = subst(v, m)
            w = Follow(e, later, m, what, out)
            if w.seq(s.trace) is not BLOCKED and not w.used:
                out.append(Leaf('diff', 'returns normally although %s when %s bytes are read' % (what, e[2]), e[4]))
            elif not w.used:
                out.append(Leaf('ok', '', e[4]))
    return out, len(rs)


BLOCKED = 'blocked'


class Follow:
    def __init__(s, e, later, m, what, out):
        s.e, s.later, s.m, s.what, s.out = e, later, m, what, out
        s.on = False
        s.used = False

    def uses(s, x):
        if isinstance(x, tuple):
            return any(s.uses(y) for y in x)
        return isinstance(x, T) and any(a.k == 'in' and a.a[0] in s.later for a in [x] + list(atoms(x)))

    def seq(s, tr):
        """BLOCKED when no path of the trace gets to its end after the read."""
        for e in tr:
            if s.used:
                return BLOCKED
            if e[0] == 'guard':
                c = subst(e[1], s.m)
                if c is FALSE:
                    if s.on:
                        return BLOCKED
                elif s.on and s.uses(c):
                    s.use(e, 'decided by')
            elif e[0] == 'if':
                c = subst(e[1], s.m)
                if s.on and s.uses(c):
                    s.use(e, 'decided by')
                    return BLOCKED
                was = s.on
                arms = []
                for sub_, v in ((e[2], True), (e[3], False)):
                    if c.k == 'c' and bool(c.a[0]) != v:
                        continue
                    s.on = was
                    arms.append((s.seq(sub_), s.on))
                s.on = any(o for b, o in arms)
                live = [a for a in arms if a[0] is not BLOCKED]
                if not live:
                    if arms and s.on:
                        return BLOCKED
                elif s.on and not was:
                    # the read is in one arm: that arm decides
                    if all(b is BLOCKED for b, o in arms if o):
                        return BLOCKED
            elif e[0] == 'loop':
                if s.on and s.uses(e[1].trip):
                    s.use(e, 'repeated by')
                    return BLOCKED
                was = s.on
                if s.seq(e[1].body) is BLOCKED and not was:
                    return BLOCKED
            elif e is s.e:
                s.on = True
            elif s.on and e[0] == 'read':
                if s.uses(e[2]):
                    s.use(e, 'the length read is')
            elif s.on and e[0] in ('see', 'write', 'alloc', 'user', 'ctor', 'copyctor', 'ask'):
                if s.uses(tuple(x for x in e[1:] if isinstance(x, (T, tuple)))):
                    s.use(e, {'see': 'shown to the user', 'alloc': 'the amount allocated is'}.get(e[0], 'passed on'))
        return None

    def use(s, e, how):
        s.used = True
        s.out.append(Leaf('diff', 'missing data is used (%s) although %s when %s bytes are read' % (how, s.what, s.e[2]), s.e[4]))


def touches(tr, out, arg, asm=()):
    """Nothing else is done to the stream."""
    for e in tr:
        if e[0] == 'streamop':
            p = e[2]
            if e[1] in HARMLESS:
                continue
            mine = p.k == 'p' and p.a[0] is arg
            out.append(Leaf('diff' if mine else 'unk' if p.k != 'p' or p.a[0].k in ('pt',) else 'ok', '%s is applied to the stream' % e[1], e[3], asm))
        elif e[0] == 'if':
            touches(e[2], out, arg, asm)
            touches(e[3], out, arg, asm)
        elif e[0] == 'loop':
            touches(e[1].body, out, arg, asm)
    return out
