"""How objects are created (C17)."""
import limits
from cmp import *
from terms import *

# the ways each class of witness/cons.cc offers -> the one that must be used
WAYS = {'D': 'default', 'DI': 'reconstruct', 'DT': 'tag', 'DTI': 'tag', 'T': 'tag', 'TI': 'tag', 'I': 'reconstruct',
        'DN': 'reconstruct', 'N': 'reconstruct', 'TN': 'tag', 'DTN': 'tag', 'DS': 'reconstruct', 'Sp': 'reconstruct',
        'TSp': 'tag', 'MO': 'tag', 'MOI': 'reconstruct'}
DEFAULTABLE = {'D', 'DI', 'DT', 'DTI', 'DN', 'DTN', 'DS'}


def way(params):
    if 'SERIALIZE_CONSTRUCT_TAG' in params:
        return 'tag'
    if params.strip('()') in ('', 'void'):
        return 'default'
    return 'reconstruct'


def paths(tr, limit=4000):
    """Every combination of branches, as flat event lists (loop bodies once)."""
    ps = [((), [])]
    for e in tr:
        if e[0] == 'if':
            n = []
            for c, p in ps:
                for sub, v in ((e[2], True), (e[3], False)):
                    l = lit(e[1], v)
                    if contradictory(c + l):
                        continue
                    for c2, p2 in paths(sub, limit):
                        if not contradictory(c + l + c2):
                            n.append((c + l + c2, p + p2))
            ps = n
        elif e[0] == 'loop':
            n = []
            for c, p in ps:
                for c2, p2 in paths(e[1].body, limit):
                    n.append((c + c2, p + [('enter',)] + p2 + [('leave',)]))
            ps = n
        else:
            for _, p in ps:
                p.append(e)
        if len(ps) > limit:
            raise OverflowError
    return ps


def base(p, asm):
    if p is None:
        return None
    p = under(p, asm)
    return p.a[0] if p.k == 'p' else None


@limits.bounded(60, lambda: [Leaf('unk', 'out of time')])
def created(s, how, cls):
    """Leaves for one entry point x_<how>_<cls>."""
    out = []
    want = WAYS[cls]
    name = 'wit::' + cls
    try:
        ps = paths(s.trace)
    except OverflowError:
        return [Leaf('unk', 'too many paths', '')]
    for c, p in ps:
        alive = {}
        n = 0
        bad = False
        for e in p:
            if e[0] == 'ctor' and e[1] == name:
                b = base(e[3], c)
                w = way(e[2])
                n += 1
                if w != want and not (how == 'v' and cls in DEFAULTABLE and w == 'default'):
                    out.append(Leaf('diff', 'an object of class %s (%s) is created by its %s constructor' % (cls, want, w), e[4], c))
                    bad = True
                if b is not None and alive.get(b):
                    out.append(Leaf('diff', 'an object is created twice on the same memory', e[4], c))
                    bad = True
                if b is not None:
                    alive[b] = True
                if how == 'p' and b is not None and b.k == 'ext' and under(e[3], c).a[1] is not Z:
                    out.append(Leaf('diff', 'the object is not created at the start of the memory supplied', e[4], c))
            elif e[0] == 'copyctor' and e[1] == name:
                b = base(e[2], c)
                if b is not None:
                    alive[b] = True
            elif e[0] == 'dtor' and e[1] == name:
                b = base(e[2], c)
                if b is not None:
                    alive[b] = False
            elif e[0] == 'read' and e[5] is not None and e[2] is C(8) and how in 'tbpuo':
                b = base(e[5], c)
                if b is not None and b.k in ('hp', 'ext') and not alive.get(b):
                    out.append(Leaf('diff', 'data is read into memory where no object was created', e[4], c))
                    bad = True
        if how in 'tbp' and n != 1:
            out.append(Leaf('diff', '%d objects are created instead of one' % n, '', c))
            bad = True
        if how == 'u' and n > 1:
            out.append(Leaf('diff', '%d objects are created instead of one' % n, '', c))
            bad = True
        if not bad:
            out.append(Leaf('ok', '', '', c))
    return out
