"""Abstract interpreter: computes, for an entry point, a summary that holds for
every input - the ordered effects (as a structured trace with conditionals and
loops), the final abstract memory, and every exceptional exit with the effects
that precede it.  Branches whose condition is not determined are both analysed
and joined at their post-dominator; loops are summarised once for a generic
iteration."""
from terms import *
import mem as M
from mem import Region
from ir import Module


class Unsupported(Exception):
    pass


class Node:
    """Persistent trace: a cons list growing at the end."""
    __slots__ = ('prev', 'ev', 'n')

    def __init__(s, prev, ev):
        s.prev = prev
        s.ev = ev
        s.n = (prev.n if prev else 0) + 1


def events(node, upto=None):
    r = []
    while node is not None and node is not upto:
        r.append(node.ev)
        node = node.prev
    r.reverse()
    return r


class LoopInfo:
    def __init__(s, K):
        s.K = K
        s.trip = None
        s.body = None
        s.loc = None

    def __repr__(s):
        return '<loop %r x %r>' % (s.K, s.trip)


class St:
    __slots__ = ('mem', 'live', 'cons', 'phi', 'asm', 'trace', 'ret')

    def __init__(s):
        s.mem = {}
        s.live = {}
        s.cons = {}
        s.phi = {}
        s.asm = {}
        s.trace = None
        s.ret = None

    def copy(s):
        n = St()
        n.mem = dict(s.mem)
        n.live = dict(s.live)
        n.cons = dict(s.cons)
        n.phi = dict(s.phi)
        n.asm = dict(s.asm)
        n.trace = s.trace
        n.ret = s.ret
        return n


class Out:
    """An exceptional exit."""
    __slots__ = ('st', 'exc', 'loc', 'cond')

    def __init__(s, st, exc, loc, cond):
        s.st = st
        s.exc = exc
        s.loc = loc
        s.cond = cond


class Exc:
    __slots__ = ('ptr', 'ti', 'dtor', 'note')

    def __init__(s, ptr, ti, dtor=None, note=''):
        s.ptr = ptr
        s.ti = ti        # name of the type_info global, or None: unknown type
        s.dtor = dtor
        s.note = note

    def __repr__(s):
        return 'Exc(%s %s)' % (s.ti, s.note)


class Frame:
    __slots__ = ('f', 'regs', 'allocas', 'outs', 'active', 'id', 'catching')

    def __init__(s, f, fid):
        s.f = f
        s.regs = {}
        s.allocas = []
        s.outs = []
        s.active = set()
        s.id = fid


def alternatives(c):
    """Not an assumption that holds whatever its parts are."""
    ats = []

    def go(x):
        if x.k in ('not', 'and'):
            for y in x.a:
                go(y)
        elif x.k == 'ite' and x.w == 1:
            for y in x.a:
                go(y)
        elif x.k != 'c' and x not in ats:
            ats.append(x)
    go(c)
    if len(ats) > 6:
        return True
    for n in range(1 << len(ats)):
        if subst(c, {x: TRUE if n >> i & 1 else FALSE for i, x in enumerate(ats)}) is FALSE:
            return True
    return False


class Interp:
    MAXDEPTH = 220
    races = None        # told of every write, for C24
    atomic = False

    def __init__(s, mod, models, repo='/repo'):
        s.m = mod
        s.models = models
        s.ctr = 0
        s.stack = []
        s.idx = ()           # enclosing loop variables
        s.repo = repo
        s.bad = []           # (kind, text, loc)
        s.deaths = 0
        s.badset = set()
        s.stats = {'calls': 0, 'instrs': 0, 'fns': set(), 'loops': 0, 'joins': 0, 'throws': 0}
        s.opaque = {}        # unknown callees met
        s.lcache = {}
        s.ids = {}
        models.attach(s)

    # ------------------------------------------------------------ utilities
    def fresh(s):
        s.ctr += 1
        return s.ctr

    def loc(s):
        """Innermost position inside the library, else the innermost one."""
        for f, i in reversed(s.stack):
            p = i.get('f', '') if i else ''
            if p.startswith(s.repo + '/src') or '/witness/' in p:
                return '%s:%s in %s' % (p.replace(s.repo + '/', ''), i.get('l', 0), short(f.dem))
        if s.stack:
            f, i = s.stack[-1]
            return '%s in %s' % ((i or {}).get('f', '') + ':' + str((i or {}).get('l', 0)), short(f.dem))
        return '?'

    def emit(s, st, ev):
        st.trace = Node(st.trace, ev)

    def report(s, kind, text, st=None):
        l = s.loc()
        if (kind, text, l) not in s.badset:
            s.badset.add((kind, text, l))
            s.bad.append((kind, text, l))

    # ------------------------------------------------------------ memory
    def region(s, st, base):
        r = st.mem.get(base)
        if r is not None:
            return r
        k = base.k
        if k == 'gl':
            return s.global_region(base)
        if k in ('hp', 'items') and base.a[1]:
            # a member of a family created by a loop
            for b2, r2 in reversed(list(st.mem.items())):
                if b2.k == k and k != 'argitems' and b2.a[0] == base.a[0] and len(b2.a[1]) == len(base.a[1]):
                    mp = {}
                    for x, y in zip(b2.a[1], base.a[1]):
                        if x is not y:
                            if x.k != 'K':
                                break
                            lim = s.famlim.get(x)
                            if lim is not None and not lt_proved(y, lim) or x in Facts.trip and le_proved(Facts.trip[x], y):
                                break
                            mp[x] = y
                    else:
                        return r2.subst(mp)
        if k == 'argitems':
            for b2, r2 in reversed(list(st.mem.items())):
                if b2.k == k and b2 is not base:
                    mp = {}
                    if s.unify(b2, base, mp):
                        return r2.subst(mp) if mp else r2
        if k in M.INITKINDS:
            return Region(base, 'init')
        return Region(base, 'undef')

    def unify(s, p, q, mp):
        """Is q the member of the family p for some iterations mp?"""
        if p is q:
            return True
        if p.k == 'argitems' and q.k == 'argitems':
            return s.unify(p.a[0], q.a[0], mp) and s.unify(subst(p.a[1], mp), q.a[1], mp)
        if p.k in ('+', 'K', '*') or p.k == 'c':
            ks = [x for x in atoms(p) if x.k == 'K' and x not in mp and not has(q, x) or x.k == 'K' and x in s.famlim]
            ks = [x for x in ks if x not in mp]
            if len(ks) != 1:
                return False
            K = ks[0]
            a, b = M.lin(p, K)
            if not a:
                return False
            x, rem = M.divs(sub(q, b), a) if a > 0 else (None, None)
            if x is None or rem:
                return False
            lim = s.famlim.get(K)
            if lim is not None and not lt_proved(x, lim) or K in Facts.trip and le_proved(Facts.trip[K], x):
                return False
            mp[K] = x
            return True
        return False

    famlim = {}

    def global_region(s, base):
        g = s.m.globals.get(base.a[0])
        if g is None:
            return Region(base, 'init')
        c = s.lcache.get(base)
        if c is None:
            if g['decl']:
                c = Region(base, 'init')
            else:
                c = Region(base, 'zero')
                for off, size, op in g.get('init', []):
                    if op[0] == 's':
                        bs = bytes.fromhex(op[1])
                        cells = dict(c.cells)
                        for i, b in enumerate(bs):
                            cells[off + i] = (1, C(b, 8))
                        c = Region(base, 'zero', cells)
                    elif op[0] in ('z', 'u'):
                        continue
                    else:
                        c = c.with_cell(off, size, s.const(op))
            s.lcache[base] = c
        return c

    def load(s, st, p, size, ty, w=None):
        w = w or (64 if ty == 'p' else size * 8)
        if p.k == 'ite':
            c = s.decide(st, p.a[0])
            if c is not None:
                return s.load(st, p.a[1] if c else p.a[2], size, ty, w)
            return ite(p.a[0], s.load(st, p.a[1], size, ty, w), s.load(st, p.a[2], size, ty, w))
        if p.k != 'p':
            return s.opaqueval(st, 'load', (p,), ty, w)
        if p.a[0] is NULLB:
            return UNDEF
        r = s.region(st, p.a[0])
        v = r.read(p.a[1], size, ty, w)
        if ty == 'p' and not isptr(v) and v.k not in ('undef',):
            v = M.fixty(v, 'p', w)
            if not isptr(v):
                v = ptr(mk('pt', v))
        if v.k == 'undef' and p.a[0].k == 'gl':
            return C(0, w)
        return v

    def store(s, st, p, size, v):
        if p.k == 'ite':
            c = s.decide(st, p.a[0])
            if c is not None:
                return s.store(st, p.a[1] if c else p.a[2], size, v)
            for q, cc in ((p.a[1], p.a[0]), (p.a[2], bnot(p.a[0]))):
                if q is NULL:
                    continue
                old = s.load(st, q, size, 'p' if isptr(v) else 'i', v.w)
                s.store(st, q, size, ite(cc, v, old))
            return
        if p.k != 'p':
            if p.k == 'undef':
                s.report('undef', 'store through an undefined pointer')
                return
            raise Unsupported('store through %s at %s' % (show(p), s.loc()))
        b, off = p.a
        if b is NULLB:
            s.report('null', 'store through a null pointer')
            return
        r = s.region(st, b)
        if s.races is not None:
            s.races.touch(st, b)
        if off.k == 'c':
            st.mem[b] = r.with_cell(signed(off), size, v)
        else:
            st.mem[b] = r.with_log(('w', off, size, v))

    def logwrite(s, st, b, entry):
        if s.races is not None:
            s.races.touch(st, b)
        st.mem[b] = s.region(st, b).with_log(entry)

    def opaqueval(s, st, what, args, ty, w):
        t = mk('opq', what, s.fresh(), s.idx, *args, w=w)
        if ty == 'p':
            return ptr(mk('pt', t))
        return t

    def newbase(s, kind, label=''):
        return mk(kind, s.fresh(), s.idx, label)

    # ------------------------------------------------------------ values
    def const(s, op):
        k = op[0]
        if k == 'i':
            return C(int(op[2]), op[1])
        if k == 'n':
            return NULL
        if k in ('u', 'md'):
            return UNDEF
        if k == 'g':
            if op[1] in s.m.fns:
                return mk('fn', op[1])
            return ptr(mk('gl', op[1]))
        if k == 'cgep':
            return padd(s.const(op[1]), C(op[2]))
        if k == 'f':
            return mk('flt', op[1])
        if k == 'agg':
            return mk('agg', *[s.const(x) for x in op[1:]])
        if k == 'z':
            return mk('zagg')
        if k == 'ce':
            if op[1] in ('ptrtoint', 'inttoptr', 'bitcast'):
                return s.const(op[3])
            return mk('ce', repr(op))
        return UNDEF

    def val(s, fr, op):
        if op[0] == 'v':
            return fr.regs.get(op[1], UNDEF)
        return s.const(op)

    def decide(s, st, c):
        """True / False / None for a condition under the path's assumptions."""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        neg = False
        if c.k == 'not':
            c = c.a[0]
            neg = True
        v = st.asm.get(c)
        if v is None and c.k == 'eq0' and st.asm:
            x = c.a[0]
            for k, kv in st.asm.items():
                if kv is True and k.k == 'eq0' and k.a[0].w == x.w and k is not c:
                    d = sub(x, k.a[0])
                    if d.k == 'c':
                        v = d is C(0, x.w)
                        break
        if v is None and c.k in ('eq0', 'ult') and c.a[0].w == 64 and st.asm:
            v = s.implied(st, c)
        if v is None and c.k == 'and':
            a, b = s.decide(st, c.a[0]), s.decide(st, c.a[1])
            if a is False or b is False:
                v = False
            elif a and b:
                v = True
        if v is None:
            return None
        return v != neg

    def implied(s, st, c):
        nz = {k.a[0] for k, v in st.asm.items() if k.k == 'eq0' and v is False}
        if not nz:
            return None
        old = Facts.nonzero
        Facts.nonzero = nz
        try:
            if c.k == 'eq0':
                d = c.a[0]
                if nonneg(sub(d, C(1))) or nonneg(sub(scale(d, -1), C(1))):
                    return False
            else:
                if lt_proved(c.a[0], c.a[1]):
                    return True
                if le_proved(c.a[1], c.a[0]):
                    return False
        finally:
            Facts.nonzero = old
        return None

    def assume(s, st, c, v=True):
        if c.k == 'not':
            return s.assume(st, c.a[0], not v)
        if c.k == 'and' and v:
            s.assume(st, c.a[0], True)
            s.assume(st, c.a[1], True)
        st.asm[c] = v

    # ------------------------------------------------------------ joins
    def merge(s, c, a, b):
        """State that is a where c holds and b elsewhere."""
        if b is None:
            return a
        if a is None:
            return b
        s.stats['joins'] += 1
        r = St()
        m = dict(a.mem)
        for k, rb in b.mem.items():
            ra = m.get(k)
            if ra is None:
                if k.k in M.INITKINDS:
                    ra = Region(k, 'init')
                elif k.k == 'gl':
                    ra = s.global_region(k)
                else:
                    m[k] = rb
                    continue
            if ra is rb:
                continue
            m[k] = s.mergereg(c, ra, rb)
        for k, ra in a.mem.items():
            if k not in b.mem and (k.k in M.INITKINDS or k.k == 'gl'):
                m[k] = s.mergereg(c, ra, Region(k, 'init') if k.k != 'gl' else s.global_region(k))
        r.mem = m
        for f in ('live', 'cons'):
            x, y = getattr(a, f), getattr(b, f)
            d = {}
            for k in set(x) | set(y):
                d[k] = ite(c, x.get(k, FALSE), y.get(k, FALSE))
            setattr(r, f, d)
        for k in set(a.phi) | set(b.phi):
            r.phi[k] = s.joinval(c, a.phi.get(k, UNDEF), b.phi.get(k, UNDEF))
        r.asm = {k: v for k, v in a.asm.items() if b.asm.get(k) is v}
        ra, rb = a.ret, b.ret
        r.ret = None if ra is None and rb is None else s.joinval(c, ra if ra is not None else UNDEF, rb if rb is not None else UNDEF)
        r.trace = s.mergetrace(c, a.trace, b.trace)
        return r

    def joinval(s, c, x, y):
        if x is y:
            return x
        if x.k == 'G' and y.k == 'G' and x.a[0] == y.a[0]:
            if x.a[3] is y.a[3] and x.a[5] == y.a[5]:
                return mk('G', x.a[0], ite(c, x.a[1], y.a[1]), ite(c, x.a[2], y.a[2]), x.a[3], ite(c, x.a[4], y.a[4]), x.a[5])
            if x.a[3] is y.a[3]:
                return mk('G', x.a[0], ite(c, x.a[1], y.a[1]), ite(c, x.a[2], y.a[2]), x.a[3], ite(c, x.a[4], y.a[4]), tuple(sorted(set(x.a[5]) | set(y.a[5]), key=skey)))
        if x.k == 'agg' and y.k == 'agg' and len(x.a) == len(y.a):
            return mk('agg', *[s.joinval(c, p, q) for p, q in zip(x.a, y.a)])
        return ite(c, x, y)

    def mergereg(s, c, ra, rb):
        if ra is rb or ra.same(rb):
            return ra
        if ra.log == rb.log and ra.dflt == rb.dflt:
            cells = {}
            offs = set(ra.cells) | set(rb.cells)
            ok = True
            for o in offs:
                x, y = ra.cells.get(o), rb.cells.get(o)
                if x is not None and y is not None and x[0] != y[0]:
                    ok = False
                    break
                z = (x or y)[0]
                ty = 'G' if (x or y)[1].k == 'G' else 'p' if isptr((x or y)[1]) else 'i'
                w = (x or y)[1].w
                if x is None:
                    if s.overlaps(ra, o, z):
                        ok = False
                        break
                    xv = ra._readlog(len(ra.log) - 1, C(o), z, ty, w)
                else:
                    xv = x[1]
                if y is None:
                    if s.overlaps(rb, o, z):
                        ok = False
                        break
                    yv = rb._readlog(len(rb.log) - 1, C(o), z, ty, w)
                else:
                    yv = y[1]
                # untouched container of the input
                if xv.k == 'G0' and yv.k == 'G':
                    xv = s.models.initG(ra.base, C(o), yv)
                elif yv.k == 'G0' and xv.k == 'G':
                    yv = s.models.initG(ra.base, C(o), xv)
                cells[o] = (z, s.joinval(c, xv, yv))
            if ok:
                return Region(ra.base, ra.dflt, cells, ra.log)
        # longest common log prefix
        n = 0
        while n < len(ra.log) and n < len(rb.log) and ra.log[n] == rb.log[n]:
            n += 1
        la, lb = ra.log[n:] + M.cellentry(ra), rb.log[n:] + M.cellentry(rb)
        if ra.dflt == rb.dflt:
            t, neg = c, False
            if t.k == 'not':
                t, neg = t.a[0], True
            if t.k == 'eq0':
                # one side is the other plus writes that are empty on this side
                z, f = (lb, la) if neg else (la, lb)
                if f[:len(z)] == z and all(M.vanishes(e, t.a[0]) for e in f[len(z):]):
                    return ra if neg else rb
            r = s.mergewrites(c, ra, rb, n, la, lb)
            if r is not None:
                return r
        return Region(ra.base, ra.dflt, {}, (('mix', c, ra, rb),))

    def mergewrites(s, c, ra, rb, n, la, lb):
        locs = []
        for e in la + lb:
            if e[0] == 'w':
                es = [(e[1], e[2], e[3])]
            elif e[0] == 'cells':
                es = [(C(o), z, v) for o, z, v in e[1]]
            elif e[0] == 'blk' and e[2].k == 'c' and e[2].a[0] <= 4096:
                es = [(e[1], e[2].a[0], None)]
            else:
                return None
            for o, z, v in es:
                for o2, z2, v2 in locs:
                    r = M.rel(o, z, o2, z2)
                    if r == 'eq':
                        break
                    if r != 'no':
                        return None
                else:
                    locs.append((o, z, v))
        r = Region(ra.base, ra.dflt, {}, ra.log[:n])
        for o, z, v in locs:
            if v is None:
                r = r.with_log(('blk', o, C(z), ite(c, M.blob(ra, o, C(z)), M.blob(rb, o, C(z)))))
                continue
            ty = 'G' if v.k == 'G' else 'p' if isptr(v) else 'i'
            w = v.w if ty == 'i' else 64
            x, y = ra.read(o, z, ty, w), rb.read(o, z, ty, w)
            if x.k == 'G0' and y.k == 'G':
                x = s.models.initG(ra.base, o, y)
            elif y.k == 'G0' and x.k == 'G':
                y = s.models.initG(ra.base, o, x)
            nv = s.joinval(c, x, y)
            if o.k == 'c' and not r.log[n:]:
                r = r.with_cell(signed(o), z, nv)
            else:
                r = r.with_log(('w', o, z, nv))
        return r

    def overlaps(s, r, o, z):
        return any(o2 < o + z and o < o2 + x[0] for o2, x in r.cells.items())

    def mergetrace(s, c, x, y):
        if x is y:
            return x
        a, b = x, y
        while a is not b:
            na, nb = (a.n if a else 0), (b.n if b else 0)
            if na >= nb:
                a = a.prev if a else None
            if nb >= na and b is not None and not (na > nb):
                b = b.prev
        ta, tb = events(x, a), events(y, a)
        if not ta and not tb:
            return a
        return Node(a, ('if', c, tuple(ta), tuple(tb), s.loc()))

    def mergeall(s, arr):
        """arr: list of (cond, st) with exclusive conditions."""
        r = None
        for c, st in reversed(arr):
            r = st if r is None else s.merge(c, st, r)
        return r

    # ------------------------------------------------------------ calls
    def call(s, name, args, st, instr=None):
        """Returns (state, outs): the normal continuation (state.ret holds the
        value) or None, and the exceptional exits."""
        f = s.m.fns.get(name)
        if f is None:
            raise Unsupported('call of unknown function ' + name)
        s.stats['calls'] += 1
        r = s.models.call(f, args, st)
        if r is not None:
            return r
        if not f.blocks:
            return s.models.unknown(f, args, st)
        return s.run_body(f, args, st)

    def run_body(s, f, args, st):
        if len(s.stack) > s.MAXDEPTH:
            raise Unsupported('call depth at ' + f.dem)
        s.stats['fns'].add(f.name)
        fr = Frame(f, s.fresh())
        for (n, ty, attr, sz), v in zip(f.args, args):
            fr.regs[n] = v
        s.stack.append([f, None])
        depth = len(s.stack)
        try:
            arr = s.run(fr, 0, frozenset(), st, TRUE)
        finally:
            del s.stack[depth - 1:]
        st2 = s.mergeall([(c, x) for _, c, x in arr]) if arr else None
        if st2 is not None:
            s.leave(fr, st2)
        for o in fr.outs:
            s.leave(fr, o.st)
        if f.nounwind and fr.outs and not f.name.startswith('__cxx_global'):
            for o in fr.outs:
                s.models.terminate(o)
            fr.outs = []
        return st2, fr.outs

    def leave(s, fr, st):
        for b in fr.allocas:
            st.mem.pop(b, None)
        if st.cons:
            al = set(fr.allocas)
            for k in [k for k in st.cons if k[0] in al]:
                c = st.cons.pop(k)
                if c is not FALSE and s.models.possible(st, c):
                    s.report('leak', 'object on the stack of %s is never destroyed' % short(fr.f.dem))
        for k in [k for k in st.phi if k[0] == fr.id]:
            del st.phi[k]

    # ------------------------------------------------------------ blocks
    def run(s, fr, b, stops, st, pc):
        """Execute from block b until a block of `stops` or a return; returns a
        list of (block or 'ret', condition, state)."""
        res = []
        cfg = fr.f.cfg
        while True:
            if b in stops:
                res.append((b, pc, st))
                return res
            if b in cfg.loops and b not in fr.active:
                ex = s.run_loop(fr, b, st)
                ex = [(x, band(pc, c) if x in stops or x == 'ret' else c, z) for x, c, z in ex]
                res += [e for e in ex if e[0] in stops or e[0] == 'ret']
                ex = [e for e in ex if not (e[0] in stops or e[0] == 'ret')]
                if not ex:
                    return res
                tgt = {}
                for x, c, z in ex:
                    tgt.setdefault(x, []).append((c, z))
                if len(tgt) == 1:
                    (b, l), = tgt.items()
                    st = s.mergeall(l)
                    continue
                pds = None
                for x in tgt:
                    p = cfg.pd.get(x, set())
                    pds = set(p) if pds is None else pds & p
                J = max(pds, key=lambda x: len(cfg.pd.get(x, ()))) if pds else cfg.n
                st2 = []
                for x, l in tgt.items():
                    z = s.mergeall(l)
                    cx = FALSE
                    for c, _ in l:
                        cx = bor(cx, c)
                    for (y, c, w) in s.run(fr, x, stops | {J}, z, cx):
                        if y == J and J not in stops:
                            st2.append((c, w))
                        else:
                            res.append((y, band(pc, c), w))
                if not st2:
                    return res
                st = s.mergeall(st2)
                b = J
                continue
            nxt = s.block(fr, b, stops, st, pc, res)
            if nxt is None:
                return res
            b, st, pc = nxt

    def block(s, fr, b, stops, st, pc, res):
        regs = fr.regs
        val = s.val
        top = s.stack[-1]
        for i in fr.f.blocks[b]:
            o = i['o']
            top[1] = i
            if o == 'load':
                t = i['t']
                p = val(fr, i['a'][0])
                if t == 'a':
                    regs[i['r']] = mk('lagg', M.snap(s.region(st, p.a[0])), p.a[1], i['sz'])
                elif t in ('f32', 'f64'):
                    regs[i['r']] = s.load(st, p, i['sz'], 'f', i['sz'] * 8)
                else:
                    w = 64 if t == 'p' else int(t[1:])
                    if w % 8:
                        v = s.load(st, p, i['sz'], t, i['sz'] * 8)
                        regs[i['r']] = trunc(v, w) if v.w != w else v
                    else:
                        regs[i['r']] = s.load(st, p, i['sz'], t, w)
            elif o == 'store':
                v = val(fr, i['a'][0])
                if i['t'] != 'p' and v.k not in ('undef', 'p', 'fn', 'agg', 'flt') and v.w < i['sz'] * 8:
                    v = zext(v, i['sz'] * 8)
                s.atomic = 'at' in i
                s.store(st, val(fr, i['a'][1]), i['sz'], v)
                s.atomic = False
            elif o == 'alloca':
                bs = mk('al', s.fresh(), s.idx, fr.f.name)
                fr.allocas.append(bs)
                st.mem[bs] = Region(bs, 'undef')
                regs[i['r']] = ptr(bs)
            elif o == 'getelementptr':
                p = val(fr, i['a'][0])
                off = C(i['off'])
                for v, sc, w in i.get('vars', ()):
                    x = val(fr, v)
                    if w < 64:
                        x = sext(x, 64)
                    off = add(off, scale(x, sc)) if x.k != 'undef' else UNDEF
                regs[i['r']] = padd(p, off) if off.k != 'undef' else UNDEF
            elif o == 'icmp':
                x, y = val(fr, i['a'][0]), val(fr, i['a'][1])
                regs[i['r']] = s.icmp(i['p'], x, y)
            elif o in ('call', 'invoke'):
                r = s.docall(fr, i, st)
                if o == 'call':
                    st2, outs = r
                    fr.outs += outs
                    if st2 is None:
                        return None
                    st = st2
                else:
                    st2, outs = r
                    norm = TRUE
                    for x in outs:
                        sv = dict(regs)
                        n0 = len(res)
                        arr = s.unwind(fr, i['ud'], x, stops)
                        for (y, c, w) in arr:
                            cc = band(x.cond, c)
                            norm = band(norm, bnot(x.cond))
                            res.append((y, band(pc, cc), w))
                        regs.update(sv)
                    if st2 is None:
                        return None
                    if 'r' in i and st2.ret is not None:
                        regs[i['r']] = st2.ret
                    st2.ret = None
                    # arrivals after a swallowed exception join with the normal
                    # continuation at the next merge point
                    return s.edge(fr, b, i['nd'], st2), st2, band(pc, norm)
                if 'r' in i and st.ret is not None:
                    regs[i['r']] = st.ret
                st.ret = None
            elif o in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
                x, y = val(fr, i['a'][0]), val(fr, i['a'][1])
                regs[i['r']] = s.binop(o, x, y)
            elif o in ('zext', 'sext', 'trunc'):
                x = val(fr, i['a'][0])
                w = int(i['t'][1:])
                if isptr(x):
                    regs[i['r']] = mk('p2i', x, w=w)
                else:
                    regs[i['r']] = (zext if o == 'zext' else sext if o == 'sext' else trunc)(x, w)
            elif o in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'freeze'):
                regs[i['r']] = val(fr, i['a'][0])
            elif o == 'select':
                c = val(fr, i['a'][0])
                d = s.decide(st, c)
                x, y = val(fr, i['a'][1]), val(fr, i['a'][2])
                regs[i['r']] = x if d is True else y if d is False else s.joinval(c, x, y)
            elif o == 'phi':
                regs[i['r']] = st.phi.get((fr.id, i['r']), UNDEF)
            elif o == 'extractvalue':
                x = val(fr, i['a'][0])
                for k in i['ix']:
                    x = s.extract(st, x, k)
                regs[i['r']] = x
            elif o == 'insertvalue':
                x, y = val(fr, i['a'][0]), val(fr, i['a'][1])
                regs[i['r']] = s.insert(x, i['ix'], y)
            elif o == 'br':
                to = i['to']
                if len(to) == 1:
                    return s.edge(fr, b, to[0], st), st, pc
                c = val(fr, i['a'][0])
                d = s.decide(st, c)
                if c.k == 'undef' or c.k == 'cmpundef':
                    s.report('undef', 'branch depends on uninitialised memory')
                    c = s.opaqueval(st, 'undefcond', (), 'i1', 1)
                if d is not None:
                    t = to[0] if d else to[1]
                    return s.edge(fr, b, t, st), st, pc
                return s.fork(fr, b, [(c, to[0]), (bnot(c), to[1])], stops, st, pc, res)
            elif o == 'switch':
                c = val(fr, i['a'][0])
                arms = []
                rest = TRUE
                byt = {}
                for cv, tb in i['cases']:
                    e = eq(c, s.const(cv))
                    d = s.decide(st, e)
                    if d is True:
                        e = TRUE
                    if d is False:
                        continue
                    byt[tb] = bor(byt.get(tb, FALSE), band(rest, e))
                    rest = band(rest, bnot(e))
                    if d is True:
                        rest = FALSE
                        break
                if rest is not FALSE:
                    byt[i['def']] = bor(byt.get(i['def'], FALSE), rest)
                arms = [(e, t) for t, e in byt.items() if e is not FALSE]
                if len(arms) == 1:
                    t = arms[0][1]
                    return s.edge(fr, b, t, st), st, pc
                return s.fork(fr, b, arms, stops, st, pc, res)
            elif o == 'ret':
                st.ret = val(fr, i['a'][0]) if i.get('a') else UNDEF
                res.append(('ret', pc, st))
                return None
            elif o == 'landingpad':
                pass
            elif o == 'resume':
                x = val(fr, i['a'][0])
                e = s.exc_of(x)
                fr.outs.append(Out(st, e[0], e[1], e[2]))
                return None
            elif o == 'unreachable':
                return None
            elif o == 'atomicrmw':
                p, v = val(fr, i['a'][0]), val(fr, i['a'][1])
                old = s.load(st, p, i['sz'], i['t'])
                fn = {'xchg': lambda a, b: b, 'add': add, 'sub': sub, 'and': band, 'or': bor}.get(i['op'])
                if fn is None or i['op'] != 'xchg' and (i['t'] == 'p' or old.k == 'undef'):
                    raise Unsupported('%s %s at %s' % (o, i['op'], s.loc()))
                s.atomic = True
                s.store(st, p, i['sz'], fn(old, v))
                s.atomic = False
                regs[i['r']] = old
            elif o == 'cmpxchg':
                p, c, v = [val(fr, a) for a in i['a'][:3]]
                old = s.load(st, p, i['sz'], i['ot'])
                if i['ot'] == 'p' or old.k == 'undef':
                    raise Unsupported('%s at %s' % (o, s.loc()))
                hit = eq(old, c)
                s.atomic = True
                s.store(st, p, i['sz'], ite(hit, v, old))
                s.atomic = False
                regs[i['r']] = mk('agg', old, hit)
            elif o in ('fadd', 'fsub', 'fmul', 'fdiv', 'fcmp', 'fneg', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
                w = 1 if o == 'fcmp' else 64
                t = i.get('t', '')
                if t.startswith('i'):
                    w = int(t[1:])
                regs[i['r']] = mk('fop', o, *[val(fr, a) for a in i['a']], w=w)
            else:
                raise Unsupported(o)
        raise Unsupported('fell off block')

    def exc_of(s, x):
        # the value resumed is {ptr, selector} built at the landing pad
        if x.k == 'agg':
            e = s.excs.get(x.a[0])
            if e:
                return e
        if x.k == 'lagg':
            pass
        raise Unsupported('resume of unknown exception at ' + s.loc())

    def edge(s, fr, frm, to, st):
        blk = fr.f.blocks[to]
        if blk and blk[0]['o'] == 'phi':
            vals = []
            for i in blk:
                if i['o'] != 'phi':
                    break
                for op, pb in i['in']:
                    if pb == frm:
                        vals.append((i['r'], s.val(fr, op)))
                        break
            for r, v in vals:
                st.phi[(fr.id, r)] = v
        return to

    def fork(s, fr, b, arms, stops, st, pc, res):
        cfg = fr.f.cfg
        J = cfg.ipd.get(b, cfg.n)
        at = []
        d0 = s.deaths
        mine = len(res)
        for c, t in arms:
            z = st.copy()
            s.assume(z, c)
            s.edge(fr, b, t, z)
            arr = s.run(fr, t, stops | {J}, z, c)
            for (y, cc, w) in arr:
                if y == J and J not in stops:
                    at.append((cc, w))
                else:
                    res.append((y, band(pc, cc), w))
            if not arr:
                at.append((c, None))
        alive = [x for x in at if x[1] is not None]
        dead = [c for c, z in at if z is None]
        lost = s.deaths > d0
        s.deaths += len(dead)
        if not alive:
            return None
        r = None
        if len(alive) == 1 and not [x for x in res]:
            r = alive[0][1]
        else:
            r = s.mergeall(alive)
        if len(alive) == 1:
            # keep what is known on the only surviving arm
            pass
        for c in dead:
            s.assume(r, bnot(c))
            x, v = (c.a[0], True) if c.k == 'not' else (c, False)
            if x.k == 'sysfail':
                # the outcome of the call is settled
                for k, g in list(r.mem.items()):
                    for o, (z, y) in g.cells.items():
                        if y.k == 'ite' and y.a[0] is x:
                            g = g.with_cell(o, z, y.a[1] if v else y.a[2])
                    r.mem[k] = g
            if not hasattr(s, 'noguard'):
                r.trace = Node(r.trace, ('guard', bnot(c), s.loc()))
        if lost:
            # paths ended further inside
            c = FALSE
            for x in dead + [x for x, z in alive] + [x[1] for x in res[mine:]]:
                c = bor(c, x)
            if c is not TRUE and alternatives(c):
                s.assume(r, c)
                r.trace = Node(r.trace, ('guard', c, s.loc()))
        # the condition under which J is reached, relative to the arms that
        # left through another stop
        got = FALSE
        for c, z in alive:
            got = bor(got, c)
        if dead:
            got = TRUE if len(dead) + len(alive) == len(arms) else got
        return J, r, band(pc, got)

    def binop(s, o, x, y):
        if isptr(x) or isptr(y):
            if o == 'sub' and x.k == 'p' and y.k == 'p' and x.a[0] is y.a[0]:
                return sub(x.a[1], y.a[1])
            if o == 'sub' and x is y:
                return Z
            if o == 'add' and x.k == 'p' and not isptr(y):
                return padd(x, y)
            if o == 'sub' and isptr(x) and not isptr(y):
                return padd(x, scale(y, -1))
            if x.k == 'ite':
                return ite(x.a[0], s.binop(o, x.a[1], y), s.binop(o, x.a[2], y))
            if y.k == 'ite':
                return ite(y.a[0], s.binop(o, x, y.a[1]), s.binop(o, x, y.a[2]))
            if o == 'and' and y.k == 'c':
                # alignment / tag bit tests on pointers: member function pointers
                return C(0) if y.a[0] == 1 else mk('pop', o, x, y)
            return mk('pop', o, x, y)
        if x.k in ('p2i',) or y.k in ('p2i',):
            return mk('pop', o, x, y, w=x.w)
        if o == 'add':
            return add(x, y)
        if o == 'sub':
            return sub(x, y)
        if o == 'mul':
            return mul(x, y)
        return bop(o, x, y)

    def icmp(s, p, x, y):
        if p == 'eq':
            return eq(x, y)
        if p == 'ne':
            r = eq(x, y)
            return bnot(r) if r.k != 'cmpundef' else r
        if p[0] == 'u':
            r = {'ult': lambda: ult(x, y), 'ugt': lambda: ult(y, x), 'uge': lambda: bnot(ult(x, y)), 'ule': lambda: bnot(ult(y, x))}[p]()
        else:
            r = {'slt': lambda: slt(x, y), 'sgt': lambda: slt(y, x), 'sge': lambda: bnot(slt(x, y)), 'sle': lambda: bnot(slt(y, x))}[p]()
        if r.k == 'not' and r.a[0].k == 'cmpundef':
            return r.a[0]
        return r

    def extract(s, st, x, k):
        if x.k == 'agg':
            return x.a[k] if k < len(x.a) else UNDEF
        if x.k == 'lagg':
            r = M.snapregion(x.a[0])
            v = r.read(add(x.a[1], C(8 * k)), 8, 'i', 64)
            return v
        if x.k == 'ite':
            return ite(x.a[0], s.extract(st, x.a[1], k), s.extract(st, x.a[2], k))
        if x.k == 'zagg':
            return C(0)
        return UNDEF

    def insert(s, x, ix, y):
        if len(ix) != 1:
            raise Unsupported('nested insertvalue')
        k = ix[0]
        l = list(x.a) if x.k == 'agg' else []
        while len(l) <= k:
            l.append(UNDEF)
        l[k] = y
        return mk('agg', *l)

    def docall(s, fr, i, st):
        fn = i['fn']
        args = [s.val(fr, a) for a in i['a']]
        if 'bv' in i:
            for n, sz in enumerate(i['bv']):
                if sz and args[n].k == 'p':
                    b = mk('al', s.fresh(), s.idx, 'byval')
                    fr.allocas.append(b)
                    st.mem[b] = Region(b, 'undef')
                    s.models.memcpy(st, ptr(b), args[n], C(sz))
                    args[n] = ptr(b)
        if fn[0] == 'g':
            name = fn[1]
            if name not in s.m.fns:
                raise Unsupported('alias ' + name)
            return s.call(name, args, st, i)
        p = s.val(fr, fn)
        return s.callptr(p, args, st)

    def callptr(s, p, args, st):
        if p.k == 'fn':
            return s.call(p.a[0], args, st)
        if p.k == 'ite':
            d = s.decide(st, p.a[0])
            if d is not None:
                return s.callptr(p.a[1] if d else p.a[2], args, st)
            a, b = st.copy(), st.copy()
            s.assume(a, p.a[0])
            s.assume(b, bnot(p.a[0]))
            sa, oa = s.callptr(p.a[1], args, a)
            sb, ob = s.callptr(p.a[2], args, b)
            return s.merge(p.a[0], sa, sb), oa + ob
        return s.models.unknown_ptr(p, args, st)

    # ------------------------------------------------------------ exceptions
    excs = {}

    def unwind(s, fr, b, out, stops):
        """Run the landing pad at b for an exceptional exit; exits that leave the
        function are added to fr.outs, arrivals at normal code are returned."""
        st = out.st
        for lp in fr.f.blocks[b]:
            if lp['o'] == 'landingpad':
                break
        s.edge(fr, -1, b, st)
        alts = []      # (state, selector)
        exc = out.exc
        sel = None
        maybe = []
        for kind, op in lp['clauses']:
            if kind != 'catch':
                continue
            if op[0] == 'n':
                sel = C(0x7fff, 32)
                break
            m = s.models.catches(op[1], exc)
            if m is True:
                sel = s.tisel(op[1])
                break
            if m is None:
                maybe.append(op[1])
        res = []
        for ti in maybe:
            z = st.copy()
            e2 = Exc(exc.ptr, ti, exc.dtor, exc.note + ' caught as ' + ti)
            res += s.land(fr, b, lp, z, Out(z, e2, out.loc, mk('excis', ti, out.cond, w=1)), s.tisel(ti), stops)
        if sel is None:
            if not lp['cleanup']:
                fr.outs.append(out)
                return res
            sel = C(0, 32)
        res += s.land(fr, b, lp, st, out, sel, stops)
        return res

    def land(s, fr, b, lp, st, out, sel, stops):
        tok = ptr(mk('exc', s.fresh(), s.idx, 'landing'))
        s.excs = dict(s.excs)
        s.excs[tok] = (out.exc, out.loc, out.cond)
        fr.regs[lp['r']] = mk('agg', tok, sel)
        # `run` executes the landing pad block itself (the instruction is a no-op)
        arr = s.run(fr, b, stops, st, TRUE)
        return arr

    def tisel(s, ti):
        l = s.ids.setdefault('ti', [])
        if ti not in l:
            l.append(ti)
        return C(l.index(ti) + 1, 32)

def short(d):
    import re
    d = re.sub(r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>", "std::string", d)
    return d if len(d) < 160 else d[:157] + "..."

