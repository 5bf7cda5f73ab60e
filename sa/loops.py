"""Loop summarisation: every memory cell a loop changes is described as a
function of the iteration number (constant step, running sum, last value, or
unknown), the body is analysed once for a generic iteration until the
descriptions are consistent, and the trip count is solved from the exit
condition."""
from terms import *
import mem as M
from mem import Region
import interp as I
from interp import Interp, Node, LoopInfo, Unsupported, events

MAXUNROLL = 6000


def iterate(s, fr, h, st, stops):
    res = []
    nxt = s.block(fr, h, stops, st, TRUE, res)
    if nxt is not None:
        b, st, pc = nxt
        res += s.run(fr, b, stops, st, pc)
    return res


def run_loop(s, fr, h, st):
    cfg = fr.f.cfg
    body = cfg.loops[h]
    exits = {v for b in body for v in cfg.succ[b] if v not in body and v in cfg.ok}
    stops = frozenset(exits | {h})
    fr.active = fr.active | {h}
    act = fr.active
    try:
        r = unroll(s, fr, h, st, stops)
        if r is None:
            s.stats['loops'] += 1
            r = summarise(s, fr, h, st, stops)
        return r
    finally:
        fr.active = act - {h}


def unroll(s, fr, h, st, stops):
    cur = st.copy()
    nout = len(fr.outs)
    ctr = s.ctr
    bad = (list(s.bad), set(s.badset))
    for it in range(MAXUNROLL):
        fr.active = fr.active | {h}
        regs = dict(fr.regs)
        arr = iterate(s, fr, h, cur, stops)
        if arr is not None and len(arr) == 1 and arr[0][1] is TRUE and decided(arr[0][2], st):
            b, c, z = arr[0]
            if b == h:
                cur = z
                continue
            return [(b, TRUE, z)]
        if arr == []:
            if it == 0:
                return []
        if arr is not None and not any(a[0] == h for a in arr) and all(a[0] != 'x' for a in arr):
            # the loop ends here whichever way the branches go
            return [(b, c, z) for b, c, z in arr]
        fr.regs = regs
        del fr.outs[nout:]
        s.ctr = ctr
        s.bad, s.badset = bad
        return None
    raise Unsupported('loop does not end: ' + s.loc())


def decided(z, st):
    return True


def ikey(key):
    return key


def summarise(s, fr, h, st, stops):
    lid = s.fresh()
    K = mk('K', lid)
    KB = mk('K', -lid)
    s.famlim = dict(s.famlim)
    s.famlim[KB] = K
    Facts.trip[K] = mk('trip', lid)
    Facts.trip[KB] = mk('trip', lid)
    idx0 = s.idx
    ctr0 = s.ctr
    nout = len(fr.outs)
    hyps = {}
    logs = {}
    fams = {}
    LI = LoopInfo(K)
    LI.loc = s.loc()
    bad0 = (list(s.bad), set(s.badset))
    regs0 = dict(fr.regs)
    pre = st.trace
    trip = None

    def gen(at, isK):
        z = st.copy()
        for key, hy in hyps.items():
            put(s, z, key, ev(s, hy, at, K))
        for b, ents in logs.items():
            r = s.region(z, b)
            e2 = tuple((subst(o, {K: KB}), n, subst(v, {K: KB})) for o, n, v in ents)
            z.mem[b] = Region(b, r.dflt, r.cells, r.log + (('fam', KB, at, e2),))
        for kind, d in fams.items():
            tgt = getattr(z, kind)
            for k, v in d.items():
                if isK:
                    # what the iterations so far created
                    v = v.subst({K: KB}) if kind == 'mem' else subst(v, {K: KB})
                    k = substkey(k, {K: KB})
                tgt.pop(k, None)
                tgt[k] = v
        return z

    def one_pass():
        s.ctr = ctr0
        del fr.outs[nout:]
        s.bad, s.badset = list(bad0[0]), set(bad0[1])
        fr.regs = dict(regs0)
        SK = gen(K, True)
        base = SK.copy()
        root = Node(pre, ('iter', LI))
        SK.trace = root
        s.idx = idx0 + (K,)
        try:
            arr = iterate(s, fr, h, SK, stops)
        finally:
            s.idx = idx0
        back = [(c, z) for b, c, z in arr if b == h]
        ex = [(b, c, z) for b, c, z in arr if b != h]
        return base, root, back, ex

    sure = None
    for npass in range(14):
        base, root, back, ex = one_pass()
        if not back:
            # at most one partial iteration
            s.ctr = ctr0
            del fr.outs[nout:]
            s.bad, s.badset = list(bad0[0]), set(bad0[1])
            fr.regs = dict(regs0)
            return [a for a in iterate(s, fr, h, st.copy(), stops)]
        E = s.mergeall(back)
        ch = diff(s, st, base, E, hyps, logs, fams, K, npass)
        if ch:
            if trip is None and ex:
                # a first guess, confirmed below
                try:
                    trip = solve(s, ex, K)
                    Facts.trip[K] = Facts.trip[KB] = trip
                except Unsupported:
                    pass
            continue
        if trip is not None and sure is not None:
            break
        Facts.trip[K] = Facts.trip[KB] = mk('trip', lid)
        if trip is not None:
            base, root, back, ex = one_pass()
        if not ex:
            raise Unsupported('endless loop at ' + s.loc())
        trip = solve(s, ex, K)
        sure = ex
        Facts.trip[K] = Facts.trip[KB] = trip
    else:
        raise Unsupported('loop state does not stabilise at %s (%s)' % (LI.loc, ', '.join('%s:%s' % (show(k), v[0]) for k, v in hyps.items())))
    ex = sure
    LI.trip = trip
    LI.body = tuple(events(E.trace, root))
    mark = len(fr.outs)
    SX = gen(trip, False)
    SX.trace = Node(pre, ('loop', LI)) if LI.body else pre
    exb = {b for b, c, z in ex}
    # the exit condition holds now
    for b, c, z in ex:
        s.assume(SX, subst(c, {K: trip}))
    arr = iterate(s, fr, h, SX, stops)
    out = [(b, c, z) for b, c, z in arr if b != h]
    del fr.outs[mark:]
    if any(b == h for b, c, z in arr):
        if not out or len(exb) != 1:
            raise Unsupported('loop exit not understood at ' + LI.loc)
    for b, c, z in out:
        for b2, c2, z2 in ex:
            z.asm.pop(subst(c2, {K: trip}), None)
    if len(out) == 1:
        out = [(out[0][0], TRUE, out[0][2])]
    return out


def ev(s, hy, at, K):
    k = hy[0]
    if k == 'lin':
        d = mul(hy[2], at) if hy[2].w == 64 else mul(hy[2], trunc(at, hy[2].w))
        return padd(hy[1], d) if isptr(hy[1]) else add(hy[1], d)
    if k == 'sum':
        d = tsum(K, at, hy[2])
        return padd(hy[1], d) if isptr(hy[1]) else add(hy[1], d)
    if k == 'ov':
        c = eq(at, Z)
        if nonneg(sub(at, C(1))):
            return subst(hy[2], {K: sub(at, C(1))})
        return s.joinval(c, hy[1], subst(hy[2], {K: sub(at, C(1))}))
    if k == 'op':
        t = mk('lv', hy[2], at, w=hy[3])
        return ptr(mk('pt', t)) if hy[4] else t
    if k == 'G':
        return mk('G', hy[1], ev(s, hy[2], at, K), ev(s, hy[3], at, K), hy[4], ev(s, hy[5], at, K), hy[6])
    if k == 'inv':
        return hy[1]
    if k == 'cap':
        return maxt(hy[1], ev(s, hy[2], at, K))
    raise Exception(k)


def put(s, z, key, v):
    kind = key[0]
    if kind == 'm':
        r = s.region(z, key[1])
        z.mem[key[1]] = r.with_cell(key[2], key[3], v)
    elif kind == 'live':
        z.live[key[1]] = v
    elif kind == 'cons':
        z.cons[key[1]] = v
    elif kind == 'phi':
        z.phi[key[1]] = v


def substkey(k, m):
    if isinstance(k, T):
        return subst(k, m)
    return tuple(substkey(x, m) if isinstance(x, (T, tuple)) else x for x in k)


def hasK(k, K):
    if isinstance(k, T):
        return has(k, K)
    return any(hasK(x, K) for x in k if isinstance(x, (T, tuple)))


def diff(s, st, base, E, hyps, logs, fams, K, npass):
    ch = False
    fails = []
    nlogs, nfams = {}, {}
    seen = set()
    for b, r in E.mem.items():
        if b.k == 'al' and b not in base.mem:
            continue
        if hasK(b, K):
            nfams.setdefault('mem', {})[b] = r
            continue
        rb = base.mem.get(b)
        if rb is None:
            rb = s.region(base, b)
        if rb is r or rb.same(r):
            if b in logs:
                pass
            continue
        if len(r.log) < len(rb.log) or any(x != y for x, y in zip(r.log, rb.log)):
            fails.append('memory of %s rewritten in a loop at %s' % (show(b), s.loc()))
            continue
        new = r.log[len(rb.log):]
        ents = []
        bad = False
        for e in new:
            if e[0] == 'w':
                ents.append((e[1], e[2], e[3]))
            elif e[0] == 'cells':
                for o, z, v in e[1]:
                    c = rb.cells.get(o)
                    if c is not None and c[1] is v and c[0] == z:
                        continue
                    ents.append((C(o), z, v))
            elif e[0] == 'blk' and e[2].k == 'c' and e[2].a[0] <= 4096:
                ents.append((e[1], e[2].a[0], e[3]))
            elif e[0] == 'zero' and e[2].k == 'c' and e[2].a[0] <= 256:
                for i in range(0, e[2].a[0], 8):
                    z = min(8, e[2].a[0] - i)
                    ents.append((add(e[1], C(i)), z, C(0, 8 * z)))
            else:
                fails.append('nested bulk write of %s in a loop (%s) at %s' % (show(b), show(e)[:300], s.loc()))
                bad = True
        if bad:
            continue
        if new:
            nlogs[b] = tuple(ents)
            if r.cells:
                fails.append('mixed writes in a loop at ' + s.loc())
            continue
        for o in set(r.cells) | set(rb.cells):
            x, y = rb.cells.get(o), r.cells.get(o)
            if x == y:
                continue
            z = (y or x)[0]
            yv = y[1] if y else UNDEF
            isg = yv.k == 'G' or (x and x[1].k == 'G')
            if x is None or x[0] != z:
                xv = rb.read(C(o), z, 'G' if isg else 'p' if isptr(yv) else 'i', yv.w)
                if xv.k == 'G0':
                    xv = s.models.initG(b, C(o), yv)
            else:
                xv = x[1]
            ri = s.region(st, b)
            iv = ri.read(C(o), z, 'G' if isg else 'p' if isptr(yv) else 'i', yv.w)
            if iv.k == 'G0':
                iv = s.models.initG(b, C(o), yv)
            key = ('m', b, o, z)
            seen.add(key)
            ch |= classify(s, key, iv, xv, yv, hyps, K, npass)
    for kind in ('live', 'cons', 'phi'):
        d0, d1, d2 = getattr(st, kind), getattr(base, kind), getattr(E, kind)
        for k in set(d1) | set(d2):
            if hasK(k if isinstance(k, T) else k, K):
                v = d2.get(k, FALSE)
                f = nfams.setdefault(kind, {})
                f[k] = v
                continue
            dv = UNDEF if kind == 'phi' else FALSE
            x, y = d1.get(k, dv), d2.get(k, dv)
            if x is y:
                continue
            if kind == 'phi' and k not in d1:
                continue
            seen.add((kind, k))
            ch |= classify(s, (kind, k), d0.get(k, dv), x, y, hyps, K, npass)
    for key in list(hyps):
        # a cell that the iteration leaves alone after all
        if key not in seen and hyps[key][0] != 'inv':
            hy = hyps[key]
            if ev(s, hy, add(K, C(1)), K) is not ev(s, hy, K, K):
                del hyps[key]
                ch = True
    if npass == 0 and ch:
        # first only the induction variables: everything else is addressed
        # through them
        keep = {k: h for k, h in hyps.items() if h[0] == 'lin' and (k[0] == 'phi' or k[0] == 'm' and k[1].k == 'al')}
        if keep:
            hyps.clear()
            hyps.update(keep)
            return True
    if nlogs != logs:
        logs.clear()
        logs.update(nlogs)
        ch = True
    for kind in ('mem', 'live', 'cons', 'phi'):
        a, b = fams.get(kind, {}), nfams.get(kind, {})
        if a.keys() != b.keys() or any(not (v == b[k] if kind == 'mem' else v is b[k]) for k, v in a.items()):
            fams[kind] = b
            ch = True
    if fails and not ch:
        raise Unsupported(fails[0])
    return ch


def classify(s, key, iv, xv, yv, hyps, K, npass):
    old = hyps.get(key)
    hy = fit(s, key, iv, xv, yv, old, K, npass)
    if hy is None:
        return False
    if hy == old:
        return False
    hyps[key] = hy
    return True


def fit(s, key, iv, xv, yv, old, K, npass):
    """A description of the cell given its initial value, its value at the start
    of iteration K under the current description and its value at the end."""
    if old is not None:
        nxt = ev(s, old, add(K, C(1)), K)
        if nxt is yv:
            return old
        if old[0] == 'op':
            return old
    if yv.k == 'G' or iv.k == 'G':
        if yv.k == 'G' and iv.k == 'G' and xv.k == 'G' and yv.a[3] is iv.a[3] and iv.a[0] == yv.a[0]:
            o = old if old and old[0] == 'G' else None
            hs = []
            for n, oi in ((1, 2), (2, 3), (4, 5)):
                a, b, c = iv.a[n], xv.a[n], yv.a[n]
                if o is None and b is c:
                    hs.append(('inv', a))
                    continue
                oo = o[oi] if o else None
                if oo is not None and oo[0] == 'inv':
                    if b is c:
                        hs.append(oo)
                        continue
                    oo = None
                if n == 2 and hs[0][0] == 'lin':
                    hy = ('cap', a, hs[0])
                    if ev(s, hy, add(K, C(1)), K) is c or oo is not None and oo[0] == 'cap' and npass < 6 or has(c, K) and c.k == 'max':
                        hs.append(hy)
                        continue
                hs.append(fit(s, key + (n,), a, b, c, oo, K, npass))
            men = tuple(sorted(set(iv.a[5]) | set(yv.a[5]), key=skey))
            return ('G', iv.a[0], hs[0], hs[1], iv.a[3], hs[2], men)
        return ('ov', iv, yv)
    if over(iv, xv, yv, old):
        return ('ov', iv, yv)
    num = not isptr(yv) and yv.k not in ('undef', 'fn', 'agg') and yv.w > 1 and iv.k not in ('undef',) and not isptr(iv) and iv.w == yv.w
    if num and xv.k != 'undef' and not isptr(xv):
        d = sub(yv, xv)
        if not has(d, K) and (old is None or old[0] == 'lin') and not loopy(d, xv):
            if old is None or old[2] is not d:
                if npass < 6:
                    return ('lin', iv, d)
        if npass < 8 and not dep(d, key, xv, iv):
            return ('sum', iv, d)
    if isptr(yv) and yv.k == 'p' and iv.k == 'p' and xv.k == 'p' and yv.a[0] is xv.a[0] and xv.a[0] is iv.a[0]:
        d = sub(yv.a[1], xv.a[1])
        if not has(d, K) and npass < 6:
            return ('lin', iv, d)
        if npass < 8:
            return ('sum', iv, d)
    if npass < 7:
        return ('ov', iv, yv)
    return ('op', iv, str(key), yv.w, isptr(yv))


def over(iv, xv, yv, old):
    """The new value does not build on the previous one."""
    if isptr(yv) or yv.k in ('undef', 'fn', 'agg') or isptr(xv) or xv.k in ('undef', 'c'):
        return False
    if old is not None and old[0] in ('ov', 'op'):
        return True
    xs = {xv} if xv.k != '+' else {t for t, c in xv.a[1]}
    xs = {t for t in xs if t.k not in ('K',)}
    if not xs and old is not None:
        return not has(yv, next(iter(t for t, c in xv.a[1]))) if xv.k == '+' else not has(yv, xv)
    ya = atoms(yv)
    return bool(xs) and not any(t in ya for t in xs)


def loopy(d, xv):
    return d.k != 'c' and xv.k not in ('c',) and has(d, xv)


def dep(d, key, xv, iv):
    return xv.k not in ('c', 'undef') and xv is not iv and has(d, xv) or hask(d, ('lv',))


def solve(s, ex, K):
    """The number of iterations completed before the loop is left."""
    if len({b for b, c, z in ex}) > 1 and len(ex) > 1:
        cs = [c for b, c, z in ex]
        raise Unsupported('loop with several exits at ' + s.loc())
    c = FALSE
    for _, x, _ in ex:
        c = bor(c, x)
    n = trip_of(c, K)
    if n is None:
        raise Unsupported('trip count of %s at %s' % (show(c), s.loc()))
    return n


def trip_of(c, K):
    if not has(c, K):
        return None
    if c.k == 'eq0':
        a, b = lin64(c.a[0], K)
        if a is None or a == 0:
            return None
        n = scale(b, -1) if a > 0 else b
        a = abs(a)
        return n if a == 1 else bop('udiv', n, C(a))
    if c.k == 'not' and c.a[0].k in ('ult', 'slt'):
        x, y = c.a[0].a
        a1, b1 = lin64(x, K)
        a2, b2 = lin64(y, K)
        if a1 is None or a2 is None:
            return None
        # leave when a1*K + b1 >= a2*K + b2
        a = a1 - a2
        b = sub(b2, b1)
        if x.w != 64:
            if x.w == 32 and a1 == 1 and a2 == 0:
                return sext(b, 64)
            return None
        if a == 1:
            if b1.k == 'c' and b1.a[0] != 0 and not nonneg(b):
                return ite(ult(b2, b1), Z, b)
            return b
        if a > 1:
            return bop('udiv', add(b, C(a - 1)), C(a))
        return None
    if c.k in ('ult', 'slt'):
        x, y = c.a      # leave when x < y
        a1, b1 = lin64(x, K)
        a2, b2 = lin64(y, K)
        if a1 is None or a2 is None or x.w != 64:
            return None
        if a2 - a1 == 1:
            return add(sub(b1, b2), C(1))
        if a2 - a1 == -1 and c.k == 'slt':
            return None
    return None


def lin64(t, K):
    if t.w == 64:
        return M.lin(t, K)
    # narrower counters: a*trunc(K) + b
    k2 = trunc(K, t.w)
    if not has(t, K):
        return 0, t
    if t is k2:
        return 1, C(0, t.w)
    if t.k == '+':
        a = 0
        b = C(t.a[0], t.w)
        for x, c in t.a[1]:
            if x is k2:
                a = c - (1 << t.w) if c >> (t.w - 1) else c
            elif has(x, K):
                return None, None
            else:
                b = add(b, scale(x, c))
        return a, b
    return None, None


Interp.run_loop = run_loop
