"""What file operations ask of the system (C09, C10, C11)."""
import itertools
import mem as M
import limits
from cmp import *
from terms import *
from check_mem import agree, worlds
from interp import events

NEEDED = ('open', 'openat', 'creat', 'fstat', 'ftruncate', 'fsync', 'fdatasync', 'mmap', 'msync', 'munmap', 'close')
RESERVE = ('fallocate', 'posix_fallocate')
ENOSPC, EOPNOTSUPP = 28, 95
RUNTIME = '_ZTISt13runtime_error'


def relevant(e):
    if e[0] == 'sys':
        return True
    if e[0] == 'guard':
        return hask(e[1], ('sysfail',))
    if e[0] in ('read', 'write'):
        p = e[3]
        return p is not None and p.k == 'p' and p.a[0].k in ('mmap', 'mapfailed')
    if e[0] == 'if':
        return any(relevant(x) for x in e[2]) or any(relevant(x) for x in e[3])
    if e[0] == 'loop':
        return any(relevant(x) for x in e[1].body)
    return False


def prune(tr):
    """The trace without what does not concern the file."""
    r = []
    for e in tr:
        if not relevant(e):
            continue
        if e[0] == 'if':
            a, b = prune(e[2]), prune(e[3])
            acc = ('read', 'write')
            if all(x[0] in acc for x in a + b):
                r += a or b  # only accesses to the mapping: one stands for all
            else:
                r.append(('if', e[1], a, b) + tuple(e[4:]))
        elif e[0] == 'loop':
            r += prune(e[1].body)
        else:
            r.append(e)
    return r


class Overflow(Exception):
    pass


def runs(tr, m, asm=()):
    """The sequences of file events possible in scenario m; a run that ends in
    an exception before the end of the trace is dropped."""
    ps = [(asm, [])]
    for e in tr:
        if e[0] == 'guard':
            c = subst(e[1], m)
            if c is FALSE:
                return []
            if c.k != 'c':
                ps = [(a + lit(c, True), p) for a, p in ps if not contradictory(a + lit(c, True))]
        elif e[0] == 'if':
            c = subst(e[1], m)
            n = []
            for a, p in ps:
                for sub, v in ((e[2], True), (e[3], False)):
                    if c.k == 'c':
                        if bool(c.a[0]) != v:
                            continue
                        a2 = a
                    else:
                        a2 = a + lit(c, v)
                        if contradictory(a2):
                            continue
                    for a3, p3 in runs(sub, m, a2):
                        n.append((a3, p + p3))
            ps = n
        else:
            for _, p in ps:
                p.append(e)
        if len(ps) > 3000:
            raise Overflow()
    return ps


def feasible(asm, m):
    r = []
    for c, v in asm.items() if isinstance(asm, dict) else asm:
        c = subst(c, m)
        if c.k == 'c':
            if bool(c.a[0]) != v:
                return None
        else:
            r += lit(c, v)
    return tuple(r)


def calls(s):
    """The system calls made, anywhere."""
    r = {}

    def go(tr):
        for e in tr:
            if e[0] == 'sys':
                r.setdefault(e[5], e)
            elif e[0] == 'if':
                go(e[2])
                go(e[3])
            elif e[0] == 'loop':
                go(e[1].body)
    go(s.trace)
    for o in s.outs:
        go(events(o.st.trace))
    return r


def scenarios(cs, depth):
    """Which calls fail: none, one, or several of them, and for want of space
    or for lack of support where that matters."""
    fs = list(cs)
    for k in range(depth + 1):
        for pick in itertools.combinations(fs, k):
            m = {f: (TRUE if f in pick else FALSE) for f in fs}
            res = [f for f in pick if cs[f][1] in RESERVE]
            for no in itertools.product((ENOSPC, EOPNOTSUPP), repeat=len(res)):
                m2 = dict(m)
                for f, n in zip(res, no):
                    m2[mk('errno', *f.a, w=32)] = C(n, 32)
                yield pick, m2


def executed_failures(p, pick, m):
    r = []
    for e in p:
        if e[0] == 'sys' and e[5] in pick:
            if e[1] in RESERVE and m.get(mk('errno', *e[5].a, w=32)) is not C(ENOSPC, 32):
                continue
            r.append(e)
    return r


def describe(pick, m):
    if not pick:
        return 'when no call fails'
    return 'when ' + ' and '.join(f.a[0] + (' (for want of space)' if m.get(mk('errno', *f.a, w=32)) is C(ENOSPC, 32) else '') for f in pick) + ' fails'


def gs(t, r):
    """Texts inside a term."""
    if isinstance(t, T):
        if t.k == 'G':
            r.append(t)
        for x in t.a:
            gs(x, r)
    elif isinstance(t, tuple):
        for x in t:
            gs(x, r)


def mentioned(o, m):
    p = o.exc.ptr
    r = o.st.mem.get(p.a[0]) if p.k == 'p' else None
    if r is None:
        return None
    texts = []
    vals = [v for z, v in r.cells.values()]
    for e in r.log:
        vals += [x for x in e if isinstance(x, T)]
    for v in vals:
        gs(subst(v, m), texts)
    if not texts and not any(hask(v, ('errno',)) for v in vals):
        return None
    return [x for g in texts for x in g.a[5]] + [v for v in vals if hask(v, ('errno',))]


@limits.bounded(120, lambda: ([Leaf('unk', 'out of time')], 0))
def reported(cx, s, depth):
    """C10: failures end in std::runtime_error naming the error number."""
    out = []
    cs = calls(s)
    tr = prune(s.trace)
    otr = [prune(events(o.st.trace)) for o in s.outs]
    none = {f: FALSE for f in cs}
    for b in s.bad:
        if b[0] == 'terminate':
            out.append(Leaf('diff', b[1], b[2], ()))
    plain = [feasible(o.st.asm, none) is not None and bool(runs(t, none, feasible(o.st.asm, none))) for o, t in zip(s.outs, otr)]
    for pick, m in scenarios(cs, depth):
        if not pick:
            continue
        names = describe(pick, m)
        only = all(f.a[0] in RESERVE and m[mk('errno', *f.a, w=32)] is not C(ENOSPC, 32) for f in pick)
        n = 0
        if s.st is not None:
            for asm, p in runs(tr, m, feasible(s.st.asm, m) or ()) if feasible(s.st.asm, m) is not None else []:
                n += 1
                fs = executed_failures(p, pick, m)
                if fs:
                    st = 'unk' if any(hask(c, ('opq',)) for c, v in asm) else 'diff'
                    out.append(Leaf(st, 'returns normally %s: the failure of %s is not reported' % (names, fs[0][1]), fs[0][4], asm))
        if only and not n:
            e = [cs[f] for f in pick][0]
            out.append(Leaf('diff', 'cannot return normally %s although reserving space is optional' % names, e[4], ()))
        for o, t, pl in zip(s.outs, otr, plain):
            asm = feasible(o.st.asm, m)
            if asm is None or pl:
                continue
            for a, p in runs(t, m, asm):
                fs = executed_failures(p, pick, m)
                if not fs:
                    continue
                n += 1
                if not cx.md.derives(o.exc.ti, RUNTIME):
                    out.append(Leaf('diff', 'throws %s, which is no std::runtime_error, %s' % (o.exc.ti, names), o.loc, a))
                    continue
                ms = mentioned(o, m)
                if ms is None:
                    out.append(Leaf('unk', 'message of the exception', o.loc, a))
                    continue
                nos = [atoms_of(x) for x in ms]
                want = [mk('errno', *e[5].a, w=32) for e in fs] + [m[x] for e in fs for x in (mk('errno', *e[5].a, w=32),) if x in m]
                ok = any(w is x or x in zs for w in want for x, zs in zip(ms, nos) for x in [x] + list(zs) if w is x)
                out.append(Leaf('ok' if ok else 'diff', 'the exception thrown %s does not carry the error number of the call' % names, o.loc, a))
        if n:
            out.append(Leaf('ok', names, '', ()))
    return out, len(cs)


def atoms_of(t):
    r = []

    def go(x):
        if x.k == 'errno':
            r.append(x)
        for y in x.a:
            if isinstance(y, T):
                go(y)
    go(t)
    return r


@limits.bounded(120, lambda: ([Leaf('unk', 'out of time')], 0))
def released(cx, s, depth):
    """C11: each exit has closed and unmapped everything, once."""
    out = []
    cs = calls(s)
    ex = []
    if s.st is not None:
        ex.append(('returns', prune(s.trace), s.st.asm, ''))
    for o in s.outs:
        ex.append(('throws', prune(events(o.st.trace)), o.st.asm, o.loc))
    for pick, m in scenarios(cs, depth):
        names = describe(pick, m)
        for what, tr, asm0, loc in ex:
            asm = feasible(asm0, m)
            if asm is None:
                continue
            for a, p in runs(tr, m, asm):
                out += balanced(p, m, a, '%s %s' % (what, names), loc)
    return out, len(cs)


def balanced(p, m, asm, what, loc):
    out = []
    fds, maps = {}, {}
    for e in p:
        if e[0] == 'sys':
            name, args, i, at, fail = e[1:6]
            args = [subst(x, m) for x in args]
            failed = subst(fail, m) is TRUE
            if name in ('open', 'openat', 'creat'):
                if not failed:
                    fds[zext(mk('sysfd', i, fail.a[2], w=16), 32)] = [0, at]
            elif name == 'close':
                if args[0] not in fds:
                    out.append(Leaf('diff' if args[0].k == 'c' or args[0].k == 'zext' else 'unk', '%s after closing a file that was not opened (%s)' % (what, args[0]), at, asm))
                else:
                    fds[args[0]][0] += 1
                    if fds[args[0]][0] > 1:
                        out.append(Leaf('diff', '%s after closing the file twice' % what, at, asm))
            elif name == 'mmap':
                if not failed:
                    b = mk('mmap', i, fail.a[2], 'out' if args[2].k != 'c' or args[2].a[0] & 2 else 'in')
                    maps[b] = [0, at, args[1]]
                if args[4] in fds and fds[args[4]][0]:
                    out.append(Leaf('diff', '%s after mapping a closed file' % what, at, asm))
            elif name == 'munmap':
                q = args[0]
                if q.k != 'p' or q.a[0] not in maps:
                    out.append(Leaf('diff' if q.k in ('p', 'c') else 'unk', '%s after unmapping what was not mapped (%s)' % (what, q), at, asm))
                    continue
                r = maps[q.a[0]]
                r[0] += 1
                if r[0] > 1:
                    out.append(Leaf('diff', '%s after unmapping twice' % what, at, asm))
                for x, y, z in ((q.a[1], Z, 'from its beginning'), (args[1], r[2], 'in its whole length')):
                    v = eqv(x, subst(y, m), asm)
                    if v != 'eq':
                        out.append(Leaf('diff' if v == 'diff' else 'unk', '%s, but the mapping is not unmapped %s (%s instead of %s)' % (what, z, x, y), at, asm))
            elif name in ('ftruncate', 'fstat', 'fsync', 'fdatasync', 'fallocate', 'posix_fallocate'):
                if args[0] in fds and fds[args[0]][0]:
                    out.append(Leaf('diff', '%s after using a closed file' % what, at, asm))
        elif e[0] in ('read', 'write'):
            q = subst(e[3], m)
            if q.k == 'p' and q.a[0] in maps and maps[q.a[0]][0]:
                out.append(Leaf('diff', '%s after accessing the mapping when it is unmapped' % what, e[4], asm))
    for r in fds.values():
        if not r[0]:
            out.append(Leaf('diff', '%s and leaves the file open' % what, r[1], asm))
    for r in maps.values():
        if not r[0]:
            out.append(Leaf('diff', '%s and leaves the file mapped' % what, r[1], asm))
    if not out:
        out.append(Leaf('ok', what, loc, asm))
    return out


O_ACCMODE, O_CREAT, O_EXCL, O_TRUNC, O_APPEND = 3, 0o100, 0o200, 0o1000, 0o2000


def flags(e, i):
    x = e[2][i] if len(e[2]) > i else None
    return x.a[0] if x is not None and x.k == 'c' else None


@limits.bounded(60, lambda: [Leaf('unk', 'out of time')])
def durable(cx, t):
    """C09, writing."""
    s = cx.sum('fw_' + t)
    S = cx.sum('sz_' + t)
    out = []
    if s.st is None:
        return [Leaf('diff', 'never returns normally', '')]
    world = worlds(cx, t)
    cs = calls(s)
    tr = prune(s.trace)

    def same(a, b, what, at, asm):
        v = agree(a, b, world + asm)
        out.append(Leaf('ok' if v == 'eq' else 'diff' if v == 'diff' else 'unk', '%s (%s instead of %s)' % (what, a, b), at, asm))

    def need(c, what, at, asm=()):
        out.append(Leaf('ok' if c else 'diff', what, at, asm))
    for pick, m in scenarios(cs, 1):
        if any(f.a[0] not in RESERVE or m[mk('errno', *f.a, w=32)] is C(ENOSPC, 32) for f in pick):
            continue
        for asm, p in runs(tr, m):
            ev = [(e[1], [subst(x, m) for x in e[2]], e[4], e) if e[0] == 'sys' else (e[0], subst(e[3], m), e[4], e) for e in p]
            opens = [x for x in ev if x[0] in ('open', 'openat', 'creat')]
            if not opens:
                need(False, 'no file is opened', '')
                continue
            o = opens[-1]
            fd = zext(mk('sysfd', o[3][3], o[3][5].a[2], w=16), 32)
            k = 1 if o[0] == 'open' else 2
            if o[0] != 'creat':
                fl = flags((0, 0, o[1]), k)
                if fl is None:
                    out.append(Leaf('unk', 'flags of open', o[2], asm))
                else:
                    need(fl & O_CREAT, 'the file is not created when it does not exist', o[2])
                    need(not fl & O_EXCL, 'an existing file is refused', o[2])
                    need(fl & O_ACCMODE == 2, 'the file is not opened for reading and writing, which a shared mapping needs', o[2])
            out.append(samefile(cx, o, k - 1, 1))
            mm = [x for x in ev if x[0] == 'mmap']
            if not mm:
                need(False, 'the file is not mapped', o[2])
                continue
            mp = mm[-1]
            base = mk('mmap', mp[3][3], mp[3][5].a[2], 'out' if mp[1][2].k != 'c' or mp[1][2].a[0] & 2 else 'in')
            pos = {id(x): i for i, x in enumerate(ev)}
            cut = [x for x in ev if x[0] == 'ftruncate']
            need(cut, 'the file is never given its size', o[2])
            if cut:
                last = cut[-1]
                need(last[1][0] is fd, 'another file is given its size', last[2])
                same(sext(last[1][1], 64) if last[1][1].w < 64 else last[1][1], S.ret, 'the file is not given the measured size', last[2], asm)
                if S.ret is not None:
                    need(pos[id(last)] < min([i for i, x in enumerate(ev) if x[0] == 'write'] or [1 << 30]), 'the file is given its size after data was written', last[2])
            pr, fl = mp[1][2], mp[1][3]
            if pr.k == 'c':
                need(pr.a[0] & 2, 'the mapping is not writable', mp[2])
            if fl.k == 'c':
                need(fl.a[0] & 15 in (1, 3) and not fl.a[0] & 0x20, 'the mapping is not shared with the file', mp[2])
            need(mp[1][4] is fd, 'another file is mapped', mp[2])
            same(mp[1][5], Z, 'the mapping does not start at the beginning of the file', mp[2], asm)
            same(mp[1][1], S.ret, 'the mapping does not have the measured size', mp[2], asm)
            ws = [x for x in ev if x[0] == 'write' and x[1].k == 'p']
            for x in ws:
                need(x[1].a[0] is base, 'data is not written to the mapping', x[2])
            lastw = max([pos[id(x)] for x in ws] or [-1])
            if lastw < 0:
                need(False, 'nothing is written to the file', mp[2])
            un = [pos[id(x)] for x in ev if x[0] == 'munmap']
            cl = [pos[id(x)] for x in ev if x[0] == 'close']
            ok = None
            for x in ev[lastw + 1:]:
                if x[0] == 'msync':
                    if un and pos[id(x)] > min(un):
                        continue
                    a, n, fl = x[1]
                    if a.k == 'p' and a.a[0] is base and a.a[1] is Z and fl.k == 'c' and fl.a[0] & 4:
                        v = agree(n, S.ret, world + asm)
                        ok = 'ok' if v == 'eq' else ok or ('unk' if v == 'unk' else None)
                elif x[0] in ('fsync', 'fdatasync') and x[1][0] is fd and not (cl and pos[id(x)] > min(cl)):
                    ok = 'ok'
            out.append(Leaf(ok or 'diff', 'the whole contents are not flushed synchronously after the last write and before they are unmapped', ev[max(lastw, 0)][2], asm))
            for x in ev[lastw + 1:]:
                if x[0] == 'ftruncate':
                    need(False, 'the size of the file changes after data was written', x[2])
    return out


def origin(b):
    """Where the bytes of a block come from: (memory, offset, length)."""
    for _ in range(12):
        if b.k != 'blob':
            return None
        r = M.snapregion(b.a[0])
        if not r.log and not r.cells and r.dflt == 'init':
            return r.base, b.a[1], b.a[2]
        if not r.log and not r.cells and isinstance(r.dflt, tuple) and r.dflt[0] == 'alias':
            return r.dflt[1], b.a[1], b.a[2]
        if not r.log:
            return None
        e = r.log[-1]
        if e[0] == 'blk' and e[1] is b.a[1] and (e[2] is b.a[2]) and not r.cells:
            b = e[3]
            continue
        return None
    return None


def samefile(cx, o, k, arg):
    """The file opened is the one named by the caller."""
    t = o[1][k]
    what = 'the file opened is not the one named'
    if t.k != 'text':
        return Leaf('diff' if t.k == 'p' and t.a[0].k == 'gl' else 'unk', what, o[2])
    n = cx.md.initG(mk('arg', arg), Z, 'str')
    got = origin(t.a[0])
    if got is None:
        return Leaf('unk', what + ' (%s)' % str(t)[:80], o[2])
    return Leaf('ok' if got[0] is n.a[3] and got[1] is Z and got[2] is n.a[1] else 'diff', what, o[2])


@limits.bounded(60, lambda: [Leaf('unk', 'out of time')])
def whole(cx, e):
    """C09, reading."""
    s = cx.sum(e)
    out = []
    if s.st is None:
        return [Leaf('diff', 'never returns normally', '')]
    cs = calls(s)
    m = {f: FALSE for f in cs}

    def need(c, what, at, asm=()):
        out.append(Leaf('ok' if c else 'diff', what, at, asm))
    for asm, p in runs(prune(s.trace), m):
        ev = [(e[1], [subst(x, m) for x in e[2]], e[4], e) if e[0] == 'sys' else (e[0], subst(e[3], m), e[4], e) for e in p]
        o = [x for x in ev if x[0] in ('open', 'openat')]
        mm = [x for x in ev if x[0] == 'mmap']
        st = [x for x in ev if x[0] == 'fstat']
        if not o or not mm:
            need(False, 'the file is not opened and mapped', '')
            continue
        o, mp = o[-1], mm[-1]
        fd = zext(mk('sysfd', o[3][3], o[3][5].a[2], w=16), 32)
        k = 1 if o[0] == 'open' else 2
        fl = flags((0, 0, o[1]), k)
        out.append(samefile(cx, o, k - 1, 1 if e[:3] == 'fr_' else 0))
        if fl is None:
            out.append(Leaf('unk', 'flags of open', o[2], asm))
        else:
            need(fl & O_ACCMODE == 0, 'the file is not opened read-only', o[2])
            need(not fl & (O_TRUNC | O_CREAT), 'opening the file can create or truncate it', o[2])
        for x in ev:
            if x[0] in ('ftruncate', 'fallocate', 'posix_fallocate'):
                need(False, 'reading changes the file', x[2])
        pr, fl = mp[1][2], mp[1][3]
        if pr.k == 'c':
            need(pr.a[0] & 1, 'the mapping is not readable', mp[2])
            need(not pr.a[0] & 2, 'the mapping is not read-only', mp[2])
        if fl.k == 'c':
            need(fl.a[0] & 15 in (1, 3) and not fl.a[0] & 0x20, 'the mapping is not shared with the file', mp[2])
        need(mp[1][4] is fd, 'another file is mapped', mp[2])
        v = eqv(mp[1][5], Z, asm)
        out.append(Leaf('ok' if v == 'eq' else v, 'the mapping does not start at the beginning of the file', mp[2], asm))
        if not st:
            need(False, 'the size of the file is not determined', mp[2])
            continue
        need(st[-1][1][0] is fd, 'the size of another file is determined', st[-1][2])
        n = mp[1][1]
        v = 'eq' if n.k == 'fsize' else 'unk' if not (n.k == 'c' or hask(n, ('fsize',))) else 'diff'
        out.append(Leaf('ok' if v == 'eq' else v, 'the mapping (of %s bytes) does not have the size of the file' % n, mp[2], asm))
        b0 = mk('mmap', mp[3][3], mp[3][5].a[2], 'in')
        for x in ev:
            if x[0] == 'read' and x[1].k == 'p':
                need(x[1].a[0] is b0, 'data is not read from the mapping', x[2])
    return out
