"""Effects: what an operation modifies (C06, C20), and what it leaves alive,
frees or destroys (C07)."""
import limits
from cmp import *
from terms import *
import mem as M

SRC = ('arg', 'argitems', 'pt', 'lv')


def exits(s):
    r = []
    if s.st is not None:
        r.append(('normal return', s.st, '', TRUE))
    for o in s.outs:
        r.append(('exit by exception', o.st, o.loc, o.cond))
    return r


def owned_by(b, arg):
    return b.k in SRC and has(b, arg)


# ------------------------------------------------------------------- C06
@limits.bounded(60, lambda: [Leaf('unk', 'out of time')])
def unchanged(s, asm=()):
    """No memory of the object given is different afterwards."""
    out = []
    a0 = mk('arg', 0)
    for what, st, loc, cond in exits(s):
        n = 0
        for b, r in st.mem.items():
            if not owned_by(b, a0):
                continue
            n += 1
            for off, (size, v) in r.cells.items():
                out.append(same(b, C(off), size, v, asm, what, loc))
            for e in r.log:
                if e[0] == 'cells':
                    for off, size, v in e[1]:
                        out.append(same(b, C(off), size, v, asm, what, loc))
                elif e[0] == 'fam':
                    for eo, es, ev in e[3]:
                        out.append(same(b, eo, es, ev, asm, what, loc))
                elif e[0] == 'w':
                    out.append(same(b, e[1], e[2], e[3], asm, what, loc))
                else:
                    out.append(logsame(b, r, e, asm, what, loc))
        if not n:
            out.append(Leaf('ok', what, loc, asm))
    for e, asm2 in flatten(s.trace):
        if e[0] in ('free', 'dtor'):
            b = e[1] if e[0] == 'free' else e[2].a[0] if e[2].k == 'p' else None
            if b is not None and owned_by(b, a0):
                out.append(Leaf('diff', '%s part of the object' % ('frees' if e[0] == 'free' else 'destroys'), e[-1], asm2))
        elif e[0] == 'ctor' or e[0] == 'copyctor':
            p = e[3] if e[0] == 'ctor' else e[2]
            if p.k == 'p' and owned_by(p.a[0], a0):
                out.append(Leaf('diff', 'constructs over part of the object', e[-1], asm2))
    return out


def same(b, off, size, v, asm, what, loc):
    if v.k == 'G':
        i = v.a[3]
        ok = i.k == 'argitems' and has(i, b if b.k == 'arg' else mk('arg', 0)) and v.a[1].k in ('csize', 'c')
        if v.a[1].k == 'csize' and v.a[1].a[0] is b and v.a[4] is Z and i.k == 'argitems':
            return Leaf('ok', '', loc, asm)
        if i.k != 'argitems' or v.a[1].k == 'c':
            return Leaf('diff', 'the contents of a container in the object are replaced (%s)' % what, loc, asm)
        return Leaf('unk', 'container %s' % str(v)[:100], loc, asm)
    if v.k == 'undef':
        return Leaf('diff', 'part of the object is destroyed (%s)' % what, loc, asm)
    i = M.initval(b, off, size, 'p' if isptr(v) else 'i', v.w)
    q = eqv(i, v, asm) if (isptr(i) == isptr(v)) else 'unk'
    return Leaf('ok' if q == 'eq' else 'diff' if q == 'diff' else 'unk', 'the object is modified (%s): %s becomes %s' % (what, short(i), short(v)), loc, asm)


def logsame(b, r, e, asm, what, loc):
    # a block or family written: compare with what was there at a generic place
    try:
        if e[0] == 'blk':
            v = e[3]
            if v.k == 'blob':
                rg = M.snapregion(v.a[0])
                if rg.base is b and v.a[1] is e[1] and not rg.log and not rg.cells:
                    return Leaf('ok', '', loc, asm)
    except Exception:
        pass
    return Leaf('diff' if e[0] in ('blk', 'fam') and foreign(e) else 'unk', 'the object is modified (%s)' % what, loc, asm)


def foreign(e):
    """What is written does not come from the object itself."""
    return not any(has(x, mk('arg', 0)) for x in terms_of(e))


def terms_of(e):
    for x in e:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from terms_of(x)


def short(t):
    return str(t)[:120]


def flatten(tr, asm=()):
    for e in tr:
        if e[0] == 'if':
            yield from flatten(e[2], asm + lit(e[1], True))
            yield from flatten(e[3], asm + lit(e[1], False))
        elif e[0] == 'loop':
            yield from flatten(e[1].body, asm)
        else:
            yield e, asm


# ------------------------------------------------------------------- C07
def reachable(st):
    """Allocations something the caller can see refers to."""
    seen = set()
    todo = [b for b in st.mem if b.k in ('arg', 'argitems', 'pt', 'gl', 'ext')]
    while todo:
        b = todo.pop()
        if b in seen:
            continue
        seen.add(b)
        r = st.mem.get(b)
        if r is None:
            continue
        for t in M.deps(r):
            for x in atoms(t):
                if x.k in ('hp', 'items') and x not in seen:
                    todo.append(x)
                    # the members of a family
                    for b2 in st.mem:
                        if b2.k == x.k and b2.a and x.a and b2.a[0] == x.a[0]:
                            todo.append(b2)
    return seen


@limits.bounded(60, lambda: [Leaf('unk', 'out of time')])
def leaks(cx, s, asm=()):
    out = []
    for kind, text, loc in s.bad:
        if kind in ('twice', 'leak', 'doublefree', 'badfree', 'terminate'):
            out.append(Leaf('diff', text, loc, asm))
    for what, st, loc, cond in exits(s):
        rs = reachable(st)
        fam = {b.a[0] for b in rs if b.k == 'hp'}
        base = tuple(st.asm.items())
        a2 = tuple(asm) + base + ((cond, True),) if cond.k != 'c' else tuple(asm) + base
        n = 0
        for what2, items in (('memory is never freed', [(b, v) for b, v in st.live.items()]), ('an object is never destroyed', [(k[0], v) for k, v in st.cons.items()])):
            for b, v in items:
                n += 1
                if v is FALSE or b in rs or b.k == 'hp' and b.a[0] in fam or b in cx.st0.live:
                    continue
                if v.k == 'undef':
                    out.append(Leaf('unk', 'liveness of %s' % b, loc, asm))
                    continue
                ev = witness(lambda ev: ev.ev(v) == 1, [v], a2)
                if ev:
                    out.append(Leaf('diff', '%s after %s' % (what2, what), loc or allocloc(s.trace, b), a2))
        out.append(Leaf('ok', '%d allocations and objects at %s' % (n, what), loc, asm))
    out += replaced(s, asm)
    return out


def allocloc(tr, b):
    for e, _ in flatten(tr):
        if e[0] == 'alloc' and e[1] is b:
            return e[3]
        if e[0] in ('ctor', 'copyctor'):
            p = e[3] if e[0] == 'ctor' else e[2]
            if p.k == 'p' and p.a[0] is b:
                return e[-1]
    return ''


def replaced(s, asm):
    """An owning pointer of the existing object that no longer refers to what
    it owned: that was freed, once; and if it still refers to it, it was not."""
    out = []
    if s.st is None:
        return out
    a1 = mk('arg', 1)
    frees = {}
    for e, c in flatten(s.trace):
        if e[0] == 'free' and e[1].k == 'pt' and has(e[1], a1):
            frees.setdefault(e[1], []).append((c, e[-1]))
    r = s.st.mem.get(a1)
    cells = dict(r.cells) if r is not None else {}
    olds = set(frees)
    for off, (size, v) in cells.items():
        if isptr(v) and size == 8:
            olds.add(mk('pt', mk('ld', a1, C(off), 8, 'p')))
    for b in olds:
        ld = b.a[0]
        if ld.k != 'ld' or ld.a[0] is not a1 or ld.a[1].k != 'c':
            continue
        off = ld.a[1].a[0]
        v = cells.get(off, (8, ptr(b)))[1]
        keep = holds(v, b)
        if keep is None:
            out.append(Leaf('unk', 'owner %s' % short(v), '', asm))
            continue
        gone = FALSE
        for c, loc in frees.get(b, ()):
            x = TRUE
            for t, pol in c:
                x = band(x, t if pol else bnot(t))
            gone = bor(gone, x)
        nn = bnot(mk('isnull', ld, w=1))
        base = tuple(asm) + tuple(s.st.asm.items())
        loc = frees[b][0][1] if b in frees else ''
        w1 = witness(lambda ev: ev.ev(nn) == 1 and ev.ev(keep) == 0 and ev.ev(gone) == 0, [nn, keep, gone], base)
        w2 = witness(lambda ev: ev.ev(nn) == 1 and ev.ev(keep) == 1 and ev.ev(gone) == 1, [nn, keep, gone], base)
        if w1:
            out.append(Leaf('diff', 'what the existing object owned is neither kept nor freed', loc, asm))
        if w2:
            out.append(Leaf('diff', 'the existing object still refers to what was freed', loc, asm))
        if not w1 and not w2:
            out.append(Leaf('ok', 'ownership of the previous pointee', loc, asm))
    return out


def holds(v, b):
    if v.k == 'ite':
        x, y = holds(v.a[1], b), holds(v.a[2], b)
        return None if x is None or y is None else ite(v.a[0], x, y)
    if v.k == 'p':
        return TRUE if v.a[0] is b else FALSE
    return None


# ------------------------------------------------------------------- C20
REGISTRIES = ('registry', 'registrar')


def changed_globals(cx, s):
    r = set()
    for what, st, loc, cond in exits(s):
        for b, g in st.mem.items():
            if b.k != 'gl':
                continue
            o = cx.st0.mem.get(b)
            if o is not None and o.same(g):
                continue
            if not g.cells and not g.log:
                continue
            n = str(b.a[0])
            if any(x in n.lower() for x in REGISTRIES):
                continue
            r.add((b, n))
    return r


def finals(s, b):
    """What a global holds at the exits: the constants stored at each place,
    {offset: {(size, constant)}}, or None where it holds something else. A
    static local that was not reached still holds zero."""
    r = {}

    def leaves(v):
        if v.k == 'ite':
            return leaves(v.a[1]) | leaves(v.a[2])
        return {v}

    def region(g):
        for e in g.log:
            if e[0] != 'mix' or not all(region(x) for x in e[2:]):
                return False
        for o, (z, v) in g.cells.items():
            for x in leaves(v):
                if x.k == 'c' and x.a[0] == 0:
                    continue
                if x.k not in ('c', 'fn') and not (x.k == 'p' and x.a[0].k == 'gl' and x.a[1].k == 'c'):
                    return False
                r.setdefault(o, set()).add((z, x))
        return True
    for what, st, loc, cond in exits(s):
        g = st.mem.get(b)
        if g is not None and not region(g):
            return None
    return r


def depends(s, bases):
    """Observable parts of a summary that mention the given globals."""
    out = []

    def see(t, what, loc):
        for x in terms_of(t if isinstance(t, tuple) else (t,)):
            for a in atoms(x):
                if a.k in ('ld', 'csize', 'slack', 'G0', 'isnull') and any(has(a, b) for b in bases):
                    out.append(([b for b in bases if has(a, b)][0], what, loc))
                    return

    def walk(tr):
        for e in tr:
            if e[0] == 'if':
                if visible(e[2]) != visible(e[3]):
                    see(e[1], 'decision', e[4] if len(e) > 4 else '')
                walk(e[2])
                walk(e[3])
            elif e[0] == 'loop':
                walk(e[1].body)
                see(e[1].trip, 'repetition', '')
            elif e[0] in ('write', 'read', 'see', 'user', 'guard', 'alloc', 'ask'):
                see(tuple(x for x in e[1:-1]), e[0], e[4] if e[0] in ('write', 'read') else e[-1])
    walk(s.trace)
    if isinstance(s.ret, T):
        see(s.ret, 'result', '')
    for o in s.outs:
        see(o.cond, 'exception', o.loc)
    return out


def visible(tr):
    r = []
    for e in tr:
        if e[0] == 'if':
            r.append(('if', tuple(visible(e[2])), tuple(visible(e[3]))))
        elif e[0] == 'loop':
            r.append(('loop', tuple(visible(e[1].body))))
        else:
            r.append((e[0],))
    return r


class Races:
    """Writes of an operation to memory that every other operation can reach:
    globals and what static initialisation left behind. Not counted: atomic
    writes, thread-local variables, and the initialisation of a static local,
    which the implementation serialises."""
    HELD = mk('gl', 'initialisers running')

    def __init__(s, cx):
        s.it = cx.it
        s.globals = cx.m.globals
        s.st0 = cx.st0
        s.found = {}
        s.safe = set()
        s.ids = {}

    def own(s, b):
        """Private to the operation."""
        if b.k == 'gl':
            g = s.globals.get(b.a[0])
            return g is None or g['tls'] or b.a[0].startswith('_ZGV')
        return b not in s.st0.mem

    def touch(s, st, b):
        if s.own(b):
            return
        if s.it.atomic or s.held(st):
            s.safe.add(b)
            return
        s.found.setdefault(b, s.it.loc())

    def held(s, st):
        r = st.mem.get(s.HELD)
        if r is None:
            return False
        for z, v in r.cells.values():
            if s.it.decide(st, eq(v, C(0, v.w))) is not True:
                return True
        return bool(r.log)

    def enter(s, st, g, got):
        n = s.ids.setdefault(g, len(s.ids))
        st.mem[s.HELD] = st.mem.get(s.HELD, M.Region(s.HELD, 'zero')).with_cell(4 * n, 4, got)

    def leave(s, st, g):
        n = s.ids.setdefault(g, len(s.ids))
        st.mem[s.HELD] = st.mem.get(s.HELD, M.Region(s.HELD, 'zero')).with_cell(4 * n, 4, C(0, 32))


def races(cx, e):
    """(error, [(what is written, where)], number of shared places written safely)"""
    st = cx.st0.copy()
    st.mem[Races.HELD] = M.Region(Races.HELD, 'zero')
    cx.it.races = r = Races(cx)
    cx.cache.pop(e, None)
    try:
        s = cx.sum(e, st)
    finally:
        cx.it.races = None
        cx.it.atomic = False
    if s.err:
        return s.err, [], 0
    for what, st, loc, cond in exits(s):
        for b, g in st.mem.items():
            if r.own(b) or b in r.safe or b in r.found:
                continue
            o = cx.st0.mem.get(b)
            if (o is None and (g.cells or g.log)) or (o is not None and not o.same(g)):
                r.found[b] = loc or ''
    return None, sorted((str(b), l) for b, l in r.found.items()), len(r.safe)


# library functions that POSIX lets work on data or settings of the whole process
UNSAFE = set("""strtok rand srand srandom drand48 erand48 lrand48 asctime ctime gmtime localtime setlocale setenv putenv
unsetenv clearenv tmpnam tempnam mktemp chdir fchdir umask getlogin getpwnam getpwuid getgrnam getgrgid readdir gethostbyname
inet_ntoa ptsname ttyname basename dirname ecvt fcvt gcvt l64a lgamma signal sigprocmask setuid setgid crypt wctomb mbtowc mblen
std::set_terminate std::set_new_handler _ZSt13set_terminatePFvvE _ZSt15set_new_handlerPFvvE _ZNSt6locale6globalERKS_
_ZNSt8ios_base15sync_with_stdioEb""".split())


def unsafe_calls(cx):
    for f in cx.m.fns.values():
        for b in f.blocks or ():
            for i in b:
                fn = i.get('fn')
                if fn and fn[0] == 'g' and fn[1] in UNSAFE:
                    yield fn[1], '%s:%s in %s' % (str(i.get('f', '')).split('/src/')[-1], i.get('l', '?'), f.dem[:200]), f
