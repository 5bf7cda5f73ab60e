"""Type identifiers and size records (C13, C14)."""
import limits
from cmp import *
from terms import *
from check_rt import attempt, sourceguards
from check_mem import count, lastloc, worlds, agree
from interp import events

BLOCKED = 'blocked'


def registry(cx):
    """Identifier -> name of the global holding it."""
    r = []
    for b, reg in cx.st0.mem.items():
        if b.k == 'gl' and 'typeregistry4Type' in b.a[0] and b.a[0].endswith('3idxE'):
            for o, (z, v) in reg.cells.items():
                if v.k == 'c' and z == 4:
                    r.append((v.a[0], b.a[0]))
    return r


def occurrences(tr, rid, path=()):
    """The read events with this identity: (event, branches it lies in)."""
    for e in tr:
        if e[0] == 'read' and e[1].a[0] == rid:
            yield e, path
        elif e[0] == 'if':
            yield from occurrences(e[2], rid, path + lit(e[1], True))
            yield from occurrences(e[3], rid, path + lit(e[1], False))
        elif e[0] == 'loop':
            yield from occurrences(e[1].body, rid, path)


def allreads(tr, path=()):
    for e in tr:
        if e[0] == 'read':
            yield e, path
        elif e[0] == 'if':
            yield from allreads(e[2], path + lit(e[1], True))
            yield from allreads(e[3], path + lit(e[1], False))
        elif e[0] == 'loop':
            yield from allreads(e[1].body, path)


def mentions(tr, rid, r=None):
    """Terms standing for what this read delivered."""
    r = set() if r is None else r

    def look(t):
        if isinstance(t, tuple):
            for x in t:
                look(x)
        elif isinstance(t, T):
            for x in [t] + list(atoms(t)):
                if x.k == 'in' and x.a[0] == rid:
                    r.add(x)
    for e in tr:
        if e[0] in ('guard', 'if'):
            look(e[1])
        if e[0] == 'if':
            mentions(e[2], rid, r)
            mentions(e[3], rid, r)
        elif e[0] == 'loop':
            look(e[1].trip)
            mentions(e[1].body, rid, r)
        elif e[0] == 'read':
            look(e[1])
    return r


class Follow:
    """Goes on from a read assuming it delivered a certain value."""
    FORBIDDEN = ()

    def __init__(s, e, m, forbidden=(), ids=()):
        s.e, s.m, s.ids = e, m, ids
        s.forbidden = forbidden
        s.on = False
        s.unsure = False
        s.hit = None

    def val(s, c):
        """The condition under the assumption.  The table of names holds the
        identifiers of the types registered."""
        c = subst(c, s.m)
        m = {}
        for x in [c] + list(atoms(c)):
            if x.k == 'known' and x.a[1].k == 'c' and 'typeregistry' in str(x.a[0].a[0]):
                m[x] = TRUE if x.a[1].a[0] in s.ids else FALSE
        return subst(c, m) if m else c

    def seq(s, tr):
        for e in tr:
            if s.hit is not None:
                return BLOCKED
            if e[0] == 'guard':
                c = s.val(e[1])
                if c is FALSE and s.on:
                    return BLOCKED
                if c.k != 'c' and s.on and subst(e[1], s.m) is not e[1]:
                    s.unsure = True
            elif e[0] == 'if':
                c = s.val(e[1])
                was = s.on
                arms = []
                for t, v in ((e[2], True), (e[3], False)):
                    if c.k == 'c' and bool(c.a[0]) != v:
                        continue
                    s.on = was
                    arms.append((s.seq(t), s.on))
                s.on = any(o for b, o in arms)
                if s.on and all(b is BLOCKED for b, o in arms if o):
                    return BLOCKED
            elif e[0] == 'loop':
                was = s.on
                if s.seq(e[1].body) is BLOCKED and not was:
                    return BLOCKED
            elif e is s.e:
                s.on = True
            elif s.on and e[0] in s.forbidden:
                s.hit = e
        return None


def rejected(tr, e, path, value, forbidden=(), ids=()):
    """None, or what happens when the read e delivers this value."""
    m = {c: TRUE if v else FALSE for c, v in path}
    for x in mentions(tr, e[1].a[0]):
        m[x] = value if isinstance(value, T) else C(value, x.w)
    m.pop(TRUE, None)
    f = Follow(e, m, forbidden, ids)
    b = f.seq(tr)
    if f.hit is not None:
        h = f.hit
        what = {'read': 'more is read', 'see': 'the object is used', 'user': 'user code is run on the object', 'write': 'something is written'}[h[0]]
        return 'unk' if f.unsure else 'diff', what, h[4] if h[0] == 'read' else h[-1]
    if b is not BLOCKED:
        return ('unk' if f.unsure else 'diff'), 'the operation returns normally', e[4]
    return None


def wrongvalues(own, ids):
    r = [i for i in ids if i != own]
    r += [own ^ (1 << k) for k in range(32)] + [0, 0xffffffff, own + 1 & 0xffffffff, own - 1 & 0xffffffff]
    return r


def values(cx, t, w, r):
    """What each read of r delivers when it reads what w wrote: read identity ->
    values, in the worlds that could be followed."""
    io, see, st = attempt(cx, t, w, r, False)
    if io is None:
        return None, st
    m, env = {}, {}
    for l in io:
        if l.status == 'ok' and l.env:
            for rid, prs in l.env.items():
                if isinstance(rid, (int, str)):
                    env.setdefault(rid, list(prs))
                    for _, v in prs:
                        if v not in m.setdefault(rid, []):
                            m[rid].append(v)
    m['env'] = env
    return m, ''


@limits.bounded(60, lambda: ([Leaf('unk', 'out of time')], 0))
def identified(cx, t, w, r, checked):
    """C13 for the reader r."""
    out = []
    s = cx.sum(r)
    W = cx.sum(w + t)
    for x in (s, W):
        if x.err:
            return [Leaf('unk', x.err)], 0
    ids = dict(registry(cx))
    rs = list(allreads(s.trace))
    if s.st is None or W.st is None or not rs:
        return [Leaf('unk', 'no normal exit')], 0
    for b in s.bad:
        if b[0] == 'terminate':
            out.append(Leaf('diff', b[1], b[2]))
    first = rs[0][0]
    todo = {first[1].a[0]: None}
    if checked:
        vals, err = values(cx, t, w, r)
        if vals is None:
            out.append(Leaf('unk', err))
        else:
            for e, path in rs:
                vs = vals.get(e[1].a[0])
                if vs and all(v.k == 'c' and v.a[0] in ids for v in vs) and e[2] is C(4):
                    todo[e[1].a[0]] = vs
    own = firstwritten(W.trace)
    if own is None or own.k != 'c' or own.a[0] not in ids:
        out.append(Leaf('diff', 'the first thing written is not an identifier of the type (%s)' % own, lastloc(W.trace)))
        return out, 0
    n = 0
    for rid, vs in todo.items():
        vs = vs or [own]
        if len(vs) > 1:
            out.append(Leaf('unk', 'several identifiers at one place'))
            continue
        for e, path in occurrences(s.trace, rid):
            n += 1
            for v in wrongvalues(vs[0].a[0], list(ids)):
                b = rejected(s.trace, e, path, v, ('read', 'see', 'user', 'write'), ids)
                if b is None:
                    out.append(Leaf('ok', '', e[4]))
                else:
                    out.append(Leaf(b[0], '%s although the identifier read, %#x, is not that of the type, %#x' % (b[1], v, vs[0].a[0]), b[2]))
                    break
    return out, n


def firstwritten(tr):
    for e in tr:
        if e[0] == 'write':
            return e[1]
        if e[0] == 'if':
            a, b = firstwritten(e[2]), firstwritten(e[3])
            if a is not None or b is not None:
                return a if a is b else None
        elif e[0] == 'loop':
            a = firstwritten(e[1].body)
            if a is not None:
                return mk('inloop', a)
    return None


# -------------------------------------------------- the layout of the bytes
class Odd(Exception):
    pass


class Layout:
    """Parses what is written (or read) as  object := identifier, data, size
    record  where the data is either one run of bytes, of the size recorded, or
    any number of objects."""

    def __init__(s, isid, val):
        s.isid = isid
        s.val = val          # event -> value
        s.records = []       # the events that are size records
        s.objects = 0

    def parse(s, tr, top):
        st = [['top', None, None]]
        s.seq(tr, st)
        s.settle(st)
        if len(st) != 1:
            raise Odd('an object is not followed by a record of its size', st[-1][2])
        if not top and not s.objects:
            raise Odd('nothing', '')

    def settle(s, st):
        while st[-1][0] == 'maybe':
            # the last item was the record of an object without data
            s.records.append(st[-1][1])
            st.pop()

    def item(s, e, st):
        if s.isid(e):
            s.settle(st)
            if st[-1][0] == 'leaf':
                raise Odd('the data is not followed by a record of its size', e[4])
            if st[-1][0] == 'fresh':
                st[-1][0] = 'composite'
            st.append(['fresh', None, e[4]])
            s.objects += 1
            return
        top = st[-1]
        if top[0] == 'maybe':
            if s.size(e, top[1]):
                s.records.append(e)
                st.pop()
                return
            s.settle(st)
            return s.item(e, st)
        if top[0] == 'fresh':
            top[0], top[1] = 'maybe', e
            return
        if top[0] == 'composite' or top[0] == 'leaf':
            if not e[2] is C(8):
                raise Odd('data of %s bytes is not preceded by an identifier of its type' % e[2], e[4])
            s.records.append(e)
            st.pop()
            return
        raise Odd('data is not preceded by an identifier of its type', e[4])

    def size(s, e, data):
        v = s.val(e)
        return v is not None and e[2] is C(8) and eqv(v, s.len(data), ()) == 'eq'

    def len(s, e):
        return e[2]

    def seq(s, tr, st):
        for e in tr:
            if e[0] in ('write', 'read'):
                if e[0] == 'write' and len(e) < 5:
                    continue
                s.item(e, st)
            elif e[0] == 'if':
                a = [list(x) for x in st]
                b = [list(x) for x in st]
                s.seq(e[2], a)
                s.seq(e[3], b)
                if len(a) != len(b):
                    s.settle(a)
                    s.settle(b)
                if len(a) != len(b):
                    raise Odd('the objects written differ in depth between two branches', e[4] if len(e) > 4 else '')
                for i, (x, y) in enumerate(zip(a, b)):
                    if x[0] != y[0]:
                        if {x[0], y[0]} <= {'fresh', 'composite'}:
                            x[0] = 'composite'
                        elif {x[0], y[0]} <= {'fresh', 'maybe', 'leaf'}:
                            x[0] = 'leaf'
                        else:
                            raise Odd('the objects written differ in kind between two branches', x[2] or '')
                st[:] = a
            elif e[0] == 'loop':
                n = len(st)
                s.seq(e[1].body, st)
                if len(st) != n:
                    s.settle(st)
                if len(st) != n:
                    raise Odd('a loop does not write whole objects', e[-1] if isinstance(e[-1], str) else '')
                if st[-1][0] == 'fresh':
                    st[-1][0] = 'composite'


class ReadLayout(Layout):
    def __init__(s, isid, val, inst):
        Layout.__init__(s, isid, val)
        s.inst = inst

    def len(s, e):
        return s.inst(e[2])


@limits.bounded(60, lambda: ([Leaf('unk', 'out of time')], 0))
def layout(cx, e, checked):
    """C13/C14: what a writer emits."""
    W = cx.sum(e)
    if W.err:
        return [Leaf('unk', W.err)], 0
    if W.st is None:
        return [Leaf('unk', 'no normal exit')], 0
    ids = dict(registry(cx))
    isid = lambda e: e[2] is C(4) and e[1].k == 'c' and e[1].a[0] in ids
    if checked:
        l = Layout(isid, lambda e: e[1])
        try:
            l.parse(W.trace, True)
        except Odd as x:
            return [Leaf('diff', x.args[0], x.args[1])], 0
        return [Leaf('ok')] * max(1, l.objects), l.objects
    return [Leaf('ok')], 1


def lastitems(tr):
    """The items a trace can end with, and whether it can have none."""
    r = []
    for e in reversed(tr):
        if e[0] in ('read', 'write'):
            return r + [e], False
        if e[0] == 'if':
            (a, x), (b, y) = lastitems(e[2]), lastitems(e[3])
            r += a + b
            if not x and not y:
                return r, False
        if e[0] == 'loop':
            r += lastitems(e[1].body)[0]
    return r, True


@limits.bounded(60, lambda: ([Leaf('unk', 'out of time')], 0))
def recorded(cx, t, w, r, checked):
    """C14 for the reader r: a size record that differs ends in an exception."""
    out = []
    s = cx.sum(r)
    W = cx.sum(w + t)
    for x in (s, W):
        if x.err:
            return [Leaf('unk', x.err)], 0
    if s.st is None or W.st is None:
        return [Leaf('unk', 'no normal exit')], 0
    recs = []
    (last, x), (lw, y) = lastitems(s.trace), lastitems(W.trace)
    bad = [e for e in last if e[2] is not C(8)] + [e for e in lw if e[2] is not C(8) or e[1].k != 'c']
    if bad or not last or not lw:
        out.append(Leaf('diff', 'the last thing written and read is no record of the size', bad[0][4] if bad else ''))
    else:
        recs += last
    if checked:
        ids = dict(registry(cx))
        vals, err = values(cx, t, w, r)
        if vals is None:
            out.append(Leaf('unk', err))
        else:
            from cmp import Align
            one = lambda e: (vals.get(e[1].a[0]) or [None])[0]
            isid = lambda e: e[2] is C(4) and one(e) is not None and one(e).k == 'c' and one(e).a[0] in ids
            inst = Align().inst(vals['env'])
            l = ReadLayout(isid, lambda e: inst(e[1]), inst)
            try:
                l.parse(s.trace, True)
                recs += [x for x in l.records if not any(x is y for y in recs)]
            except Odd as x:
                out.append(Leaf('unk', 'layout read: ' + x.args[0], x.args[1] or ''))
    n = 0
    for e in recs:
        for e2, path in occurrences(s.trace, e[1].a[0]):
            n += 1
            out += badsize(s.trace, e2, path)
    return out, n


def guardson(tr, rid):
    for e in tr:
        if e[0] == 'guard' and any(x.k == 'in' and x.a[0] == rid for x in [e[1]] + list(atoms(e[1]))):
            yield e[1]
        elif e[0] == 'if':
            yield from guardson(e[2], rid)
            yield from guardson(e[3], rid)
        elif e[0] == 'loop':
            yield from guardson(e[1].body, rid)


def badsize(tr, e, path):
    rid = e[1].a[0]
    gs = list(guardson(tr, rid))
    if not gs:
        return [Leaf('diff', 'the size recorded is never compared', e[4])]
    want = None
    for g in gs:
        for c in conj(g):
            if c.k == 'eq0':
                d = c.a[0]
                ms = d.a[1] if d.k == '+' else ((d, 1),)
                for x, k in ms:
                    if x.k == 'in' and x.a[0] == rid and k in (1, (1 << d.w) - 1):
                        rest = sub(d, scale(x, k))
                        want = scale(rest, -1) if k == 1 else rest
    if want is None:
        v = [x for x in mentions(tr, rid)]
        return [Leaf('unk', 'comparison of the size recorded', e[4])] if not any(g.k in ('ult', 'slt', 'not') for g in gs) else \
            [Leaf('diff', 'the size recorded is only compared approximately', e[4])]
    out = []
    for d in [1 << k for k in range(64)] + [-1, -8]:
        b = rejected(tr, e, path, add(want, C(d)))
        if b is None:
            out.append(Leaf('ok', '', e[4]))
        else:
            out.append(Leaf(b[0], '%s although the size recorded is off by %d' % (b[1], d), b[2]))
            break
    return out


def conj(c):
    if c.k == 'and':
        return conj(c.a[0]) + conj(c.a[1])
    return [c]


# ---------------------------------------- writing other than was measured
@limits.bounded(60, lambda: [Leaf('unk', 'out of time')])
def overrun(cx, t):
    """A class that writes other than it announced: no buffer is returned whose
    size differs from the bytes written to it."""
    out = []
    S = cx.sum('sz_' + t)
    for p in ('mw_', 'mn_'):
        if not cx.has(p + t):
            continue
        W = cx.sum(p + t)
        for x in (S, W):
            if x.err:
                return [Leaf('unk', x.err)]
        if W.st is None:
            out.append(Leaf('ok' if W.outs else 'unk', 'always throws'))
            continue
        per = {}
        count(W.trace, per)
        asm = sourceguards(W.trace)
        tot = Z
        for n in per.values():
            tot = add(tot, n)
        # one world for each outcome of the caller's buffer function
        null = [c for c in conds(tot) if c.k == 'isnullp']
        for m in [{null[0]: TRUE}, {null[0]: FALSE}] if len(null) == 1 else [{}]:
            cs = [(subst(c, m), x) for c, x in asm]
            if any(c.k == 'c' and bool(c.a[0]) != x for c, x in cs):
                continue
            cs = tuple(y for c, x in cs for y in lit(c, x) if y[0].k != 'c')
            v = agree(subst(tot, m), S.ret, cs)
            if v == 'unk':
                # the equality may be what was checked
                d = sub(subst(tot, m), S.ret)
                for c, x in cs:
                    if c.k == 'not':
                        c, x = c.a[0], not x
                    if c.k == 'eq0' and x and 'eq' in (eqv(c.a[0], d, ()), eqv(scale(c.a[0], -1), d, ())):
                        v = 'eq'
            out.append(Leaf('ok' if v == 'eq' else 'diff' if v == 'diff' else 'unk', 'a buffer of %s bytes is returned after %s bytes were written to it' % (S.ret, tot), lastloc(W.trace), asm))
    return out


def conds(t):
    r = []
    for x in [t] + list(atoms(t)):
        if x.k == 'isnullp' and x not in r:
            r.append(x)
    return r


# --------------------------------------------- the numbering of the types
TYPES = 1 << 16


@limits.bounded(60, lambda: ([Leaf('unk', 'out of time')], 0))
def numbering(cx):
    """The identifier given to the n-th type registered: distinct from those of
    all others, and accepted when read."""
    import mem
    ids = registry(cx)
    first = cx.sum('reg_')
    if first.err or first.st is None:
        return [Leaf('unk', first.err or 'registration never returns')], 0
    # what one registration changes, outside the table of names
    from check_fx import changed_globals
    gs = []
    for b, reg in first.st.mem.items():
        if b.k != 'gl' or b.a[0].startswith('_ZGV') or len(reg.cells) != 1 or not isnum(reg):
            continue
        old = cx.st0.mem.get(b)
        if old is None or (len(old.cells) == 1 and isnum(old) and list(old.cells.items()) != list(reg.cells.items())):
            gs.append(b)
    if len(gs) != 1:
        return [Leaf('unk', 'registration changes %d counters' % len(gs))], 0
    g = gs[0]
    (o, (z, v0)), = first.st.mem[g].cells.items()
    st = cx.st0.copy()
    st.mem[g] = mem.Region(g, 'init')
    cx.cache = {}
    s, k = cx.sum('reg_', st), cx.sum('reg_ok', st)
    cx.cache = {}
    for x in (s, k):
        if x.err or x.st is None or x.ret is None:
            return [Leaf('unk', x.err or 'registration never returns')], 0
    nxt = s.st.mem[g].cells.get(o)
    ins = [x for x in atoms(s.ret) | atoms(k.ret) | (atoms(nxt[1]) if nxt else frozenset()) if x.k == 'ld']
    if nxt is None or len(ins) != 1:
        return [Leaf('unk', 'the identifier depends on more than one counter')], 0
    x, c, seen, out = ins[0], C(v0.a[0] & 0, ins[0].w), {}, []
    for n in range(TYPES):
        m = {x: c}
        i, ok, c = subst(s.ret, m), subst(k.ret, m), subst(nxt[1], m)
        if i.k != 'c' or ok.k != 'c' or c.k != 'c':
            return [Leaf('unk', 'identifier of the %d-th type: %s' % (n, i))], 0
        if i in seen:
            out.append(Leaf('diff', 'the types number %d and %d to be registered get the same identifier %#x' % (seen[i] + 1, n + 1, i.a[0]), ''))
            break
        if not ok.a[0]:
            out.append(Leaf('diff', 'the identifier %#x of the type number %d to be registered is taken for invalid' % (i.a[0], n + 1), ''))
            break
        seen[i] = n
        out.append(Leaf('ok'))
    return out, len(ids)


def isnum(reg):
    return all(v.k == 'c' for z, v in reg.cells.values())
