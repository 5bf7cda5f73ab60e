"""Abstract semantics of everything the library calls but does not define:
the C++ runtime, the standard containers (as a size, a capacity and a family of
elements), strings, streams, the file system calls and the opaque user code of
the witness translation units."""
import re
from terms import *
import mem as M
from mem import Region
from interp import St, Out, Exc, Node, Unsupported, short, events
from ir import strip_targs


class Split(Exception):
    def __init__(s, c):
        s.c = c


SEQ = {'std::vector': 'vec', 'std::__cxx11::list': 'list', 'std::deque': 'deque', 'std::map': 'map', 'std::multimap': 'mmap',
       'std::set': 'set', 'std::multiset': 'mset', 'std::unordered_map': 'umap', 'std::unordered_multimap': 'ummap',
       'std::unordered_set': 'uset', 'std::unordered_multiset': 'umset', 'std::__cxx11::basic_string': 'str',
       'std::forward_list': 'flist'}
NODES = ('list', 'map', 'mmap', 'set', 'mset', 'umap', 'ummap', 'uset', 'umset', 'flist')
NODEITER = ('std::_List_iterator', 'std::_List_const_iterator', 'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator',
            'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator', 'std::_Deque_iterator',
            'std::__detail::_Node_iterator_base', 'std::_Fwd_list_iterator', 'std::_Fwd_list_const_iterator')
BITITER = ('std::_Bit_iterator', 'std::_Bit_const_iterator', 'std::_Bit_iterator_base')

STDEXC = {'_ZTISt13runtime_error': ['_ZTISt9exception'], '_ZTISt11logic_error': ['_ZTISt9exception'],
          '_ZTISt12out_of_range': ['_ZTISt11logic_error'], '_ZTISt12length_error': ['_ZTISt11logic_error'],
          '_ZTISt16invalid_argument': ['_ZTISt11logic_error'], '_ZTISt12domain_error': ['_ZTISt11logic_error'],
          '_ZTISt11range_error': ['_ZTISt13runtime_error'], '_ZTISt14overflow_error': ['_ZTISt13runtime_error'],
          '_ZTISt12system_error': ['_ZTISt13runtime_error'], '_ZTISt9bad_alloc': ['_ZTISt9exception'],
          '_ZTISt8bad_cast': ['_ZTISt9exception'], '_ZTISt18bad_variant_access': ['_ZTISt9exception'],
          '_ZTISt19bad_optional_access': ['_ZTISt9exception'], '_ZTINSt8ios_base7failureB5cxx11E': ['_ZTISt12system_error'],
          '_ZTISt9exception': [], '_ZTISt17bad_function_call': ['_ZTISt9exception']}


def ctxof(f):
    c = getattr(f, '_mctx', None)
    if c is None:
        c = f.sctx
        # drop a return type in front of a template member
        d = 0
        cut = 0
        for i, ch in enumerate(c):
            if ch in '([':
                d += 1
            elif ch in ')]':
                d -= 1
            elif ch == ' ' and d == 0:
                cut = i + 1
        c = c[cut:].lstrip('&*')
        f._mctx = c
    return c


class Models:
    SYSERR = True

    def __init__(s, fix=None, conf=None):
        s.fix = fix            # None, or function(base, off) -> number of elements
        s.conf = conf or {}
        s.handlers = {}

    def attach(s, it):
        s.it = it

    # ------------------------------------------------------------- dispatch
    def call(s, f, args, st):
        h = getattr(f, '_h', None)
        if h is None:
            h = f._h = s.find(f) or 0
        if h == 0:
            return None
        try:
            return h(s, f, args, st)
        except Split as e:
            d = s.it.decide(st, e.c)
            if d is not None:
                raise Unsupported('split on a decided condition')
            a, b = st.copy(), st
            s.it.assume(a, e.c)
            s.it.assume(b, bnot(e.c))
            sa, oa = s.call(f, args, a)
            sb, ob = s.call(f, args, b)
            return s.it.merge(e.c, sa, sb), oa + ob

    def find(s, f):
        c = ctxof(f)
        b = f.base
        if f.name.startswith('llvm.'):
            return s.llvm(f)
        if c in SEQ:
            k = SEQ[c]
            if k == 'vec' and f.dem.find('std::vector<bool') >= 0 and re.search(r'std::vector<bool, [^>]*>+::', f.ctx + '::'):
                k = 'bits'
            return lambda m, f, a, st: m.cont(k, f, a, st)
        if c in NODEITER or c in BITITER:
            h = ITER.get(b)
            if h is None and c in BITITER and b in ('_M_incr', '_M_bump_up', '_M_bump_down', '_M_decr', '_Bit_iterator', '_Bit_const_iterator'):
                if b.startswith('_Bit'):
                    return None
                h = Models.iter_bad
            return h
        if c == 'std::_Bit_reference':
            return {'operator bool': Models.bit_get, 'operator=': Models.bit_set, 'flip': Models.iter_bad}.get(b)
        h = NAMES.get((c, b))
        if h:
            return h
        if b.startswith('operator') and c == 'std' and b in ('operator==', 'operator!=', 'operator-') and len(f.args) >= 2:
            ps = f.params
            if any(x in ps for x in ('_Bit_iterator', '_Deque_iterator', '_Rb_tree_', '_List_', '_Node_iterator')) and 'reverse_iterator' not in ps:
                return {'operator==': Models.iter_eq, 'operator!=': Models.iter_ne, 'operator-': Models.iter_sub}[b]
        if c == 'std::__detail' and b in ('operator==', 'operator!='):
            return {'operator==': Models.iter_eq, 'operator!=': Models.iter_ne}[b]
        if c == 'std' and b in ('operator==', 'operator!=', 'operator<', 'operator>') and 'basic_string' in f.params:
            return Models.opaque_cmp
        if c == 'std' and b == 'operator+' and 'basic_string' in f.params:
            return Models.str_plus
        if c == 'std' and b == 'operator<<':
            return Models.stream_out
        if c in ('std::__cxx11', 'std') and b == 'to_string':
            return Models.to_string
        if c == 'std' and b.startswith('__throw_'):
            return Models.std_throw
        if c.startswith('std::') and c.rsplit('::', 1)[-1].endswith(('_error', 'exception', 'out_of_range', 'invalid_argument')) or c in ('std::exception', 'std::bad_alloc'):
            return Models.exc_member
        if c == 'std::type_info' and b in ('operator==', 'operator!=', 'before', 'hash_code'):
            return Models.typeinfo_op
        if c.startswith('wit') or c == '' and b.startswith('wit_'):
            if not f.blocks:
                return Models.wit_call
        if c in ('std::istream', 'std::ostream', 'std::basic_istream', 'std::basic_ostream', 'std::basic_ios', 'std::iostream', 'std::ios_base',
                 'std::basic_iostream', 'std::ios', 'std::ios_base'):
            return STREAM.get(b) or (Models.stream_misc if not f.blocks else None)
        if c == 'std::__new_allocator' or c == '__gnu_cxx::new_allocator':
            if b == 'allocate':
                return Models.alloc_n
            if b == 'deallocate':
                return Models.dealloc_n
        if c in ('__gnu_cxx::__aligned_membuf', '__gnu_cxx::__aligned_buffer') and b in ('_M_addr', '_M_ptr'):
            return Models.valptr
        if c == '':
            h = PLAIN.get(b)
            if h:
                return h
        return None

    # ------------------------------------------------------------- helpers
    def ret(s, st, v=None):
        st.ret = UNDEF if v is None else v
        return st, []

    def P(s, st, p, what='object'):
        """A plain pointer (case split on conditional pointers)."""
        while p.k == 'ite':
            d = s.it.decide(st, p.a[0])
            if d is None:
                raise Split(p.a[0])
            p = p.a[1] if d else p.a[2]
        if p.k == 'undef':
            s.it.report('undef', 'use of an uninitialised pointer to a %s' % what)
            raise Unsupported('undefined pointer at ' + s.it.loc())
        if p.k != 'p':
            raise Unsupported('pointer %s at %s' % (show(p), s.it.loc()))
        if p.a[0] is NULLB:
            s.it.report('null', 'null pointer to a %s used' % what)
            raise Unsupported('null pointer at ' + s.it.loc())
        return p

    def V(s, st, v):
        while v.k == 'ite':
            d = s.it.decide(st, v.a[0])
            if d is None:
                return v
            v = v.a[1] if d else v.a[2]
        return v

    def num(s, st, v, limit=64):
        v = s.V(st, v)
        return v.a[0] if v.k == 'c' and v.a[0] <= limit else None

    # ---- containers
    def csize(s, base, off):
        if s.fix is not None:
            n = s.fix(base, off)
            if n is not None:
                return C(n)
        return mk('csize', base, off)

    def initG(s, base, off, like):
        kind = like if isinstance(like, str) else like.a[0]
        n = s.csize(base, off)
        items = mk('argitems', base, off)
        if s.fix is not None and n.k == 'c':
            cap = add(n, C(0))
        else:
            cap = n
        if kind in ('vec', 'bits', 'str'):
            cap = add(n, mk('slack', base, off))
        return mk('G', kind, n, cap, items, Z, ())

    def getG(s, st, p, kind, size):
        p = s.P(st, p, 'container')
        r = s.it.region(st, p.a[0])
        v = r.read(p.a[1], size, 'G', 64)
        while v.k == 'ite':
            d = s.it.decide(st, v.a[0])
            if d is None:
                raise Split(v.a[0])
            v = v.a[1] if d else v.a[2]
        if v.k == 'G0':
            v = s.initG(v.a[0], v.a[1], kind)
        if v.k != 'G':
            if v.k == 'undef' or v.k == 'c':
                s.it.report('undef', 'container used before it was constructed or after it was destroyed')
            raise Unsupported('container %s at %s' % (show(v)[:80], s.it.loc()))
        return p, v

    def setG(s, st, p, g, size):
        s.it.store(st, p, size, g)

    def newG(s, st, kind, n=Z, cap=None, mentions=()):
        b = s.it.newbase('items', kind)
        st.mem[b] = Region(b, 'undef')
        return mk('G', kind, n, cap if cap is not None else n, b, Z, tuple(mentions))

    def elem(s, g, i, vs):
        return ptr(g.a[3], scale(add(g.a[4], i), vs))

    def vsof(s, kind, f):
        if kind in ('str', 'bits'):
            return 1
        v = f.vs
        if not v:
            raise Unsupported('element size of ' + short(f.dem))
        return v

    def clsz(s, kind, f):
        if kind == 'str':
            return 32
        return f.clsz or {'vec': 24, 'list': 24, 'bits': 40, 'deque': 80}.get(kind, 48 if kind in ('map', 'set', 'mmap', 'mset') else 56)

    def kill(s, st, base, seen=None):
        """The elements of a container are destroyed: what they own is gone."""
        seen = seen if seen is not None else set()
        if base in seen:
            return
        seen.add(base)
        r = st.mem.get(base)
        if r is None:
            return
        found = set()
        for t in M.deps(r):
            for x in atoms(t):
                if x.k in ('hp', 'items') and x is not base:
                    found.add(x)
        for b in found:
            for l in list(st.live):
                if l is b or (l.k == b.k and l.a[0] == b.a[0]):
                    st.live[l] = FALSE
                    for ck in [ck for ck in st.cons if ck[0] is l]:
                        st.cons[ck] = FALSE
            for m in list(st.mem):
                if m is b or (m.k == b.k and m.a and m.a[0] == b.a[0]):
                    s.kill(st, m, seen)

    def callee(s, f, key, want):
        """A function the operation is built on (found through the call graph)."""
        c = f.__dict__.setdefault('_callee', {})
        if key not in c:
            c[key] = s.it.m.find_callee(f, want)
        return c[key]

    def construct(s, f, kind, this, p, args, st):
        """Construct one element at p with the code the operation uses; returns
        (state, outs), or None for a plain value."""
        it = s.it
        n = len(args)
        if kind in NODES:
            g = s.callee(f, ('node', n), lambda h: h.base in ('_M_create_node', '_M_allocate_node') and len(h.args) == n + 1 and h.blocks)
            if g is None:
                return None
            s.fnode = ptr(mk('fnode', p.a[0], p.a[1]))
            try:
                return it.call(g.name, [this] + args, st)
            finally:
                s.fnode = None
        if f.base in ('push_back', 'emplace_back', 'push_front', 'emplace_front', 'insert', 'emplace'):
            if kind == 'vec' and f.base in ('push_back', 'emplace_back'):
                vs = f.vs
                b = mk('fvec', it.fresh(), it.idx)
                other = ptr(mk('al', it.fresh(), it.idx, 'spare'))
                st.mem[b] = Region(b, 'undef', {0: (8, p), 8: (8, p), 16: (8, other)})
                r, outs = it.run_body(f, [ptr(b)] + args, st)
                if r is not None:
                    r.mem.pop(b, None)
                return r, outs
            if kind == 'deque' and f.base in ('push_back', 'emplace_back', 'push_front', 'emplace_front'):
                vs = f.vs
                b = mk('fvec', it.fresh(), it.idx)
                other = ptr(mk('al', it.fresh(), it.idx, 'spare'))
                q = padd(p, C(vs)) if 'front' in f.base else p
                st.mem[b] = Region(b, 'undef', {16: (8, q), 24: (8, other), 32: (8, other), 40: (8, other),
                                                48: (8, p), 56: (8, other), 64: (8, other), 72: (8, other)})
                r, outs = it.run_body(f, [ptr(b)] + args, st)
                if r is not None:
                    r.mem.pop(b, None)
                return r, outs
        g = s.callee(f, ('cons', n), lambda h: h.base == '_Construct' and len(h.args) == n + 1 and h.blocks)
        if g is None:
            return None
        return it.call(g.name, [p] + args, st)

    fnode = None

    def append_many(s, f, kind, this, g, lo, n, args, st, vs):
        """Construct elements lo .. n-1 of g (none is scalar copy of args)."""
        outs = []
        if kind in ('str', 'bits'):
            b = g.a[3]
            if args:
                v = args[0]
                s.it.logwrite(st, b, ('fam',) + s.uni(st, lo, n, lambda k: ((add(g.a[4], k), 1, trunc(zext(v, 8), 8)),)))
            else:
                s.it.logwrite(st, b, ('zero', add(g.a[4], lo), sub(n, lo)))
            return st, outs
        if lo.k == 'c' and n.k == 'c':
            cnt = n.a[0] - lo.a[0]
            if cnt <= 0 or cnt >> 63:
                return st, outs
            if cnt <= 64:
                for i in range(cnt):
                    r = s.construct1(f, kind, this, s.elem(g, C(lo.a[0] + i), vs), args, st, vs)
                    st, o = r
                    outs += o
                    if st is None:
                        return None, outs
                return st, outs
        # a family: one generic element
        it = s.it
        K = mk('K', it.fresh())
        trip = sub(n, lo)
        Facts.trip[K] = trip
        idx0 = it.idx
        it.idx = idx0 + (K,)
        proto = mk('al', it.fresh(), it.idx, 'proto')
        st.mem[proto] = Region(proto, 'undef')
        pre = st.trace
        before = set(st.mem)
        r = s.construct1(f, kind, this, ptr(proto), args, st, vs)
        it.idx = idx0
        st, o = r
        if st is None:
            return None, o
        reg = st.mem.pop(proto)
        ck = [k for k in st.cons if k[0] is proto]
        for k in ck:
            del st.cons[k]
        st.trace = pre
        ents = []
        off0 = scale(add(add(g.a[4], lo), K), vs)
        if reg.log:
            # materialise fixed-size content
            ok = s.cellify(reg, vs)
            if ok is None:
                raise Unsupported('element content at ' + it.loc())
            reg = ok
        for o2, (z, v) in sorted(reg.cells.items()):
            ents.append((add(off0, C(o2)), z, v))
        if ents:
            it.logwrite(st, g.a[3], ('fam', K, trip, tuple(ents)))
        return st, []

    def cellify(s, reg, vs):
        cells = dict(reg.cells)
        r = Region(reg.base, reg.dflt)
        for e in reg.log:
            if e[0] == 'cells':
                for o, z, v in e[1]:
                    r = r.with_cell(o, z, v)
            elif e[0] == 'zero' and e[1].k == 'c' and e[2].k == 'c' and e[2].a[0] <= 4096:
                lo, n = e[1].a[0], e[2].a[0]
                while n > 0:
                    z = 8 if n >= 8 else 4 if n >= 4 else 1
                    r = r.with_cell(lo, z, C(0, z * 8))
                    lo += z
                    n -= z
            elif e[0] == 'blk' and e[1].k == 'c' and e[2].k == 'c' and e[2].a[0] <= 4096:
                lo, n = e[1].a[0], e[2].a[0]
                for i in range(0, n, 4):
                    z = min(4, n - i)
                    r = r.with_cell(lo + i, z, subval(e[3], C(i), z, z * 8))
            else:
                return None
        for o, (z, v) in cells.items():
            r = r.with_cell(o, z, v)
        return r

    def uni(s, st, lo, n, f):
        K = mk('K', s.it.fresh())
        Facts.trip[K] = sub(n, lo)
        return K, sub(n, lo), f(add(lo, K))

    def construct1(s, f, kind, this, p, args, st, vs):
        r = s.construct(f, kind, this, p, args, st)
        if r is not None:
            return r
        # scalars: value-initialised or a plain copy
        if not args:
            if vs <= 8:
                s.it.store(st, p, vs, C(0, vs * 8))
            else:
                s.it.logwrite(st, p.a[0], ('zero', p.a[1], C(vs)))
            return st, []
        if len(args) == 1:
            s.memcpy(st, p, args[0], C(vs))
            return st, []
        raise Unsupported('construction of an element in ' + short(f.dem))

    def copy_elems(s, st, g, kind, vs, src=None):
        """A copy of container value g (elements copied memberwise)."""
        n = s.newG(st, kind, g.a[1], g.a[1], g.a[5])
        b = n.a[3]
        r = s.it.region(st, g.a[3])
        # same contents by reference to the snapshot; nested containers are
        # shared by value since the copy is never modified through the source
        if g.a[4] is Z:
            st.mem[b] = Region(b, 'undef', {}, (('blkG', r),)) if False else s.rebase(r, b)
        else:
            st.mem[b] = s.rebase(r, b)
            n = mk('G', n.a[0], n.a[1], n.a[2], b, g.a[4], n.a[5])
        return n

    def rebase(s, r, b):
        if r.dflt == 'init':
            return Region(b, ('alias', r.base), dict(r.cells), r.log)
        return Region(b, r.dflt, dict(r.cells), r.log)

    def as_iter(s, kind, p, f):
        """Iterator value for position pointer p."""
        if kind == 'bits':
            return mk('agg', p, C(0, 32))
        return p

    def itpos(s, st, v):
        """Position pointer from an iterator argument (by value or by reference
        to an iterator object)."""
        if v.k == 'agg':
            return v.a[0]
        return v

    def iload(s, st, p):
        """Iterator stored in the object at p."""
        p = s.P(st, p, 'iterator')
        return s.it.load(st, p, 8, 'p')

    def cont(s, kind, f, args, st):
        h = CONT.get(f.base)
        if h is Models.c_known and kind == 'str':
            h = None
        it = s.it
        if args and args[0].k == 'p' and args[0].a[0].k == 'fvec':
            if f.base == 'back' or f.base == 'front':
                return s.ret(st, it.load(st, ptr(args[0].a[0], C(8)), 8, 'p'))
            return it.run_body(f, args, st)
        c = ctxof(f).rsplit('::', 1)[-1]
        if f.base == c:
            h = Models.c_ctor
        elif f.base == '~' + c:
            h = Models.c_dtor
        if h is None:
            if kind in NODES and f.blocks and s.fnode is not None and re.match(r'_M_(create|allocate|get|construct|destroy|put|drop)_[nN]ode$|_M_get_Node_allocator$|_M_[gp]et_node$', f.base):
                return it.run_body(f, args, st)
            if f.base == '_S_select_on_copy' or f.base.startswith('_S_') or f.base in ('_M_get_Tp_allocator', 'get_allocator', '_M_local_data') and f.blocks:
                st.ret = UNDEF
                return None
            if kind == 'str' and (f.base in STRMISC):
                return s.str_misc(f, args, st)
            raise Unsupported('container operation %s at %s' % (short(f.dem), it.loc()))
        sret = None
        a = list(args)
        if f.args and f.args[0][2] == 'sret':
            sret = a[0]
            a = a[1:]
        s.sret = sret
        if h is Models.c_ctor:
            return s.born(st, h(s, kind, f, a, st, sret), a[0], f)
        if h is Models.c_dtor:
            s.dies(st, s.P(st, a[0], 'container'), ctxof(f))
        return h(s, kind, f, a, st, sret)

    def born(s, st, r, p, f):
        """An object in allocated memory starts to live once its constructor is done."""
        z = st if r is None else r[0]
        if z is None or p.k != 'p' or p.a[0].k != 'hp':
            return r
        old = z.cons.get((p.a[0], p.a[1]), FALSE)
        if old is not FALSE and s.it.decide(z, old) is True:
            s.it.report('twice', 'container constructed over a live one')
        z.cons[(p.a[0], p.a[1])] = TRUE
        return r

    def dies(s, st, p, cls):
        k = (p.a[0], p.a[1])
        old = st.cons.get(k)
        if old is None or p.a[0].k != 'hp':
            return
        if old is FALSE or s.it.decide(st, old) is False:
            s.it.report('twice', 'container destroyed twice')
        st.cons[k] = FALSE

    def possible(s, st, c):
        """A state consistent with the path in which c holds is exhibited."""
        d = s.it.decide(st, c)
        if d is not None:
            return d
        import cmp
        return cmp.witness(lambda ev: ev.ev(c) == 1, [c], tuple(st.asm.items())) is not None

    def retit(s, kind, p, st, sret, vs=None):
        """Return iterator value p."""
        if sret is not None:
            s.it.store(st, sret, 8, p)
            return s.ret(st)
        return s.ret(st, s.as_iter(kind, p, None))

    # constructors ---------------------------------------------------------
    def c_ctor(s, kind, f, a, st, sret):
        it = s.it
        this = s.P(st, a[0], 'container')
        sz = s.clsz(kind, f)
        ps = f.params.strip('()')
        rest = a[1:]
        own = ctxof(f)
        if not rest or ('allocator' in ps and len(rest) == 1 and own.rsplit('::', 1)[-1] not in ps):
            s.setG(st, this, s.newG(st, kind), sz)
            return s.ret(st)
        if kind == 'str' and 'char const*' in ps:
            g = s.strlit(st, rest[0], rest[1] if 'unsigned long' in ps else None)
            s.setG(st, this, g, sz)
            return s.ret(st)
        if ps.rstrip().endswith('&&') or '&&' in ps:
            src, g = s.getG(st, rest[0], kind, sz)
            s.setG(st, this, g, sz)
            s.setG(st, src, s.newG(st, kind), sz)
            return s.ret(st)
        if ' const&' in ps and own.rsplit('::', 1)[-1] in ps.split('<')[0] + ps:
            if own.rsplit('::', 1)[-1] in ps and 'unsigned long' not in ps.split(',')[0]:
                src, g = s.getG(st, rest[0], kind, sz)
                s.setG(st, this, s.copy_elems(st, g, kind, None), sz)
                return s.ret(st)
        if 'initializer_list' in ps:
            s.setG(st, this, s.newG(st, kind), sz)
            if it.val and rest[1].k == 'c' and rest[1].a[0] == 0:
                return s.ret(st)
            raise Unsupported('initializer list at ' + it.loc())
        if ps.startswith('unsigned long'):
            g = s.newG(st, kind, rest[0])
            s.setG(st, this, g, sz)
            args = []
            vs = s.vsof(kind, f)
            if ps.count(',') >= 1 and 'allocator' not in ps.split(',')[1]:
                args = [rest[1]]
            st2, outs = s.append_many(f, kind, this, g, Z, rest[0], args, st, vs)
            if st2:
                st2.ret = UNDEF
            return st2, outs
        raise Unsupported('constructor %s at %s' % (short(f.dem), it.loc()))

    def c_dtor(s, kind, f, a, st, sret):
        p = s.P(st, a[0], 'container')
        sz = s.clsz(kind, f)
        p, g = s.getG(st, p, kind, sz)
        s.kill(st, g.a[3])
        s.it.store(st, p, sz, UNDEF)
        return s.ret(st)

    def c_assign_op(s, kind, f, a, st, sret):
        sz = s.clsz(kind, f)
        p, old = s.getG(st, a[0], kind, sz)
        ps = f.params
        if kind == 'str' and 'char const*' in ps:
            s.setG(st, p, s.strlit(st, a[1], None), sz)
            return s.ret(st, a[0])
        if 'initializer_list' in ps or kind == 'str' and 'basic_string' not in ps:
            raise Unsupported('assignment %s' % short(f.dem))
        src, g = s.getG(st, a[1], kind, sz)
        if src is p:
            return s.ret(st, a[0])
        s.kill(st, old.a[3])
        if '&&' in ps:
            s.setG(st, p, g, sz)
            s.setG(st, src, s.newG(st, kind), sz)
        else:
            s.setG(st, p, s.copy_elems(st, g, kind, None), sz)
        return s.ret(st, a[0])

    def c_swap(s, kind, f, a, st, sret):
        sz = s.clsz(kind, f)
        p, x = s.getG(st, a[0], kind, sz)
        q, y = s.getG(st, a[1], kind, sz)
        s.setG(st, p, y, sz)
        s.setG(st, q, x, sz)
        return s.ret(st)

    # observers ------------------------------------------------------------
    def c_size(s, kind, f, a, st, sret):
        _, g = s.getG(st, a[0], kind, s.clsz(kind, f))
        return s.ret(st, g.a[1])

    def c_empty(s, kind, f, a, st, sret):
        _, g = s.getG(st, a[0], kind, s.clsz(kind, f))
        return s.ret(st, eq(g.a[1], Z))

    def c_cap(s, kind, f, a, st, sret):
        _, g = s.getG(st, a[0], kind, s.clsz(kind, f))
        return s.ret(st, g.a[2])

    def c_maxsize(s, kind, f, a, st, sret):
        return s.ret(st, C((1 << 62) - 1))

    def c_opq(s, kind, f, a, st, sret):
        p, g = s.getG(st, a[0], kind, s.clsz(kind, f))
        return s.ret(st, mk('attr', f.base, p.a[0], p.a[1]))

    def c_data(s, kind, f, a, st, sret):
        _, g = s.getG(st, a[0], kind, s.clsz(kind, f))
        return s.ret(st, ptr(g.a[3], scale(g.a[4], s.vsof(kind, f))))

    def c_begin(s, kind, f, a, st, sret):
        _, g = s.getG(st, a[0], kind, s.clsz(kind, f))
        return s.retit(kind, s.elem(g, Z, s.vsof(kind, f)), st, sret)

    def c_end(s, kind, f, a, st, sret):
        _, g = s.getG(st, a[0], kind, s.clsz(kind, f))
        return s.retit(kind, s.elem(g, g.a[1], s.vsof(kind, f)), st, sret)

    def c_at(s, kind, f, a, st, sret):
        if kind not in ('vec', 'deque', 'str', 'bits'):
            if kind == 'umap' or kind == 'map':
                return s.map_at(kind, f, a, st, sret)
            raise Unsupported('lookup %s at %s' % (short(f.dem), s.it.loc()))
        _, g = s.getG(st, a[0], kind, s.clsz(kind, f))
        vs = s.vsof(kind, f)
        i = s.V(st, a[1])
        outs = []
        if f.base == 'at':
            inb = ult(i, g.a[1])
            d = s.it.decide(st, inb)
            if d is not True:
                z = st.copy()
                if d is None:
                    s.it.assume(z, bnot(inb))
                    s.it.emit(st, ('guard', inb, s.it.loc()))
                    s.it.assume(st, inb)
                outs.append(Out(z, Exc(ptr(s.it.newbase('exc', 'out_of_range')), '_ZTISt12out_of_range'), s.it.loc(), bnot(inb)))
                if d is False:
                    return None, outs
        if i.k != 'c' and g.a[1].k == 'c' and 0 < g.a[1].a[0] <= 24 and kind in ('vec', 'deque'):
            n = g.a[1].a[0]
            p = s.elem(g, C(n - 1), vs)
            for j in reversed(range(n - 1)):
                p = ite(eq(i, C(j)), s.elem(g, C(j), vs), p)
        else:
            p = s.elem(g, i, vs)
        if kind == 'bits':
            if (f.j.get('ret') or '') == 'i1':
                st.ret = trunc(s.it.load(st, p, 1, 'i8', 8), 1)
            else:
                st.ret = mk('agg', p, C(1))
            return st, outs
        st.ret = p
        return st, outs

    def map_at(s, kind, f, a, st, sret):
        raise Unsupported('lookup %s at %s' % (short(f.dem), s.it.loc()))

    def c_front(s, kind, f, a, st, sret):
        _, g = s.getG(st, a[0], kind, s.clsz(kind, f))
        return s.ret(st, s.elem(g, Z, s.vsof(kind, f)))

    def c_back(s, kind, f, a, st, sret):
        _, g = s.getG(st, a[0], kind, s.clsz(kind, f))
        return s.ret(st, s.elem(g, sub(g.a[1], C(1)), s.vsof(kind, f)))

    # modifiers ------------------------------------------------------------
    def c_reserve(s, kind, f, a, st, sret):
        p, g = s.getG(st, a[0], kind, s.clsz(kind, f))
        if kind in ('vec', 'str', 'bits') and len(a) > 1:
            n = s.V(st, a[1])
            if n is not g.a[2] and not le_proved(n, g.a[2]):
                cap = maxt(g.a[2], n)
                s.setG(st, p, mk('G', kind, g.a[1], cap, g.a[3], g.a[4], g.a[5]), s.clsz(kind, f))
        return s.ret(st)

    def c_noop(s, kind, f, a, st, sret):
        s.getG(st, a[0], kind, s.clsz(kind, f))
        return s.ret(st, a[0])

    def c_clear(s, kind, f, a, st, sret):
        p, g = s.getG(st, a[0], kind, s.clsz(kind, f))
        s.kill(st, g.a[3])
        n = s.newG(st, kind, Z, g.a[2] if kind in ('vec', 'str', 'bits') else Z)
        s.setG(st, p, n, s.clsz(kind, f))
        return s.ret(st)

    def c_resize(s, kind, f, a, st, sret):
        sz = s.clsz(kind, f)
        p, g = s.getG(st, a[0], kind, sz)
        n = s.V(st, a[1])
        if n is g.a[1]:
            return s.ret(st)
        vs = s.vsof(kind, f)
        args = a[2:]
        d = s.it.decide(st, ult(g.a[1], n))
        if g.a[1] is Z:
            d = True
        grow = d
        cap = g.a[2]
        if grow is None:
            # both directions: elements below min(old, n) are kept, the rest new
            lo = g.a[1]
            g2 = mk('G', kind, n, s.maxt(cap, n) if kind in ('vec', 'bits', 'str') else n, g.a[3], g.a[4], g.a[5])
            b = g.a[3]
            st2, outs = s.append_many(f, kind, p, g2, lo, n, args, st, vs)
        else:
            g2 = mk('G', kind, n, s.maxt(cap, n) if kind in ('vec', 'bits', 'str') else n, g.a[3], g.a[4], g.a[5])
            if grow:
                st2, outs = s.append_many(f, kind, p, g2, g.a[1], n, args, st, vs)
            else:
                st2, outs = st, []
        if st2 is None:
            return None, outs
        s.setG(st2, p, g2, sz)
        st2.ret = UNDEF
        return st2, outs

    def maxt(s, a, b):
        return maxt(a, b)

    def c_assign(s, kind, f, a, st, sret):
        sz = s.clsz(kind, f)
        p, g = s.getG(st, a[0], kind, sz)
        ps = f.params.strip('()')
        vs = s.vsof(kind, f)
        if ps.startswith('unsigned long'):
            s.kill(st, g.a[3])
            g2 = s.newG(st, kind, a[1])
            st2, outs = s.append_many(f, kind, p, g2, Z, a[1], a[2:], st, vs)
            if st2 is None:
                return None, outs
            s.setG(st2, p, g2, sz)
            st2.ret = UNDEF
            return st2, outs
        if kind == 'str' and 'char const*' in ps:
            s.setG(st, p, s.strlit(st, a[1], a[2] if len(a) > 2 else None), sz)
            return s.ret(st, a[0])
        raise Unsupported('assign %s at %s' % (short(f.dem), s.it.loc()))

    def push(s, kind, f, p, g, args, st, front=False):
        sz = s.clsz(kind, f)
        vs = s.vsof(kind, f)
        pos = g.a[1]
        begin = g.a[4]
        if front:
            begin = sub(begin, C(1))
            pos = Z
        n1 = add(g.a[1], C(1))
        g2 = mk('G', kind, n1, s.maxt(g.a[2], n1) if kind in ('vec', 'bits', 'str') else n1, g.a[3], begin, g.a[5])
        e = s.elem(g2, pos, vs)
        if kind == 'bits' or kind == 'str':
            v = args[0]
            if isptr(v):
                v = s.it.load(st, v, 1, 'i8', 8)
            s.it.store(st, e, 1, trunc(zext(v, 8), 8))
            s.setG(st, p, g2, sz)
            return st, [], e
        st2, outs = s.construct1(f, kind, p, e, args, st, vs)
        if st2 is None:
            return None, outs, e
        for ck in [ck for ck in st2.cons if ck[0].k in ('items', 'argitems')]:
            del st2.cons[ck]
        s.setG(st2, p, g2, sz)
        return st2, outs, e

    def c_push_back(s, kind, f, a, st, sret):
        p, g = s.getG(st, a[0], kind, s.clsz(kind, f))
        st2, outs, e = s.push(kind, f, p, g, a[1:], st, 'front' in f.base)
        if st2 is not None:
            st2.ret = e
        return st2, outs

    def c_pop(s, kind, f, a, st, sret):
        sz = s.clsz(kind, f)
        p, g = s.getG(st, a[0], kind, sz)
        n = sub(g.a[1], C(1))
        b = add(g.a[4], C(1)) if 'front' in f.base else g.a[4]
        s.setG(st, p, mk('G', kind, n, g.a[2] if kind in ('vec', 'bits', 'str') else n, g.a[3], b, g.a[5]), sz)
        return s.ret(st)

    def c_emplace(s, kind, f, a, st, sret):
        """insert / emplace into an associative container: elements arrive in
        iteration order (or order does not matter)."""
        sz = s.clsz(kind, f)
        p, g = s.getG(st, a[0], kind, sz)
        rest = a[1:]
        hint = False
        front = False
        ps = f.params.strip('()')
        if kind in ('vec', 'deque', 'list', 'str', 'bits', 'flist'):
            # only insertion at the end
            pos = rest[0]
            if kind == 'bits':
                raise Unsupported('insert %s' % short(f.dem))
            if kind == 'deque':
                pos = s.iload(st, pos)
            vs = s.vsof(kind, f)
            end = s.elem(g, g.a[1], vs)
            if pos is not end or len(rest) != 2:
                raise Unsupported('insert %s at %s' % (short(f.dem), s.it.loc()))
            rest = rest[1:]
            hint = True
        elif f.base in ('emplace_hint',) or (f.base == 'insert' and '_const_iterator' in ps.split(',')[0] and len(rest) == 2):
            if kind in ('mmap', 'mset'):
                # equal elements: as close before the hint as possible
                vs = s.vsof(kind, f)
                pos = s.V(st, rest[0])
                if pos is not s.elem(g, g.a[1], vs):
                    if pos is not s.elem(g, Z, vs):
                        raise Unsupported('%s with this hint at %s' % (short(f.dem), s.it.loc()))
                    front = True
            rest = rest[1:]
            hint = True
        elif f.base == 'insert' and len(rest) != 1:
            raise Unsupported('insert %s' % short(f.dem))
        st2, outs, e = s.push(kind, f, p, g, rest, st, front)
        if st2 is not None:
            if sret is not None:
                s.it.store(st2, sret, 8, e)
                st2.ret = UNDEF
            elif (f.j.get('ret') or '') == 'a':
                st2.ret = mk('agg', e, C(1, 8))
            else:
                st2.ret = e
        return st2, outs

    # ------------------------------------------------------------ system calls
    ERRNO = ptr(mk('ext', 'errno'))

    def sys(s, f, args, st, name, ok, bad):
        """A system call: it succeeds or fails, and failing sets errno."""
        it = s.it
        i = it.fresh()
        fail = mk('sysfail', name, i, it.idx, w=1)
        e = mk('errno', name, i, it.idx, w=32)
        args = tuple(s.V(st, a) for a in args)
        if name in ('open', 'openat', 'creat'):
            k = 1 if name == 'openat' else 0
            args = args[:k] + (s.text(st, args[k]),) + args[k + 1:]
        it.emit(st, ('sys', name, args, i, it.loc(), fail))
        if name != 'posix_fallocate':
            old = it.load(st, s.ERRNO, 4, 'i32', 32)
            it.store(st, s.ERRNO, 4, ite(fail, e, old))
        return s.ret(st, ite(fail, e if name == 'posix_fallocate' else bad, ok(i)))

    def h_sys(s, f, args, st):
        n = f.name
        if n.endswith('64'):
            n = n[:-2]
        zero = lambda i: C(0, 32)
        m1 = C(-1, 32)
        if n in ('open', 'creat', 'openat'):
            return s.sys(f, args, st, n, lambda i: zext(mk('sysfd', i, s.it.idx, w=16), 32), m1)
        if n == 'mmap':
            return s.sys(f, args, st, n, lambda i: ptr(mk('mmap', i, s.it.idx, 'out' if args[2].k != 'c' or args[2].a[0] & 2 else 'in')), ptr(mk('mapfailed')))
        if n == 'fstat':
            p = s.P(st, args[1])
            fs = mk('fsize', s.it.fresh(), s.it.idx, w=64)
            st.mem[p.a[0]] = Region(p.a[0], 'init').with_cell(p.a[1].a[0] + 48, 8, fs) if p.a[1].k == 'c' else Region(p.a[0], 'init')
            return s.sys(f, args, st, n, zero, m1)
        return s.sys(f, args, st, n, zero, m1)

    def text(s, st, p):
        """The characters a pointer from c_str() or data() leads to."""
        if p.k == 'p':
            for b2, r in st.mem.items():
                for o, (z, g) in r.cells.items():
                    if g.k == 'G' and g.a[3] is p.a[0]:
                        return mk('text', M.blob(s.it.region(st, p.a[0]), p.a[1], g.a[1]), g.a[1])
        return p

    def h_errno(s, f, args, st):
        return s.ret(st, s.ERRNO)

    def h_strerror(s, f, args, st):
        return s.ret(st, ptr(mk('ext', 'strerror', s.V(st, args[0]))))

    def c_known(s, kind, f, a, st, sret):
        """Whether a table that outlives the operation holds a key: known to the
        checks that ask for it, not determined here."""
        p = s.P(st, a[0], 'container')
        if p.a[0].k != 'gl' or kind not in ('map', 'umap', 'set', 'uset'):
            raise Unsupported('%s at %s' % (short(f.dem), s.it.loc()))
        key = s.it.load(st, a[1], 4, 'i32', 32)
        k = mk('known', p.a[0], key, w=1)
        if f.base == 'count':
            return s.ret(st, zext(k, 64))
        if f.base == 'contains':
            return s.ret(st, k)
        _, g = s.getG(st, a[0], kind, s.clsz(kind, f))
        return s.retit(kind, ite(k, ptr(mk('ext', 'found', p.a[0], key)), s.elem(g, g.a[1], s.vsof(kind, f))), st, sret)

    def c_erase(s, kind, f, a, st, sret):
        raise Unsupported('erase at ' + s.it.loc())

    def c_index(s, kind, f, a, st, sret):
        if kind in ('map', 'umap'):
            p = s.P(st, a[0], 'container')
            if p.a[0].k == 'gl':
                key = s.it.load(st, a[1], 4, 'i32', 32)
                e = mk('ext', 'entry', p.a[0], key)
                if s.it.races is not None and e not in s.it.races.st0.mem:
                    s.it.races.touch(st, p.a[0])    # inserted if missing
                return s.ret(st, ptr(e))
            raise Unsupported('operator[] %s at %s' % (short(f.dem), s.it.loc()))
        return s.c_at(kind, f, a, st, sret)

    # strings ------------------------------------------------------------
    def strlit(s, st, p, n):
        p = s.V(st, p)
        if p.k == 'p' and p.a[0].k == 'gl':
            g = s.it.m.globals.get(p.a[0].a[0])
            if n is None:
                n = C(max(0, (g['size'] if g else 1) - 1))
            r = s.newG(st, 'str', n)
            if g:
                st.mem[r.a[3]] = Region(r.a[3], 'undef').with_log(('blk', Z, n, M.blob(s.it.region(st, p.a[0]), p.a[1], n)))
            return r
        ms = s.mentions(st, p)
        if n is None:
            n = mk('len', s.it.fresh(), s.it.idx)
        r = s.newG(st, 'str', n, None, ms)
        if p.k == 'p' and p.a[0].k in ('arg', 'ext', 'hp', 'items', 'argitems', 'al'):
            st.mem[r.a[3]] = Region(r.a[3], 'undef').with_log(('blk', Z, n, M.blob(s.it.region(st, p.a[0]), p.a[1], n)))
        else:
            st.mem[r.a[3]] = Region(r.a[3], 'init')
        return r

    def mentions(s, st, v):
        """Error numbers (and other tracked atoms) a value was made from."""
        v = s.V(st, v)
        if v.k == 'p' and v.a[0].k == 'ext' and v.a[0].a[0] == 'strerror':
            return (v.a[0].a[1],)
        if v.k == 'p':
            b = v.a[0]
            if b.k in ('items', 'hp', 'al', 'arg', 'ext', 'exc', 'pt'):
                # c_str() of a tracked string
                for b2, r in st.mem.items():
                    for o, (z, g) in r.cells.items():
                        if g.k == 'G' and g.a[3] is b:
                            return g.a[5]
            return ()
        if v.k in ('c', 'undef', 'fn'):
            return ()
        if hask(v, ('errno',)):
            return (v,)
        return ()

    def strarg(s, st, v, p):
        """Mentions of one operand of a string operation."""
        if 'basic_string' in p:
            try:
                _, g = s.getG(st, v, 'str', 32)
                return g.a[5]
            except Unsupported:
                return ()
        return s.mentions(st, v)

    def strlen(s, st, v, p):
        """What is known about the length of one operand of a string operation."""
        if 'basic_string' in p:
            try:
                return s.getG(st, v, 'str', 32)[1].a[1]
            except Unsupported:
                return UNDEF
        v = s.V(st, v)
        if isptr(v):
            if v.k == 'p' and v.a[0].k == 'gl':
                g = s.it.m.globals.get(v.a[0].a[0])
                return C(max(0, (g['size'] if g else 1) - 1))
            return UNDEF
        return C(1)

    def str_plus(s, f, args, st):
        ps = s.splitparams(f.params)
        ms = []
        for v, p in zip(args[1:], ps):
            for m in s.strarg(st, v, p):
                if m not in ms:
                    ms.append(m)
        g = s.newG(st, 'str', s.textlen(*[s.strlen(st, v, p) for v, p in zip(args[1:], ps)]), None, tuple(ms))
        s.setG(st, s.P(st, args[0]), g, 32)
        st.mem[g.a[3]] = Region(g.a[3], 'init')
        return s.ret(st)

    def splitparams(s, ps):
        r = []
        d = 0
        cur = ''
        for ch in ps.strip()[1:-1] if ps.startswith('(') else ps:
            if ch in '<([':
                d += 1
            elif ch in '>)]':
                d -= 1
            if ch == ',' and d == 0:
                r.append(cur.strip())
                cur = ''
            else:
                cur += ch
        if cur.strip():
            r.append(cur.strip())
        return r

    def str_misc(s, f, args, st):
        b = f.base
        if b in ('append', 'operator+='):
            p, g = s.getG(st, args[0], 'str', 32)
            ms = list(g.a[5])
            for v, q in zip(args[1:], s.splitparams(f.params)):
                for m in s.strarg(st, v, q):
                    if m not in ms:
                        ms.append(m)
            n = s.newG(st, 'str', s.textlen(g.a[1], *[s.strlen(st, v, q) for v, q in zip(args[1:], s.splitparams(f.params))]), None, tuple(ms))
            st.mem[n.a[3]] = Region(n.a[3], 'init')
            s.setG(st, p, n, 32)
            return s.ret(st, args[0])
        if b in ('compare', 'find', 'rfind'):
            p, g = s.getG(st, args[0], 'str', 32)
            w = 32 if b == 'compare' else 64
            return s.ret(st, mk('opq', b, s.it.fresh(), s.it.idx, w=w))
        if b in ('insert', 'replace'):
            p, g = s.getG(st, args[0], 'str', 32)
            ms = list(g.a[5])
            for v, q in zip(args[1:], s.splitparams(f.params)):
                for m in s.strarg(st, v, q):
                    if m not in ms:
                        ms.append(m)
            n = s.newG(st, 'str', mk('len', s.it.fresh(), s.it.idx), None, tuple(ms))
            st.mem[n.a[3]] = Region(n.a[3], 'init')
            s.setG(st, p, n, 32)
            return s.ret(st, args[0])
        raise Unsupported('string operation %s at %s' % (short(f.dem), s.it.loc()))

    def to_string(s, f, args, st):
        v = args[1]
        g = s.newG(st, 'str', s.textlen(C(1)), None, s.mentions(st, v))
        st.mem[g.a[3]] = Region(g.a[3], 'init')
        s.setG(st, s.P(st, args[0]), g, 32)
        return s.ret(st)

    def opaque_cmp(s, f, args, st):
        return s.ret(st, mk('opq', 'cmp', s.it.fresh(), s.it.idx, w=1))

    # iterators ----------------------------------------------------------
    def it_vs(s, f, st, p=None):
        if ctxof(f) in BITITER:
            return 1
        v = f.vs
        if not v:
            raise Unsupported('iterator stride of ' + short(f.dem))
        return v

    def iter_bad(s, f, args, st):
        raise Unsupported('iterator operation %s' % short(f.dem))

    def isbit(s, f):
        return ctxof(f) in BITITER

    def iter_deref(s, f, args, st):
        p = s.iload(st, args[0])
        if s.isbit(f):
            if (f.j.get('ret') or '') == 'a':
                return s.ret(st, mk('agg', p, C(1)))
            return s.ret(st, trunc(s.it.load(st, p, 1, 'i8', 8), 1))
        return s.ret(st, p)

    def iter_inc(s, f, args, st):
        return s.iter_step(f, args, st, 1)

    def iter_dec(s, f, args, st):
        return s.iter_step(f, args, st, -1)

    def iter_step(s, f, args, st, d):
        a = list(args)
        sret = a.pop(0) if f.args[0][2] == 'sret' else None
        p = s.iload(st, a[0])
        n = padd(p, C(d * s.it_vs(f, st)))
        s.it.store(st, s.P(st, a[0]), 8, n)
        if 'int' in f.params:
            if sret is not None:
                s.it.store(st, sret, 8, p)
                return s.ret(st)
            return s.ret(st, s.as_iter('bits' if s.isbit(f) else '', p, f))
        return s.ret(st, a[0])

    def iter_plus(s, f, args, st):
        a = list(args)
        sret = a.pop(0) if f.args[0][2] == 'sret' else None
        p = s.iload(st, a[0])
        d = -1 if f.base in ('operator-', 'operator-=') else 1
        n = padd(p, scale(a[1], d * s.it_vs(f, st)))
        if f.base in ('operator+=', 'operator-='):
            s.it.store(st, s.P(st, a[0]), 8, n)
            return s.ret(st, a[0])
        if f.base == 'operator[]':
            if s.isbit(f):
                return s.ret(st, mk('agg', n, C(1)))
            return s.ret(st, n)
        if sret is not None:
            s.it.store(st, sret, 8, n)
            return s.ret(st)
        return s.ret(st, s.as_iter('bits' if s.isbit(f) else '', n, f))

    def iter_eq(s, f, args, st):
        return s.ret(st, eq(s.iload(st, args[0]), s.iload(st, args[1])))

    def iter_ne(s, f, args, st):
        return s.ret(st, bnot(eq(s.iload(st, args[0]), s.iload(st, args[1]))))

    def iter_sub(s, f, args, st):
        a, b = s.iload(st, args[0]), s.iload(st, args[1])
        d = s.it.binop('sub', a, b)
        vs = 1 if '_Bit' in f.params else f.vs
        if not vs:
            raise Unsupported('iterator difference')
        return s.ret(st, bop('sdiv', d, C(vs)))

    def bit_get(s, f, args, st):
        p = s.iload(st, args[0])
        return s.ret(st, trunc(s.it.load(st, s.P(st, p), 1, 'i8', 8), 1))

    def bit_set(s, f, args, st):
        p = s.P(st, s.iload(st, args[0]))
        v = args[1]
        if isptr(v):
            v = trunc(s.it.load(st, s.P(st, s.iload(st, v)), 1, 'i8', 8), 1)
        s.it.store(st, p, 1, zext(v, 8))
        return s.ret(st, args[0])

    # ------------------------------------------------------------ memory
    def memcpy(s, st, dst, src, n):
        it = s.it
        n = s.V(st, n)
        if n.k == 'c' and n.a[0] == 0:
            return
        src, dst = s.P(st, src, 'source'), s.P(st, dst, 'destination')
        lab_s = s.iolabel(src.a[0])
        lab_d = s.iolabel(dst.a[0])
        if lab_d:
            it.emit(st, ('write', s.snapval(st, src, n), n, dst, it.loc()))
            if lab_d == 'out':
                return
        if lab_s == 'in':
            s.doread(st, dst, n, src)
            return
        if n.k == 'c' and n.a[0] in (1, 2, 4, 8):
            k = n.a[0]
            r = it.region(st, src.a[0])
            v = None
            if src.a[1].k == 'c':
                c = r.cells.get(signed(src.a[1]))
                if c and c[0] == k:
                    v = c[1]
            if v is None:
                v = it.load(st, src, k, 'i', 8 * k)
            it.store(st, dst, k, v)
            return
        r = it.region(st, src.a[0])
        if n.k == 'c' and src.a[1].k == 'c' and dst.a[1].k == 'c' and not r.log and r.dflt in ('undef', 'zero'):
            lo, hi = signed(src.a[1]), signed(src.a[1]) + n.a[0]
            do = signed(dst.a[1])
            d = it.region(st, dst.a[0])
            if not any(o < lo < o + z or o < hi < o + z for o, (z, v) in r.cells.items()):
                for o in range(do, do + n.a[0]):
                    if o in d.cells and d.cells[o][0] + o <= do + n.a[0]:
                        d = d.with_cell(o, d.cells[o][0], UNDEF)
                for o, (z, v) in sorted(r.cells.items()):
                    if lo <= o and o + z <= hi:
                        d = d.with_cell(do + o - lo, z, v)
                st.mem[dst.a[0]] = d
                return
        it.logwrite(st, dst.a[0], ('blk', dst.a[1], n, M.blob(r, src.a[1], n)))

    def iolabel(s, b):
        if b.k == 'ext' and b.a[0] in ('input', 'outbuf'):
            return 'in' if b.a[0] == 'input' else 'out'
        if b.k == 'hp' and b.a[2] == 'new[]':
            return 'out'
        if b.k == 'mmap':
            return b.a[2]
        return None

    def textlen(s, *parts):
        """Length of a text put together from parts; positive as soon as one part is."""
        n = zext(mk('len', s.it.fresh(), s.it.idx, w=16), 64)
        if any(p.k == 'c' and p.a[0] or p.k == '+' for p in parts):
            n = add(n, C(1))
        return n

    def snapval(s, st, p, n):
        if n.k == 'c' and n.a[0] <= 8:
            v = s.it.load(st, p, n.a[0], 'i', 8 * n.a[0])
            return v
        return M.blob(s.it.region(st, p.a[0]), p.a[1], n)

    def doread(s, st, dst, n, src):
        it = s.it
        rid = it.fresh()
        if n.k == 'c' and n.a[0] <= 8:
            item = mk('in', rid, it.idx, w=8 * n.a[0])
            it.store(st, dst, n.a[0], item)
        else:
            item = mk('in', rid, it.idx, w=0)
            it.logwrite(st, dst.a[0], ('blk', dst.a[1], n, item))
        it.emit(st, ('read', item, n, src, it.loc(), dst))
        return rid

    def h_memcpy(s, f, args, st):
        s.memcpy(st, args[0], args[1], args[2])
        return s.ret(st, args[0])

    def h_memset(s, f, args, st):
        p = s.V(st, args[0])
        n = s.V(st, args[2])
        if n.k == 'c' and n.a[0] == 0:
            return s.ret(st, args[0])
        p = s.P(st, p)
        v = args[1]
        if v.k == 'c' and v.a[0] & 255 == 0:
            if n.k == 'c' and n.a[0] <= 256 and p.a[1].k == 'c':
                for i in range(0, n.a[0], 8):
                    z = min(8, n.a[0] - i)
                    s.it.store(st, padd(p, C(i)), z, C(0, 8 * z))
            else:
                s.it.logwrite(st, p.a[0], ('zero', p.a[1], n))
        else:
            s.it.logwrite(st, p.a[0], ('blk', p.a[1], n, mk('memset', v, s.it.fresh(), w=0)))
        return s.ret(st, args[0])

    def h_opq32(s, f, args, st):
        return s.ret(st, mk('opq', f.base, s.it.fresh(), s.it.idx, w=32))

    def h_opq64(s, f, args, st):
        return s.ret(st, mk('len', s.it.fresh(), s.it.idx))

    def h_new(s, f, args, st):
        b = s.it.newbase('hp', 'new[]' if f.base == 'operator new[]' else 'malloc' if f.base in ('malloc', 'calloc') else 'new')
        st.mem[b] = Region(b, 'undef')
        st.live[b] = TRUE
        s.it.emit(st, ('alloc', b, args[0], s.it.loc()))
        return s.ret(st, ptr(b))

    def alloc_n(s, f, args, st):
        if s.fnode is not None:
            p = s.fnode
            s.fnode = None
            return s.ret(st, p)
        vs = f.vs or 1
        b = s.it.newbase('hp', 'new')
        st.mem[b] = Region(b, 'undef')
        st.live[b] = TRUE
        s.it.emit(st, ('alloc', b, scale(args[1], vs), s.it.loc()))
        return s.ret(st, ptr(b))

    def valptr(s, f, args, st):
        p = s.V(st, args[0])
        if p.k == 'p' and p.a[0].k == 'fnode':
            return s.ret(st, ptr(p.a[0].a[0], p.a[0].a[1]))
        return s.it.run_body(f, args, st)

    def dealloc_n(s, f, args, st):
        return s.h_delete(f, [args[1]], st)

    def h_delete(s, f, args, st):
        p = s.V(st, args[0])
        if p is NULL or p.k == 'c':
            return s.ret(st)
        if p.k == 'ite':
            raise Split(p.a[0])
        if p.k != 'p':
            raise Unsupported('delete of %s at %s' % (show(p), s.it.loc()))
        b, off = p.a
        it = s.it
        it.emit(st, ('free', b, it.loc()))
        if b.k == 'hp' and off is Z:
            l = st.live.get(b, FALSE)
            if b not in st.live:
                # member of a family
                for k in st.live:
                    if k.k == 'hp' and k.a[0] == b.a[0]:
                        l = UNDEF
            if l is FALSE or it.decide(st, l) is False:
                it.report('doublefree', 'memory is freed twice')
            for (cb, co), c in list(st.cons.items()):
                if cb is b and c is not FALSE and s.possible(st, c):
                    it.report('leak', 'memory is freed while the object in it is still alive')
                    st.cons[(cb, co)] = FALSE
            st.live[b] = FALSE
        elif b.k == 'fnode':
            pass
        elif b.k in ('al', 'gl') or off is not Z and b.k != 'pt':
            it.report('badfree', 'memory that was not allocated is freed (%s)' % show(p))
        elif b.k in ('arg', 'ext', 'argitems', 'items', 'mmap'):
            it.report('badfree', 'memory belonging to the caller is freed (%s)' % show(p))
        return s.ret(st)

    # ------------------------------------------------------------ exceptions
    def h_cxa_alloc(s, f, args, st):
        b = s.it.newbase('exc', 'alloc')
        st.mem[b] = Region(b, 'undef')
        return s.ret(st, ptr(b))

    def h_cxa_throw(s, f, args, st):
        it = s.it
        it.stats['throws'] += 1
        ti = args[1]
        name = ti.a[0].a[0] if ti.k == 'p' and ti.a[0].k == 'gl' else None
        return None, [Out(st, Exc(args[0], name, args[2]), it.loc(), mk('thrown', it.fresh(), it.idx, w=1))]

    CAUGHT = mk('caught')

    def h_begin_catch(s, f, args, st):
        it = s.it
        tok = args[0]
        e = it.excs.get(tok)
        if e is None:
            raise Unsupported('begin_catch')
        r = st.mem.get(s.CAUGHT) or Region(s.CAUGHT, 'undef')
        n = len(r.cells)
        st.mem[s.CAUGHT] = r.with_cell(8 * n, 8, tok)
        it.emit(st, ('caught', e[0].ti, e[1], it.loc(), e[0].ptr))
        return s.ret(st, e[0].ptr)

    def h_end_catch(s, f, args, st):
        r = st.mem.get(s.CAUGHT)
        if r is not None and r.cells:
            n = max(r.cells)
            c = dict(r.cells)
            del c[n]
            st.mem[s.CAUGHT] = Region(s.CAUGHT, 'undef', c)
        return s.ret(st)

    def h_rethrow(s, f, args, st):
        r = st.mem.get(s.CAUGHT)
        if r is None or not r.cells:
            raise Unsupported('rethrow')
        tok = r.cells[max(r.cells)][1]
        e = s.it.excs[tok]
        s.it.emit(st, ('rethrow', e[0].ti))
        return None, [Out(st, e[0], e[1], e[2])]

    def h_getexc(s, f, args, st):
        e = s.it.excs.get(args[0])
        return s.ret(st, e[0].ptr if e else args[0])

    def h_typeid_for(s, f, args, st):
        t = args[0]
        return s.ret(st, s.it.tisel(t.a[0].a[0]))

    def h_noop(s, f, args, st):
        return s.ret(st, args[0] if args else None)

    def h_terminate(s, f, args, st):
        s.it.emit(st, ('terminate', s.it.loc()))
        s.it.report('terminate', 'the program is terminated')
        return None, []

    def h_assert(s, f, args, st):
        return None, []

    def h_atexit(s, f, args, st):
        return s.ret(st, C(0, 32))

    def h_guard_acquire(s, f, args, st):
        v = s.it.load(st, args[0], 1, 'i8', 8)
        got = zext(eq(v, C(0, 8)), 32)
        if s.it.races is not None:
            s.it.races.enter(st, args[0], got)
        return s.ret(st, got)

    def h_guard_release(s, f, args, st):
        s.it.store(st, args[0], 1, C(1, 8))
        return s.h_guard_abort(f, args, st)

    def h_guard_abort(s, f, args, st):
        if s.it.races is not None:
            s.it.races.leave(st, args[0])
        return s.ret(st)

    def h_demangle(s, f, args, st):
        if len(args) > 3 and args[3] is not NULL:
            s.it.store(st, args[3], 4, C(0, 32))
        b = s.it.newbase('ext', 'demangled')
        return s.ret(st, ptr(mk('ext', 'demangled', args[0])))

    def h_free(s, f, args, st):
        p = s.V(st, args[0])
        if p.k == 'p' and p.a[0].k == 'ext' and p.a[0].a[0] == 'demangled':
            return s.ret(st)
        return s.h_delete(f, args, st)

    def std_throw(s, f, args, st):
        t = {'__throw_out_of_range_fmt': '_ZTISt12out_of_range', '__throw_out_of_range': '_ZTISt12out_of_range',
             '__throw_length_error': '_ZTISt12length_error', '__throw_bad_variant_access': '_ZTISt18bad_variant_access',
             '__throw_bad_optional_access': '_ZTISt19bad_optional_access', '__throw_bad_function_call': '_ZTISt17bad_function_call'}.get(f.base, '_ZTISt9exception')
        return None, [Out(st, Exc(ptr(s.it.newbase('exc', f.base)), t), s.it.loc(), mk('thrown', s.it.fresh(), s.it.idx, w=1))]

    def exc_member(s, f, args, st):
        c = ctxof(f).rsplit('::', 1)[-1]
        if f.blocks and f.base not in ('what',):
            return s.it.run_body(f, args, st)
        if f.base == c:
            p = s.P(st, args[0])
            ps = s.splitparams(f.params)
            ms = []
            for v, q in zip(args[1:], ps):
                if c in q and 'basic_string' not in q:
                    src = s.it.region(st, s.P(st, v).a[0]).cells.get(0)
                    if src and src[1].k == 'G':
                        ms += src[1].a[5]
                else:
                    ms += list(s.strarg(st, v, q))
            g = s.newG(st, 'msg', mk('len', s.it.fresh(), s.it.idx), None, tuple(ms))
            s.it.store(st, p, 16, g)
            return s.ret(st)
        if f.base == 'what':
            p = s.V(st, args[0])
            if p.k == 'p':
                c = s.it.region(st, p.a[0]).cells.get(0)
                if c and c[1].k == 'G':
                    return s.ret(st, ptr(c[1].a[3]))
            return s.ret(st, ptr(mk('ext', 'what', s.it.fresh())))
        return s.ret(st, args[0] if args else None)

    def typeinfo_op(s, f, args, st):
        if f.base in ('operator==', 'operator!='):
            a, b = s.V(st, args[0]), s.V(st, args[1])
            c = eq(a, b)
            return s.ret(st, c if f.base == 'operator==' else bnot(c))
        return s.ret(st, mk('opq', f.base, *args[:2], w=1 if f.base == 'before' else 64))

    def tibases(s, ti):
        if ti in STDEXC:
            return STDEXC[ti]
        g = s.it.m.globals.get(ti)
        r = []
        if g:
            for off, size, op in g.get('init', []):
                if off >= 16 and op[0] == 'g' and op[1].startswith('_ZTI'):
                    r.append(op[1])
        return r

    def derives(s, ti, b):
        if ti == b:
            return True
        return any(s.derives(x, b) for x in s.tibases(ti))

    def catches(s, op, exc):
        return s._catch(op, exc)

    def _catch(s, op, exc):
        ti = op if isinstance(op, str) else None
        if ti is None:
            return None
        if exc.ti is None:
            return None
        return s.derives(exc.ti, ti)

    def terminate(s, out):
        s.it.report('terminate', 'an exception escapes a function that must not throw (raised at %s)' % out.loc)

    # ------------------------------------------------------------ streams
    def stream_write(s, f, args, st):
        n = s.V(st, args[2])
        p = s.P(st, args[1], 'byte range') if not (n.k == 'c' and n.a[0] == 0) else args[1]
        s.it.emit(st, ('write', s.snapval(st, p, n), n, None, s.it.loc(), args[0]))
        return s.ret(st, args[0])

    def stream_read(s, f, args, st):
        n = s.V(st, args[2])
        this = args[0]
        if n.k == 'c' and n.a[0] == 0:
            return s.ret(st, this)
        p = s.P(st, args[1], 'byte range')
        rid = s.doread(st, p, n, None)
        s.it.store(st, ptr(mk('iostate')), 8, mk('rdseq', rid, s.it.idx))
        return s.ret(st, this)

    def iofail(s, st):
        v = s.it.load(st, ptr(mk('iostate')), 8, 'i64', 64)
        if v.k == 'undef':
            return FALSE
        return mk('iofail', v, w=1)

    def stream_fail(s, f, args, st):
        return s.ret(st, s.iofail(st))

    def stream_good(s, f, args, st):
        return s.ret(st, bnot(s.iofail(st)))

    def stream_gcount(s, f, args, st):
        v = s.it.load(st, ptr(mk('iostate')), 8, 'i64', 64)
        return s.ret(st, mk('gcount', v))

    def stream_state(s, f, args, st):
        v = s.it.load(st, ptr(mk('iostate')), 8, 'i64', 64)
        if v.k == 'undef':
            return s.ret(st, C(0, 32))
        return s.ret(st, ite(s.iofail(st), ite(mk('ioeof', v, w=1), C(6, 32), ite(mk('iobad', v, w=1), C(5, 32), C(4, 32))), C(0, 32)))

    def stream_flag(s, f, args, st):
        v = s.it.load(st, ptr(mk('iostate')), 8, 'i64', 64)
        if v.k == 'undef':
            return s.ret(st, FALSE)
        return s.ret(st, mk('io' + f.base, v, w=1))

    def stream_clear(s, f, args, st):
        p = s.V(st, args[0])
        s.it.emit(st, ('streamop', f.base, p, s.it.loc()))
        if f.base == 'clear' and len(args) > 1 and args[1] is C(0, args[1].w):
            s.it.store(st, ptr(mk('iostate')), 8, UNDEF)
        return s.ret(st)

    def stream_misc(s, f, args, st):
        s.it.emit(st, ('streamop', f.base, s.V(st, args[0]) if args else NULL, s.it.loc()))
        rt = f.j.get('ret') or 'v'
        if rt == 'p':
            return s.ret(st, args[0])
        if rt.startswith('i'):
            return s.ret(st, mk('opq', f.base, s.it.fresh(), s.it.idx, w=int(rt[1:])))
        return s.ret(st, mk('agg', mk('opq', f.base, s.it.fresh(), s.it.idx), Z))

    def stream_out(s, f, args, st):
        p = next((s.V(st, a) for a in args if isptr(a)), None)
        if p is not None and not (p.k == 'p' and p.a[0].k == 'gl'):
            s.it.emit(st, ('streamop', f.base, p, s.it.loc()))
        return s.ret(st, args[0] if f.args[0][2] != 'sret' else None)

    # ------------------------------------------------------------ witness code
    def wit_call(s, f, args, st):
        it = s.it
        b = f.base
        c = ctxof(f)
        cls = c.rsplit('::', 1)[-1]
        if b == cls and c != 'wit':
            p = s.P(st, args[0], 'object')
            ps = f.params.strip('()')
            sz = s.conf.get('structs', {}).get(c) or f.clsz or 4
            if cls + '&&' in ps.replace(' ', '') or cls + 'const&' in ps.replace(' ', ''):
                s.memcpy(st, p, args[1], C(sz))
                it.emit(st, ('copyctor', c, p, args[1], it.loc()))
            else:
                for o in range(0, sz, 4):
                    it.store(st, padd(p, C(o)), 4, mk('dflt', c, ps, o, w=32))
                it.emit(st, ('ctor', c, ps, p, it.loc()))
            if p.a[0].k in ('hp', 'al'):
                k = (p.a[0], p.a[1])
                old = st.cons.get(k, FALSE)
                if old is not FALSE and it.decide(st, old) is True:
                    it.report('twice', 'object of type %s constructed over a live one' % c)
                st.cons[k] = TRUE
            return s.ret(st)
        if b == '~' + cls and c != 'wit':
            p = s.P(st, args[0], 'object')
            k = (p.a[0], p.a[1])
            it.emit(st, ('dtor', c, p, it.loc()))
            if p.a[0].k in ('hp', 'al'):
                old = st.cons.get(k)
                if old is None:
                    fam = [k2 for k2 in st.cons if k2[0].k == 'hp' and k2[0].a[0] == p.a[0].a[0]]
                    if not fam:
                        it.report('twice', 'object of type %s destroyed without having been constructed' % c)
                elif old is FALSE or it.decide(st, old) is False:
                    it.report('twice', 'object of type %s destroyed twice' % c)
                st.cons[k] = FALSE
            return s.ret(st)
        if b == 'operator=' and c != 'wit':
            p = s.P(st, args[0])
            sz = s.conf.get('structs', {}).get(c) or f.clsz or 4
            s.memcpy(st, p, args[1], C(sz))
            return s.ret(st, args[0])
        if b in ('input', 'outbuf', 'place'):
            it.emit(st, ('ask', b, tuple(args), it.loc()))
            return s.ret(st, ptr(mk('ext', b)))
        if b.startswith('see'):
            it.emit(st, ('see', b, tuple(s.V(st, a) for a in args), it.loc()))
            return s.ret(st)
        if b == 'keep':
            return s.ret(st)
        it.emit(st, ('user', b if c == 'wit' else c + '::' + b, tuple(args), it.loc()))
        outs = []
        if not f.nounwind:
            z = st.copy()
            outs.append(Out(z, Exc(ptr(it.newbase('exc', 'user')), None, None, 'user'), it.loc(), mk('uthrow', it.fresh(), it.idx, w=1)))
        return s.opqret(f, st, it), outs

    def opqret(s, f, st, it):
        rt = f.j.get('ret') or 'v'
        if rt == 'p':
            st.ret = ptr(mk('pt', mk('opq', f.base, it.fresh(), it.idx)))
        elif rt.startswith('i'):
            st.ret = mk('opq', f.base, it.fresh(), it.idx, w=int(rt[1:]))
        else:
            st.ret = UNDEF
        return st

    def unknown(s, f, args, st):
        it = s.it
        if f.noreturn:
            it.emit(st, ('noreturn', f.dem, it.loc()))
            return None, []
        it.opaque[f.dem] = it.opaque.get(f.dem, 0) + 1
        it.emit(st, ('extern', f.dem, tuple(args), it.loc()))
        outs = []
        if not f.nounwind:
            z = st.copy()
            outs.append(Out(z, Exc(ptr(it.newbase('exc', 'user')), None, None, f.dem), it.loc(), mk('uthrow', it.fresh(), it.idx, w=1)))
        return s.opqret(f, st, it), outs

    def unknown_ptr(s, p, args, st):
        if p.k == 'p' and p.a[0].k == 'pt':
            s.it.emit(st, ('callback', p, tuple(args), s.it.loc()))
            st.ret = mk('opq', 'callback', s.it.fresh(), s.it.idx)
            return st, []
        raise Unsupported('call through %s at %s' % (show(p)[:80], s.it.loc()))

    # ------------------------------------------------------------ llvm
    def llvm(s, f):
        n = f.name
        if n.startswith(('llvm.memcpy', 'llvm.memmove')):
            return Models.h_memcpy
        if n.startswith('llvm.memset'):
            return Models.h_memset
        if n.startswith('llvm.eh.typeid'):
            return Models.h_typeid_for
        if n.startswith('llvm.trap'):
            return Models.h_assert
        if n.startswith('llvm.umax'):
            return lambda m, f, a, st: m.ret(st, ite(ult(a[0], a[1]), a[1], a[0]))
        if n.startswith('llvm.umin'):
            return lambda m, f, a, st: m.ret(st, ite(ult(a[0], a[1]), a[0], a[1]))
        if n.startswith('llvm.umul.with.overflow'):
            return lambda m, f, a, st: m.ret(st, mk('agg', mul(a[0], a[1]), FALSE))
        if n.startswith('llvm.uadd.with.overflow'):
            return lambda m, f, a, st: m.ret(st, mk('agg', add(a[0], a[1]), FALSE))
        if n.startswith(('llvm.threadlocal.address', 'llvm.expect', 'llvm.launder', 'llvm.strip', 'llvm.ssa.copy')):
            # one thread: its copy of the variable is the variable
            return lambda m, f, a, st: m.ret(st, a[0])
        if n.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.assume', 'llvm.donothing', 'llvm.experimental')):
            return Models.h_noop
        if n.startswith('llvm.is.constant'):
            return lambda m, f, a, st: m.ret(st, FALSE)
        return None


CONT = {
    'size': Models.c_size, 'length': Models.c_size, 'empty': Models.c_empty, 'capacity': Models.c_cap, 'max_size': Models.c_maxsize,
    'bucket_count': Models.c_opq, 'max_load_factor': Models.c_opq,
    'data': Models.c_data, 'c_str': Models.c_data, 'begin': Models.c_begin, 'cbegin': Models.c_begin, 'end': Models.c_end, 'cend': Models.c_end,
    'count': Models.c_known, 'contains': Models.c_known, 'find': Models.c_known,
    'at': Models.c_at, 'operator[]': Models.c_index, 'front': Models.c_front, 'back': Models.c_back,
    'reserve': Models.c_reserve, 'shrink_to_fit': Models.c_noop, 'rehash': Models.c_noop, 'clear': Models.c_clear, 'resize': Models.c_resize,
    'assign': Models.c_assign, 'push_back': Models.c_push_back, 'emplace_back': Models.c_push_back, 'push_front': Models.c_push_back,
    'emplace_front': Models.c_push_back, 'pop_back': Models.c_pop, 'pop_front': Models.c_pop, 'emplace': Models.c_emplace,
    'emplace_hint': Models.c_emplace, 'insert': Models.c_emplace, 'operator=': Models.c_assign_op, 'swap': Models.c_swap, 'erase': Models.c_erase,
}
STRMISC = ('append', 'operator+=', 'compare', 'find', 'rfind', 'insert', 'replace')
ITER = {'operator*': Models.iter_deref, 'operator->': Models.iter_deref, 'operator++': Models.iter_inc, 'operator--': Models.iter_dec,
        'operator+': Models.iter_plus, 'operator-': Models.iter_plus, 'operator+=': Models.iter_plus, 'operator-=': Models.iter_plus,
        'operator[]': Models.iter_plus, 'operator==': Models.iter_eq, 'operator!=': Models.iter_ne}
SYSCALLS = ('open', 'open64', 'openat', 'creat', 'fstat', 'fstat64', 'fallocate', 'fallocate64', 'posix_fallocate', 'posix_fallocate64', 'ftruncate',
            'ftruncate64', 'fsync', 'fdatasync', 'mmap', 'mmap64', 'msync', 'munmap', 'close', 'unlink', 'syncfs', 'fchmod', 'madvise', 'posix_madvise')
NAMES = {('std', 'terminate'): Models.h_terminate}
STREAM = {'write': Models.stream_write, 'read': Models.stream_read, 'operator!': Models.stream_fail, 'fail': Models.stream_fail,
          'operator bool': Models.stream_good, 'good': Models.stream_good, 'gcount': Models.stream_gcount, 'rdstate': Models.stream_state,
          'bad': Models.stream_flag, 'eof': Models.stream_flag, 'clear': Models.stream_clear, 'setstate': Models.stream_clear, 'sgetn': None}
PLAIN = {
    'memcpy': Models.h_memcpy, 'memmove': Models.h_memcpy, 'memset': Models.h_memset, 'memcmp': Models.h_opq32, 'strcmp': Models.h_opq32,
    'strlen': Models.h_opq64, 'operator new': Models.h_new, 'operator new[]': Models.h_new, 'malloc': Models.h_new,
    'operator delete': Models.h_delete, 'operator delete[]': Models.h_delete, 'free': Models.h_free,
    '__cxa_allocate_exception': Models.h_cxa_alloc, '__cxa_throw': Models.h_cxa_throw, '__cxa_begin_catch': Models.h_begin_catch,
    '__cxa_end_catch': Models.h_end_catch, '__cxa_rethrow': Models.h_rethrow, '__cxa_free_exception': Models.h_noop,
    '__cxa_get_exception_ptr': Models.h_getexc, '__cxa_atexit': Models.h_atexit, '__cxa_guard_acquire': Models.h_guard_acquire,
    '__cxa_guard_release': Models.h_guard_release, '__cxa_guard_abort': Models.h_guard_abort, '__cxa_demangle': Models.h_demangle,
    '__clang_call_terminate': Models.h_terminate, '__assert_fail': Models.h_assert, 'abort': Models.h_terminate,
    '__errno_location': Models.h_errno, 'strerror': Models.h_strerror,
    '__cxa_pure_virtual': Models.h_terminate, 'exit': Models.h_terminate, '_exit': Models.h_terminate,
}
PLAIN.update({n: Models.h_sys for n in SYSCALLS})
