"""The properties: which witness units each is decided on, and by what rule."""
from check_rt import roundtrip
from check_mem import sizes, worlds
import check_fx
import check_cons
import check_io
import check_stream
import check_id
import check_call
import check_virt
import check_kind
import check_accept
from check_accept import c18
import cmp
from cmp import Leaf
from interp import events

TECH = 'effect summaries by abstract interpretation of the LLVM IR of type witnesses'
NOTE = ('Decided for every value, size, allocation state and failure point of the analysed instantiations (symbolic, no bound on container '
        'sizes); other types are covered as far as they go through the same templates. Trusts clang, the analyser and its models of the '
        'standard containers; obligations that can be neither proved nor refuted are counted as undecided in the evidence and not reported.')

SEQ = ('seq', 'assoc', 'wrap', 'deep', 'user')


# operations that set up the local statics the others use
WARM = {'virv': ['sz_One', 'sz_Two', 'sz_Three'], 'foot': ['fp_raw']}


def over(fn, units, configs=('plain', 'checked'), fs=('default',), args=(None,)):
    return [(fn, u, c, f, a) for u in units for c in configs for f in fs for a in args]


def split(fn, units, n, **k):
    """The types of a unit are shared out over n jobs."""
    return over(fn, units, args=[(i, n) for i in range(n)], **k)


def share(ts, arg):
    return ts if arg is None else ts[arg[0]::arg[1]]


def take(r, leaves, tag):
    for l in leaves:
        if l.status == 'ok':
            r.ok()
        elif l.status == 'diff':
            r.bad('%s: %s' % (tag, l.msg), l.loc, 'when %s' % (l.asm,))
        else:
            r.undecided('%s: %s @ %s' % (tag, l.msg, l.loc))


NEW = (('wr_', 'rd_'), ('mw_', 'mr_'), ('fw_', 'fr_'))
INP = (('wr_', 'ip_'), ('mw_', 'mi_'), ('fw_', 'fi_'))


def rt(cx, r, arg, pairs, io=False, see=False):
    for t in share(cx.types('ob_'), arg):
        for w, rd in pairs:
            if not (cx.has(w + t) and cx.has(rd + t)):
                continue
            tag = '%s%s/%s%s' % (w, t, rd, t)
            a, b, st = roundtrip(cx, t, w, rd + t)
            if a is None:
                r.undecided('%s: %s' % (tag, st))
                continue
            if io:
                take(r, a, tag)
            elif any(l.status == 'diff' for l in a):
                # the reader goes astray: what it makes is not what was written;
                # items that are only left over may not matter
                l = [l for l in a if l.status == 'diff' and ' but never ' not in l.msg]
                take(r, l, tag)
                if not l:
                    r.undecided(tag + ': items differ')
            if see:
                take(r, b, tag)
            for u in st['undecided']:
                r.undecided('%s: %s' % (tag, u))
            r.add('items_compared', st['items'])
            r.add('worlds', st['worlds'])
            r.sample(tag + ' is aligned item by item: %d items in %d worlds' % (st['items'], st['worlds']))


def c01(cx, r, cfg, arg):
    for t in share(cx.types('sz_'), arg):
        ls = sizes(cx, t)
        take(r, ls, t)
        r.sample('%s: getSize = %s' % (t, str(cx.sum('sz_' + t).ret)[:200]))


def c02(cx, r, cfg, arg):
    rt(cx, r, arg, NEW + INP, io=True)


def c03(cx, r, cfg, arg):
    rt(cx, r, arg, NEW, see=True)


def c05(cx, r, cfg, arg):
    rt(cx, r, arg, INP, io=True, see=True)


def c06(cx, r, cfg, arg):
    for t in share(cx.types('sz_'), arg):
        asm = worlds(cx, t)
        for p in ('sz_', 'wr_', 'mw_', 'fw_', 'fp_'):
            if cx.has(p + t):
                s = cx.sum(p + t)
                if s.err:
                    r.undecided('%s: %s' % (p + t, s.err))
                    continue
                take(r, check_fx.unchanged(s, asm), p + t)
                r.sample('%s: every region of the object is the same at %d exits' % (p + t, len(check_fx.exits(s))))


def c07(cx, r, cfg, arg):
    es = [e for e in cx.m.entries if e[:3] in ('rd_', 'mr_', 'ip_', 'mi_', 'pl_', 'fr_', 'fi_')]
    for e in share(es, arg):
        s = cx.sum(e)
        if s.err:
            r.undecided('%s: %s' % (e, s.err))
            continue
        take(r, check_fx.leaks(cx, s), e)
        r.add('exits', len(check_fx.exits(s)))
        r.sample('%s: %d exits, every allocation and object accounted for' % (e, len(check_fx.exits(s))))


def c20(cx, r, cfg, arg):
    import mem
    es = cx.m.entries
    M, V = {}, {}
    for e in es:
        s = cx.sum(e)
        if s.err:
            r.undecided('%s: %s' % (e, s.err))
            continue
        for b, n in check_fx.changed_globals(cx, s):
            M.setdefault(b, (n, e))
            merge(V.setdefault(b, {}), check_fx.finals(s, b))
        r.ok()
        r.sample('%s leaves every global outside the registries as it was' % e)
    r.add('globals_modified', len(M))
    if not M:
        return
    # a local static that every operation initialises to the same constant
    # holds that or is about to: only whether it was initialised is unknown
    named = {b.a[0] for b in M}
    pinned = {b: V[b] for b in M if '_ZGV' + b.a[0][2:] in named and None not in V[b] and all(len(x) == 1 for x in V[b].values())}
    while True:
        st = cx.st0.copy()
        for b in M:
            st.mem[b] = mem.Region(b, 'init', {o: next(iter(x)) for o, x in pinned[b].items()} if b in pinned else {})
        cx.cache = {}
        found, moved = [], {}
        for e in es:
            if len(found) > 20:
                break
            s = cx.sum(e, st)
            if s.err:
                found.append((None, '%s after other operations: %s' % (e, s.err), ''))
                continue
            for b in pinned:
                merge(moved.setdefault(b, {}), check_fx.finals(s, b))
            d = check_fx.depends(s, set(M))
            for b, what, loc in d:
                found.append((e, '%s: %s depends on %s, which %s modifies' % (e, what, M[b][0], M[b][1]), loc))
        bad = [b for b in moved if any(x != pinned[b].get(o) for o, x in moved[b].items())]
        if not bad:
            break
        for b in bad:
            del pinned[b]
    for e, msg, loc in found:
        r.bad(msg, loc) if e else r.undecided(msg)
    r.ok(len(es))


def merge(into, new):
    if new is None:
        into[None] = {None, 0}
    else:
        for o, x in new.items():
            into.setdefault(o, set()).update(x)


def c24(cx, r, cfg, arg):
    # the operations that set up the local statics are analysed as the first of
    # their kind, the others as later ones
    es, got = share(cx.m.entries, arg), {}
    first = [e for e in WARM.get(cfg['unit'], ()) if cx.has(e)]
    for e in first:
        got[e] = check_fx.races(cx, e)
    cx.warm(first)
    for e in es:
        if e not in got:
            got[e] = check_fx.races(cx, e)
    for e in es:
        err, found, safe = got[e]
        if err:
            r.undecided('%s: %s' % (e, err))
            continue
        for what, loc in found:
            r.bad('%s: writes %s, which operations in other threads use' % (e, what), loc)
        r.ok()
        r.add('initialised_once', safe)
        r.sample('%s writes to nothing that an operation in another thread can reach' % e)
    if arg is None or arg[0] == 0:
        n = 0
        for name, loc, f in check_fx.unsafe_calls(cx):
            if '/checkpoint/' in f.file or 'checkpoint::' in f.dem:
                r.bad('%s: calls %s, which works on data of the whole process' % (cfg['unit'], name), loc)
        r.ok()
        r.add('functions_searched_for_unsafe_calls', len(cx.m.fns))


def c17(cx, r, cfg, arg):
    for e in share([e for e in cx.m.entries if e.startswith('x_')], arg):
        s = cx.sum(e)
        if s.err:
            r.undecided('%s: %s' % (e, s.err))
            continue
        _, how, cls = e.split('_', 2)
        take(r, check_cons.created(s, how, cls), e)
        r.sample('%s: created by its %s' % (e, check_cons.WAYS[cls]))


def io(cx, r, cfg, arg, fn, prefixes=('fw_', 'fr_', 'fi_')):
    depth = 3 if cfg['tier'] == 'thorough' else 2
    for e in share([e for e in cx.m.entries if e[:3] in prefixes], arg):
        s = cx.sum(e)
        if s.err:
            r.undecided('%s: %s' % (e, s.err))
            continue
        ls, n = fn(cx, s, depth)
        take(r, ls, e)
        r.add('system_calls', n)
        r.sample('%s: %d exits, %d system calls, every combination of up to %d failures' % (e, len(check_fx.exits(s)), n, depth))


def c09(cx, r, cfg, arg):
    for t in share(cx.types('fw_'), arg):
        for e, fn in (('fw_' + t, lambda e: check_io.durable(cx, e[3:])), ('fr_' + t, lambda e: check_io.whole(cx, e)), ('fi_' + t, lambda e: check_io.whole(cx, e))):
            if not cx.has(e):
                continue
            s = cx.sum(e)
            if s.err:
                r.undecided('%s: %s' % (e, s.err))
                continue
            take(r, fn(e), e)
            r.sample('%s: the calls made and their arguments follow the rule' % e)


def c10(cx, r, cfg, arg):
    io(cx, r, cfg, arg, check_io.reported)


def c11(cx, r, cfg, arg):
    io(cx, r, cfg, arg, check_io.released)


def c12(cx, r, cfg, arg):
    from terms import mk
    for e in share([e for e in cx.m.entries if e[:3] in ('wr_', 'rd_', 'ip_')], arg):
        s = cx.sum(e)
        if s.err:
            r.undecided('%s: %s' % (e, s.err))
            continue
        out = []
        which = 1 if e[:3] == 'wr_' else 0
        check_stream.touches(s.trace, out, mk('arg', which))
        for o in s.outs:
            check_stream.touches(events(o.st.trace), out, mk('arg', which))
        take(r, out, e)
        r.ok()
        if which:
            r.sample('%s: the stream is only written to' % e)
            continue
        ls, n = check_stream.shortfalls(s)
        take(r, ls, e)
        r.add('reads', n)
        r.sample('%s: %d reads, each followed by a test of the stream before its data is used' % (e, n))
    rt(cx, r, arg, STR, io=True)


STR = (('wr_', 'rd_'), ('wr_', 'ip_'))
FS = ('default', 'plain')
READERS = (('wr_', 'rd_'), ('wr_', 'ip_'), ('mw_', 'mr_'), ('mw_', 'mi_'), ('fw_', 'fr_'), ('fw_', 'fi_'))


def ids(cx, r, cfg, arg, fn):
    checked = cfg['config'] == 'checked'
    for w in ('wr_', 'mw_', 'fw_'):
        for t in share(cx.types(w), arg):
            ls, n = check_id.layout(cx, w + t, checked)
            take(r, ls, w + t)
            r.add('objects_written', n)
    for w, rd in READERS:
        for t in share(cx.types(w), arg):
            if cx.has(rd + t):
                ls, n = fn(cx, t, w, rd + t, checked)
                take(r, ls, rd + t)
                r.add('records_read', n)
                r.sample('%s: %d reads of a record, each wrong value ends in an exception' % (rd + t, n))


def c08(cx, r, cfg, arg):
    for p in ('cb_', 'nc_', 'mw_'):
        for t in share(cx.types(p), arg):
            take(r, check_call.bytes_(cx, t, p), p + t)
            r.add('writers', 1)
            r.sample('%s: asked once for %s bytes; written where was said' % (p + t, str(cx.sum('sz_' + t).ret)[:100]))
    for p, fn in (('pl_', check_call.object_), ('mi_', check_call.inplace)):
        for t in share(cx.types(p), arg):
            if cx.has('so_' + t):
                take(r, fn(cx, t), p + t)
            else:
                s = cx.sum(p + t)
                take(r, [Leaf('unk', s.err)] if s.err else check_call.kept(s), p + t)
            r.add('readers', 1)


def c13(cx, r, cfg, arg):
    if arg[0] == 0:
        seen = {}
        for i, g in check_id.registry(cx):
            if i in seen:
                r.bad('two types share the identifier %#x' % i, '', '%s and %s' % (seen[i], g))
            else:
                r.ok()
            seen[i] = g
        r.add('types_numbered', len(seen))
    ids(cx, r, cfg, arg, check_id.identified)


def c13n(cx, r, cfg, arg):
    ls, n = check_id.numbering(cx)
    take(r, ls, 'type numbering')
    r.sample('the first %d types registered get distinct valid identifiers' % len(ls))


def c14(cx, r, cfg, arg):
    ids(cx, r, cfg, arg, check_id.recorded)


def c14o(cx, r, cfg, arg):
    for t in cx.types('sz_'):
        take(r, check_id.overrun(cx, t), t)


VPASS = {'ip_': 'wr_', 'mi_': 'mw_'}


def read_as(cx, r, arg, part):
    for e in share([e for e in cx.m.entries if e[:3] in ('wr_', 'ws_', 'mw_', 'mn_', 'fw_')], arg):
        _, P, cls = e.split('_')
        for rd in [x for x in cx.m.entries if x.split('_')[1:2] == [P]]:
            p = rd.split('_')
            ok = any(e[:3] == w and rd == q + P for w, q in check_virt.PAIRS)
            if VPASS.get(p[0] + '_') == e[:3]:
                ok = p[2] == cls or 'null' in (p[2], cls)
            if ok:
                ls = check_virt.recreated(cx, e, rd, P, cls)[part]
                take(r, ls, '%s/%s' % (e, rd))
                r.add('dynamic_types_read', 1)
                r.sample('%s/%s: the reader, given what the writer writes, creates a %s' % (e, rd, cls))


def c15(cx, r, cfg, arg):
    read_as(cx, r, arg, 0)
    if cfg['config'] == 'plain':
        for e in share([e for e in cx.m.entries if e[:3] in ('wr_', 'ws_', 'mw_', 'mn_', 'fw_')], arg):
            w, P, cls = e.split('_')
            take(r, check_virt.recordedonce(cx, w + '_', P, cls), e)
            if cls != 'null':
                take(r, check_virt.recordedwhole(cx, e, cls), e)


def c16(cx, r, cfg, arg):
    read_as(cx, r, arg, 1)
    for e in share([e for e in cx.m.entries if e[:3] in check_virt.WRITERS], arg):
        take(r, check_virt.order(cx, e, e.split('_')[2]), e)
        r.add('traversals', 1)


def c16v(cx, r, cfg, arg):
    cx.warm(WARM['virv'])
    for e in share([e for e in cx.m.entries if e[:3] != 'ob_'], arg):
        if not e.startswith('fp_o'):
            take(r, check_virt.chained(cx, e), e)
            r.add('traversals', 1)
    rt(cx, r, arg, NEW + INP, io=True, see=True)


def c19(cx, r, cfg, arg):
    for t in share(cx.types('ko_'), arg):
        take(r, check_kind.writes(cx, t), t)
        for w, rd in (('wr_', 'rd_'), ('mn_', 'mr_')):
            if cx.has(rd + t):
                take(r, check_kind.reads(cx, t, w, rd), '%s%s/%s%s' % (w, t, rd, t))
        r.add('types', 1)
        r.sample('%s: the runs of bytes and the serialize functions run are those of the reference, in order' % t)


def c21(cx, r, cfg, arg):
    cx.warm(WARM.get(cfg['unit'], ()))
    for t in share(cx.types('fp_'), arg):
        a, b = cx.sum('fp_' + t), cx.sum('fo_' + t)
        if a.err or b.err:
            r.undecided('%s: %s' % (t, a.err or b.err))
            continue
        if a.st is None:
            r.bad('fp_%s: never returns' % t, a.outs[0].loc if a.outs else '')
            continue
        v = cmp.eqv(a.ret, b.ret, ())
        loc = cx.m.fns['fp_' + t].loc if hasattr(cx.m.fns['fp_' + t], 'loc') else ''
        take(r, [Leaf('ok' if v == 'eq' else 'diff' if v == 'diff' else 'unk', 'the footprint is %s, where it should be %s' % (str(a.ret)[:200], str(b.ret)[:200]), loc)], 'fp_' + t)
        r.add('footprints', 1)
        r.sample('%s: the footprint equals %s' % (t, str(b.ret)[:200]))


FOOT = ('foot', 'fseq', 'fassoc', 'fwrap', 'fdeep', 'fuser')

PROPS = {
    'C19': {
        'jobs': lambda tier: split('c19', ('kind',), 6, configs=('plain',)),
        'rule': 'For each type, made of classes with every combination of byte-copy declarations and serialize functions, the sequence of runs of bytes and of serialize functions run by a user-defined serializer, the stream and memory writers and the measuring pass is aligned with the sequence prescribed by a reference traversal (witness/kind.cc): one run of count times size for consecutive arithmetic or byte-copyable objects, the serialize function of any other once each, in order, on the object itself. The readers\' sequences are aligned with the writers\'.',
    },
    'C21': {
        'jobs': lambda tier: split('c21', FOOT, 2),
        'rule': 'For each type, the symbolic result of the footprint query is equal, for every value and offset, to the reference footprint computed by recursion over the value in witness/fp.h (own size; every element; reserved capacity; what non-null pointers lead to; members of classes that can be traversed), plus the offset; pointers to opaque types are not followed.',
    },
    'C15': {
        'jobs': lambda tier: split('c15', ('virt',), 4),
        'rule': 'For each static pointer type and each class of its hierarchy (and the null pointer), through memory, stream and file, standard and user-defined serializers, new and in-place targets: the reader, its reads bound to the items the writer emits, constructs exactly one object (none for null), of that class, in memory allocated with at least its size, and the pointer read is that object. The record of the dynamic type is the one item more that an object takes than a null pointer, and precedes its data.',
    },
    'C16': {
        'jobs': lambda tier: split('c16', ('virt',), 4) + split('c16v', ('virv',), 8),
        'rule': 'For each class of the hierarchies, held by pointer (of each static type) or by value, directly, in containers or as members: the traversals of the levels form, in every measuring, writing, reading and footprinting operation, the whole chain, base first, once per pass, all on the object itself; no member is written twice or left out; what each member is read as equals what it was written as.',
    },
    'C08': {
        'jobs': lambda tier: split('c08', SEQ + ('call',), 2),
        'rule': 'On every path to a normal exit the callback is invoked exactly once, with the measured size (on every failing path at most once). In the world where it returns memory, all data and the buffer handed back are that memory; where it returns null, a library block of the measured size. No exit has freed or destroyed memory of the caller, modified what is read from, or written the memory for the object outside the size of the object.',
    },
    'C13': {
        'jobs': lambda tier: split('c13', SEQ + ('io',), 3) + over('c13n', ('reg',)),
        'rule': 'The first item written is the registered identifier of the type (checked builds: the whole output parses as identifier, data, size of each nested object). For each read of an identifier and each wrong value (every other registered type, every single-bit change, neighbours, extremes): from it, no further read, use of the object, user code or normal exit is reachable. The identifiers of all types are distinct.',
    },
    'C14': {
        'jobs': lambda tier: split('c14', SEQ + ('io',), 3) + over('c14o', ('liar',)),
        'rule': 'For classes whose traversal differs between measuring and writing: on every normal exit, the bytes written to the returned buffer equal the measured size, for every object. The last item written and read is the size record (checked builds: of every nested object) and from its read, for each kind of deviation from the expected value, no normal exit is reachable.',
    },
    'C12': {
        'jobs': lambda tier: split('c12', SEQ + ('strm',), 3),
        'rule': 'Nothing but unformatted writes (reads) is done to the caller\'s stream; the items read from it align with the items written to it. For each read and each way it can fail (input ends, stream broken, stream failed before), with the state the stream then reports: no path from it reaches the normal exit and no decision, length, allocation or result depends on what that read or a later one should have delivered.',
    },
    'C09': {
        'jobs': lambda tier: split('c09', ('io',), 2, fs=FS),
        'rule': 'On every normal exit of a file write (system calls modelled as succeeding, or failing with an error number): the file named by the caller was opened for read-write with creation, given exactly the measured size before data was written, mapped shared, writable, from its beginning in that size, every write went to the mapping, and after the last write its whole extent was flushed synchronously before unmapping. On every normal exit of a file read the file named was opened read-only and mapped shared and read-only in its whole size, and all data came from the mapping.',
    },
    'C10': {
        'jobs': lambda tier: split('c10', ('io',), 2, fs=FS),
        'rule': 'For every combination of up to two (thorough: three) failing system calls: no normal exit is feasible on a path executing a failing call, every exceptional exit throws a class derived from std::runtime_error built from the error number of a failing call, no path reaches std::terminate; failure to reserve space for lack of support alone still permits the normal exit.',
    },
    'C11': {
        'jobs': lambda tier: split('c11', ('io',), 4, fs=FS),
        'rule': 'Typestate of descriptors and mappings along every path to every exit, for every combination of up to two (thorough: three) failing system calls: each successful open is closed exactly once, each successful mapping unmapped exactly once with its own address and length, nothing else is closed or unmapped, no access or call uses one after its release.',
    },
    'C01': {
        'jobs': lambda tier: split('c01', SEQ + ('io',), 2),
        'rule': 'The symbolic result of getSize must equal, for every object, the symbolic number of bytes written to a stream and to memory (library-allocated and caller-supplied), the size of the allocated buffer and the size reported with it; each write to memory must go to the offset equal to the number of bytes written before it.',
    },
    'C02': {
        'jobs': lambda tier: split('c02', SEQ + ('io',), 3),
        'rule': 'For every type and destination, the sequence of items (value, width, repetition count) the writer emits is aligned symbolically with the sequence the reader consumes; a value, width or count that differs for an exhibited assignment, or an item without counterpart, is a violation.',
    },
    'C03': {
        'jobs': lambda tier: split('c03', ('seq', 'assoc', 'deep', 'io'), 4),
        'rule': 'What an observer of every element sees in the deserialized collection is expressed in terms of the bytes read, these are replaced by the values the writer emitted, and the result must equal what the observer sees in the original, for every size and content.',
    },
    'C04': {
        'jobs': lambda tier: split('c03', ('wrap', 'user', 'deep', 'io'), 4),
        'rule': 'As C03, for optional, variant, unique_ptr, tuple, pair, enum and duration, in each of their states.',
    },
    'C05': {
        'jobs': lambda tier: split('c05', SEQ + ('io',), 3),
        'rule': 'As C02 and C03 for deserialization into an existing object of arbitrary prior state: the result must equal the original for every prior state, hence no part of the prior state may show.',
    },
    'C06': {
        'jobs': lambda tier: split('c06', SEQ + ('io',), 2),
        'rule': 'After measuring, writing (stream, memory) or footprinting, at the normal and at every exceptional exit, every memory region of the object and of what it owns must hold its initial symbolic contents, and nothing in it is freed, destroyed or constructed.',
    },
    'C07': {
        'jobs': lambda tier: split('c07', SEQ + ('io', 'call'), 4),
        'rule': 'At the normal and every exceptional exit of a deserialization, each allocation made is freed or reachable from the caller and each object constructed in allocated memory is destroyed or reachable; nothing is freed or destroyed twice, nor freed before its object is destroyed; what an existing object owned is kept or freed, not both.',
    },
    'C20': {
        'jobs': lambda tier: over('c20', SEQ + ('io',)),
        'rule': 'The set of globals any operation modifies (at normal and exceptional exits), outside the type registries, is computed; if it is not empty, every operation is summarised again with those globals holding arbitrary values and no write, read, result, decision or exception may depend on them.',
    },
    'C24': {
        'jobs': lambda tier: split('c24', SEQ + ('io', 'virt', 'virv', 'foot', 'cons'), 4),
        'rule': 'No operation writes, on any path including those that end by an exception, to a global, a static or memory reachable from static initialisation, unless the write is atomic, to a thread-local variable, or part of the initialisation of a static local, which the implementation serialises; and no function calls a C library function that works on data of the whole process.',
    },
    'C18': {
        'technique': 'compile-fail and compile-pass witnesses, each with a twin, decided by the type checker (clang -fsyntax-only)',
        'note': 'Decided for every program of the enumerated product of unsupported types, contexts and operations; rejection counts only when the twin with a supported type is accepted. Other unsupported types are covered as far as the same traits decide them.',
        'jobs': lambda tier: [('c18', None, c, 'default', (i, 8)) for i in range(8) for c in (('plain',) if tier == 'quick' else ('plain', 'checked'))],
        'rule': 'One program per unsupported type (nothing says how to serialize it, it is supported for footprinting only, or nothing can construct it), context (itself, element of every supported container, member) and operation: the front end has to refuse it and to accept its twin, the same program with a supported type; the footprint-only types have to be accepted by getMemoryFootprint.',
    },
    'C17': {
        'jobs': lambda tier: split('c17', ('cons',), 4),
        'rule': 'For classes offering every combination of dedicated constructor, reconstruct function (three kinds) and default constructor, created as the object itself, on supplied memory, behind a unique_ptr or as a container element: on every path exactly one way of construction runs, it is the one of highest precedence, on the memory intended, before data is read into it.',
    },
}
