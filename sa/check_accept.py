"""C18: programs the library has to reject, and programs it has to accept.

Each program names one type, in one context, in one operation.  The front end
(clang -fsyntax-only, which instantiates templates) decides whether the type
system lets it through; nothing is run.  A program that has to be rejected has
a twin that differs only in the type and is accepted; without it, nothing is
concluded from the rejection."""
import os, subprocess, hashlib
import unit

OPS = {
    'getSize': 'auto f(T& x) { return checkpoint::getSize(x); }',
    'serialize': 'auto f(T& x) { return checkpoint::serialize(x); }',
    'serializeToFile': 'void f(T& x) { checkpoint::serializeToFile(x, "f"); }',
    'serializeToStream': 'void f(T& x, std::stringstream& s) { checkpoint::serializeToStream(x, s); }',
    'deserialize': 'auto f(char* b) { return checkpoint::deserialize<T>(b); }',
    'deserialize (owned)': 'auto f(checkpoint::SerializedReturnType b) { return checkpoint::deserialize<T>(std::move(b)); }',
    'deserializeFromFile': 'auto f() { return checkpoint::deserializeFromFile<T>("f"); }',
    'deserializeFromStream': 'auto f(std::stringstream& s) { return checkpoint::deserializeFromStream<T>(s); }',
    'deserializeInPlace': 'void f(char* b, T* t) { checkpoint::deserializeInPlace<T>(b, t); }',
    'deserializeInPlaceFromFile': 'void f(T* t) { checkpoint::deserializeInPlaceFromFile<T>("f", t); }',
    'deserializeInPlaceFromStream': 'void f(T* t, std::stringstream& s) { checkpoint::deserializeInPlaceFromStream<T>(s, t); }',
}
FOOT = {'getMemoryFootprint': 'auto f(T& x) { return checkpoint::getMemoryFootprint(x); }'}
WRITE = ('getSize', 'serialize', 'serializeToFile', 'serializeToStream')
CREATE = ('deserialize', 'deserialize (owned)', 'deserializeFromFile', 'deserializeFromStream')
INPLACE = ('deserializeInPlace', 'deserializeInPlaceFromFile', 'deserializeInPlaceFromStream')

CTX = {
    'itself': '%s',
    'vector': 'std::vector<%s>', 'list': 'std::list<%s>', 'deque': 'std::deque<%s>',
    'array': 'std::array<%s, 2>', 'optional': 'std::optional<%s>', 'pair': 'std::pair<int, %s>',
    'pair (first)': 'std::pair<%s, int>', 'tuple': 'std::tuple<int, %s, char>',
    'unique_ptr': 'std::unique_ptr<%s>', 'variant': 'std::variant<int, %s>',
    'map value': 'std::map<int, %s>', 'unordered_map value': 'std::unordered_map<int, %s>',
    'multimap value': 'std::multimap<int, %s>', 'queue': 'std::queue<%s>',
    'member': 'acc::Holder<%s>', 'member (free serialize)': 'acc::HolderNI<%s>',
    'array member': 'acc::HolderArr<%s>',
    'vector of vector': 'std::vector<std::vector<%s>>', 'map of vector of pair': 'std::map<int, std::vector<std::pair<int, %s>>>',
}
ORD = {
    'set': 'std::set<%s>', 'multiset': 'std::multiset<%s>', 'map key': 'std::map<%s, int>',
    'unordered_set': 'std::unordered_set<%s>', 'unordered_map key': 'std::unordered_map<%s, int>',
}

# no way to serialize, and why
NOSER = [
    'acc::Plain', 'acc::Empty', 'acc::NoByte', 'acc::FalseByte', 'acc::Uni', 'acc::WrongArity', 'acc::WrongConst',
    'acc::Private', 'acc::OtherSer', 'acc::HasOp', 'acc::FromInt', 'acc::Poly', 'acc::OnlyParent', 'acc::HoldsPtr',
    'acc::HoldsPlain', 'acc::DerPlain', 'acc::Agg', 'acc::Tmpl<int>', 'std::reference_wrapper<int>', 'std::string_view', 'std::nullptr_t',
    'std::bitset<8>', 'std::any', 'std::valarray<int>', 'std::forward_list<int>', 'std::wstring', 'std::complex<float>', 'std::queue<int, std::list<int>>',
    'std::vector<int>::iterator', 'std::unique_lock<std::mutex>', 'acc::HoldsArr', 'std::initializer_list<int>', 'std::unique_ptr<acc::Plain>', 'std::tuple<acc::Ok, acc::Plain>',
    'int (*)(int)', 'int acc::Plain::*', 'std::mutex',
]
# supported only for footprinting
FPONLY = [
    'int*', 'char const*', 'void*', 'FILE*', 'acc::Ok*', 'acc::Plain*', 'ompi_communicator_t*', 'ompi_group_t*', 'ompi_request_t*', 'ompi_win_t*',
    'std::shared_ptr<int>', 'std::shared_ptr<acc::Ok>', 'std::weak_ptr<int>', 'std::function<int(int)>', 'std::function<void()>',
    'std::atomic<int>', 'std::thread', 'std::stack<int>', 'std::priority_queue<int>', 'std::stack<acc::Ok>',
]
# comparable and hashable
KEYS = ['int*', 'char const*', 'std::shared_ptr<int>', 'std::string_view', 'void*']
NOCONS = ['acc::NoCons', 'acc::DelCons', 'acc::PrivCons', 'acc::BadRecon', 'acc::ByteNoCons', 'acc::AbstractOne', 'acc::VirtPlain']
CONS = ['acc::Ok', 'acc::TagCons', 'acc::ReconCons', 'acc::NIReconCons']
def programs(tier):
    """(kind, type expression, context, operation, twin type)"""
    out = []
    full = tier == 'thorough'
    for t in NOSER + FPONLY:
        for c, pat in CTX.items():
            for o in OPS:
                if c == 'itself' or full or o == 'serialize' or (c in CORE and o == 'deserialize'):
                    out.append(('reject', t, pat, c, o, 'acc::Ok'))
    for t in KEYS:
        for c, pat in ORD.items():
            for o in OPS:
                if full or o in ('serialize', 'deserialize'):
                    out.append(('reject', t, pat, c, o, 'long'))
    for t in NOCONS:
        for c, pat in CTX.items():
            for o in CREATE + INPLACE:
                if o in INPLACE and c in NOCREATE:
                    continue
                if t == 'acc::ByteNoCons' and c == 'variant':
                    continue    # copied with the variant, never created
                if full or c == 'itself' or o == 'deserialize' or (o == 'deserializeInPlace' and c in CORE):
                    out.append(('reject', t, pat, c, o, 'acc::Ok'))
    for t in FPONLY:
        for c, pat in CTX.items():
            if t in FPSKIP.get(c, ()):
                continue
            if not full and c not in CORE and t in FPONLY[1:10]:
                continue
            out.append(('accept', t, pat, c, 'getMemoryFootprint', None))
    for t in NOSER:
        if t not in ('std::nullptr_t',):
            out.append(('accept', t, '%s', 'itself', 'getMemoryFootprint', None))
    return out


# in place, the object and what it holds directly is already there
NOCREATE = ('itself', 'array', 'pair', 'pair (first)', 'tuple', 'member', 'member (free serialize)', 'array member')
CORE = ('itself', 'vector', 'unique_ptr', 'map value', 'variant', 'optional', 'member')
# not accepted by the standard library type or by the way it is read back
FPSKIP = {'optional': ('std::atomic<int>', 'std::thread'), 'variant': ('std::thread',)}


class Front:
    def __init__(s, cfg):
        s.dir = os.path.join(cfg['tmp'], 'acc-%d' % os.getpid())
        os.makedirs(s.dir, exist_ok=True)
        s.args = unit.clang_args(cfg['inc'], cfg['defs']) + ['-w']
        s.pch = os.path.join(s.dir, 'a-%s.pch' % cfg['config'])
        s.memo = {}
        s.n = 0
        p = subprocess.run(s.args + ['-x', 'c++-header', os.path.join(unit.VERIF, 'witness', 'accept.h'), '-o', s.pch], capture_output=True, text=True)
        s.err = None
        if p.returncode:
            s.err = ([l for l in p.stderr.split('\n') if 'error' in l] or ['?'])[0][:300]

    def accepts(s, ty, op):
        """True, False or None (no answer); and the first error."""
        src = 'using T = %s;\n%s\n' % (ty, OPS.get(op) or FOOT[op])
        if src in s.memo:
            return s.memo[src]
        s.n += 1
        try:
            p = subprocess.run(s.args + ['-include-pch', s.pch, '-fsyntax-only', '-ferror-limit=1', '-x', 'c++', '-'], input=src, capture_output=True, text=True, timeout=120)
        except subprocess.TimeoutExpired:
            r = (None, 'no answer from the front end')
        else:
            e = [l for l in p.stderr.split('\n') if 'error:' in l]
            if p.returncode == 0:
                r = (True, '')
            elif p.returncode == 1 and e:
                r = (False, e[0])
            else:
                r = (None, 'front end failed: ' + p.stderr[-200:])
        s.memo[src] = r
        return r


def where(e):
    i = e.find(': error:')
    l = e[:i] if i > 0 else ''
    k = l.find('/src/checkpoint/')
    return l[k + 1:] if k >= 0 else l


ANCHOR = 'src/checkpoint/dispatch/dispatch_serializer_nonbyte.h (overloads), src/checkpoint/traits/serializable_traits.h'


def c18(cx, r, cfg, arg):
    i, n = arg
    ps = programs(cfg['tier'])
    fr = Front(cfg)
    if fr.err:
        r.undecided('the headers do not compile: ' + fr.err)
        return
    for k, (kind, t, pat, c, o, twin) in enumerate(ps):
        if int(hashlib.sha1((c + '/' + o + str(k // 40)).encode()).hexdigest(), 16) % n != i:
            continue
        ty = pat % t
        ok, err = fr.accepts(ty, o)
        what = '%s of %s' % (o, ty)
        if ok is None:
            r.undecided('%s: %s' % (what, err))
        elif kind == 'reject':
            tok, terr = fr.accepts(pat % twin, o)
            if ok:
                r.bad('%s compiles: %s' % (what, why(t)), ANCHOR, 'using T = %s; %s' % (ty, OPS[o]))
            elif not tok:
                r.undecided('%s is rejected, but so is its supported twin %s: %s' % (what, pat % twin, terr[-200:]))
            else:
                r.ok()
                r.sample('%s does not compile, with %s in its place it does' % (what, twin), where(err))
                r.add('programs_rejected')
        else:
            if ok:
                r.ok()
                r.add('programs_accepted')
            else:
                r.bad('%s does not compile, though it is supported for footprinting' % what, where(err) or ANCHOR, err[-300:])
    r.add('front_end_runs', fr.n)


def why(t):
    if t in NOCONS:
        return 'nothing can construct a %s' % t
    if t in FPONLY:
        return '%s is supported for footprinting only' % t
    return 'nothing says how to serialize a %s' % t
