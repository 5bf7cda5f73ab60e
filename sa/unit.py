"""Building and analysing one witness translation unit: /repo's headers and
sources are compiled to LLVM IR together with the witness, and every entry point
is summarised."""
import limits
import os, subprocess, re, shutil, tempfile, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
IRDUMP = os.path.join(BUILD, 'irdump')
PREFIXES = ['ob_', 'sz_', 'wr_', 'mw_', 'mn_', 'reg_', 'cb_', 'nc_', 'ws_', 'rs_', 'pl_', 'so_', 'fo_', 'ko_', 'kr_', 'rd_', 'mr_', 'ip_', 'mi_', 'fp_', 'fw_', 'fr_', 'fi_', 'x_']

# the file system facilities the build may find or miss
FSVARIANTS = {
    'default': ('fallocate', 'mmap64'),
    'plain': (),
}


def ensure_irdump():
    src = os.path.join(VERIF, 'tools', 'irdump.cc')
    if os.path.exists(IRDUMP) and os.path.getmtime(IRDUMP) >= os.path.getmtime(src):
        return
    os.makedirs(BUILD, exist_ok=True)
    tmp = IRDUMP + '.%d' % os.getpid()
    flags = subprocess.check_output(['llvm-config', '--cxxflags'], text=True).split()
    lib = subprocess.check_output(['llvm-config', '--libdir'], text=True).strip()
    subprocess.check_call(['clang++', '-O1', '-std=c++17'] + flags + ['-fno-rtti', src, '-o', tmp, '-lLLVM-18', '-L' + lib])
    os.replace(tmp, IRDUMP)


def gen_config(dst, have):
    """The configuration header the build generates, for a set of facilities."""
    p = os.path.join(REPO, 'src/checkpoint/cmake_config.h.in')
    out = []
    for l in open(p):
        m = re.match(r'\s*#\s*cmakedefine(01)?\s+(\w+)(.*)', l)
        if m:
            name = m[2]
            on = any(name.endswith('has_' + h) for h in have)
            if m[1]:
                l = '#define %s %d\n' % (name, on)
            else:
                l = '#define %s%s\n' % (name, m[3]) if on else '/* #undef %s */\n' % name
        l = re.sub(r'@(\w+)@', '0', l)
        out.append(l)
    os.makedirs(os.path.join(dst, 'checkpoint'), exist_ok=True)
    open(os.path.join(dst, 'checkpoint', 'cmake_config.h'), 'w').write(''.join(out))


class BuildError(Exception):
    pass


def clang_args(inc, defs=(), std='c++17'):
    return ['clang++', '-std=' + std, '-I' + os.path.join(REPO, 'src'), '-I' + inc, '-I' + os.path.join(VERIF, 'witness')] + ['-D' + d for d in defs]


def compile_unit(src, out, inc, defs=()):
    bc = out + '.bc'
    cmd = clang_args(inc, defs) + ['-g', '-fstandalone-debug', '-O0', '-Xclang', '-disable-O0-optnone', '-w', '-emit-llvm', '-c', '-ferror-limit=3', src, '-o', bc]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        e = [l for l in p.stderr.split('\n') if 'error' in l]
        raise BuildError('%s does not compile: %s' % (os.path.basename(src), (e or [p.stderr[-500:]])[0][:600]))
    p = subprocess.run([IRDUMP, bc, out + '.json'] + PREFIXES, capture_output=True, text=True)
    if p.returncode:
        raise BuildError('irdump: ' + p.stderr[-500:])
    os.remove(bc)
    return out + '.json'


SUMTIME = 60


class Sum:
    def __init__(s, name):
        s.name = name
        s.err = None
        s.trace = []
        s.ret = None
        s.outs = []
        s.bad = []
        s.st = None


class Ctx:
    """The analysis of one witness module."""

    def __init__(s, json_path, conf=None, fix=None):
        from ir import Module
        from interp import Interp, St
        import loops
        from models import Models
        s.m = Module(json_path)
        s.md = Models(fix, conf)
        s.md.conf.setdefault('structs', s.m.structs)
        s.it = Interp(s.m, s.md, REPO)
        st = St()
        for c in s.m.ctors:
            if not st:
                break
            st, o = s.it.call(c, [], st)
        s.st0 = st
        s.cache = {}

    def warm(s, entries):
        """Sets up the local statics these operations initialise, as an earlier
        operation would have: the loops of later ones are then uniform."""
        for e in entries:
            r = s.sum(e)
            if r.err or r.st is None:
                continue
            st = s.st0.copy()
            for b, g in r.st.mem.items():
                if b.k == 'gl' and (b.a[0].startswith('_ZGV') or b.a[0].startswith('_ZZ')) or b.k == 'items' and b.a[1] == ():
                    st.mem[b] = g
            s.st0 = st
            del s.cache[e]

    def has(s, e):
        return e in s.m.fns

    def types(s, prefix):
        return [e[len(prefix):] for e in s.m.entries if e.startswith(prefix)]

    def sum(s, e, st=None):
        from interp import Unsupported, events
        from terms import mk, ptr
        r = s.cache.get(e)
        if r is not None:
            return r
        r = Sum(e)
        f = s.m.fns[e]
        args = [ptr(mk('arg', i)) if a[1] == 'p' else mk('arg', i, w=int(a[1][1:])) for i, a in enumerate(f.args)]
        z = (st or s.st0).copy()
        z.trace = None
        it = s.it
        it.bad = []
        it.badset = set()
        it.stack = []
        it.idx = ()
        try:
            with limits.limit(SUMTIME) as l:
                st2, outs = it.call(e, args, z)
                r.st = st2
                r.outs = outs
                if st2 is not None:
                    r.trace = events(st2.trace)
                    r.ret = st2.ret
            if l.hit:
                r.err = 'out of time'
                r.st, r.outs, r.trace = None, [], []
        except Unsupported as x:
            r.err = str(x)[:300]
        except RecursionError:
            r.err = 'recursion'
        except Exception as x:
            r.err = 'internal: %r %s' % (x, traceback.format_exc()[-300:])
        r.bad = list(it.bad)
        s.cache[e] = r
        return r
