"""The witness module's IR (as dumped by tools/irdump) with per-function control
flow facts: which blocks reach a normal return, post-dominators, natural loops."""
import json, re


def strip_targs(s):
    """std::vector<int, std::allocator<int>> -> std::vector"""
    r = []
    d = 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == '<':
            if s[max(0, i - 8):i] == 'operator' or s[max(0, i - 9):i] == 'operator<':
                r.append(c) if d == 0 else None
            else:
                d += 1
        elif c == '>':
            if s[max(0, i - 1):i] == '-' or s[max(0, i - 8):i] == 'operator':
                r.append(c) if d == 0 else None
            else:
                d -= 1
        elif d == 0:
            r.append(c)
        i += 1
    return ''.join(r).strip()


class Fn:
    def __init__(s, name, j):
        s.name = name
        s.j = j
        s.dem = j.get('dem', name)
        s.ctx = j.get('ctx') or ''
        s.base = j.get('base') or name
        s.params = j.get('params', '')
        s.sctx = strip_targs(s.ctx)
        # a return type prefix for template functions is not part of the context
        s.vs = j.get('vs')
        s.clsz = j.get('clsz')
        s.blocks = j.get('blocks')
        s.args = j['args']
        s.nounwind = j.get('nounwind', False)
        s.noreturn = j.get('noreturn', False)
        s.file = j.get('file', '')
        s.line = j.get('line', 0)
        s._cfg = None

    @property
    def cfg(s):
        if s._cfg is None:
            s._cfg = Cfg(s)
        return s._cfg


class Cfg:
    def __init__(s, f):
        n = len(f.blocks)
        s.n = n
        s.succ = []
        s.unw = []
        for b in f.blocks:
            t = b[-1]
            o = t['o']
            u = None
            if o == 'br':
                x = list(t['to'])
            elif o == 'switch':
                x = [t['def']] + [c[1] for c in t['cases']]
            elif o == 'invoke':
                x = [t['nd']]
                u = t['ud']
            else:
                x = []
            y = []
            for v in x:
                if v not in y:
                    y.append(v)
            s.succ.append(y)
            s.unw.append(u)
        pred = [[] for _ in range(n)]
        for i, x in enumerate(s.succ):
            for v in x:
                pred[v].append(i)
        # blocks from which a normal return is reachable over normal edges
        ok = set(i for i, b in enumerate(f.blocks) if b[-1]['o'] == 'ret')
        w = list(ok)
        while w:
            v = w.pop()
            for p in pred[v]:
                if p not in ok:
                    ok.add(p)
                    w.append(p)
        s.ok = ok
        # post-dominators on the graph restricted to ok blocks; EXIT = n
        EXIT = n
        nodes = [b for b in ok]
        full = set(nodes) | {EXIT}
        pd = {b: set(full) for b in nodes}
        pd[EXIT] = {EXIT}
        ch = True
        while ch:
            ch = False
            for b in sorted(nodes, reverse=True):
                ss = [v for v in s.succ[b] if v in ok] or [EXIT]
                if f.blocks[b][-1]['o'] == 'ret':
                    ss = [EXIT]
                new = set.intersection(*[pd[v] for v in ss]) | {b}
                if new != pd[b]:
                    pd[b] = new
                    ch = True
        s.pd = pd
        s.ipd = {}
        for b in nodes:
            c = pd[b] - {b}
            # the immediate one is that whose own pd set is the largest
            s.ipd[b] = max(c, key=lambda x: len(pd[x])) if c else EXIT
        # dominators (normal + unwind edges) for natural loops
        succ2 = [x + ([u] if u is not None else []) for x, u in zip(s.succ, s.unw)]
        pred2 = [[] for _ in range(n)]
        for i, x in enumerate(succ2):
            for v in x:
                pred2[v].append(i)
        order = []
        seen = set()
        st = [(0, iter(succ2[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for v in it:
                if v not in seen:
                    seen.add(v)
                    st.append((v, iter(succ2[v])))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        dom = {b: set(order) for b in order}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in order:
                if b == 0:
                    continue
                ps = [dom[p] for p in pred2[b] if p in dom]
                new = (set.intersection(*ps) if ps else set()) | {b}
                if new != dom[b]:
                    dom[b] = new
                    ch = True
        s.loops = {}
        for b in order:
            for h in succ2[b]:
                if h in dom.get(b, ()):
                    body = s.loops.setdefault(h, {h})
                    w = [b]
                    while w:
                        v = w.pop()
                        if v not in body:
                            body.add(v)
                            w.extend(p for p in pred2[v] if p in dom)


class Module:
    def __init__(s, path):
        j = json.load(open(path))
        s.fns = {k: Fn(k, v) for k, v in j['functions'].items()}
        s.globals = j['globals']
        s.entries = j['entries']
        s.structs = {}
        for k, v in j.get('structs', {}).items():
            k = re.sub(r'^(struct|class)\.', '', k)
            k = re.sub(r'(\.\d+|\.base)+$', '', k)
            s.structs[k] = max(v, s.structs.get(k, 0))
        s.ctors = j.get('ctors', [])
        s._reach = {}

    def callees(s, f):
        r = []
        if not f.blocks:
            return r
        for b in f.blocks:
            for i in b:
                fn = i.get('fn')
                if fn and fn[0] == 'g' and fn[1] in s.fns:
                    r.append((s.fns[fn[1]], i))
        return r

    def find_callee(s, f, pred, depth=14, within=lambda g: True):
        """First (breadth-first) function reachable from f that satisfies pred."""
        seen = {f.name}
        q = [(f, 0)]
        while q:
            g, d = q.pop(0)
            for h, _ in s.callees(g):
                if h.name in seen:
                    continue
                seen.add(h.name)
                if pred(h):
                    return h
                if d < depth and within(h):
                    q.append((h, d + 1))
        return None
