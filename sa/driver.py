"""Runs the analyses of one property over the witness units and build
configurations, prints the verdict and writes the evidence."""
import os, sys, json, time, shutil, tempfile, traceback, random
from concurrent.futures import ProcessPoolExecutor
import multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import unit

WORKERS = 8
CONFIGS = {'plain': (), 'checked': ('SERIALIZATION_ERROR_CHECKING',)}


class Res:
    """What one job found.  An obligation is one comparison the rule asks for."""

    def __init__(s):
        s.ob = 0
        s.done = 0
        s.und = []
        s.viol = []
        s.samples = []
        s.fns = 0
        s.entries = 0
        s.events = 0
        s.extra = {}

    def ok(s, n=1):
        s.ob += n
        s.done += n

    def undecided(s, what):
        s.ob += 1
        if len(s.und) < 2000:
            s.und.append(what)

    def bad(s, what, loc, detail=None):
        s.ob += 1
        s.viol.append((what, loc, detail or ''))

    def sample(s, what, where=''):
        if len(s.samples) < 4:
            s.samples.append({'obligation': str(what)[:400], 'at': where})

    def add(s, k, n=1):
        s.extra[k] = s.extra.get(k, 0) + n

    def merge(s, o):
        s.ob += o.ob
        s.done += o.done
        s.und += o.und
        s.viol += o.viol
        s.samples += o.samples
        s.fns += o.fns
        s.entries += o.entries
        s.events += o.events
        for k, v in o.extra.items():
            s.extra[k] = s.extra.get(k, 0) + v


def compile_job(a):
    src, out, inc, defs = a
    t = time.time()
    try:
        return unit.compile_unit(src, out, inc, defs), None, time.time() - t
    except unit.BuildError as x:
        return None, str(x), time.time() - t


_ctx = {}


def run_job(a):
    fn, js, cfg, arg, seed = a
    import limits
    random.seed(seed)
    sys.setrecursionlimit(20000)
    t = time.time()
    r = Res()
    cx = None
    what = '%s of %s, %s, %s, part %s' % (fn, cfg['unit'], cfg['config'], cfg['fs'], arg)
    try:
        with limits.limit(end=cfg['end']) as l:
            import checks
            # one context per job: an analysis must not depend on what ran before it
            cx = unit.Ctx(js) if js else None
            getattr(checks, fn)(cx, r, cfg, arg)
        if l.hit:
            r.undecided('out of time: ' + what)
    except (Exception, limits.Late):
        r.undecided('internal: %s: %s' % (what, traceback.format_exc()[-500:]))
    if cx:
        for e, s in cx.cache.items():
            if s.err is None:
                r.entries += 1
                r.events += count(s.trace)
        r.fns += len(cx.it.seen) if hasattr(cx.it, 'seen') else 0
    return r, None, time.time() - t


def count(tr):
    n = 0
    for e in tr:
        n += 1
        if e[0] == 'if':
            n += count(e[2]) + count(e[3])
        elif e[0] == 'loop':
            n += count(e[1].body)
    return n


def known(pid):
    r = {}
    p = os.path.join(unit.VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                k = l.split(' ', 2)[2]
                r[k] = k
    return r


# what is not decided by then is left undecided
LIMIT = 720
# witnesses that name things which are not part of the interface
SOFT = ('reg',)


def main(pid, verbose=False, tier=None):
    import checks
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = tier or os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    spec = checks.PROPS[pid]
    unit.ensure_irdump()
    tmp = tempfile.mkdtemp(prefix='vp-%s-' % pid)
    errors = []
    res = Res()
    try:
        incs = {}
        for v, have in unit.FSVARIANTS.items():
            incs[v] = os.path.join(tmp, 'inc-' + v)
            unit.gen_config(incs[v], have)
        jobs = spec['jobs'](tier)
        # job: (function, unit or None, config, fs variant, argument)
        want = {}
        for j in jobs:
            if j[1]:
                k = (j[1], j[2], j[3])
                if k not in want:
                    want[k] = (os.path.join(unit.VERIF, 'witness', j[1] + '.cc'), os.path.join(tmp, '-'.join(k)), incs[j[3]], CONFIGS[j[2]])
        ex = ProcessPoolExecutor(WORKERS, mp_context=mp.get_context('fork'))
        try:
            built = {}
            cf = {k: ex.submit(compile_job, a) for k, a in want.items()}
            futs = []
            ctime = 0
            for k in cf:
                js, err, dt = cf[k].result()
                ctime += dt
                if err and k[0] in SOFT:
                    res.undecided(err)
                elif err:
                    errors.append(err)
                built[k] = js
            for j in jobs:
                js = None
                if j[1]:
                    js = built[(j[1], j[2], j[3])]
                    if js is None:
                        continue
                cfg = {'unit': j[1], 'config': j[2], 'fs': j[3], 'tmp': tmp, 'inc': incs[j[3]], 'defs': CONFIGS[j[2]], 'tier': tier, 'end': t0 + LIMIT}
                futs.append((j, ex.submit(run_job, (j[0], js, cfg, j[4], seed))))
            for j, f in futs:
                try:
                    r, err, dt = f.result()
                except Exception as x:
                    r, err, dt = None, repr(x), 0
                if verbose:
                    sys.stderr.write('%-60s %.1fs ob %s und %s viol %s\n' % (str(j)[:60], dt, r and r.ob, r and len(r.und), r and len(r.viol)))
                if err:
                    errors.append(err)
                else:
                    res.merge(r)
        finally:
            ex.shutdown(wait=True, cancel_futures=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    # verdict
    kn = known(pid)
    seen = {}
    nknown = 0
    for what, loc, detail in res.viol:
        key = '%s @ %s' % (what, loc)
        if key in kn:
            if key not in seen:
                print('KNOWN-FINDING: property=%s %s' % (pid, key))
                nknown += 1
            seen[key] = None
            continue
        seen.setdefault(key, []).append(detail)
    viol = [k for k, v in seen.items() if v is not None]
    evd = os.path.join(unit.VERIF, 'evidence')
    os.makedirs(evd, exist_ok=True)
    rp = os.path.join(evd, '%s.replay.txt' % pid)
    if os.path.exists(rp):
        os.remove(rp)
    for i, k in enumerate(viol):
        with open(rp, 'a') as f:
            f.write('%s\n' % k)
            for d in sorted(set(seen[k]))[:4]:
                if d:
                    f.write('    %s\n' % d)
        if i < 12:
            print('VIOLATION property=%s replay=%s' % (pid, rp))
            print('  ' + k[:600])
    und = sorted(set(res.und))
    cov = {
        'obligations': res.ob, 'discharged': res.done,
        'undecided': len(res.und), 'undecided_samples': und[:6],
        'entry_points_summarised': res.entries, 'effect_events': res.events,
        'functions_interpreted': res.fns,
        'witness_modules': len(want), 'analysis_jobs': len(jobs),
        'rule': spec['rule'],
        'samples': random.Random(seed).sample(res.samples, min(6, len(res.samples))) or [spec['rule']],
        'checker_cmd': './check ' + pid,
        'trusted_base': TRUSTED,
        'compile_seconds': round(ctime, 1),
    }
    cov.update(res.extra)
    if 'explanation' not in cov:
        cov['explanation'] = spec['rule']
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': spec.get('level', 'other'), 'coverage': cov,
          'assumptions': spec.get('assume', []) + ASSUME, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    with open(os.path.join(evd, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for e in errors:
        print('ERROR ' + e[:800])
    print('%s: %d obligations, %d discharged, %d undecided, %d violations, %d known, %.1f s' % (pid, res.ob, res.done, len(res.und), len(viol), nknown, time.time() - t0))
    if verbose:
        for u in und[:30]:
            print('  undecided: ' + u[:300])
    if viol:
        return 1
    return 2 if errors or not res.ob else 0


TRUSTED = ['clang 18 front end (source to IR)', 'tools/irdump.cc and sa/*.py (the analyser)',
           'the models of the C++ standard library containers in sa/models.py',
           'the observation templates of witness/wit.h']
ASSUME = [
    'the standard library behaves as specified (its containers are modelled, not analysed)',
    'user callbacks terminate and touch only the object they are given',
    'an obligation whose two sides can be neither proved equal nor shown to differ is counted as undecided and never reported',
]

if __name__ == '__main__':
    a = [x for x in sys.argv[1:] if not x.startswith('-')]
    sys.exit(main(a[0], '-v' in sys.argv, 'thorough' if '--thorough' in sys.argv else None))
