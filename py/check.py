#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decide one property on the current tree
   check.py --replay <file>              run one recorded violation again
   check.py --setup                      build what does not depend on the tree"""
import json, os, sys, time, shutil, threading, traceback, hashlib
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ps, conf

MAXV = 5        # violations written out per run

class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.work = os.path.join(ps.CACHE, 'work', '%s_%d' % (pid, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True); os.makedirs(self.work)
        self.viol = []; self.nviol = 0
        self.cov = {'evaluations': 0, 'distinct': set(), 'states': 0, 'transitions': 0, 'traces': 0, 'samples': [], 'notes': {}}
        self.lock = threading.Lock()
        self._r = None; self._rt = threading.Thread(target=self._build); self._rt.start()
    def _build(self):
        try: self._r = conf.Runner(self.work)
        except Exception as e: self._r = e
    @property
    def runner(self):
        self._rt.join()
        if isinstance(self._r, Exception): raise self._r
        return self._r
    @property
    def thorough(self): return self.tier == 'thorough'
    def pick(self, q, t): return t if self.thorough else q
    def left(self): return (1500 if self.thorough else 600) - (time.time() - self.t0)

    def violation(self, why, rec):
        with self.lock:
            self.nviol += 1
            if len(self.viol) >= MAXV: return
            d = os.path.join(ps.CACHE, 'replay'); os.makedirs(d, exist_ok=True)
            p = os.path.join(d, '%s-%d.json' % (self.pid, len(self.viol)))
            json.dump(dict(rec, property=self.pid, why=why), open(p, 'w'), indent=1)
            self.viol.append((why, p))
            print('VIOLATION property=%s replay=%s' % (self.pid, p))
            print('  ' + why[:600].replace('\n', '\n  '), flush=True)
    def count(self, key=None, n=1):
        self.cov['evaluations'] += n
        if key is not None: self.cov['distinct'].add(hashlib.md5(key.encode()).digest()[:8])
    def sample(self, s, cap=4):
        if len(self.cov['samples']) < cap: self.cov['samples'].append(s)
    def note(self, **kw):
        for k, v in kw.items():
            if isinstance(v, (int, float)): self.cov['notes'][k] = self.cov['notes'].get(k, 0) + v
            else: self.cov['notes'][k] = v

    def evidence(self, level, rule, assumptions=()):
        c = self.cov
        cov = dict(evaluations=c['evaluations'], distinct_nontrivial=len(c['distinct']), rule=rule, samples=c['samples'] or ['none'], **c['notes'])
        cov.update(states=c['states'], transitions=c['transitions'] or c['states'], traces_validated_against_impl=c['traces'])
        d = os.path.join(ps.VERIF, 'evidence'); os.makedirs(d, exist_ok=True)
        json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov, wall_s=round(time.time() - self.t0, 2),
                       assumptions=list(assumptions), violations=self.nviol),
                  open(os.path.join(d, self.pid + '.json'), 'w'), indent=1)

# ------------------------------------------------------------------ known findings
def known():
    p = os.path.join(ps.VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l.startswith('finding: '): continue
            f = dict(x.split('=', 1) for x in l[9:].split(' ', 2)[:2])
            f['what'] = l[9:].split(' ', 2)[2]
            out.append(f)
    return out

def replay_findings(ctx):
    """each recorded finding is run again: reported while it still fails as recorded"""
    fs = [f for f in known() if f['property'] == ctx.pid]
    if not fs: return
    progs = []
    for f in fs:
        r = json.load(open(os.path.join(ps.VERIF, f['input'])))
        progs.append((f, r))
    R = ctx.runner
    res = ps.forge([dict(op='compile', text=r['text'], options=r.get('options', {}), imports=r.get('imports', {})) for f, r in progs], R.forge)
    mods = []
    for i, ((f, r), x) in enumerate(zip(progs, res)):
        f['res'] = x
        if x['r'] == 'ok': mods.append((f, ('k%d' % i, 'pub mod k%d {\n%s\npub fn run(_: &str, _: &vrt::J) -> vrt::J { panic!() }\n}\n' % (i, x['rust']))))
    if mods:
        _, bad = ps.rustc_batch([m for _, m in mods], R.rt, ctx.work, 'known')
        for f, (n, _) in mods: f['bad'] = bad.get(n)
    for f, r in progs:
        x = f['res']
        seen = {'panic': x['r'] in ('panic', 'abort', 'hang'), 'unbuildable': bool(f.get('bad')), 'rejected': x['r'] == 'err', 'accepted': x['r'] == 'ok'}
        if seen[r['fails']]: print('KNOWN-FINDING: property=%s %s' % (ctx.pid, f['what']), flush=True)

# ------------------------------------------------------------------ main
def main():
    if sys.argv[1] == '--setup':
        ps.build_rt(); ps.build_forge()
        return 0
    import legs
    if sys.argv[1] == '--replay':
        rec = json.load(open(sys.argv[2]))
        ctx = Ctx(rec['property'], 'quick', 1)
        why = legs.replay(ctx, rec)
        print('still fails: ' + why if why else 'no longer fails')
        return 1 if why else 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ctx = Ctx(pid, tier, seed)
    try:
        level, rule, assumptions = legs.CHECKS[pid](ctx)
        replay_findings(ctx)
        ctx.evidence(level, rule, assumptions)
    finally:
        ctx._rt.join()
        shutil.rmtree(ctx.work, ignore_errors=True)
    print('%s %s: %d evaluations, %d distinct, %d violations, %.1fs' % (pid, tier, ctx.cov['evaluations'], len(ctx.cov['distinct']), ctx.nviol, time.time() - ctx.t0))
    return 1 if ctx.nviol else 0

if __name__ == '__main__':
    try: sys.exit(main())
    except SystemExit: raise
    except Exception:
        traceback.print_exc()
        sys.exit(2)
