"""Conformance: cases produced by the TLA+ specification are replayed into the code under test and the
observed outcomes compared with the specified ones."""
import json, os, re, subprocess, hashlib, shutil, sys, time, glob
from concurrent.futures import ThreadPoolExecutor
import ps

SPEC = os.path.join(ps.VERIF, 'spec')
JAR = '/opt/veriftools/tla'

def hx(b): return ''.join('%02x' % x for x in b)

def val(v):
    """specification value -> runtime JSON"""
    k = v['k']
    if k in ('i', 'f', 'bf', 's'): return hx(v['b'])
    if k == 'b': return '01' if v['v'] else '00'
    if k == 'e': return v['v'] + (':' + hx(v['b']) if v['v'] == 'Dz' else '')
    if k == 'a': return [val(x) for x in v['s']]
    if k == 'o': return {'o': val(v['s'][0])} if v['s'] else None
    if k == 'st': return {n: val(x) for n, x in v['m'].items()} if v['m'] else {}
    if k == 'tg': return {'t': v['v'], 'v': val(v['x'])}
    raise ValueError(v)

# ------------------------------------------------------------------ TLC
def cfg(path, consts, spec='Spec', invs=(), extra=''):
    with open(path, 'w') as f:
        f.write('SPECIFICATION %s\n' % spec)
        if consts:
            f.write('CONSTANTS\n')
            for k, v in consts.items():
                f.write(' %s = %s\n' % (k, json.dumps(v) if isinstance(v, str) else v))
        if invs: f.write('INVARIANTS %s\n' % ' '.join(invs))
        f.write('CHECK_DEADLOCK FALSE\n' + extra)

class SpecError(Exception): pass

def tlc(module, consts, work, tag, invs=(), args=(), timeout=300, heap='1200m', workers=1):
    d = os.path.join(work, 'tlc_' + tag); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for f in glob.glob(os.path.join(SPEC, '*.tla')): shutil.copy(f, d)
    c = os.path.join(d, 'M.cfg'); cfg(c, consts, invs=invs)
    cp = ':'.join([os.path.join(JAR, 'tla2tools.jar'), os.path.join(JAR, 'CommunityModules-deps.jar')])
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-cp', cp, 'tlc2.TLC',
           '-workers', str(workers), '-metadir', os.path.join(d, 'md'), '-noGenerateSpecTE', '-config', c] + list(args) + [module + '.tla']
    try:
        r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out, rc = r.stdout.decode('utf8', 'replace'), r.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = (e.stdout or b'').decode('utf8', 'replace'), -9
    open(os.path.join(work, tag + '.tlc.log'), 'w').write(out)
    shutil.rmtree(d, ignore_errors=True)
    m = re.findall(r'([\d,]+) states (?:generated|checked)(?:[^\n]*?, ([\d,]+) distinct)?', out)
    st = m[-1] if m else ('0', '0')
    res = {'rc': rc, 'out': out, 'states': int(st[0].replace(',', '') or 0), 'distinct': int((st[1] or st[0]).replace(',', '') or 0)}
    if 'Error:' in out or rc not in (0, -9):
        e = out[out.find('Error:'):] if 'Error:' in out else out[-1500:]
        raise SpecError('%s/%s: %s' % (module, tag, e[:3000]))
    return res

def ndjson(path):
    if not os.path.exists(path): return
    with open(path, encoding='utf8', errors='replace') as f:
        for l in f:
            try: r = json.loads(l)
            except ValueError: continue
            if isinstance(r, str): r = json.loads(r)
            yield r

def unit(p):
    """text, other modules, and what the glue needs of a program record"""
    p['text'] = ps.render(p['prog'])
    if p.get('mods'): p['imports'] = {n: ps.render(m) for n, m in p['mods'].items()}
    if p.get('made'): p['glue'] = [dict(x['d'], name=x['as'], alias=x['as'] != x['d']['name']) for x in p['made']]
    return p

WIRE_INV = ('Steady', 'Causal', 'Verdict', 'Idem', 'Round')

def simulate(work, focus, seed, workers=8, depth=1500, perprog=14, faults=15, tamper=30, wild=0, fam='mix', split=0, timeout=240, module='Wire', invs=WIRE_INV, tag='sim', extra=None):
    """parallel seeded random behaviours of the Wire specification -> programs with cases"""
    def one(i):
        out = os.path.join(work, '%s_%s_%d.ndjson' % (tag, focus, i))
        if os.path.exists(out): os.remove(out)
        c = dict(Focus=focus, Out=out, PerProg=perprog, Wild=wild, Faults=faults, Tamper=tamper, FamMode=fam, SplitP=split, FamOff=seed * 131 + i, FamStep=workers)
        if module == 'Api': c = dict(Focus=focus, Wild=wild, Out=out, PerProg=perprog)
        c.update(extra or {})
        r = tlc(module, c, work, '%s_%s_%d' % (tag, focus, i), invs=invs, timeout=timeout,
                args=['-simulate', 'num=1', '-depth', str(depth), '-seed', str(seed * 1000 + i * 7 + sum(map(ord, focus)))])
        return r, out
    with ThreadPoolExecutor(workers) as ex: rs = list(ex.map(one, range(workers)))
    progs, states = [], 0
    for i, (r, out) in enumerate(rs):
        states += r['states']
        cur = {}
        for l in ndjson(out):
            if l['k'] == 'prog':
                cur = unit(dict(l, w=i, focus=focus, cases=[])); progs.append(cur)
            else: cur['cases'].append(l)
        os.remove(out)
    return progs, states

# ------------------------------------------------------------------ the code under test
class Runner:
    def __init__(self, work):
        self.work = work
        os.makedirs(work, exist_ok=True)
        self.forge = ps.build_forge()
        self.rt = ps.build_rt()

    def check(self, texts, op='check', **kw):
        return ps.forge([dict(op=op, text=t, **kw) for t in texts], self.forge)
    def check_units(self, progs):
        return ps.forge([dict(op='check', text=p['text'], imports=p.get('imports') or {}) for p in progs], self.forge)

    def build(self, progs, tag, options=None, modes=(), per=20, imports=None):
        """progs: list with 'prog' (AST) and 'text'; sets p['mod'], p['bin'] or p['bad']; returns forge results"""
        jobs = []
        for p in progs:
            j = dict(op='compile', text=p['text'], options=options or {})
            if p.get('imports'): j['imports'] = p['imports']
            jobs.append(j)
        res = ps.forge(jobs, self.forge)
        mods = []
        for i, (p, r) in enumerate(zip(progs, res)):
            p['mod'] = 'm%d' % i; p['bin'] = None; p['bad'] = None
            p['front'] = {k: v for k, v in r.items() if k != 'rust'}
            if r['r'] == 'ok':
                mods.append((p, (p['mod'], ps.Glue(p.get('glue', p['prog'])).module(p['mod'], r['rust'], modes))))
        batches = [mods[i:i + per] for i in range(0, len(mods), per)]
        def one(ib):
            i, b = ib
            binary, bad = ps.rustc_batch([m for _, m in b], self.rt, self.work, '%s_%d' % (tag, i))
            for p, (n, _) in b:
                p['bad'] = bad.get(n); p['bin'] = binary if n not in bad else None
        with ThreadPoolExecutor(8) as ex: list(ex.map(one, enumerate(batches)))
        return res

    def run(self, progs, cases, tag):
        """cases: list of (prog, case dict); returns results in order"""
        for i, (p, c) in enumerate(cases): c['id'] = i; c['m'] = p['mod']
        groups = {}
        for p, c in cases:
            if p['bin']: groups.setdefault(p['bin'], []).append(c)
        res = {}
        def one(x):
            k, (b, cs) = x
            return ps.run_cases(b, cs, self.work, '%s_%d' % (tag, k))
        with ThreadPoolExecutor(8) as ex:
            for r in ex.map(one, enumerate(groups.items())): res.update(r)
        return [res.get(i) for i in range(len(cases))]

def wire_case(c, a='', pend=0):
    """specification case -> runtime case"""
    if c['k'] == 'default': return dict(t=c['t'], op='default')
    if c['k'] == 'api':
        return dict(t=c['t'], op='api', steps=[dict(op=s['op'], f=s['f'], b=hx(s['b']), x=val(s['x'][0]) if s['x'] else '') for s in c['steps']])
    d = dict(t=c['t'], args=[val(x) for x in c['given']])
    if c['k'] == 'enc':
        d.update(op=a + 'enc', v=val(c['v']), fail=c['lim'])
        d['ch'] = [3, 1, 2] if c['lim'] >= 0 else []
    else:
        d.update(op=a + 'dec', ch=c['ch'] or [1], fail=c['stop'])
        d['in'] = hx(c['inp'])
    if pend: d['pend'] = pend
    return d

def judge(c, r):
    """None if the observed outcome is the specified one, else a reason"""
    if r is None: return 'no result'
    if r['r'] in ('panic', 'abort', 'hang', 'nomod'): return '%s: %s' % (r['r'], r.get('m', ''))
    if c['k'] == 'api':
        if r['r'] != 'ok': return 'observed %s' % r
        for i, (x, y) in enumerate(zip(c['steps'], r['v'])):
            b = hx(x['v']['b'])
            w = dict(st=x['st'], v=val(x['v']), num=b, be=b, le=hx(x['v']['b'][::-1]), same=x['same'], has=x['has'])
            if w != y: return 'step %d (%s): specified %s, observed %s' % (i, x['op'], json.dumps(w), json.dumps(y))
        return None if len(r['v']) == len(c['steps']) else 'steps missing'
    if c['k'] == 'default':
        return None if r['r'] == 'ok' and r['v'] == val(c['v']) else 'default value: specified %s, observed %s' % (json.dumps(val(c['v'])), r)
    if r['r'] != c['st']: return 'specified %s, observed %s%s' % (c['st'], r['r'], ' (%s)' % r['m'] if 'm' in r else '')
    if c['k'] == 'enc':
        b = hx(c['b'])
        if r['r'] == 'ok':
            if r['out'] != b: return 'bytes differ: specified %s, observed %s' % (b, r['out'])
        elif c['lim'] >= 0 and c['b'] and not b.startswith(r['out']): return 'partial output is no prefix: %s of %s' % (r['out'], b)
    elif r['r'] == 'ok':
        v = val(c['v'])
        if r['v'] != v: return 'value differs: specified %s, observed %s' % (json.dumps(v), json.dumps(r['v']))
        if r['used'] != c['n']: return 'consumed %d, specified %d' % (r['used'], c['n'])
    return None
