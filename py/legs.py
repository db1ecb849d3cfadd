"""What each property's check does."""
import json, os, random
import ps, conf, front

TRUST = ['the TLA+ specification under spec/ states the intended meaning', 'the sandbox rustc compiles generated code faithfully',
         'the stand-ins for tokio, anyhow and async-recursion under harness/rt behave like the originals where generated code uses them']

def note_states(ctx, n):
    ctx.cov['states'] += n; ctx.cov['transitions'] += n

# ------------------------------------------------------------------ programs: verdicts and buildability
def verdicts(ctx, progs, report=True):
    """every authored program is accepted exactly when the specification elaborates it"""
    rs = ctx.runner.check_units(progs)
    for p, r in zip(progs, rs):
        if p['st'] == 'unsup': continue
        ctx.count(whole(p))
        if r['r'] in ('panic', 'abort', 'hang'):
            ctx.violation('the compiler does not survive a program: %s' % r, dict(kind='verdict', text=p['text'], imports=p.get('imports'), st=p['st']))
        elif report and r['r'] != p['st']:
            ctx.violation('the specification says %s, the compiler says %s\n%s' % (p['st'], r, brief(p)), dict(kind='verdict', text=p['text'], imports=p.get('imports'), st=p['st']))

def whole(p): return p['text'] + ''.join('\n=== %s\n%s' % x for x in sorted((p.get('imports') or {}).items()))
def brief(p):
    if p.get('imports'): return whole(p)
    text = p['text']
    i = text.rfind('import_ffi'); j = text.find('\n', i) if i >= 0 else 0
    return text[j:].strip()

def build(ctx, progs, tag, options=None, modes=(), per=24):
    """supported programs compile to Rust that builds"""
    sup = [p for p in progs if p['sup']]
    ctx.runner.build(sup, tag, options=options, modes=modes, per=per)
    for p in sup:
        ctx.count(whole(p) + json.dumps(options or {}))
        if p['front']['r'] != 'ok':
            ctx.violation('a program of the language does not compile: %s\n%s' % (p['front'], brief(p)),
                          dict(kind='build', prog=p['prog'], text=p['text'], imports=p.get('imports'), glue=p.get('glue'), options=options or {}, modes=list(modes)))
        elif p['bad']:
            ctx.violation('generated code does not build: %s\n%s' % (p['bad'][:400], brief(p)),
                          dict(kind='build', prog=p['prog'], text=p['text'], imports=p.get('imports'), glue=p.get('glue'), options=options or {}, modes=list(modes)))
    return [p for p in sup if p['bin']]

def replay_cases(ctx, good, tag, variants, pick=None):
    """variants: list of functions case -> runtime case or None; every one must show the specified outcome"""
    todo = []
    for p in good:
        for c in p['cases']:
            if pick and not pick(c): continue
            for f in variants:
                d = f(c)
                if d is not None: todo.append((p, c, d))
    res = ctx.runner.run(good, [(p, d) for p, c, d in todo], tag)
    ctx.cov['traces'] += len(todo)
    for (p, c, d), r in zip(todo, res):
        if r is not None and r['r'] == 'skip': continue
        ctx.count(whole(p) + json.dumps([c['k'], c['t'], c.get('given'), c.get('steps'), c.get('v'), c.get('inp'), c.get('stop'), c.get('lim'), d.get('op')]) if interesting(c) else None)
        why = conf.judge(c, r)
        if why:
            ctx.violation('%s\n%s %s\n%s' % (why, d['op'], json.dumps({k: v for k, v in d.items() if k not in ('id', 'm')}), brief(p)),
                          dict(kind='wire', prog=p['prog'], text=p['text'], imports=p.get('imports'), glue=p.get('glue'), case=c, run=d, observed=r, options=p.get('options', {}), modes=p.get('modes', [])))
        elif len(ctx.cov['samples']) < 3 and interesting(c):
            ctx.sample(dict(program=brief(p)[-600:], case={k: v for k, v in d.items() if k not in ('id', 'm')}, outcome={k: v for k, v in r.items() if k not in ('id',)}))
    return len(todo)

def interesting(c):
    if c['k'] in ('api', 'default'): return True
    return c['st'] == 'err' or (c['k'] == 'enc' and len(c['b']) > 0) or (c['k'] == 'dec' and c['n'] > 0)

# ------------------------------------------------------------------ variants of running a case
def sync(c): return conf.wire_case(c)
def sync_all(c):       # everything at once
    d = conf.wire_case(c)
    if c['k'] == 'enc': return None
    d['ch'] = [len(d['in']) // 2 or 1]; return d
def sync_ones(c):
    d = conf.wire_case(c)
    if c['k'] == 'enc': d['ch'] = [1]
    else: d['ch'] = [1]
    return d
def sync_odd(c):
    d = conf.wire_case(c); d['ch'] = [2, 1, 3, 5]; return d
def asyn(c): return conf.wire_case(c, 'a', 0)
def asyn_pend(c):
    d = conf.wire_case(c, 'a', 1); return d
def asyn_ones(c):
    d = conf.wire_case(c, 'a', 2); d['ch'] = [1]; return d

def wire(ctx, focus, variants=(sync,), options=None, modes=(), verdict=True, pick=None, tag='w', seeds=1, **kw):
    """behaviours of Wire for each focus -> programs, verdicts, builds, replayed cases"""
    fs = focus.split()
    w = max(2, 8 // len(fs))
    from concurrent.futures import ThreadPoolExecutor
    for s in range(seeds):
        if s and ctx.left() < 120: break
        with ThreadPoolExecutor(len(fs)) as ex:
            rs = list(ex.map(lambda f: conf.simulate(ctx.work, f, ctx.seed * 100 + s, workers=w, tag=tag, **dict(kw, **({'fam': 'fam'} if f == 'rec' else {}))), fs))
        progs = []
        for p, st in rs: progs += p; note_states(ctx, st)
        if verdict: verdicts(ctx, progs)
        good = build(ctx, progs, '%s%d' % (tag, s), options, modes)
        for p in good: p['options'] = options or {}; p['modes'] = list(modes)
        n = replay_cases(ctx, good, '%s%d' % (tag, s), variants, pick)
        ctx.note(programs=len(progs), programs_built=len(good), messages_replayed=n)
        ctx.note(**{'mix_' + k: v for k, v in mix(good).items()})

def mix(progs):
    out = {}
    for p in progs:
        for c in p['cases']:
            k = '%s_%s' % (c['k'], c['st']); out[k] = out.get(k, 0) + 1
    return out

# ------------------------------------------------------------------ replaying one record
def replay(ctx, rec):
    R = ctx.runner
    if rec['kind'] == 'verdict':
        r = R.check_units([rec])[0]
        return None if r['r'] == rec['st'] else 'specified %s, observed %s' % (rec['st'], r)
    if rec['kind'] in ('build', 'wire'):
        p = dict(prog=rec['prog'], text=rec['text'], imports=rec.get('imports'), sup=True)
        if rec.get('glue'): p['glue'] = rec['glue']
        R.build([p], 'r', options=rec['options'], modes=rec['modes'])
        if p['front']['r'] != 'ok': return 'does not compile: %s' % p['front']
        if p['bad']: return 'generated code does not build: %s' % p['bad']
        if rec['kind'] == 'build': return None
        r = R.run([p], [(p, rec['run'])], 'r')[0]
        return conf.judge(rec['case'], r)
    return front.replay(ctx, rec)

# ------------------------------------------------------------------ the properties
RULE = ('random behaviours of spec/Wire.tla (authored program, value, encode, transit, piecewise delivery, decode); each finished message is '
        'replayed into coders generated and compiled from the tree; counted as distinct and non-trivial by (program, type, arguments, value or '
        'bytes, fault, mode) when bytes were written or consumed or an error was specified')
def simple(focus, **kw):
    def f(ctx):
        q = dict(depth=4500, seeds=1, perprog=14); q.update({k: v for k, v in kw.items() if not k.startswith('t_')})
        if ctx.thorough: q.update(dict(seeds=12, depth=9000), **{k[2:]: v for k, v in kw.items() if k.startswith('t_')})
        wire(ctx, focus, **q)
        return 'exploration', RULE, TRUST
    return f

TEXTRULE = ('random behaviours of spec/Text.tla: declarations authored, written with random layout, possibly damaged, and read by the reference lexer and parser; '
            'counted as distinct by text when it has tokens or is refused by the lexer')
def text(*judges, **kw):
    def f(ctx):
        for i in range(8 if ctx.thorough else 1):
            if i and ctx.left() < 150: break
            front.read(ctx, judges, **dict(kw, seed=ctx.seed * 50 + i, depth=4000 if ctx.thorough else 2000))
        return 'exploration', TEXTRULE, TRUST[:1]
    return f

def api(ctx):
    """what users do with generated values (spec/Api.tla)"""
    for i in range(8 if ctx.thorough else 1):
        if i and ctx.left() < 150: break
        wire(ctx, 'api', modes=('api', 'default'), module='Api', invs=('Known', 'Sets', 'Whole1', 'Back'), depth=4000 if ctx.thorough else 1800, perprog=8, tag='api%d' % i)
    return 'exploration', APIRULE, TRUST
APIRULE = 'random behaviours of spec/Api.tla: a program is authored and each of its enums and bitfields is used in walks of 14 steps; all counted by program and walk; default values of every type'

CHECKS = {
 'C01': simple('all', faults=0, tamper=0),
 'C02': simple('all enum', faults=0, tamper=0, pick=lambda c: c['k'] == 'enc'),
 'C03': simple('all arr', faults=0, tamper=40, pick=lambda c: c['k'] == 'dec'),
 'C04': simple('all str', faults=5, tamper=90),
 'C05': simple('cond', wild=20),
 'C06': simple('arr', wild=20),
 'C07': simple('clen', wild=20),
 'C08': simple('calc', wild=20),
 'C09': simple('tag', wild=20),
 'C10': simple('enum', wild=20),
 'C11': simple('xf', wild=20),
 'C12': simple('args', wild=20),
 'C13': simple('var str', tamper=50),
 'C14': simple('all str', faults=85, tamper=20, variants=(sync, sync_all, sync_ones, sync_odd)),
 'C15': simple('all xf rec', variants=(sync, asyn, asyn_pend, asyn_ones), options={'async': True}, modes=('async',)),
 'F01': text(front.judge_read),
 'F02': text(front.judge_place, damage=30),
 'F03': simple('all args enum', split=100, wild=30),
 'G01': api,
 'E01': simple('expr', wild=10),
 'E02': simple('all expr', wild=100, perprog=1),
}
