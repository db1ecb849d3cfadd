"""The front end against spec/Syntax.tla: texts written (and damaged) by spec/Text.tla, read by the real lexer and parser."""
import json, os
from concurrent.futures import ThreadPoolExecutor
import ps, conf

# ------------------------------------------------------------------ the real declarations in the specification's shape
OPS = {'Lt': '<', 'Gt': '>', 'Lte': '<=', 'Gte': '>=', 'Eq': '==', 'Ne': '!=', 'Or': '||', 'And': '&&', 'BitOr': '|', 'BitAnd': '&', 'BitXor': '^',
       'Shr': '>>', 'Shl': '<<', 'ShrSigned': '>>>', 'Add': '+', 'Sub': '-', 'Mul': '*', 'Div': '/', 'Mod': '%', 'Elvis': '?:'}
UNS = {'Negate': '-', 'Not': '!', 'BitNot': '~'}
def nm(i): return i['name']
def opt(f, x): return [] if x is None else [f(x)]
def ex(e):
    (k, v), = e.items()
    if k == 'Int': return dict(k='int', txt=v['value'], suf=opt(lambda t: t.lower(), v['type_']))
    if k == 'Str': return dict(k='str', b=v['content'])
    if k == 'Bool': return dict(k='bool', v=v['value'])
    if k == 'Ref': return dict(k='id', n=nm(v))
    if k == 'EnumAccess': return dict(k='ev', e=nm(v['name']), v=nm(v['variant']))
    if k == 'Call': return dict(k='call', f=nm(v['function']), a=[ex(x) for x in v['arguments']])
    if k == 'Unary': return dict(k='un', op=UNS[v['op']], x=ex(v['inner']))
    if k == 'Cast': return dict(k='cast', x=ex(v['inner']), ty=ty(v['type_']))
    if k == 'ArrayIndex': return dict(k='idx', x=ex(v['array']), i=ex(v['index']))
    if k == 'Member': return dict(k='mem', x=ex(v['target']), m=nm(v['member']))
    if k == 'Ternary': return dict(k='tern', c=ex(v['condition']), t=ex(v['if_true']), f=ex(v['if_false']))
    if k == 'Binary': return dict(k='bin', op=OPS[v['op']], l=ex(v['left']), r=ex(v['right']))
    raise ValueError(k)
def sc(r): return dict(s=r['scalar'].lower(), e='le' if r['endian'] == 'Little' else 'be')
def ty(t):
    r = t['raw_type']
    if isinstance(r, str): return {'F32': dict(k='f', w=4), 'F64': dict(k='f', w=8), 'Bool': dict(k='bool')}[r]
    (k, v), = r.items()
    if k == 'Scalar': return dict(k='sc', **sc(v))
    if k == 'Ref': return dict(k='ref', name=nm(v['name']), args=[ex(x) for x in v['arguments']])
    if k == 'Array': return dict(k='arr', el=ty(v['interior_type']), exp=v['length']['expandable'], len=opt(ex, v['length']['inner']))
    if k == 'Enum':
        return dict(k='enum', **sc(v['rep']), items=[dict(name=nm(n), val=[ex(x['Expression'])] if isinstance(x, dict) else [], dflt=x == 'Default') for n, x in v['items']])
    if k == 'Bitfield': return dict(k='bits', **sc(v['rep']), items=[dict(name=nm(n), val=opt(ex, x), dflt=False) for n, x in v['items']])
    if k == 'Container':
        its = []
        for i in v['items']:
            (a, b), = i.items()
            its.append(dict(k='pad', len=ex(b)) if a == 'Pad' else dict(k='f', name=nm(b[0]), f=fd(b[1])))
        return dict(k='cont', len=opt(ex, v['length']), flags=[nm(x) for x in v['flags']], items=its)
    raise ValueError(k)
def fd(f):
    return dict(ty=ty(f['type_']), calc=opt(ex, f['calculated']), flags=[nm(x) for x in f['flags']], cond=opt(ex, f['condition']),
                xf=[dict(name=nm(x['name']), args=[ex(a) for a in x['arguments']], cond=opt(ex, x['conditional'])) for x in f['transforms']])
def decl(d):
    (k, v), = d.items()
    if k == 'Type': return dict(k='type', name=nm(v['name']), args=[dict(name=nm(a['name']), ty=ty(a['type_']), **{'def': opt(ex, a['default_value'])}) for a in v['arguments']], f=fd(v['value']))
    if k == 'Const': return dict(k='const', name=nm(v['name']), ty=ty(v['type_']), val=ex(v['value']))
    if k == 'Ffi': return dict(k='ffi', name=nm(v['name']), kind=v['ffi_type'].lower())
    if k == 'Import': return dict(k='import', items=[{'name': nm(i['name']), 'as': opt(nm, i['alias'])} for i in v['items']], **{'from': v['from']['content']})
    raise ValueError(k)
def leaves(x):
    """every name, string and number of the real tree with its place"""
    if isinstance(x, dict):
        s = x.get('span')
        if s is not None:
            if 'name' in x and isinstance(x['name'], str): yield 'id', x['name'], s
            elif 'content' in x: yield 'str', x['content'], s
            elif 'value' in x and isinstance(x['value'], str): yield 'int', x['value'], s
        for v in x.values(): yield from leaves(v)
    elif isinstance(x, list):
        for v in x: yield from leaves(v)

# ------------------------------------------------------------------ cases
def texts(ctx, seed, workers=8, depth=1700, secs=240, damage=40, tag='text'):
    def one(i):
        out = os.path.join(ctx.work, '%s_%d.ndjson' % (tag, i))
        if os.path.exists(out): os.remove(out)
        r = conf.tlc('Text', dict(Out=out, Damage=damage), ctx.work, '%s_%d' % (tag, i), invs=('ReadBack', 'Placed'), timeout=secs,
                     args=['-simulate', 'num=1', '-depth', str(depth), '-seed', str(seed * 1000 + i)])
        cs = list(conf.ndjson(out)); os.remove(out)
        return cs, r['states']
    with ThreadPoolExecutor(workers) as p: rs = list(p.map(one, range(workers)))
    return [c for r in rs for c in r[0]], sum(r[1] for r in rs)

def tx(c): return bytes(c['txt']).decode('utf8')

def judge_read(c, l, p):
    """lexing and parsing of one text against the specification"""
    if l['r'] in ('panic', 'abort', 'hang') or p['r'] in ('panic', 'abort', 'hang'): return 'does not survive the text: %s %s' % (l, p)
    if (l['r'] == 'ok') != c['lex']: return 'tokens: specified %s, observed %s' % (c['lex'], l['r'])
    if c['lex']:
        a = [(t['t'], t['b'] if t['t'] == 'str' else t['x']) for t in c['toks']]
        b = [(t['t'], t['b'] if t['t'] == 'str' else t['x']) for t in l['tokens']]
        if a != b:
            d = next((i for i in range(max(len(a), len(b))) if i >= len(a) or i >= len(b) or a[i] != b[i]))
            return 'token %d: specified %s, observed %s' % (d, a[d:d + 1], b[d:d + 1])
    if (p['r'] == 'ok') != c['ok']: return 'specified to be %s, is %s %s' % ('a program' if c['ok'] else 'no program', p['r'], p.get('e', ''))
    if c['ok']:
        a, b = c['ast'], [decl(d) for d in p['ast']]
        if a != b: return 'declarations: specified %s, observed %s' % (json.dumps(a)[:800], json.dumps(b)[:800])
    return None

def end(t):
    """line and column after a token"""
    s = bytes(t['_src'])
    k = s.count(b'\n')
    return (t['l'] + k, t['c'] + t['n'] if not k else len(s) - s.rfind(b'\n'))

def judge_place(c, l, p):
    if not c['lex'] or l['r'] != 'ok' or len(l['tokens']) != len(c['toks']): return None    # what the text reads as is another property
    src, lines = bytes(c['txt']), bytes(c['txt']).split(b'\n')
    starts = [0]
    for x in lines: starts.append(starts[-1] + len(x) + 1)
    for s, o in zip(c['toks'], l['tokens']):
        off = starts[s['l'] - 1] + s['c'] - 1
        s['_src'] = src[off:off + s['n']]
        want = [s['l'], s['c'], *end(s)]
        if o['at'] != want: return 'token %r: specified place %s, observed %s' % (s['_src'].decode('utf8'), want, o['at'])
    if p['r'] == 'ok' and c['ok']:
        by = {(t['l'], t['c']): t for t in c['toks']}
        for k, v, s in leaves(p['ast']):
            t = by.get((s['line_start'], s['col_start']))
            if t is None or t['t'] != k or (t['b'] if k == 'str' else t['x']) != v or (s['line_stop'], s['col_stop']) != end(t):
                return '%s %r is placed at %s' % (k, v, s)
    if p['r'] == 'err' and not c['ok']:
        e = p['e']
        past = c['at'] > len(c['toks'])
        if e['k'] == 'eof' and not past: return 'specified to fail at token %d, observed the end of the text' % c['at']
        if e['k'] == 'tok':
            t = None if past else c['toks'][c['at'] - 1]
            if t is None or e['at'] != [t['l'], t['c']]: return 'specified to fail at %s, observed %s' % (t and [t['l'], t['c']], e)
    return None

def read(ctx, judges, seed, **kw):
    cs, states = texts(ctx, seed, **kw)
    T = [tx(c) for c in cs]
    ls = ctx.runner.check(T, op='lex'); rs = ctx.runner.check(T, op='parse')
    for c, t, l, p in zip(cs, T, ls, rs):
        ctx.count(t if c['toks'] or not c['lex'] else None)
        for j in judges:
            why = j(c, l, p)
            if why:
                c = {k: v for k, v in c.items()}
                for k in c['toks']: k.pop('_src', None)
                ctx.violation('%s\n%s' % (why, t[:600]), dict(kind='read', judge=j.__name__, case=c)); break
        if len(ctx.cov['samples']) < 3 and c['toks'] and 20 < len(t) < 200: ctx.sample(dict(text=t, tokens=len(c['toks']), program=c['ok']))
    ctx.cov['states'] += states; ctx.cov['transitions'] += states; ctx.cov['traces'] += len(cs)
    ctx.note(texts=len(cs), programs=sum(c['ok'] for c in cs), damaged=sum(c['hurt'] > 0 for c in cs), tokens=sum(len(c['toks']) for c in cs),
             not_tokens=sum(not c['lex'] for c in cs), damaged_yet_programs=sum(c['hurt'] > 0 and c['ok'] for c in cs))

def replay(ctx, rec):
    if rec['kind'] == 'read':
        t = tx(rec['case'])
        return globals()[rec['judge']](rec['case'], ctx.runner.check([t], op='lex')[0], ctx.runner.check([t], op='parse')[0])
    raise ValueError(rec['kind'])
