"""Development tool: protospec text -> the AST (JSON) used by the TLA+ specification.

Only used to author /verif/spec/corpus (hand-written programs, the repository's own examples);
no check's verdict depends on it: a wrong AST shows up as a conformance mismatch.
AST format: see spec/README.md."""
import re, sys, json

OPS = ['>>>', '->', '==', '!=', '<=', '>=', '<<', '>>', '&&', '||', '?:', ':>', '::', '..',
       '{', '}', '(', ')', '[', ']', ';', ',', ':', '=', '+', '-', '*', '/', '%', '<', '>', '&', '|', '^', '!', '~', '?', '.']
SCAL = ['%s%d' % (a, b) for a in 'ui' for b in (8, 16, 32, 64, 128)]
SCALE = SCAL + [s + 'le' for s in SCAL if not s.endswith('8') or s.endswith('128')]
SCALE = [s for s in SCALE if s not in ('u8le', 'i8le')]

def lex(t):
    o, i = [], 0
    while i < len(t):
        c = t[i]
        if c.isspace(): i += 1; continue
        if t.startswith('//', i):
            j = t.find('\n', i); i = len(t) if j < 0 else j; continue
        if t.startswith('/*', i):
            j = t.find('*/', i); i = len(t) if j < 0 else j + 2; continue
        if c == '"':
            j = i + 1; b = []
            while t[j] != '"':
                if t[j] == '\\':
                    m = re.match(r'[0-9a-fA-F]{2}', t[j + 1:])
                    if m: b.append(int(m.group(0), 16)); j += 3
                    else: b += t[j + 1].encode(); j += 2
                else: b += t[j].encode(); j += 1
            o.append(('s', b)); i = j + 1; continue
        m = re.match(r'0x[0-9a-fA-F]+|[0-9]+', t[i:])
        if m: o.append(('i', int(m.group(0), 0))); i += m.end(); continue
        m = re.match(r'[A-Za-z_][A-Za-z0-9_]*', t[i:])
        if m: o.append(('n', m.group(0))); i += m.end(); continue
        for p in OPS:
            if t.startswith(p, i): o.append(('o', p)); i += len(p); break
        else: raise SyntaxError(t[i:i + 20])
    return o

def be(v):
    return list(v.to_bytes(max(1, (v.bit_length() + 7) // 8), 'big'))

class P:
    def __init__(s, t): s.t = lex(t); s.i = 0
    def pk(s, k=0): return s.t[s.i + k] if s.i + k < len(s.t) else ('e', '')
    def at(s, x): return s.pk() == ('o', x)
    def kw(s, x): return s.pk() == ('n', x)
    def eat(s, x):
        if s.pk() in (('o', x), ('n', x)): s.i += 1; return True
        return False
    def ex(s, x):
        if not s.eat(x): raise SyntaxError('expected %s got %r at %d' % (x, s.t[s.i:s.i + 6], s.i))
    def nm(s):
        k, v = s.pk()
        if k != 'n': raise SyntaxError('ident expected, got %r' % (s.t[s.i:s.i + 6],))
        s.i += 1; return v
    def prog(s):
        d = []
        while s.i < len(s.t):
            d.append(s.decl()); s.ex(';')
        return d
    def decl(s):
        if s.eat('type'):
            n = s.nm(); a = []
            if s.eat('('):
                while not s.eat(')'):
                    an = s.nm(); s.ex(':'); ty = s.typ(); df = []
                    if s.eat('?'): df = [s.expr()]
                    a.append(dict(name=an, ty=ty, **{'def': df}))
                    if not s.eat(','): s.ex(')'); break
            s.ex('='); return dict(k='type', name=n, args=a, f=s.field())
        if s.eat('const'):
            n = s.nm(); s.ex(':'); ty = s.typ(); s.ex('='); return dict(k='const', name=n, ty=ty, val=s.expr())
        if s.eat('import_ffi'):
            n = s.nm(); s.ex('as'); return dict(k='ffi', name=n, kind=s.nm())
        if s.eat('import'):
            it = []
            while True:
                n = s.nm(); a = []
                if s.eat('as'): a = [s.nm()]
                it.append({'name': n, 'as': a})
                if not s.eat(','): break
            s.ex('from'); k, v = s.pk(); s.i += 1
            return {'k': 'import', 'items': it, 'from': bytes(v).decode()}
        raise SyntaxError(str(s.pk()))
    def field(s):
        f = dict(ty=s.typ(), calc=[], cond=[], xf=[], flags=[])
        if s.eat('='): f['calc'] = [s.expr()]
        while s.eat('+'): f['flags'].append(s.nm())
        if s.eat('{'): f['cond'] = [s.expr()]; s.ex('}')
        while s.eat('->'):
            x = dict(name=s.nm(), args=[], cond=[])
            if s.eat('('):
                while not s.eat(')'):
                    x['args'].append(s.expr())
                    if not s.eat(','): s.ex(')'); break
            if s.eat('{'): x['cond'] = [s.expr()]; s.ex('}')
            f['xf'].append(x)
        return f
    def scal(s):
        k, v = s.pk()
        if k == 'n' and v in SCALE:
            s.i += 1
            return (v[:-2], 'le') if v.endswith('le') else (v, 'be')
    def typ(s):
        sc = s.scal()
        if sc: t = dict(k='sc', s=sc[0], e=sc[1])
        elif s.eat('f32'): t = dict(k='f', w=4)
        elif s.eat('f64'): t = dict(k='f', w=8)
        elif s.eat('bool'): t = dict(k='bool')
        elif s.eat('container'):
            t = dict(k='cont', len=[], tagged=False, items=[])
            if s.eat('['): t['len'] = [s.expr()]; s.ex(']')
            while s.eat('+'): assert s.nm() == 'tagged_enum'; t['tagged'] = True
            s.ex('{')
            while not s.at('}'):
                if s.eat('.'):
                    assert s.nm() == 'pad'; s.ex(':'); t['items'].append(dict(k='pad', len=s.expr()))
                else:
                    n = s.nm(); s.ex(':'); t['items'].append(dict(k='f', name=n, f=s.field()))
                if not s.eat(','): break
            s.ex('}')
        elif s.kw('enum') or s.kw('bitfield'):
            k = s.nm(); sc = s.scal(); s.ex('{'); items = []
            while not s.at('}'):
                it = dict(name=s.nm(), val=[], dflt=False)
                if s.eat('='):
                    if s.eat('default'): it['dflt'] = True
                    else: it['val'] = [s.expr()]
                items.append(it)
                if not s.eat(','): break
            s.ex('}')
            t = dict(k='enum' if k == 'enum' else 'bits', s=sc[0], e=sc[1], items=items)
        else:
            n = s.nm(); a = []
            if s.eat('('):
                while not s.eat(')'):
                    a.append(s.expr())
                    if not s.eat(','): s.ex(')'); break
            t = dict(k='ref', name=n, args=a)
        while s.eat('['):
            ex = s.eat('..'); v = [] if s.at(']') else [s.expr()]
            s.ex(']'); t = dict(k='arr', el=t, exp=ex, len=v)
        return t
    LV = [['||'], ['&&'], ['|'], ['^'], ['&'], ['==', '!='], ['<', '<=', '>', '>='], ['<<', '>>', '>>>'], ['+', '-'], ['*', '/', '%']]
    def expr(s):
        c = s.lv(0)
        if s.eat('?'):
            t = s.expr(); s.ex(':'); return dict(k='tern', c=c, t=t, f=s.lv(0))
        return c
    def lv(s, n):
        if n == len(s.LV): return s.cast()
        l = s.lv(n + 1)
        while s.pk()[0] == 'o' and s.pk()[1] in s.LV[n]:
            op = s.pk()[1]; s.i += 1
            l = dict(k='bin', op=op, l=l, r=s.lv(n + 1))
        return l
    def cast(s):
        x = s.un()
        while True:
            if s.eat(':>'): x = dict(k='cast', x=x, ty=s.typ())
            elif s.eat('?:'): x = dict(k='bin', op='?:', l=x, r=s.un())
            else: return x
    def un(s):
        for o in '!-~':
            if s.eat(o): return dict(k='un', op=o, x=s.un())
        x = s.prim()
        while True:
            if s.eat('['): x = dict(k='idx', x=x, i=s.expr()); s.ex(']')
            elif s.at('.') : s.i += 1; x = dict(k='mem', x=x, m=s.nm())
            else: return x
    def prim(s):
        k, v = s.pk()
        if k == 'i':
            s.i += 1; sc = s.scal(); return dict(k='int', b=be(v), suf=[sc[0]] if sc else [])
        if k == 's': s.i += 1; return dict(k='str', b=v)
        if s.eat('('):
            e = s.expr(); s.ex(')'); return e
        if s.eat('true'): return dict(k='bool', v=True)
        if s.eat('false'): return dict(k='bool', v=False)
        n = s.nm()
        if s.eat('::'): return dict(k='ev', e=n, v=s.nm())
        if s.eat('('):
            a = []
            while not s.eat(')'):
                a.append(s.expr())
                if not s.eat(','): s.ex(')'); break
            return dict(k='call', f=n, a=a)
        return dict(k='id', n=n)

def parse(t): return P(t).prog()
if __name__ == '__main__': print(json.dumps(parse(sys.stdin.read())))
