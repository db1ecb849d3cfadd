"""Plumbing between the TLA+ specification and the code under test:
rendering of specification-level ASTs to protospec text, generation of the Rust glue that gives the
generated types a generic value representation, building (forge, runtime stubs, batches) and running."""
import json, os, re, subprocess, hashlib, threading, shutil, sys, resource, signal, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.environ.get('VERIF_CACHE', os.path.join(VERIF, '.cache'))
ENV = dict(os.environ)

def load_env():
    """toolchain pinned by /opt/vp/env.sh (RUSTUP_TOOLCHAIN etc.)"""
    try:
        out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'], stdout=subprocess.PIPE).stdout
        for kv in out.split(b'\0'):
            k, _, v = kv.partition(b'=')
            if k: ENV[k.decode()] = v.decode('utf8', 'replace')
    except Exception:
        pass
    ENV['CARGO_NET_OFFLINE'] = 'true'
    ENV.pop('RUSTFLAGS', None)
load_env()

# ------------------------------------------------------------------ rendering
def lit(b):
    v = int.from_bytes(bytes(b), 'big')
    return ('%d', '%d', '0x%x', '0x%X', '0x0%x', '00%d')[(v * 2654435761 >> 7) % 6] % v

def rs(b):
    o = '"'
    for c in b:
        ch = chr(c)
        if ch in '"\\': o += '\\' + ch
        elif 32 <= c < 127: o += ch
        else: o += '\\%02x' % c
    return o + '"'

# binding strength, as in SPEC.md's grammar: ternary 0 < || < && < | < ^ < & < equality < relation < shift < sum < product < cast/elvis < prefix < index/member
PREC = {'||': 1, '&&': 2, '|': 3, '^': 4, '&': 5, '==': 6, '!=': 6, '<': 7, '>': 7, '<=': 7, '>=': 7, '<<': 8, '>>': 8, '>>>': 8,
        '+': 9, '-': 9, '*': 10, '/': 10, '%': 10, '?:': 11}

def prec(e):
    k = e['k']
    return {'bin': 0, 'tern': 0, 'cast': 11, 'un': 12}.get(k, 13) if k != 'bin' else PREC[e['op']]

def rx(e, top=False, need=13):
    """parentheses where the grammar needs them, and here and there where it does not"""
    k = e['k']
    if top: need = 0
    if k == 'int': return lit(e['b']) + ''.join(' ' + s for s in e['suf'])
    if k == 'str': return rs(e['b'])
    if k == 'bool': return 'true' if e['v'] else 'false'
    if k == 'id': return e['n']
    if k == 'ev': return e['e'] + '::' + e['v']
    if k == 'call': return e['f'] + '(' + ', '.join(rx(a, True) for a in e['a']) + ')'
    if k == 'idx': return rx(e['x']) + '[' + rx(e['i'], True) + ']'
    if k == 'mem': return rx(e['x']) + '.' + e['m']
    p = prec(e)
    if k == 'bin': r = rx(e['l'], need=p) + ' ' + e['op'] + ' ' + rx(e['r'], need=p + 1)
    elif k == 'un': r = e['op'] + rx(e['x'], need=12)
    elif k == 'cast': r = rx(e['x'], need=11) + ' :> ' + rt(e['ty'])
    elif k == 'tern': r = rx(e['c'], need=1) + ' ? ' + rx(e['t'], need=0) + ' : ' + rx(e['f'], need=1)
    else: raise ValueError(k)
    if p < need or (not top and sum(map(ord, r)) % 7 == 0): return '(' + r + ')'
    return r

def rargs(a): return '(' + ', '.join(rx(x, True) for x in a) + ')'

def rt(t):
    k = t['k']
    if k == 'sc': return t['s'] + (t['e'] if t['e'] == 'le' else '')
    if k == 'f': return 'f%d' % (t['w'] * 8)
    if k == 'bool': return 'bool'
    if k == 'arr': return rt(t['el']) + '[' + ('..' if t['exp'] else '') + ''.join(rx(x, True) for x in t['len']) + ']'
    if k == 'ref': return t['name'] + (rargs(t['args']) if t['args'] else '')
    if k in ('enum', 'bits'):
        its = []
        for it in t['items']:
            its.append(it['name'] + (' = default' if it['dflt'] else ''.join(' = ' + rx(x, True) for x in it['val'])))
        return ('enum ' if k == 'enum' else 'bitfield ') + t['s'] + (t['e'] if t['e'] == 'le' else '') + ' { ' + ', '.join(its) + ' }'
    if k == 'cont':
        its = ['.pad: ' + rx(i['len'], True) if i['k'] == 'pad' else i['name'] + ': ' + rf(i['f']) for i in t['items']]
        return 'container ' + ''.join('[' + rx(x, True) + '] ' for x in t['len']) + ('+tagged_enum ' if t['tagged'] else '') + '{ ' + ''.join(i + ', ' for i in its) + '}'
    raise ValueError(k)

def rf(f):
    s = rt(f['ty'])
    for c in f['calc']: s += ' = ' + rx(c, True)
    for g in f.get('flags', []): s += ' +' + g
    for c in f['cond']: s += ' {' + rx(c, True) + '}'
    for x in f['xf']:
        s += ' -> ' + x['name'] + (rargs(x['args']) if x['args'] else '')
        for c in x['cond']: s += ' {' + rx(c, True) + '}'
    return s

def rd(d):
    k = d['k']
    if k == 'type':
        a = ''
        if d['args']:
            a = '(' + ', '.join(x['name'] + ': ' + rt(x['ty']) + ''.join(' ? ' + rx(e, True) for e in x['def']) for x in d['args']) + ')'
        return 'type %s%s = %s;' % (d['name'], a, rf(d['f']))
    if k == 'const': return 'const %s: %s = %s;' % (d['name'], rt(d['ty']), rx(d['val'], True))
    if k == 'ffi': return 'import_ffi %s as %s;' % (d['name'], d['kind'])
    if k == 'import':
        return 'import %s from "%s";' % (', '.join(i['name'] + ''.join(' as ' + a for a in i['as']) for i in d['items']), d['from'])
    raise ValueError(k)

def render(prog): return '\n'.join(rd(d) for d in prog) + '\n'

# ------------------------------------------------------------------ glue
FFI_RT = {'blob': 'Vec<u8>', 'odd8': 'u8', 'utf8': 'String', 'utf16': 'String',
          'v8': 'i8', 'v16': 'i16', 'v32': 'i32', 'v64': 'i64', 'v128': 'i128'}

def snake(n):
    """names of the generated bitfield items: words of a flag's name in snake case"""
    return re.sub(r'(?<=[a-z0-9])(?=[A-Z])', '_', n).lower()

class Glue:
    """impl vrt::V for every generated type of a program + fn run(ty, case)"""
    def __init__(self, prog):
        self.types = [d for d in prog if d['k'] == 'type']
        self.by = {d['name']: d for d in self.types}

    def fields(self, t, out):
        for it in t['items']:
            if it['k'] == 'pad': continue
            if it['f']['ty']['k'] == 'cont': self.fields(it['f']['ty'], out)
            else: out.append(it['name'])
        return out

    def struct(self, name, t, pat, path):
        fs = self.fields(t, [])
        fj = ', '.join('%s: vrt::V::fj(j.get("%s"))' % (f, f) for f in fs)
        tj = ', '.join('("%s".to_string(), vrt::V::tj(%s%s))' % (f, pat, f) for f in fs)
        return fs, '%s { %s }' % (path, fj), 'vrt::J::Obj(vec![%s])' % tj

    def impl(self, d):
        n, t = d['name'], d['f']['ty']
        if t['k'] == 'cont' and not t['tagged']:
            fs, fj, tj = self.struct(n, t, '&self.', n)
        elif t['k'] == 'cont':
            a, b = [], []
            for it in t['items']:
                v = it['name']
                if it['f']['ty']['k'] == 'cont':
                    fs, f1, t1 = self.struct(n, it['f']['ty'], '', n + '::' + v)
                    a.append('"%s" => { let j = j.get("v"); %s }' % (v, f1))
                    b.append('%s::%s { %s } => ("%s", %s)' % (n, v, ', '.join(fs), v, t1))
                else:
                    a.append('"%s" => %s::%s(vrt::V::fj(j.get("v")))' % (v, n, v))
                    b.append('%s::%s(x) => ("%s", vrt::V::tj(x))' % (n, v, v))
            fj = 'match j.get("t").str() { %s, _ => panic!("variant") }' % ', '.join(a)
            tj = '{ let (t, v) = match self { %s }; vrt::J::Obj(vec![("t".to_string(), vrt::J::Str(t.to_string())), ("v".to_string(), v)]) }' % ', '.join(b)
        elif t['k'] == 'enum':
            w = int(t['s'][1:]) // 8
            a, b = [], []
            for it in t['items']:
                v = it['name']
                if it['dflt']:
                    a.append('s if s.starts_with("%s:") => %s::%s(vrt::V::fj(&vrt::J::Str(s["%s:".len()..].to_string())))' % (v, n, v, v))
                    b.append('%s::%s(x) => format!("%s:{}", vrt::V::tj(x).str())' % (n, v, v))
                else:
                    a.append('"%s" => %s::%s' % (v, n, v)); b.append('%s::%s => "%s".to_string()' % (n, v, v))
            fj = 'match j.str() { %s, _ => panic!("variant") }' % ', '.join(a)
            tj = 'vrt::J::Str(match self { %s })' % ', '.join(b)
        elif t['k'] == 'bits':
            fj, tj = '%s(vrt::V::fj(j))' % n, 'vrt::V::tj(&self.0)'
        else:
            fj, tj = '%s(vrt::V::fj(j))' % n, 'vrt::V::tj(&self.0)'
        return 'impl vrt::V for %s { fn fj(j: &vrt::J) -> Self { %s } fn tj(&self) -> vrt::J { %s } }' % (n, fj, tj)

    def arg_ty(self, t):
        if t['k'] == 'sc': return t['s']
        if t['k'] == 'f': return 'f%d' % (t['w'] * 8)
        if t['k'] == 'bool': return 'bool'
        if t['k'] == 'ref': return FFI_RT.get(t['name'], t['name'])
        raise ValueError(t)

    def api(self, d):
        """interpreter of the steps of spec/Api.tla on a generated enum or bitfield"""
        n, t = d['name'], d['f']['ty']
        ns = [it['name'] for it in t['items']]
        if t['k'] == 'bits':
            acts = ['"zero" => v = %s::ZERO' % n, '"all" => v = %s::ALL' % n, '"default" => v = Default::default()', '"raw" => v = %s(b)' % n,
                    '"flag" => v = match f { %s, _ => panic!("flag") }' % ', '.join('"%s" => %s::%s' % (x, n, snake(x).upper()) for x in ns),
                    '"set" => match f { %s, _ => panic!("flag") }' % ', '.join('"%s" => v.set_%s()' % (x, snake(x)) for x in ns),
                    '"or" => v = v | %s(b)' % n, '"and" => v = v & %s(b)' % n, '"xor" => v = v ^ %s(b)' % n,
                    '"ora" => v |= %s(b)' % n, '"anda" => v &= %s(b)' % n, '"xora" => v ^= %s(b)' % n, '"not" => v = !v']
            has = ', '.join('vrt::J::Bool(v.%s())' % snake(x) for x in ns)
            num = 'v.0'
        else:
            acts = ['"default" => v = Default::default()', '"variant" => v = vrt::V::fj(s.get("x"))']
            has, num = '', 'v.to_repr()'
        acts.append('"repr" => match %s::from_repr(b) { Ok(x) => v = x, Err(_) => st = "err" }' % n)
        return ('("%s","api") => { let mut v: %s = Default::default(); let mut o = vec![]; for s in c.get("steps").arr() { let was = v; let f = s.get("f").str(); '
                'let b: %s = vrt::V::fj(s.get("b")); let mut st = "ok"; match s.get("op").str() { %s, _ => panic!("op") } '
                'o.push(vrt::J::Obj(vec![("st".to_string(), vrt::J::Str(st.to_string())), ("v".to_string(), vrt::V::tj(&v)), ("num".to_string(), vrt::V::tj(&%s)), '
                '("be".to_string(), vrt::J::hex(&v.to_be_bytes()[..])), ("le".to_string(), vrt::J::hex(&v.to_le_bytes()[..])), '
                '("same".to_string(), vrt::J::Bool(v == was)), ("has".to_string(), vrt::J::Arr(vec![%s]))])); } vrt::ok_dec(vrt::J::Arr(o), 0) }' % (n, n, t['s'], ', '.join(acts), num, has))

    def run(self, modes):
        arms = []
        for d in self.types:
            al = ''
            for i, a in enumerate(d['args']):
                ty = self.arg_ty(a['ty'])
                al += ', ' + ('<Option<%s> as vrt::V>::fj(c.get("args").at(%d))' if a['def'] else '<%s as vrt::V>::fj(c.get("args").at(%d))') % (ty, i)
            n = d['name']
            arms.append('("%s","dec") => { let mut s = vrt::Src::new(c); match %s::decode_sync(&mut s%s) { Ok(v) => vrt::ok_dec(vrt::V::tj(&v), s.pos), Err(e) => vrt::err_dec(e.to_string(), s.pos) } }' % (n, n, al))
            arms.append('("%s","enc") => { let v: %s = vrt::V::fj(c.get("v")); let mut s = vrt::Dst::new(c); let r = v.encode_sync(&mut s%s); vrt::enc_res(r.map_err(|e| e.to_string()), s.out) }' % (n, n, al))
            if 'async' in modes:
                arms.append('("%s","adec") => { let mut s = vrt::a::ASrc::new(c); match vrt::a::block_on(%s::decode_async(&mut s%s)) { Ok(v) => vrt::ok_dec(vrt::V::tj(&v), s.s.pos), Err(e) => vrt::err_dec(e.to_string(), s.s.pos) } }' % (n, n, al))
                arms.append('("%s","aenc") => { let v: %s = vrt::V::fj(c.get("v")); let mut s = vrt::a::ADst::new(c); let r = vrt::a::block_on(v.encode_async(&mut s%s)); vrt::enc_res(r.map_err(|e| e.to_string()), s.d.out) }' % (n, n, al))
            if 'default' in modes:
                arms.append('("%s","default") => { let v: %s = Default::default(); vrt::ok_dec(vrt::V::tj(&v), 0) }' % (n, n))
            if 'api' in modes and d['f']['ty']['k'] in ('enum', 'bits'): arms.append(self.api(d))
        return 'pub fn run(t: &str, c: &vrt::J) -> vrt::J { match (t, c.get("op").str()) { %s, _ => panic!("noop {}", t) } }' % ', '.join(arms) if arms else 'pub fn run(_: &str, _: &vrt::J) -> vrt::J { panic!() }'

    def module(self, name, rust, modes=()):
        return 'pub mod %s {\n#![allow(warnings)]\n%s\n%s\n%s\n}\n' % (name, rust, '\n'.join(self.impl(d) for d in self.types if not d.get('alias')), self.run(modes))

# ------------------------------------------------------------------ building
def sh(cmd, **kw):
    return subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)

def sources_hash(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        for r, ds, fs in sorted(os.walk(d)):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git'))
            for f in sorted(fs):
                p = os.path.join(r, f)
                h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]

class ToolFailure(Exception): pass

def build_forge():
    """the code under test, from REPO's working tree"""
    td = os.path.join(CACHE, 'forge')
    src = os.path.join(VERIF, 'harness', 'forge')
    if REPO != '/repo':
        # development only: same harness against another checkout
        alt = os.path.join(CACHE, 'forge_src'); shutil.rmtree(alt, ignore_errors=True); shutil.copytree(src, alt)
        p = os.path.join(alt, 'Cargo.toml'); s = open(p).read().replace('/repo/', REPO + '/'); open(p, 'w').write(s)
        src = alt
    e = dict(ENV, CARGO_TARGET_DIR=td)
    r = subprocess.run(['cargo', 'build', '--offline', '--quiet'], cwd=src, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode:
        raise ToolFailure('forge does not build:\n' + r.stderr.decode()[-4000:])
    return os.path.join(td, 'debug', 'forge')

STUBS = [('anyhow', 'anyhow.rs', [], '2018'), ('tokio', 'tokio.rs', [], '2018'), ('base64', 'base64.rs', [], '2018'),
         ('flate2', 'flate2.rs', [], '2018'), ('async_compression', 'async_compression.rs', ['tokio', 'flate2'], '2018'),
         ('async_recursion', 'async_recursion.rs', [], '2018'), ('vrt', 'vrt.rs', ['tokio'], '2018')]

def build_rt(need=None):
    d = os.path.join(VERIF, 'harness', 'rt')
    key = sources_hash(d)
    out = os.path.join(CACHE, 'rt-' + key)
    done = os.path.join(out, '.done')
    if os.path.exists(done): return out
    os.makedirs(out, exist_ok=True)
    for name, f, deps, ed in STUBS:
        p = os.path.join(d, f)
        if not os.path.exists(p): continue
        ct = 'proc-macro' if name == 'async_recursion' else 'rlib'
        cmd = ['rustc', '--edition', ed, '--crate-type', ct, '--crate-name', name, '-L', out, '--cap-lints', 'allow', '-Copt-level=1', '--out-dir', out, p]
        for x in deps: cmd += ['--extern', '%s=%s/lib%s.rlib' % (x, out, x)]
        r = sh(cmd)
        if r.returncode: raise ToolFailure('stub %s: %s' % (name, r.stderr.decode()[-3000:]))
    open(done, 'w').write('ok')
    return out

def forge(jobs, binary, workers=8, extra=()):
    """run forge jobs (dicts); returns results in order"""
    for i, j in enumerate(jobs): j['id'] = i
    n = max(1, min(workers, (len(jobs) + 19) // 20))
    parts = [jobs[i::n] for i in range(n)]
    res = [None] * len(jobs)
    def one(p):
        todo = list(p)
        while todo:
            inp = ''.join(json.dumps(j) + '\n' for j in todo).encode()
            pr = subprocess.Popen([binary, '--flush'] + list(extra), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV,
                                  preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30)))
            try:
                out, _ = pr.communicate(inp, timeout=120 + len(todo))
                dead = 'abort rc=%s' % pr.returncode
            except subprocess.TimeoutExpired:
                pr.kill(); out, _ = pr.communicate(); dead = 'hang'
            k = 0
            for line in out.decode('utf8', 'replace').splitlines():
                try: r = json.loads(line)
                except ValueError: break
                res[r['id']] = r; k += 1
            if k < len(todo):
                res[todo[k]['id']] = {'r': dead.split()[0], 'm': dead, 'id': todo[k]['id']}
                todo = todo[k + 1:]
            else: todo = []
    with ThreadPoolExecutor(n) as ex: list(ex.map(one, parts))
    return res

def rustc_batch(mods, rt, work, tag, extra_flags=()):
    """mods: [(name, source)] -> (binary, {}) ; on failure bisects: returns bad {name: error}"""
    bad = {}
    def attempt(ms, t):
        src = '#![allow(warnings)]\n' + ''.join(s for _, s in ms)
        src += 'fn main() { vrt::main_loop(&[%s]); }\n' % ', '.join('("%s", %s::run as vrt::Runner)' % (n, n) for n, _ in ms)
        f = os.path.join(work, t + '.rs'); open(f, 'w').write(src)
        b = os.path.join(work, t)
        cmd = ['rustc', '--edition', '2021', '--crate-name', 'batch', '-L', rt, '-Cdebuginfo=0', '-Copt-level=0', '-Ccodegen-units=4', '-Cdebug-assertions=on', '--cap-lints', 'allow', '-o', b, f]
        for x in os.listdir(rt):
            m = re.match(r'lib(\w+)\.(rlib|so)$', x)
            if m: cmd += ['--extern', '%s=%s/%s' % (m.group(1), rt, x)]
        cmd += list(extra_flags)
        r = sh(cmd)
        return (b if r.returncode == 0 else None), r.stderr.decode('utf8', 'replace')
    def blame(err, ms, t):
        """modules named by rustc's error spans"""
        lines = {}
        ln = 2
        spans = []
        for n, s in ms:
            c = s.count('\n'); spans.append((ln, ln + c - 1, n)); ln += c
        hit = {}
        for m in re.finditer(r'^error.*?(?=^error|\Z)', err, re.S | re.M):
            blk = m.group(0)
            q = re.search(r'--> [^\n]*?' + re.escape(t) + r'\.rs:(\d+):', blk)
            if q:
                l = int(q.group(1))
                for a, b2, n in spans:
                    if a <= l <= b2: hit.setdefault(n, blk[:1200])
        return hit
    ms = list(mods); k = 0
    while ms:
        b, err = attempt(ms, '%s_%d' % (tag, k)); k += 1
        if b: return b, bad
        hit = blame(err, ms, '%s_%d' % (tag, k - 1))
        if not hit:
            if len(ms) == 1: bad[ms[0][0]] = err[:1500]; return None, bad
            # no usable span: split
            h = len(ms) // 2
            good = []
            for half in (ms[:h], ms[h:]):
                b2, bad2 = rustc_batch(half, rt, work, '%s_%d' % (tag, k), extra_flags); k += 1
                bad.update(bad2); good += [x for x in half if x[0] not in bad2]
            ms = good; continue
        bad.update(hit)
        ms = [x for x in ms if x[0] not in hit]
    return None, bad

def run_cases(binary, cases, work, tag, mem=4 << 30, per=12, maxhang=3):
    """cases: list of dicts with id; returns {id: result}; aborts/hangs are recorded and skipped over"""
    f = os.path.join(work, tag + '.cases'); open(f, 'w').write(''.join(json.dumps(c) + '\n' for c in cases))
    res = {}; skip = 0; hangs = 0
    while skip < len(cases):
        if hangs >= maxhang:
            for c in cases[skip:]: res[c['id']] = {'r': 'skip', 'id': c['id']}
            break
        pr = subprocess.Popen([binary, f, str(skip)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV,
                              preexec_fn=lambda: (resource.setrlimit(resource.RLIMIT_AS, (mem, mem)), resource.setrlimit(resource.RLIMIT_CORE, (0, 0))))
        # watchdog: no new line for `per` seconds -> the case at hand hangs
        last = [time.time(), 0]
        lines = []
        def rd():
            for l in pr.stdout:
                last[0] = time.time(); lines.append(l[2:]) if l.startswith(b'@@') else None
        th = threading.Thread(target=rd); th.start()
        hang = False
        while th.is_alive():
            th.join(0.5)
            if time.time() - last[0] > per: hang = True; pr.kill(); th.join(); break
        pr.wait()
        n = 0
        for l in lines:
            try: r = json.loads(l)
            except ValueError: break
            res[r['id']] = r; n += 1
        skip += n
        if skip < len(cases):
            hangs += hang
            res[cases[skip]['id']] = {'r': 'hang' if hang else 'abort', 'm': 'rc=%s' % pr.returncode, 'id': cases[skip]['id']}
            skip += 1
    return res
