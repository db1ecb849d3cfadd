//! Runtime linked with the generated coders: generic values, instrumented readers/writers,
//! the harness' FFI transforms and types (sync here, async in `a`).
use std::io::{self, BufRead, Cursor, Read, Write};

// ---------------------------------------------------------------- JSON
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
static JN: J = J::Null;
impl J {
    pub fn parse(s: &str) -> J {
        let b = s.as_bytes();
        let mut p = 0;
        let j = pv(b, &mut p);
        j
    }
    pub fn get(&self, k: &str) -> &J {
        if let J::Obj(o) = self {
            for (n, v) in o {
                if n == k {
                    return v;
                }
            }
        }
        &JN
    }
    pub fn at(&self, i: usize) -> &J {
        if let J::Arr(a) = self {
            a.get(i).unwrap_or(&JN)
        } else {
            &JN
        }
    }
    pub fn arr(&self) -> &[J] {
        if let J::Arr(a) = self { a } else { &[] }
    }
    pub fn str(&self) -> &str {
        if let J::Str(a) = self { a } else { "" }
    }
    pub fn num(&self) -> i64 {
        if let J::Num(a) = self { *a } else { -1 }
    }
    pub fn hex(b: &[u8]) -> J {
        let mut s = String::with_capacity(b.len() * 2);
        for x in b {
            s.push_str(&format!("{:02x}", x));
        }
        J::Str(s)
    }
    pub fn bytes(&self) -> Vec<u8> {
        let s = self.str().as_bytes();
        let h = |c: u8| (c as char).to_digit(16).expect("hex") as u8;
        s.chunks(2).map(|c| h(c[0]) * 16 + h(c[1])).collect()
    }
    pub fn show(&self) -> String {
        let mut o = String::new();
        self.w(&mut o);
        o
    }
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Num(n) => o.push_str(&n.to_string()),
            J::Str(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 32 || (c as u32) > 126 => {
                            let mut b = [0u16; 2];
                            for u in c.encode_utf16(&mut b) {
                                o.push_str(&format!("\\u{:04x}", u))
                            }
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::Arr(a) => {
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::Obj(a) => {
                o.push('{');
                for (i, (k, x)) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    J::Str(k.clone()).w(o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}
fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && (b[*p] as char).is_whitespace() {
        *p += 1
    }
}
fn pv(b: &[u8], p: &mut usize) -> J {
    ws(b, p);
    match b[*p] {
        b'n' => { *p += 4; J::Null }
        b't' => { *p += 4; J::Bool(true) }
        b'f' => { *p += 5; J::Bool(false) }
        b'"' => {
            *p += 1;
            let mut s = Vec::new();
            while b[*p] != b'"' {
                if b[*p] == b'\\' {
                    *p += 1;
                    s.push(b[*p]);
                } else {
                    s.push(b[*p]);
                }
                *p += 1;
            }
            *p += 1;
            J::Str(String::from_utf8(s).unwrap())
        }
        b'[' => {
            *p += 1;
            let mut a = vec![];
            loop {
                ws(b, p);
                if b[*p] == b']' { *p += 1; return J::Arr(a); }
                if b[*p] == b',' { *p += 1; continue; }
                a.push(pv(b, p));
            }
        }
        b'{' => {
            *p += 1;
            let mut a = vec![];
            loop {
                ws(b, p);
                if b[*p] == b'}' { *p += 1; return J::Obj(a); }
                if b[*p] == b',' { *p += 1; continue; }
                let k = pv(b, p).str().to_string();
                ws(b, p);
                assert!(b[*p] == b':');
                *p += 1;
                let v = pv(b, p);
                a.push((k, v));
            }
        }
        _ => {
            let s = *p;
            while *p < b.len() && (b[*p] == b'-' || b[*p].is_ascii_digit()) {
                *p += 1
            }
            J::Num(std::str::from_utf8(&b[s..*p]).unwrap().parse().expect("num"))
        }
    }
}

// ---------------------------------------------------------------- values
pub trait V: Sized {
    fn fj(j: &J) -> Self;
    fn tj(&self) -> J;
}
macro_rules! vint {
    ($($t:ty),*) => { $(impl V for $t {
        fn fj(j: &J) -> Self {
            let b = j.bytes();
            let mut a = [0u8; std::mem::size_of::<$t>()];
            a.copy_from_slice(&b);
            <$t>::from_be_bytes(a)
        }
        fn tj(&self) -> J { J::hex(&self.to_be_bytes()) }
    })* };
}
vint!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64);
impl V for bool {
    fn fj(j: &J) -> Self { j.bytes()[0] != 0 }
    fn tj(&self) -> J { J::hex(&[*self as u8]) }
}
impl V for String {
    fn fj(j: &J) -> Self { String::from_utf8(j.bytes()).expect("utf8") }
    fn tj(&self) -> J { J::hex(self.as_bytes()) }
}
impl<T: V> V for Box<T> {
    fn fj(j: &J) -> Self { Box::new(T::fj(j)) }
    fn tj(&self) -> J { (**self).tj() }
}
impl<T: V> V for Vec<T> {
    fn fj(j: &J) -> Self { j.arr().iter().map(T::fj).collect() }
    fn tj(&self) -> J { J::Arr(self.iter().map(|x| x.tj()).collect()) }
}
impl<T: V> V for Option<T> {
    fn fj(j: &J) -> Self {
        match j { J::Null => None, J::Obj(_) => Some(T::fj(j.get("o"))), _ => panic!("opt") }
    }
    fn tj(&self) -> J {
        match self { None => J::Null, Some(x) => J::Obj(vec![("o".to_string(), x.tj())]) }
    }
}

// ---------------------------------------------------------------- instrumented I/O
/// `ch`: cyclic maximum chunk sizes; `fail`: position at which an I/O error is reported (-1: never)
#[derive(Clone)]
pub struct Src {
    pub data: Vec<u8>,
    pub pos: usize,
    pub ch: Vec<usize>,
    pub ci: usize,
    pub fail: i64,
    pub idle: usize,
    pub win: usize,
}
pub const STUCK: usize = 20000;
impl Src {
    pub fn new(j: &J) -> Src {
        let mut ch: Vec<usize> = j.get("ch").arr().iter().map(|x| x.num().max(1) as usize).collect();
        if ch.is_empty() { ch.push(1 << 30) }
        Src { data: j.get("in").bytes(), pos: 0, ch, ci: 0, fail: j.get("fail").num(), idle: 0, win: 0 }
    }
    pub fn next_chunk(&mut self) -> usize {
        let c = self.ch[self.ci % self.ch.len()];
        self.ci += 1;
        c
    }
    fn tick(&mut self) {
        self.idle += 1;
        if self.idle > STUCK { panic!("STUCK: no progress") }
    }
    pub fn do_read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() { self.tick(); return Ok(0) }
        self.do_fill()?;
        let n = self.win.min(buf.len());
        if n == 0 { return Ok(0) }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.do_consume(n);
        Ok(n)
    }
    /// (re)establish the window of visible bytes
    pub fn do_fill(&mut self) -> io::Result<()> {
        self.tick();
        if self.win > 0 { return Ok(()) }
        let mut end = self.data.len();
        if self.fail >= 0 {
            let f = self.fail as usize;
            if self.pos >= f { return Err(io::Error::new(io::ErrorKind::Other, "injected")) }
            end = end.min(f);
        }
        let c = self.next_chunk();
        self.win = c.min(end - self.pos);
        Ok(())
    }
    pub fn do_consume(&mut self, n: usize) {
        assert!(n <= self.win, "over-consume");
        self.pos += n;
        self.win -= n;
        if n > 0 { self.idle = 0 }
    }
    pub fn window(&self) -> &[u8] { &self.data[self.pos..self.pos + self.win] }
}
impl Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> { self.do_read(buf) }
}
impl BufRead for Src {
    fn fill_buf(&mut self) -> io::Result<&[u8]> { self.do_fill()?; Ok(self.window()) }
    fn consume(&mut self, n: usize) { self.do_consume(n) }
}
#[derive(Clone)]
pub struct Dst {
    pub out: Vec<u8>,
    pub ch: Vec<usize>,
    pub ci: usize,
    pub fail: i64,
    pub zero: bool,
}
impl Dst {
    pub fn new(j: &J) -> Dst {
        let mut ch: Vec<usize> = j.get("ch").arr().iter().map(|x| x.num().max(1) as usize).collect();
        if ch.is_empty() { ch.push(1 << 30) }
        Dst { out: vec![], ch, ci: 0, fail: j.get("fail").num(), zero: *j.get("zero") == J::Bool(true) }
    }
    pub fn do_write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() { return Ok(0) }
        let mut n = self.ch[self.ci % self.ch.len()].min(buf.len());
        self.ci += 1;
        if self.fail >= 0 {
            let room = (self.fail as usize).saturating_sub(self.out.len());
            if room == 0 {
                if self.zero { return Ok(0) }
                return Err(io::Error::new(io::ErrorKind::Other, "injected"));
            }
            n = n.min(room);
        }
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
}
impl Write for Dst {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> { self.do_write(buf) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

// ---------------------------------------------------------------- FFI runtime
/// reborrow a stream whether the generated binding is a `&mut W` or an owned stream
pub trait Rb {
    fn vrt_rb(&mut self) -> &mut Self { self }
}
impl<T: ?Sized> Rb for T {}

pub fn mapb(op: u8, k: u8, enc: bool, x: u8) -> u8 {
    match (op, enc) {
        (0, true) => x.wrapping_add(k),
        (0, false) => x.wrapping_sub(k),
        _ => x ^ k,
    }
}
pub struct MapW<'a, W: ?Sized> { pub inner: &'a mut W, op: u8, k: u8 }
impl<'a, W: ?Sized> MapW<'a, W> {
    pub fn new(inner: &'a mut W, op: u8, k: u8) -> Self { MapW { inner, op, k } }
}
impl<'a, W: Write + ?Sized> Write for MapW<'a, W> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let v: Vec<u8> = buf.iter().map(|x| mapb(self.op, self.k, true, *x)).collect();
        self.inner.write_all(&v)?;
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
pub struct MapR<'a, R: ?Sized> { pub inner: &'a mut R, op: u8, k: u8, win: Vec<u8> }
impl<'a, R: ?Sized> MapR<'a, R> {
    pub fn new(inner: &'a mut R, op: u8, k: u8) -> Self { MapR { inner, op, k, win: vec![] } }
}
impl<'a, R: Read + ?Sized> Read for MapR<'a, R> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.inner.read(buf)?;
        for x in &mut buf[..n] { *x = mapb(self.op, self.k, false, *x) }
        Ok(n)
    }
}
impl<'a, R: BufRead + ?Sized> BufRead for MapR<'a, R> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        let (op, k) = (self.op, self.k);
        self.win = self.inner.fill_buf()?.iter().map(|x| mapb(op, k, false, *x)).collect();
        Ok(&self.win[..])
    }
    fn consume(&mut self, n: usize) { self.inner.consume(n) }
}
pub struct FrameW<'a, W: Write + ?Sized> { pub inner: &'a mut W, tag: u8, mask: u8, buf: Vec<u8>, done: bool }
impl<'a, W: Write + ?Sized> FrameW<'a, W> {
    pub fn new(inner: &'a mut W, tag: u8, mask: u8) -> Self { FrameW { inner, tag, mask, buf: vec![], done: false } }
}
pub fn frame_bytes(tag: u8, mask: u8, buf: &[u8]) -> io::Result<Vec<u8>> {
    if buf.len() > 255 { return Err(io::Error::new(io::ErrorKind::Other, "frame too long")) }
    let mut v = vec![tag, buf.len() as u8];
    v.extend(buf.iter().map(|x| x ^ mask));
    Ok(v)
}
impl<'a, W: Write + ?Sized> Write for FrameW<'a, W> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> { self.buf.extend_from_slice(buf); Ok(buf.len()) }
    fn flush(&mut self) -> io::Result<()> {
        if self.done && self.buf.is_empty() { return Ok(()) }
        self.done = true;
        let v = frame_bytes(self.tag, self.mask, &self.buf)?;
        self.buf.clear();
        self.inner.write_all(&v)
    }
}
pub fn frame_r<R: Read + ?Sized>(r: &mut R, tag: u8, mask: u8) -> io::Result<Cursor<Vec<u8>>> {
    let mut h = [0u8; 2];
    r.read_exact(&mut h)?;
    if h[0] != tag { return Err(io::Error::new(io::ErrorKind::InvalidData, "bad frame tag")) }
    let mut v = vec![0u8; h[1] as usize];
    r.read_exact(&mut v)?;
    for x in &mut v { *x ^= mask }
    Ok(Cursor::new(v))
}
pub fn blob_buf(n: u64) -> Vec<u8> { vec![0u8; n.min(1 << 20) as usize] }
pub fn blob_x(b: &mut [u8], m: u64) { for x in b { *x ^= m as u8 } }
pub fn odd8(x: u8) -> io::Result<u8> {
    if x & 1 == 0 { Err(io::Error::new(io::ErrorKind::InvalidData, "even")) } else { Ok(x) }
}
pub fn fmix(a: u64, b: u64, c: Option<u64>) -> u64 { (a ^ b).wrapping_add(c.unwrap_or(5)) }
pub fn is_even(a: u64) -> bool { a % 2 == 0 }

// ---------------------------------------------------------------- driver
pub fn ok_dec(v: J, used: usize) -> J {
    J::Obj(vec![("r".into(), J::Str("ok".into())), ("v".into(), v), ("used".into(), J::Num(used as i64))])
}
pub fn err_dec(m: String, used: usize) -> J {
    J::Obj(vec![("r".into(), J::Str("err".into())), ("m".into(), J::Str(m)), ("used".into(), J::Num(used as i64))])
}
pub fn enc_res(r: Result<(), String>, out: Vec<u8>) -> J {
    match r {
        Ok(()) => J::Obj(vec![("r".into(), J::Str("ok".into())), ("out".into(), J::hex(&out))]),
        Err(m) => J::Obj(vec![("r".into(), J::Str("err".into())), ("m".into(), J::Str(m)), ("out".into(), J::hex(&out))]),
    }
}
pub type Runner = fn(&str, &J) -> J;
pub fn main_loop(mods: &[(&str, Runner)]) {
    std::panic::set_hook(Box::new(|_| {}));
    let path = std::env::args().nth(1).expect("cases file");
    let skip: usize = std::env::args().nth(2).map(|x| x.parse().unwrap()).unwrap_or(0);
    let text = std::fs::read_to_string(path).unwrap();
    // generated code may print (debug mode): results are the lines starting with @@
    let mut out = std::io::stdout();
    for line in text.lines().skip(skip) {
        let j = J::parse(line);
        let m = j.get("m").str().to_string();
        let r = match mods.iter().find(|x| x.0 == m) {
            None => J::Obj(vec![("r".into(), J::Str("nomod".into()))]),
            Some((_, f)) => {
                let f = *f;
                let jj = j.clone();
                let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
                    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(jj.get("t").str(), &jj)))
                }).unwrap();
                match h.join().unwrap_or_else(|e| Err(e)) {
                    Ok(x) => x,
                    Err(e) => {
                        let m = if let Some(s) = e.downcast_ref::<String>() { s.clone() }
                            else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else { "?".into() };
                        J::Obj(vec![("r".into(), J::Str("panic".into())), ("m".into(), J::Str(m))])
                    }
                }
            }
        };
        let mut o = r.show();
        o.insert_str(1, &format!("\"id\":{},", j.get("id").num()));
        o.insert_str(0, "\n@@");
        o.push('\n');
        out.write_all(o.as_bytes()).unwrap();
        out.flush().unwrap();
    }
}

#[path = "vrt_async.rs"]
pub mod a;
