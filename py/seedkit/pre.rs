#![allow(dead_code, unused_imports)]
mod g { include!(env!("GEN")); }
use g::*;
use std::io::{BufRead, Read, Write};
pub struct AddR<R> { r: R, k: u8, buf: Vec<u8>, pos: usize, done: bool }
impl<R: Read> AddR<R> { pub fn new(r: R, k: u8) -> Self { AddR { r, k, buf: vec![], pos: 0, done: false } } }
impl<R: Read> Read for AddR<R> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = self.r.read(b)?;
        for x in &mut b[..n] { *x = x.wrapping_sub(self.k); }
        Ok(n)
    }
}
pub struct AddW<W: Write> { w: W, k: u8 }
impl<W: Write> AddW<W> { pub fn new(w: W, k: u8) -> Self { AddW { w, k } } }
impl<W: Write> Write for AddW<W> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let v: Vec<u8> = b.iter().map(|x| x.wrapping_add(self.k)).collect();
        self.w.write(&v)
    }
    fn flush(&mut self) -> std::io::Result<()> { self.w.flush() }
}
/// hands out at most `n` bytes per read
pub struct Drip<'a> { b: &'a [u8], n: usize, used: usize }
impl<'a> Drip<'a> { pub fn new(b: &'a [u8], n: usize) -> Self { Drip { b, n, used: 0 } } }
impl<'a> Read for Drip<'a> {
    fn read(&mut self, o: &mut [u8]) -> std::io::Result<usize> {
        let n = o.len().min(self.n).min(self.b.len() - self.used);
        o[..n].copy_from_slice(&self.b[self.used..self.used + n]); self.used += n; Ok(n)
    }
}
impl<'a> BufRead for Drip<'a> {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> { let n = self.n.min(self.b.len() - self.used); Ok(&self.b[self.used..self.used + n]) }
    fn consume(&mut self, n: usize) { self.used += n }
}
macro_rules! enc { ($v:expr $(, $a:expr)*) => {{ let mut o: Vec<u8> = vec![]; $v.encode_sync(&mut o $(, $a)*).map(|_| o).map_err(|e| e.to_string()) }} }
