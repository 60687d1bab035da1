//! Sources and sinks which fail, are interrupted or move little at a time.
use crate::rt::*;
use crate::reader::full;
use std::io::{Error, ErrorKind, Read, Result, Write};
use tmf::*;
const KINDS: [ErrorKind; 6] = [ErrorKind::Other, ErrorKind::PermissionDenied, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::BrokenPipe, ErrorKind::NotFound];
/// Accepts `fail` bytes, then fails with kind `kind`; calls of which `mask` has a bit set are interrupted before, `step` bytes at most per call.
pub struct Sink { pub got: Vec<u8>, fail: usize, kind: u32, pub mask: u32, pub step: usize, calls: u32, flushed: usize, flush_fail: bool, zero: bool }
pub fn sink(fail: usize) -> Sink { Sink { got: vec![], fail, kind: 0, mask: 0, step: usize::MAX, calls: 0, flushed: 0, flush_fail: false, zero: false } }
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        self.calls += 1;
        if self.calls <= 32 && self.mask >> (self.calls - 1) & 1 == 1 { return Err(Error::from(ErrorKind::Interrupted)); }
        let left = self.fail - self.got.len();
        if left == 0 && !b.is_empty() { return if self.zero { Ok(0) } else { Err(Error::from(KINDS[self.kind as usize])) }; }
        let n = b.len().min(left).min(self.step);
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> { if self.flush_fail { return Err(Error::from(KINDS[self.kind as usize])); } self.flushed = self.got.len(); Ok(()) }
}
/// Gives the first `fail` bytes, then fails; short and interrupted as above. When `end` is set it ends instead.
pub struct Source<'a> { b: &'a [u8], p: usize, fail: usize, kind: u32, pub mask: u32, pub step: usize, calls: u32, end: bool }
pub fn source(b: &[u8], fail: usize) -> Source<'_> { Source { b, p: 0, fail, kind: 0, mask: 0, step: usize::MAX, calls: 0, end: false } }
impl<'a> Read for Source<'a> {
    fn read(&mut self, o: &mut [u8]) -> Result<usize> {
        self.calls += 1;
        if self.calls <= 32 && self.mask >> (self.calls - 1) & 1 == 1 { return Err(Error::from(ErrorKind::Interrupted)); }
        if self.p == self.fail { return if self.end { Ok(0) } else { Err(Error::from(KINDS[self.kind as usize])) }; }
        let n = o.len().min(self.fail - self.p).min(self.b.len() - self.p).min(self.step);
        o[..n].copy_from_slice(&self.b[self.p..self.p + n]);
        self.p += n;
        Ok(n)
    }
}
fn meshes(two: u32) -> Vec<(TMFMesh, String)> {
    let mut a = full();
    a.set_uv_triangles(vec![u16s() as u32, 65536]);
    let mut v = vec![(a, "one".to_owned())];
    if two == 1 { let mut b = TMFMesh::empty(); b.set_normals(vec![(0.0, 1.0, 0.0)]); v.push((b, "two".to_owned())); }
    v
}
fn save(m: &[(TMFMesh, String)], w: &mut Sink) -> std::result::Result<(), TMFExportError> { TMFMesh::write_tmf(m, w, &TMFPrecisionInfo::default()) }
fn prefix(a: &[u8], b: &[u8], id: u32) { check(a.len() <= b.len(), id); let mut ok = true; for i in 0..a.len().min(b.len()) { ok &= a[i] == b[i]; } check(ok, id + 1); }
fn same(a: &[(TMFMesh, String)], b: &[(TMFMesh, String)], id: u32) {
    check(a.len() == b.len(), id);
    for (x, y) in a.iter().zip(b) {
        check(x.1 == y.1, id + 1);
        check(x.0.get_vertices() == y.0.get_vertices() && x.0.get_normals() == y.0.get_normals() && x.0.get_uvs() == y.0.get_uvs() && x.0.get_tangents() == y.0.get_tangents(), id + 2);
        for k in 0..4 { check(crate::idx::get_tri(&x.0, k) == crate::idx::get_tri(&y.0, k), id + 3); }
        for n in ["ix", "fl", "co"] { let f = |m: &TMFMesh| m.lookup_custom_data(n).map(|c| (c.as_index().map(|x| x.0.to_vec()), c.as_float().map(|x| x.0.to_vec()), c.as_color_rgba().map(|x| x.0.to_vec()))); check(f(&x.0) == f(&y.0), id + 4); }
    }
}
const OBJ: &str = "o thing\nv 1 0 0\nv 2 1 0\nv 3 0 1\nvn 0 0 1\nvt 0 0.5\nf 1/1/1 2/1/1 3/1/1\n";
fn obj_mesh() -> Vec<(TMFMesh, String)> { TMFMesh::read_from_obj(&mut OBJ.as_bytes()).unwrap() }
entries! {
    /// The sink fails (or accepts nothing more) after any number of bytes in lo..=hi: that error is returned, what it got is the
    /// beginning of the file, nothing panics.
    fn h_sink_fail(two, lo, hi) {
        let m = meshes(two);
        let mut all = sink(usize::MAX);
        save(&m, &mut all).unwrap();
        let n = all.got.len() as u32;
        if lo > n { cover(1); return; }
        let at = choice(lo, hi.min(n)) as usize;
        let mut s = sink(at);
        s.kind = choice(0, 5);
        s.zero = s.kind == 5 && choice(0, 1) == 1;
        let want = if s.zero { ErrorKind::WriteZero } else { KINDS[s.kind as usize] };
        match save(&m, &mut s) {
            Ok(()) => check(at as u32 == n, 1),
            Err(TMFExportError::IO(e)) => { check((at as u32) < n, 2); check(e.kind() == want, 3); }
        }
        prefix(&s.got, &all.got, 4);
        check(s.got.len() == at, 6);
        cover(1);
    }
    /// The sink takes at most `step` bytes at once and interrupts any of its first 8 calls: the same file.
    fn h_sink_short(two) {
        let m = meshes(two);
        let mut all = sink(usize::MAX);
        save(&m, &mut all).unwrap();
        let mut s = sink(usize::MAX);
        s.step = choice(1, 9) as usize;
        s.mask = bits(8);
        check(save(&m, &mut s).is_ok(), 1);
        check(s.got.len() == all.got.len(), 2);
        prefix(&s.got, &all.got, 3);
        cover(1);
    }
    /// The source gives at most `step` bytes at once and interrupts any of its first 8 calls: the same meshes.
    fn h_source_short(two, obj) {
        let m = meshes(two);
        let mut all = sink(usize::MAX);
        save(&m, &mut all).unwrap();
        let b = if obj == 1 { OBJ.as_bytes().to_vec() } else { all.got };
        let mut s = source(&b, usize::MAX);
        s.step = choice(1, 9) as usize;
        s.mask = bits(8);
        if obj == 1 {
            same(&TMFMesh::read_from_obj(&mut s).unwrap(), &obj_mesh(), 1);
        } else {
            let r = TMFMesh::read_tmf(&mut s).unwrap();
            same(&r, &TMFMesh::read_tmf(&mut &b[..]).unwrap(), 1);
            check(s.p == b.len(), 9);
        }
        cover(1);
    }
    /// The source fails after any number of bytes in lo..=hi: that error is returned, sync and async.
    fn h_source_fail(two, lo, hi, obj) {
        let m = meshes(two);
        let mut all = sink(usize::MAX);
        save(&m, &mut all).unwrap();
        let b = if obj == 1 { OBJ.as_bytes().to_vec() } else { all.got };
        let n = b.len() as u32;
        if lo > n { cover(1); return; }
        let at = choice(lo, hi.min(n)) as usize;
        let k = choice(0, 5);
        let mk = || { let mut s = source(&b, at); s.kind = k; s };
        if obj == 1 {
            match TMFMesh::read_from_obj(&mut mk()) { Ok(_) => check(false, 1), Err(e) => check(e.kind() == KINDS[k as usize], 2) }
        } else {
            match TMFMesh::read_tmf(&mut mk()) { Ok(_) => check(at as u32 == n, 3), Err(TMFImportError::IO(e)) => { check((at as u32) < n, 4); check(e.kind() == KINDS[k as usize], 5); } Err(_) => check(false, 6) }
            match futures::executor::block_on(TMFMesh::read_tmf_one_async(&mut mk())) { Ok(_) => check(at as u32 == n && two == 0, 7), Err(TMFImportError::IO(e)) => { check((at as u32) < n, 8); check(e.kind() == KINDS[k as usize], 9); } Err(TMFImportError::TooManyMeshes) => check(at as u32 == n && two == 1, 10), Err(_) => check(false, 11) }
        }
        cover(1);
    }
    /// .obj export to a sink which fails after any number of bytes, or when flushed: reported; what is reported as written was given to the
    /// sink completely and flushed.
    fn h_obj_sink(lo, hi) {
        let m = obj_mesh();
        let mut all = sink(usize::MAX);
        TMFMesh::write_obj(&m, &mut all).unwrap();
        let n = all.got.len() as u32;
        check(all.flushed as u32 == n, 1);
        if lo > n { cover(1); return; }
        let at = choice(lo, hi.min(n)) as usize;
        let mut s = sink(at);
        s.kind = choice(0, 4);
        s.flush_fail = choice(0, 1) == 1;
        s.step = choice(1, 2) as usize * 7;
        let want = KINDS[s.kind as usize];
        match TMFMesh::write_obj(&m, &mut s) { Ok(()) => check(at as u32 == n && !s.flush_fail, 2), Err(e) => { check((at as u32) < n || s.flush_fail, 3); check(e.kind() == want, 4); } }
        prefix(&s.got, &all.got, 5);
        cover(1);
    }
}
