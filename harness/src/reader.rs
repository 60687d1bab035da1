//! The reader on arbitrary, damaged and truncated bytes.
use crate::rt::*;
use crate::spec::*;
use crate::idx::*;
use tmf::*;
const MAX: u64 = 0x8000_0000;
fn rd(b: &[u8]) -> Result<Vec<(TMFMesh, String)>, TMFImportError> { TMFMesh::read_tmf(&mut &b[..]) }
fn le(b: &[u8], p: usize, n: usize) -> u64 { let mut v = 0; for i in 0..n { v |= (b[p + i] as u64) << (8 * i); } v }
const KINDS: [u64; 13] = [1, 2, 3, 4, 5, 6, 9, 10, 15, 16, 23, 24, 25];
/// Declared element counts are small or over the limit (between the two the reader reserves the memory the file asks for).
fn count(c: u64, cap: u64) -> Option<u64> { assume((c <= cap) | (c > MAX)); if c > MAX { None } else { Some(split(c)) } }
#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Want { Bad, Good(u64), Any }
fn enough(bits: u64, d: &[u8], at: usize) -> bool { bits <= 8 * (d.len() - at) as u64 }
fn index_want(minor: u64, d: &[u8], cap: u64) -> Want {
    let h = if minor > 1 { 17 } else { 9 };
    if d.len() < h { if d.len() >= 9 { count(le(d, 1, 8), cap); } return Want::Bad; }
    let c = match count(le(d, 1, 8), cap) { None => return Want::Bad, Some(c) => c };
    if d[0] > 64 { return Want::Bad; }
    if c == 0 { return Want::Any; }
    let p = split(d[0] as u64);
    if !enough(c * p, d, h) { return Want::Bad; }
    let min = if minor > 1 { le(d, 9, 8) } else { 0 };
    let mut b = Bits::new(&d[h..]);
    let mut ok = true;
    for _ in 0..c { let v = b.get(p); ok &= v.checked_add(min).map_or(false, |x| x <= u32::MAX as u64); }
    if ok { Want::Good(c) } else { Want::Bad }
}
/// What the layout of a segment payload allows: refused, or read as so many elements.
pub fn want(minor: u64, ty: u64, d: &[u8], cap: u64) -> Want {
    let n = d.len();
    match ty {
        1 => {
            if n < 8 { return Want::Bad; }
            let c = count(le(d, 0, 8), cap);
            if n < 59 { return Want::Bad; }
            let c = match c { None => return Want::Bad, Some(c) => c };
            let p = [d[56] as u64, d[57] as u64, d[58] as u64];
            if (p[0] > 63) | (p[1] > 63) | (p[2] > 63) { return Want::Bad; }
            if enough(c * (p[0] + p[1] + p[2]), d, 59) { Want::Good(c) } else { Want::Bad }
        }
        3 | 9 => {
            if n < 8 { return Want::Bad; }
            let c = count(le(d, 0, 8), cap);
            if n < 9 { return Want::Bad; }
            let c = match c { None => return Want::Bad, Some(c) => c };
            if d[8] > 63 { return Want::Bad; }
            if enough(c * (2 * d[8] as u64 + if ty == 9 { 4 } else { 3 }), d, 9) { Want::Good(c) } else { Want::Bad }
        }
        5 => {
            if n < 9 { return Want::Bad; }
            let c = match count(le(d, 1, 8), cap) { None => return Want::Bad, Some(c) => c };
            if d[0] > 63 { return Want::Bad; }
            if enough(c * 2 * d[0] as u64, d, 9) { Want::Good(c) } else { Want::Bad }
        }
        2 | 4 | 6 | 10 => index_want(minor, d, cap),
        25 => if n < 1 { Want::Bad } else { index_want(minor, &d[1..], cap) },
        15 | 16 | 23 | 24 => {
            if n < 1 { return Want::Bad; }
            if d[0] as usize > n - 1 { return Want::Bad; }
            let l = split(d[0] as u64) as usize;
            let e = &d[1 + l..];
            match ty {
                15 | 24 => index_want(minor, e, cap),
                16 => {
                    if e.len() < 8 { return Want::Bad; }
                    let c = count(le(e, 0, 8), cap);
                    if e.len() < 25 { return Want::Bad; }
                    let c = match c { None => return Want::Bad, Some(c) => c };
                    if e[24] > 63 { return Want::Bad; }
                    if enough(c * e[24] as u64, e, 25) { Want::Good(c) } else { Want::Bad }
                }
                _ => {
                    if e.len() < 8 { return Want::Bad; }
                    let c = count(le(e, 0, 8), cap);
                    if e.len() < 9 { return Want::Bad; }
                    let c = match c { None => return Want::Bad, Some(c) => c };
                    if e[8] > 63 { return Want::Bad; }
                    if enough(4 * c * e[8] as u64, e, 9) { Want::Good(c) } else { Want::Bad }
                }
            }
        }
        _ => Want::Good(0),
    }
}
/// Structure of everything behind the header: Some(true) when a reader has to accept it, Some(false) when it has to refuse it.
fn file_want(minor: u64, b: &[u8], meshes: u64) -> Option<bool> {
    let mut p = 0;
    let mut good = Some(true);
    for _ in 0..meshes {
        if b.len() - p < 2 { return Some(false); }
        let l = le(b, p, 2);
        p += 2;
        if l > (b.len() - p) as u64 { return Some(false); }
        let l = split(l) as usize;
        if std::str::from_utf8(&b[p..p + l]).is_err() { return Some(false); }
        p += l;
        if b.len() - p < 2 { return Some(false); }
        let k = le(b, p, 2);
        p += 2;
        // the reader reserves room for the declared number of segments
        assume((k <= 16) | (k == 65535));
        let k = split(k);
        for _ in 0..k {
            let (tw, lw) = if minor > 1 { (1, 4) } else { (2, 8) };
            if b.len() - p < tw + lw { return Some(false); }
            let ty = le(b, p, tw);
            let n = le(b, p + tw, lw);
            p += tw + lw;
            assume((n <= b.len() as u64) | (n > MAX));
            if n > (b.len() - p) as u64 { return Some(false); }
            if b.len() - p < 1 { return Some(false); }
            let c = b[p];
            p += 1;
            if c > 2 && c != 255 { return Some(false); }
            if n > (b.len() - p) as u64 { return Some(false); }
            let n = split(n) as usize;
            let d = &b[p..p + n];
            p += n;
            if !KINDS.contains(&ty) { continue; }
            let ty = split(ty);
            if c != 0 { good = Some(false); continue; }
            match want(minor, ty, d, 3) { Want::Bad => good = Some(false), Want::Any => if good == Some(true) { good = None }, Want::Good(_) => () }
        }
    }
    good
}
fn len_of(m: &TMFMesh, ty: u64, d: &[u8]) -> Option<usize> {
    match ty {
        1 => m.get_vertices().map(|v| v.len()), 3 => m.get_normals().map(|v| v.len()), 5 => m.get_uvs().map(|v| v.len()), 9 => m.get_tangents().map(|v| v.len()),
        2 => get_tri(m, 0).map(|v| v.len()), 4 => get_tri(m, 1).map(|v| v.len()), 6 => get_tri(m, 2).map(|v| v.len()), 10 => get_tri(m, 3).map(|v| v.len()),
        25 => if d[0] & 1 != 0 { get_tri(m, 0).map(|v| v.len()) } else if d[0] & 2 != 0 { get_tri(m, 1).map(|v| v.len()) } else if d[0] & 4 != 0 { get_tri(m, 2).map(|v| v.len()) } else { None },
        _ => None,
    }
}
/// A mesh with something of everything.
pub fn full() -> TMFMesh {
    let mut a = TMFMesh::empty();
    a.set_vertices(vec![(-1.0, 0.0, 2.0), (1.0, 4.0, 2.5), (0.5, 1.0, 2.25)]);
    a.set_normals(vec![(0.0, 0.6, 0.8), (1.0, 0.0, 0.0)]);
    a.set_uvs(vec![(0.25, 0.75)]);
    a.set_tangents(vec![((0.0, -0.6, 0.8), -1.0)]);
    a.set_vertex_triangles(vec![0, 1, 2]); a.set_normal_triangles(vec![0, 1, 0]); a.set_uv_triangles(vec![0, 1, 2]); a.set_tangent_triangles(vec![0, 0, 0]);
    a.add_custom_data(CustomData::from(&[3u32, 1][..]), "ix").unwrap();
    a.add_custom_data(CustomData::from(&[0.5f32, -2.0][..]), "fl").unwrap();
    a.add_custom_data(CustomData::from(&[(0.25, 0.5, 0.75, 1.0)][..]), "co").unwrap();
    a
}
pub fn full_file(k: u32) -> Vec<u8> {
    let mut o = vec![];
    let mut l = vec![(full(), "one".to_owned())];
    if k > 1 { let mut m = TMFMesh::empty(); m.set_uv_triangles(vec![7, 300, 7]); l.push((m, "two".to_owned())); }
    TMFMesh::write_tmf(&l, &mut o, &TMFPrecisionInfo::default()).unwrap();
    o
}
entries! {
    /// One segment of type `ty` whose payload is n arbitrary bytes (of a vertex segment: the box is concrete when n > 59): never a panic,
    /// read exactly when the layout allows it, with the declared number of elements.
    fn h_any_seg(minor, ty, n, cap) {
        let (minor, ty) = (minor as u64, ty as u64);
        if ty == 3 || ty == 9 { opaque_trig(); }
        let mut d: Vec<u8> = (0..n).map(|i| if ty == 1 && i >= 8 && i < 56 { [0, 0, 0, 0, 0, 0, 0xf0, 0x3f][i as usize % 8] } else { u8s() }).collect();
        // of the three bit widths of a vertex segment one is arbitrary
        if ty == 1 && n >= 59 { let k = choice(0, 2); for i in 0..3 { if i != k { d[56 + i as usize] = [0, 5, 63, 64][choice(0, 3) as usize]; } } }
        let mut w = Wr::file(minor, 1);
        w.mesh(b"q", 1).seg(minor, ty, 0, &d);
        let want = want(minor, ty, &d, cap as u64);
        match rd(&w.0) {
            Ok(r) => {
                check(want != Want::Bad, 1);
                check(r.len() == 1, 2);
                if let Want::Good(c) = want {
                    match len_of(&r[0].0, ty, &d) { Some(l) => check(l as u64 == c, 3), None => check(c == 0 || ty == 25 || ty > 10, 4) }
                    // nothing is stored, so nothing may be made up
                    if ty == 5 && c > 0 && split((d[0] == 0) as u64) == 1 { for u in r[0].0.get_uvs().unwrap() { check(u.0 == 0.0 && u.1 == 0.0, 6); } }
                }
                cover(1);
            }
            Err(_) => { check(!matches!(want, Want::Good(_)), 5); cover(2); }
        }
    }
    /// A vertex segment of n points of arbitrary stored content in an arbitrary box (64 bit floats of any value), one byte of data.
    fn h_any_box(minor) {
        let mut d = vec![1u8, 0, 0, 0, 0, 0, 0, 0];
        for _ in 0..48 { d.push(u8s()); }
        d.extend([3, 2, 3]);
        d.push(u8s());
        let mut w = Wr::file(minor as u64, 1);
        w.mesh(b"q", 1).seg(minor as u64, 1, 0, &d);
        check(rd(&w.0).unwrap()[0].0.get_vertices().unwrap().len() == 1, 1);
        cover(1);
    }
    /// n arbitrary bytes behind a valid header which announces `meshes` meshes: never a panic; accepted exactly when the structure and every
    /// payload is as the format says.
    fn h_any_mesh(minor, meshes, n) {
        let b: Vec<u8> = (0..n).map(|_| u8s()).collect();
        let mut w = Wr::file(minor as u64, meshes as u64);
        w.raw(&b);
        if n >= 2 { let l = le(&b, 0, 2); assume((l <= 1) | (l > n as u64)); }
        let e = file_want(minor as u64, &b, meshes as u64);
        match rd(&w.0) {
            Ok(r) => { check(e != Some(false), 1); check(r.len() == meshes as usize, 2); cover(1); }
            Err(_) => { check(e != Some(true), 3); cover(2); }
        }
    }
    /// A file of n arbitrary bytes: never a panic, refused unless it has a header and an end.
    fn h_any_file(n) {
        let b: Vec<u8> = (0..n).map(|_| u8s()).collect();
        if n >= 15 { let c = le(&b, 11, 4); assume((c <= 3) | (c == 65535) | (c == u32::MAX as u64)); }
        match rd(&b) {
            Ok(r) => {
                check(n >= 15 && b[0] == b'T' && b[1] == b'M' && b[2] == b'F', 1);
                check(r.len() as u64 == le(&b, 11, 4), 2);
                cover(1);
            }
            Err(e) => {
                if n < 3 { check(matches!(e, TMFImportError::IO(_)), 3); }
                cover(2);
            }
        }
    }
    /// A valid file with one byte in lo..hi replaced by an arbitrary one: never a panic; refused or accepted as the format says.
    fn h_corrupt(lo, hi, all) {
        let mut b = full_file(2);
        let n = b.len() as u32;
        if lo >= n { cover(1); return; }
        let at = choice(lo, hi.min(n - 1)) as usize;
        b[at] = u8s();
        let minor = if at >= 7 && at < 11 { let m = le(&b, 9, 2); assume(at < 9 || m <= 3); split(m) } else { 2 };
        if at >= 11 && at < 15 { let c = le(&b, 11, 4); assume((c <= 3) | (c > 0x7f_ffff)); }
        let meshes = if at >= 11 && at < 15 { let c = le(&b, 11, 4); if c > 3 { 3 } else { split(c) } } else { 2 };
        let e = if at < 3 || (at >= 7 && at < 11) { None } else { file_want(minor, &b[15..], meshes) };
        match rd(&b) {
            Ok(r) => { check(e != Some(false), 1); check(r.len() as u64 == meshes, 2); }
            Err(_) => check(e != Some(true), 3),
        }
        let _ = all;
        cover(1);
    }
    /// A valid file (index values symbolic) cut anywhere: always an error, never a panic, never a partial result. Sync and async alike.
    fn h_cut(lo, hi) {
        let mut a = full();
        let x = u32s();
        assume(x >= 0x8000_0000);
        a.set_uv_triangles(vec![x, u16s() as u32]);
        let mut o = vec![];
        let mut z = TMFMesh::empty();
        z.set_normals(vec![(0.0, 1.0, 0.0)]);
        TMFMesh::write_tmf(&[(a, "one"), (z, "two")], &mut o, &TMFPrecisionInfo::default()).unwrap();
        let n = o.len() as u32;
        if lo >= n { cover(1); return; }
        let at = choice(lo, hi.min(n - 1)) as usize;
        check(rd(&o[..at]).is_err(), 1);
        check(TMFMesh::read_tmf_one(&mut &o[..at]).is_err(), 2);
        check(futures::executor::block_on(TMFMesh::read_tmf_async(&mut &o[..at])).is_err(), 3);
        check(rd(&o).is_ok(), 4);
        cover(1);
    }
    /// A file which ends with a segment of an unknown kind (last = 0) or with a segment whose payload is longer than its contents (by any
    /// bytes), cut anywhere: what was announced is not there, so it is an error.
    fn h_cut_tail(minor, last, extra) {
        let minor = minor as u64;
        let mut d = vec![];
        if last == 0 { for _ in 0..extra { d.push(u8s()); } } else {
            match last {
                2 | 4 | 6 | 10 => { d.push(8); let mut w = Wr::default(); w.le(2, 8); if minor > 1 { w.le(0, 8); } d.extend(w.0); d.extend([u8s(), u8s()]); }
                25 => { d.extend([7, 8]); let mut w = Wr::default(); w.le(1, 8); if minor > 1 { w.le(0, 8); } d.extend(w.0); d.push(u8s()); }
                5 => { d.push(4); let mut w = Wr::default(); w.le(1, 8); d.extend(w.0); d.push(u8s()); }
                3 | 9 => { let mut w = Wr::default(); w.le(1, 8).le(2, 1); d.extend(w.0); d.push(0x55); }
                _ => { let mut w = Wr::default(); w.le(1, 1).raw(b"c").le(1, 8).le(2, 1); d.extend(w.0); d.push(u8s()); }
            }
            for _ in 0..extra { d.push(u8s()); }
        }
        let mut w = Wr::file(minor, 1);
        w.mesh(b"q", 2).seg(minor, 2, 0, &{ let mut i = Wr::default(); i.le(0, 1).le(0, 8); if minor > 1 { i.le(0, 8); } i.0 });
        w.seg(minor, if last == 0 { 99 } else { last as u64 }, 0, &d);
        check(rd(&w.0).is_ok(), 1);
        let at = choice(0, w.0.len() as u32 - 1) as usize;
        check(rd(&w.0[..at]).is_err(), 2);
        check(TMFMesh::read_tmf_one(&mut &w.0[..at]).is_err(), 3);
        cover(1);
    }
    /// A segment payload which is cut short while its declared length follows: ty as stored, n elements at p bits.
    fn h_short(minor, ty, p, n) {
        let (minor, ty) = (minor as u64, ty as u64);
        let mut w = Wr::default();
        let pk = |k: u32, x: u32| pack(&(0..n * k).flat_map(|_| vec![(u32s() as u64 & ((1 << p) - 1), p)]).chain((0..x).map(|_| (1, 1))).collect::<Vec<_>>());
        match ty {
            1 => { w.le(n as u64, 8); for _ in 0..3 { w.f64(-1.0).f64(1.0); } w.le(p as u64, 1).le(p as u64, 1).le(p as u64, 1).raw(&pk(3, 0)); }
            3 => { w.le(n as u64, 8).le(p as u64, 1).raw(&pk(2, 3 * n)); }
            9 => { w.le(n as u64, 8).le(p as u64, 1).raw(&pk(2, 4 * n)); }
            5 => { w.le(p as u64, 1).le(n as u64, 8).raw(&pk(2, 0)); }
            15 | 24 | 2 | 4 | 6 | 10 | 25 => { if ty == 15 || ty == 24 { w.le(1, 1).raw(b"c"); } if ty == 25 { w.le(7, 1); } w.le(p as u64, 1).le(n as u64, 8); if minor > 1 { w.le(3, 8); } w.raw(&pk(1, 0)); }
            16 => { w.le(1, 1).raw(b"c").le(n as u64, 8).f64(0.0).f64(1.0).le(p as u64, 1).raw(&pk(1, 0)); }
            _ => { w.le(1, 1).raw(b"c").le(n as u64, 8).le(p as u64, 1).raw(&pk(4, 0)); }
        }
        let d = w.0;
        let cut = choice(0, d.len() as u32) as usize;
        let mut w = Wr::file(minor, 2);
        w.mesh(b"q", 2).seg(minor, ty, 0, &d[..cut]).seg(minor, 77, 0, &[0; 40]).mesh(b"r", 0);
        match rd(&w.0) { Ok(_) => { check(cut == d.len(), 1); cover(1); } Err(_) => { check(cut < d.len(), 2); cover(2); } }
    }
}
