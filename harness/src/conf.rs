//! Soundness after loading, compactness, agreement of the ways to save and load.
use crate::rt::*;
use crate::idx::*;
use crate::spec::*;
use crate::file::{rd, ser};
use crate::ops::{dir, pos, tan, tex};
use tmf::*;
use std::mem::discriminant;
fn u64bits(n: u32) -> u64 { if n == 0 { 0 } else { u64s() & (u64::MAX >> (64 - n)) } }
fn file(ty: u64, d: &[u8]) -> Vec<u8> { let mut w = Wr::file(2, 1); w.mesh(b"q", 1).seg(2, ty, 0, d); w.0 }
fn payload<'a>(m: &'a Mesh, ty: u64) -> Vec<&'a [u8]> { m.segs.iter().filter(|s| s.ty == ty).map(|s| s.data).collect() }
fn bytes(bits: u64) -> usize { ((bits + 7) / 8) as usize }
/// Bits the number takes.
fn width(x: u64) -> u64 { 64 - x.leading_zeros() as u64 }
fn mesh(which: u32, x: u32) -> TMFMesh {
    let mut m = TMFMesh::empty();
    if which & 1 == 1 { m.set_vertices((0..4).map(pos).collect::<Vec<_>>()); m.set_vertex_triangles(vec![0, 1, 2, 3, 2, x]); }
    if which & 2 == 2 { m.set_normals((0..4).map(dir).collect::<Vec<_>>()); m.set_normal_triangles(vec![x, 1, 2]); }
    if which & 4 == 4 { m.set_uvs((0..4).map(tex).collect::<Vec<_>>()); m.set_uv_triangles(vec![0, 1, x]); m.set_tangents((0..4).map(tan).collect::<Vec<_>>()); m.set_tangent_triangles(vec![0, x, 3]); }
    if which & 8 == 8 { m.add_custom_data(CustomData::from(&[x, 1][..]), "cd").unwrap(); }
    m
}
fn setting(v: u32, n: u32, u: u32, t: u32) -> TMFPrecisionInfo {
    let vp = [0.1f32, 1.0, 4.0, 0.001, 1e-9, 1e30][v as usize];
    let np = [1.0f32, 45.0, 90.0, 1e6, 0.01, 1e-12][n as usize];
    let up = [(1024.0f32, 0.1f32), (2.0, 1.0), (16.0, 3.0), (8192.0, 0.01), (1e9, 1e-9), (4.0, 0.9)][u as usize];
    let tp = [1.0f32, 45.0, 90.0, 1e6, 0.01, 1e-12][t as usize];
    TMFPrecisionInfo { vertex_precision: VertexPrecisionMode(vp), normal_precision: NormalPrecisionMode::from_deg_dev(np), uv_prec: UvPrecisionMode::form_texture_resolution(up.0, up.1), tangent_prec: TangentPrecisionMode::from_deg_dev(tp) }
}
fn eq(a: &[u8], b: &[u8], id: u32) { check(a.len() == b.len(), id); let mut ok = true; for i in 0..a.len().min(b.len()) { ok &= a[i] == b[i]; } check(ok, id + 1); }
fn same_mesh(a: &TMFMesh, b: &TMFMesh, id: u32) {
    // values which are no numbers count as equal
    let f = |x: f32, y: f32| x == y || x.is_nan() && y.is_nan();
    let v3 = |x: &Vector3, y: &Vector3| f(x.0, y.0) && f(x.1, y.1) && f(x.2, y.2);
    match (a.get_vertices(), b.get_vertices()) { (Some(x), Some(y)) => { check(x.len() == y.len(), id); for i in 0..x.len() { check(v3(&x[i], &y[i]), id); } } (x, y) => check(x.is_none() && y.is_none(), id) }
    match (a.get_normals(), b.get_normals()) { (Some(x), Some(y)) => { check(x.len() == y.len(), id); for i in 0..x.len() { check(v3(&x[i], &y[i]), id); } } (x, y) => check(x.is_none() && y.is_none(), id) }
    match (a.get_uvs(), b.get_uvs()) { (Some(x), Some(y)) => { check(x.len() == y.len(), id); for i in 0..x.len() { check(f(x[i].0, y[i].0) && f(x[i].1, y[i].1), id); } } (x, y) => check(x.is_none() && y.is_none(), id) }
    match (a.get_tangents(), b.get_tangents()) { (Some(x), Some(y)) => { check(x.len() == y.len(), id); for i in 0..x.len() { check(v3(&x[i].0, &y[i].0) && f(x[i].1, y[i].1), id); } } (x, y) => check(x.is_none() && y.is_none(), id) }
    for k in 0..4 { match (get_tri(a, k), get_tri(b, k)) { (Some(x), Some(y)) => eq_idx(x, y, id + 1), (None, None) => {} _ => check(false, id + 3) } }
    match (a.lookup_custom_data("cd"), b.lookup_custom_data("cd")) { (Some(x), Some(y)) => eq_idx(x.as_index().unwrap().0, y.as_index().unwrap().0, id + 4), (None, None) => {} _ => check(false, id + 6) }
}
fn same_read(a: &Result<Vec<(TMFMesh, String)>, TMFImportError>, b: &Result<Vec<(TMFMesh, String)>, TMFImportError>, id: u32) {
    match (a, b) {
        (Ok(x), Ok(y)) => { check(x.len() == y.len(), id); for (p, q) in x.iter().zip(y) { check(p.1 == q.1, id + 1); same_mesh(&p.0, &q.0, id + 2); } }
        (Err(x), Err(y)) => check(discriminant(x) == discriminant(y), id + 9),
        _ => check(false, id + 10),
    }
}
/// What the single mesh call has to return, given what the other one does.
fn one_of(all: &Result<Vec<(TMFMesh, String)>, TMFImportError>, one: &Result<(TMFMesh, String), TMFImportError>, id: u32) {
    match (all, one) {
        (Ok(v), Ok((m, n))) => { check(v.len() == 1, id); check(v[0].1 == *n, id + 1); same_mesh(&v[0].0, m, id + 2); }
        (Ok(v), Err(e)) => check(if v.is_empty() { matches!(e, TMFImportError::NoMeshes) } else { v.len() > 1 && matches!(e, TMFImportError::TooManyMeshes) }, id + 9),
        (Err(x), Err(y)) => check(discriminant(x) == discriminant(y), id + 10),
        (Err(_), Ok(_)) => check(false, id + 11),
    }
}
fn everything(b: &[u8]) {
    let all = rd(b);
    let asy = futures::executor::block_on(TMFMesh::read_tmf_async(&mut &b[..]));
    same_read(&all, &asy, 1);
    one_of(&all, &TMFMesh::read_tmf_one(&mut &b[..]), 21);
    one_of(&all, &futures::executor::block_on(TMFMesh::read_tmf_one_async(&mut &b[..])), 41);
    cover(if all.is_ok() { 1 } else { 2 });
}
/// Where the number of elements stands in a payload.
fn count_at(ty: u64) -> u32 { match ty { 1 | 3 | 9 => 0, 25 | 16 | 23 => 2, 15 | 24 => 3, _ => 1 } }
/// Where the file of sound meshes has its counts and lengths.
fn counts(b: &[u8]) -> Vec<usize> {
    let at = |x: &[u8]| x.as_ptr() as usize - b.as_ptr() as usize;
    let mut v = vec![11];
    for m in parse(b) { for s in &m.segs { let p = at(s.data); v.push(p - 5); v.push(p + if s.ty > 10 && s.ty < 25 { count_at(s.ty) as usize - 1 + s.data[0] as usize } else { count_at(s.ty) as usize }); } }
    v
}
/// Where it says how what follows is to be cut.
fn frame(b: &[u8]) -> Vec<usize> {
    let at = |x: &[u8]| x.as_ptr() as usize - b.as_ptr() as usize;
    let mut v = vec![7, 8, 9, 10];
    for m in parse(b) {
        let p = at(m.name);
        v.extend([p - 2, p - 1, p + m.name.len(), p + m.name.len() + 1]);
        for s in &m.segs { let p = at(s.data); v.extend([p - 6, p - 5, p - 4, p]); }
    }
    v
}
entries! {
    /// Normals as stored at p bits, of which the lowest f are free for the angle and the height and the others all equal (zero or one):
    /// what is read is a unit vector, which the integrity check accepts. The same for tangents.
    fn h_sound_nrm(p, f) {
        let m = u64::MAX >> (64 - p);
        let v = |b: u32| { let l = bits(f) as u64; if b == 1 { m & !((1u64 << f) - 1) | l } else { l } };
        let (a, z) = (v(if f < p { choice(0, 1) } else { 0 }), v(if f < p { choice(0, 1) } else { 0 }));
        let s = bits(3) as u64;
        let mut w = Wr::default();
        w.le(1, 8).le(p as u64, 1).raw(&pack(&[(s, 3), (a, p), (z, p)]));
        let r = rd(&file(3, &w.0)).unwrap();
        check(r[0].0.verify().is_ok(), 1);
        let mut w = Wr::default();
        w.le(1, 8).le(p as u64, 1).raw(&pack(&[(1, 1), (s, 3), (a, p), (z, p)]));
        let r = rd(&file(9, &w.0)).unwrap();
        let t = r[0].0.get_tangents().unwrap()[0];
        check(t.1.abs() == 1.0, 2);
        let l = t.0 .0 as f64 * t.0 .0 as f64 + t.0 .1 as f64 * t.0 .1 as f64 + t.0 .2 as f64 * t.0 .2 as f64;
        check((l - 1.0).abs() <= 0.001, 3);
        cover(1);
    }
    /// The same with the height free in all its p bits, at one of four angles.
    fn h_sound_nrm_z(p, at) {
        let m = u64::MAX >> (64 - p);
        let a = [0, m, m / 3, m / 2][at as usize];
        let z = u64bits(p);
        let mut w = Wr::default();
        w.le(1, 8).le(p as u64, 1).raw(&pack(&[(5, 3), (a, p), (z, p)]));
        let r = rd(&file(3, &w.0)).unwrap();
        check(r[0].0.verify().is_ok(), 1);
        cover(1);
    }
    /// The same with the angle free in all its p bits, at any of four heights.
    fn h_sound_nrm_a(p) {
        let m = u64::MAX >> (64 - p);
        let z = [0, m, m / 3, m / 2][choice(0, 3) as usize];
        let a = u64bits(p);
        let mut w = Wr::default();
        w.le(1, 8).le(p as u64, 1).raw(&pack(&[(5, 3), (a, p), (z, p)]));
        let r = rd(&file(3, &w.0)).unwrap();
        check(r[0].0.verify().is_ok(), 1);
        cover(1);
    }
    /// Every combination of absent, empty and used arrays of a sound mesh: sound after saving and loading, with arrays of the same lengths.
    fn h_sound_empty(lo, hi) {
        let mut m = TMFMesh::empty();
        for k in 0..4 {
            let c = if k == 0 { choice(lo, hi) } else { choice(0, 5) };
            if c > 0 { crate::ops::set_data(&mut m, k, if c > 2 { 3 } else { 0 }); }
            if c == 2 || c == 4 { set_tri(&mut m, k, vec![]); }
            if c == 5 { set_tri(&mut m, k, vec![0, 2, 1]); }
        }
        check(m.verify().is_ok(), 1);
        let r = round_trip(&m, &TMFPrecisionInfo::default());
        check(r.verify().is_ok(), 2);
        for k in 0..4 {
            check(crate::ops::len(&m, k).unwrap_or(0) == crate::ops::len(&r, k).unwrap_or(0), 3);
            check(get_tri(&m, k).map_or(0, |t| t.len()) == get_tri(&r, k).map_or(0, |t| t.len()), 4);
        }
        cover(1);
    }
    /// A box which begins (or ends, neg = 1) close to zero, compared to its size: what is loaded is inside.
    fn h_sound_box(axis, neg, scale) {
        let big = [4096.0f32, 1e7, 3.0][scale as usize];
        let e = (1 + bits(8)) as f32 / 1024.0;
        let (lo, hi) = if neg == 1 { (-big, -e) } else { (e, big) };
        let put = |x: f32| { let mut v = [1.0f32, -1.0, 0.0]; v[axis as usize] = x; (v[0], v[1], v[2]) };
        let mut m = TMFMesh::empty();
        m.set_vertices(vec![put(lo), put(hi), put(lo + (hi - lo) * 0.25)]);
        let r = round_trip(&m, &TMFPrecisionInfo { vertex_precision: VertexPrecisionMode([0.1, 1e-4, 100.0][choice(0, 2) as usize]), ..Default::default() });
        let v = r.get_vertices().unwrap();
        check(v.len() == 3, 1);
        for q in v {
            let c = [q.0, q.1, q.2];
            check(c[axis as usize] >= lo, 2);
            check(c[axis as usize] as f64 <= hi as f64 + big as f64 / 4e6, 3);
            for o in 0..3 { if o != axis as usize { check(c[o] == [1.0, -1.0, 0.0][o], 4); } }
        }
        cover(1);
    }
    /// UV coordinates of any stored content at p bits are within 0..=1.
    fn h_sound_uv(p) {
        let (x, y) = (u64bits(p), u64bits(p));
        let mut w = Wr::default();
        w.le(p as u64, 1).le(1, 8).raw(&pack(&[(x, p), (y, p)]));
        let r = rd(&file(5, &w.0)).unwrap();
        let v = r[0].0.get_uvs().unwrap()[0];
        check(v.0 >= 0.0 && v.0 <= 1.0 && v.1 >= 0.0 && v.1 <= 1.0, 1);
        check(r[0].0.verify().is_ok(), 2);
        cover(1);
    }
    /// A sound mesh, some of its data and one index free, saved at any of six precisions per kind (which = 0: of vertices and normals, 1: of UVs
    /// and tangents), n times in a row: it is sound each time, with as many elements, the same indices, finite positions inside the box they had.
    fn h_sound_save(which, n, first) {
        let x = below(4);
        let mut m = mesh(15, x);
        let g = bits(3) as f32 / 8.0;
        m.append_vertices(&[(0.5 + 3.0 * g, -1.0, 100.0 + g)]);
        m.append_uvs(&[(g, 1.0)]);
        let o = m.clone();
        for i in 0..n {
            let (a, b) = (if i == 0 { first } else { choice(0, 5) }, choice(0, 5));
            let p = if which == 0 { setting(a, b, 0, 0) } else { setting(0, 0, a, b) };
            m = round_trip(&m, &p);
            check(m.verify().is_ok(), 1);
            for k in 0..4 { eq_idx(get_tri(&m, k).unwrap(), get_tri(&o, k).unwrap(), 2); }
            check(m.get_vertices().unwrap().len() == 5 && m.get_normals().unwrap().len() == 4 && m.get_uvs().unwrap().len() == 5 && m.get_tangents().unwrap().len() == 4, 4);
            for v in m.get_vertices().unwrap() { check(v.0 >= 0.499 && v.0 <= 3.501 && v.1 >= -3.001 && v.1 <= 0.001 && v.2 >= 99.999 && v.2 <= 103.001, 5); }
        }
        cover(1);
    }
    /// Index arrays of n free elements: no wider than the largest needs, nothing but the packed values and the header; one segment when all
    /// take as many bits; the same array for normals and vertices costs one byte more than for vertices alone.
    fn h_small_idx(kind, n) {
        let v: Vec<u32> = (0..n).map(|_| u32s()).collect();
        order(&v);
        let mut m = TMFMesh::empty();
        set_tri(&mut m, kind, v.clone());
        let b = ser(&[(m.clone(), "q".into())]);
        let p = parse(&b);
        let segs = &p[0].segs;
        let w: Vec<u64> = v.iter().map(|x| split(width(*x as u64))).collect();
        if w.iter().all(|x| *x == w[0]) { check(segs.len() == 1, 1); }
        let mut at = 0;
        for s in segs {
            let bits = split(s.data[0] as u64);
            let c = split(s.data[1] as u64) as usize;
            let need = w[at..at + c].iter().copied().max().unwrap_or(0);
            check(bits <= need, 2);
            check(s.data.len() <= 17 + bytes(need * c as u64), 3);
            at += c;
        }
        check(at == v.len(), 4);
        if kind == 0 {
            let mut z = m.clone();
            z.set_normal_triangles(v.clone());
            check(ser(&[(z, "q".into())]).len() <= b.len() + segs.len(), 5);
        }
        cover(1);
    }
    /// n indices, all but one of at most b bits: the file takes no more than the packed values and what the parts cost.
    fn h_small_long(kind, n, b, q) {
        let mut v: Vec<u32> = (0..n).map(|i| (i.wrapping_mul(2654435761) >> 8) & ((1 << b) - 1)).collect();
        v[q as usize] = bits(b);
        v[0] = (1 << b) - 1;
        v[n as usize - 1] = (1 << b) - 1;
        let mut m = TMFMesh::empty();
        set_tri(&mut m, kind, v.clone());
        let f = ser(&[(m, "q".into())]);
        let p = parse(&f);
        let mut at = 0;
        for s in &p[0].segs {
            let bits = split(s.data[0] as u64);
            let mut r = Rd::new(&s.data[1..]);
            let c = split(r.le(8)) as usize;
            let need = v[at..at + c].iter().map(|x| width(*x as u64)).max().unwrap_or(0);
            check(bits <= need, 2);
            check(s.data.len() <= 17 + bytes(need * c as u64), 3);
            at += c;
        }
        check(at == v.len(), 4);
        cover(1);
    }
    /// Normals, tangents and UVs take the fewest bits which meet the deviation asked for: 10^-e .. of 2^-24 fractions, k of 3 kinds.
    fn h_small_data(kind, lo, hi) {
        let d = (1 + bits(8)) as f32 * [1e-3f32, 0.05, 0.4][choice(lo, hi) as usize];
        let mut m = TMFMesh::empty();
        let mut pr = TMFPrecisionInfo::default();
        match kind {
            0 => { m.set_normals((0..3).map(dir).collect::<Vec<_>>()); pr.normal_precision = NormalPrecisionMode::from_deg_dev(d); }
            1 => { m.set_tangents((0..3).map(tan).collect::<Vec<_>>()); pr.tangent_prec = TangentPrecisionMode::from_deg_dev(d); }
            _ => { m.set_uvs((0..3).map(tex).collect::<Vec<_>>()); pr.uv_prec = UvPrecisionMode::form_texture_resolution(90.0, d); }
        }
        let mut o = vec![];
        m.write_tmf_one(&mut o, &pr, "q").unwrap();
        let p = parse(&o);
        let s = p[0].segs[0].data;
        let bits = split(if kind == 2 { s[0] } else { s[8] } as u64);
        // 2^(bits-1) < 90/d, with room for the rounding of the logarithm
        check(bits <= 1 || (1u64 << (bits - 1)) as f64 * d as f64 <= 90.0 * 1.00001, 1);
        let per = [3 + 2 * bits, 4 + 2 * bits, 2 * bits][kind as usize];
        check(p[0].segs.len() == 1 && s.len() <= 9 + bytes(per * 3), 2);
        cover(1);
    }
    /// The same for deviations in radians, between the powers of two: k of 10 bits.
    fn h_small_rad(kind, lo, hi) {
        let d = std::f32::consts::FRAC_PI_2 / (1u32 << choice(lo, hi)) as f32 * (1.0 + (1 + bits(10)) as f32 / 1100.0);
        let mut m = TMFMesh::empty();
        let mut pr = TMFPrecisionInfo::default();
        if kind == 0 { m.set_normals((0..3).map(dir).collect::<Vec<_>>()); pr.normal_precision = NormalPrecisionMode::from_rad_dev(d); }
        else { m.set_tangents((0..3).map(tan).collect::<Vec<_>>()); pr.tangent_prec = TangentPrecisionMode::from_rad_dev(d); }
        let mut o = vec![];
        m.write_tmf_one(&mut o, &pr, "q").unwrap();
        let p = parse(&o);
        let s = p[0].segs[0].data;
        let bits = split(s[8] as u64);
        check(bits <= 1 || (1u64 << (bits - 1)) as f64 * d as f64 <= std::f64::consts::FRAC_PI_2 * 1.00001, 1);
        // and enough of them
        check((1u64 << bits) as f64 * d as f64 >= std::f64::consts::FRAC_PI_2 * 0.99999, 2);
        cover(1);
    }
    /// Equal index arrays of n elements, one of them free, in the kinds of `mask`: they take the room of one, and a byte per segment.
    fn h_small_equal(mask, n, p) {
        let mut v: Vec<u32> = (0..n).map(|i| i.wrapping_mul(2654435761) >> 20).collect();
        v[0] = 0; v[1] = 4095; v[p as usize] = bits(11);
        let mut one = TMFMesh::empty();
        one.set_vertex_triangles(v.clone());
        let a = ser(&[(one, "q".into())]);
        let mut m = TMFMesh::empty();
        for k in 0..4 { if mask >> k & 1 == 1 { set_tri(&mut m, k, v.clone()); } }
        let b = ser(&[(m, "q".into())]);
        check(b.len() <= a.len() + parse(&a)[0].segs.len(), 1);
        cover(1);
    }
    /// Vertices take the fewest bits per axis which meet the precision: boxes of free size, an edge of free length.
    fn h_small_vtx(prec) {
        let pr = [0.1f32, 0.5, 1.0, 0.003][prec as usize];
        let s = [(1 + bits(6)) as f32 * 0.25, 3.0, (1 + bits(4)) as f32 * 64.0];
        let mut m = TMFMesh::empty();
        let v = vec![(0.0, 0.0, 0.0), (s[0], 0.0, 0.0), (s[0], s[1], 0.0), (0.0, 0.0, s[2])];
        m.set_vertices(v);
        m.set_vertex_triangles(vec![0, 1, 2]);
        let e = s[0].min(s[1]) as f64;
        let mut o = vec![];
        m.write_tmf_one(&mut o, &TMFPrecisionInfo { vertex_precision: VertexPrecisionMode(pr), ..Default::default() }, "q").unwrap();
        let p = parse(&o);
        let q = payload(&p[0], 1);
        check(q.len() == 1, 1);
        let d = q[0];
        let mut sum = 0;
        for k in 0..3 {
            let b = split(d[56 + k] as u64);
            check(b == 1 || (1u64 << (b - 1)) as f64 * e * pr as f64 <= s[k] as f64 * 1.00001, 2);
            sum += b;
        }
        check(d.len() <= 59 + bytes(4 * sum), 3);
        cover(1);
    }
    /// All ways to read agree on any file of n arbitrary bytes behind the header of one mesh.
    fn h_ways_any(meshes, n) {
        let mut w = Wr::file(2, meshes as u64);
        for _ in 0..n { w.0.push(u8s()); }
        everything(&w.0);
    }
    /// The same for a file of k meshes in which the byte at lo..=hi is arbitrary, or which ends there.
    fn h_ways_damaged(k, lo, hi) {
        let v: Vec<(TMFMesh, String)> = (0..k).map(|i| (mesh([15, 2, 4][i as usize], 3), ["one", "two", ""][i as usize].into())).collect();
        let mut b = ser(&v);
        let at = choice(lo, hi) as usize;
        if at >= b.len() { cover(1); return; }
        if choice(0, 1) == 1 { b.truncate(at); } else {
            // a count which makes the reader reserve a lot of memory is left out: it is either small or more than it accepts
            let keep = counts(&b).iter().map(|c| if at >= *c && at < c + 4 { at - c } else { 0 }).max().unwrap_or(0);
            if frame(&b).contains(&at) { cover(1); return; }
            let x = u8s();
            if keep > 1 { assume(x == 0 || keep == 3 && x > 0x80); }
            b[at] = x;
        }
        everything(&b);
    }
    /// The same for the payload of n arbitrary bytes of a segment of type ty.
    fn h_ways_seg(ty, n) {
        let c = count_at(ty as u64);
        let d: Vec<u8> = (0..n).map(|i| if i == c { 2 } else if i == 0 && [15, 16, 23, 24].contains(&ty) { 1 } else if i > c && i < c + 8 { 0 } else { u8s() }).collect();
        everything(&file(ty as u64, &d));
    }
    /// A mesh gives the same bytes whatever other meshes (none, one or two of free kinds) are in the file and wherever it stands, whoever writes it,
    /// and however often; its name and one index are free.
    fn h_ways_save(which, l) {
        let x = u32s();
        let m = mesh(which, x);
        let nm: String = (0..l).map(|_| bits(7) as u8 as char).collect();
        let mut o = vec![];
        m.write_tmf_one(&mut o, &TMFPrecisionInfo::default(), &nm[..]).unwrap();
        eq(&ser(&[(m.clone(), nm.clone())]), &o, 1);
        let mut before: Vec<(TMFMesh, String)> = vec![];
        let mut after = before.clone();
        let pre = choice(0, 2);
        if pre > 0 {
            let mut f = mesh(choice(1, 3), 2);
            // with much finer detail
            if pre == 2 { f.set_vertices((0..4).map(|i| { let v = pos(i); (v.0 / 64.0, v.1 / 64.0, v.2 / 64.0) }).collect::<Vec<_>>()); }
            before.push((f, "first".into()));
        }
        if choice(0, 1) == 1 { after.push((mesh(choice(4, 9), 0), nm.clone())); }
        let (sb, sa) = (ser(&before), ser(&after));
        let mut e = vec![];
        let count = before.len() + 1 + after.len();
        e.extend_from_slice(&o[..11]);
        e.extend_from_slice(&(count as u32).to_le_bytes());
        e.extend_from_slice(&sb[15..]);
        e.extend_from_slice(&o[15..]);
        e.extend_from_slice(&sa[15..]);
        let mut all = before;
        all.push((m.clone(), nm.clone()));
        all.extend(after);
        let b = ser(&all);
        eq(&b, &e, 3);
        eq(&ser(&all), &b, 5);
        // and it is left as it was
        same_mesh(&m, &mesh(which, x), 7);
        same_mesh(&all[count - 1].0, &all[count - 1].0.clone(), 7);
        cover(1);
    }
    /// Each setting governs its own kind: with one of the four settings changed, the bytes of the other kinds, of the indices and custom data stay.
    fn h_ways_setting(kind) {
        let m = mesh(15, below(4));
        let (a, b) = (choice(0, 5), choice(0, 5));
        let base = choice(0, 2) as usize;
        let s = |v: u32| { let mut q = [[0, 1, 0, 0], [2, 4, 3, 4], [1, 2, 1, 1]][base]; q[kind as usize] = v; setting(q[0], q[1], q[2], q[3]) };
        let w = |p: TMFPrecisionInfo| { let mut o = vec![]; m.write_tmf_one(&mut o, &p, "q").unwrap(); o };
        let (x, y) = (w(s(a)), w(s(b)));
        let (p, q) = (parse(&x), parse(&y));
        check(p[0].segs.len() == q[0].segs.len(), 1);
        for (i, j) in p[0].segs.iter().zip(&q[0].segs) {
            check(i.ty == j.ty, 2);
            if i.ty != [1, 3, 5, 9][kind as usize] { eq(i.data, j.data, 3); }
            else if a == b { eq(i.data, j.data, 5); }
        }
        cover(1);
    }
    /// The reader takes exactly the bytes of its file: two files after one another, and free bytes after them.
    fn h_ways_stream(n) {
        let x = u32s();
        let (a, b) = (vec![(mesh(9, x), "a".to_string())], (0..n).map(|i| (mesh(2 + 2 * i, x & 3), "b".to_string())).collect::<Vec<_>>());
        let mut f = ser(&a);
        f.extend(ser(&b));
        let end = f.len();
        for _ in 0..3 { f.push(u8s()); }
        let mut src = &f[..];
        let way = choice(0, 1);
        let (m, nm) = if way == 0 { TMFMesh::read_tmf_one(&mut src).unwrap() } else { futures::executor::block_on(TMFMesh::read_tmf_one_async(&mut src)).unwrap() };
        check(nm == "a", 1);
        eq_idx(m.get_vertex_triangles().unwrap(), &[0, 1, 2, 3, 2, x], 2);
        let r = if way == 0 { TMFMesh::read_tmf(&mut src).unwrap() } else { futures::executor::block_on(TMFMesh::read_tmf_async(&mut src)).unwrap() };
        check(r.len() == n as usize, 4);
        check(src.len() == f.len() - end, 5);
        for (i, (m, nm)) in r.iter().enumerate() { check(nm == "b", 6); check(m.get_normals().is_some() == (i % 2 == 0) && m.get_uvs().is_some() == (i > 0), 7); }
        cover(1);
    }
    /// .obj: the single mesh calls do what the others do with one mesh, writing twice gives the same text, and a mesh writes the same lines of its
    /// own wherever it stands.
    fn h_ways_obj(n) {
        let x = choice(0, 3);
        let mut m = mesh(7, x);
        let t = vec![x, 1, 2];
        m.set_vertex_triangles(t.clone()); m.set_normal_triangles(t.clone()); m.set_uv_triangles(vec![3, x, 0]);
        let v: Vec<(TMFMesh, String)> = (0..n).map(|i| (m.clone(), ["a", "b", "c"][i as usize].to_string())).collect();
        let w = |v: &[(TMFMesh, String)]| { let mut o = vec![]; TMFMesh::write_obj(v, &mut o).unwrap(); o };
        let o = w(&v);
        eq(&w(&v), &o, 1);
        if n == 1 { let mut p = vec![]; m.write_obj_one(&mut p, "a").unwrap(); eq(&p, &o, 3); }
        let all = TMFMesh::read_from_obj(&mut &o[..]);
        let one = TMFMesh::read_from_obj_one(&mut &o[..]);
        match (&all, &one) {
            (Ok(l), Ok((m1, nm))) => { check(l.len() == 1 && n <= 1, 5); check(l[0].1 == *nm, 6); same_mesh(&l[0].0, m1, 7); }
            (Ok(l), Err(_)) => check(l.len() != 1 && l.len() == n as usize, 17),
            (Err(_), Ok(_)) => check(false, 18),
            (Err(a), Err(b)) => check(a.kind() == b.kind(), 19),
        }
        cover(1);
    }
    /// The same for an .obj text of n arbitrary bytes (kind = 0), or which ends with them (1).
    fn h_ways_obj_text(kind, n) {
        let mut t = if kind == 1 { b"o a\nv 1 2 3\nvn 0 0 1\nvt 0 1\nf 1/1/1 1/1/1 1/1/1\n".to_vec() } else { vec![] };
        for _ in 0..n { t.push(u8s()); }
        let all = TMFMesh::read_from_obj(&mut &t[..]);
        let one = TMFMesh::read_from_obj_one(&mut &t[..]);
        match (&all, &one) {
            (Ok(l), Ok((m1, nm))) => { check(l.len() == 1, 5); check(l[0].1 == *nm, 6); same_mesh(&l[0].0, m1, 7); }
            (Ok(l), Err(_)) => check(l.len() != 1, 17),
            (Err(_), Ok(_)) => check(false, 18),
            (Err(a), Err(b)) => check(a.kind() == b.kind(), 19),
        }
        cover(if all.is_ok() { 1 } else { 2 });
    }
}
