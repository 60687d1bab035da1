use crate::rt::*;
use crate::idx::round_trip;
use tmf::*;
fn mode(i: u32) -> (f32, f32) { [(1024.0, 0.1), (256.0, 0.5), (16.0, 1.0), (2.0, 1.0), (1.0, 1.0), (1.0, 2.0), (3000.0, 0.3), (7.0, 0.9), (65536.0, 0.01), (65536.0, 0.0001), (1e6, 1e-6), (1e9, 1e-12)][i as usize] }
/// k/(2^b-1): both ends are included.
fn unit(b: u32) -> f32 { if b == 0 { 0.625 } else { bits(b) as f32 / ((1u32 << b) - 1) as f32 } }
fn info(i: u32) -> TMFPrecisionInfo { let mut p = TMFPrecisionInfo::default(); p.uv_prec = UvPrecisionMode::form_texture_resolution(mode(i).0, mode(i).1); p }
fn near(a: f32, b: f32, tol: f64, id: u32) { check((a as f64 - b as f64).abs() <= tol, id); }
entries! {
    /// One pair on a grid of ubits and vbits in 0..=1: the error is within the pixel deviation, results stay in range and a second save changes nothing.
    fn h_uv(m, ubits, vbits) {
        let uv = (unit(ubits), unit(vbits));
        let mut a = TMFMesh::empty();
        a.set_uvs(vec![uv]);
        let p = info(m);
        let b = round_trip(&a, &p);
        check(b.get_uv_triangles().is_none() && b.get_vertices().is_none() && b.get_normals().is_none(), 3);
        let r = b.get_uvs().unwrap();
        check(r.len() == 1, 1);
        let tol = mode(m).1 as f64 / mode(m).0 as f64 + 1e-6;
        near(r[0].0, uv.0, tol, 2); near(r[0].1, uv.1, tol, 2);
        check(r[0].0 >= 0.0 && r[0].0 <= 1.0 && r[0].1 >= 0.0 && r[0].1 <= 1.0, 4);
        let c = round_trip(&b, &p);
        let s = c.get_uvs().unwrap();
        check(s.len() == 1 && s[0].0 == r[0].0 && s[0].1 == r[0].1, 6);
        cover(1);
    }
    /// The corners come back exactly in every mode.
    fn h_uv_corner(lo, hi) {
        let m = choice(lo, hi);
        let uv = (choice(0, 1) as f32, choice(0, 1) as f32);
        let mut a = TMFMesh::empty();
        a.set_uvs(vec![(0.5, 0.25), uv]);
        let b = round_trip(&a, &info(m));
        let r = b.get_uvs().unwrap();
        check(r.len() == 2, 1);
        // a mode whose deviation is the whole texture stores nothing
        if mode(m).0 > mode(m).1 { check(r[1].0 == uv.0 && r[1].1 == uv.1, 5); }
        cover(1);
    }
    /// Any resolution and pixel deviation on a grid.
    fn h_uv_mode(lo, hi, ubits) {
        let res = choice(lo, hi) as f32;
        let dev = (bits(12 - ubits) + 1) as f32 / 16.0;
        let u = unit(ubits);
        let mut a = TMFMesh::empty();
        a.set_uvs(vec![(u, 1.0 - u)]);
        let mut p = TMFPrecisionInfo::default();
        p.uv_prec = UvPrecisionMode::form_texture_resolution(res, dev);
        let b = round_trip(&a, &p);
        let r = b.get_uvs().unwrap();
        let tol = dev as f64 / res as f64 + 1e-6;
        near(r[0].0, u, tol, 2); near(r[0].1, 1.0 - u, tol, 2);
        cover(1);
    }
    /// n pairs, the one at `pos` symbolic: count, order and precision.
    fn h_uv_many(n, pos, m, ubits) {
        let mut v = vec![];
        for i in 0..n { let k = (i * 37 % 101) as f32 / 100.0; v.push((k, 1.0 - k)); }
        v[pos as usize] = (unit(ubits), unit(12 - ubits));
        let mut a = TMFMesh::empty();
        a.set_uvs(v.clone());
        let b = round_trip(&a, &info(m));
        let r = b.get_uvs().unwrap();
        check(r.len() == v.len(), 1);
        let tol = mode(m).1 as f64 / mode(m).0 as f64 + 1e-6;
        for i in 0..r.len().min(v.len()) { near(r[i].0, v[i].0, tol, 2); near(r[i].1, v[i].1, tol, 2); }
        cover(1);
    }
    /// A pair which is not in range at all (arbitrary bits, NaN and infinities included) spoils nothing but itself.
    fn h_uv_wild(m) {
        let w = (f32s(), f32s());
        let mut a = TMFMesh::empty();
        a.set_uvs(vec![(0.25, 0.75), w, (1.0, 0.0)]);
        let b = round_trip(&a, &info(m));
        let r = b.get_uvs().unwrap();
        check(r.len() == 3, 1);
        let tol = mode(m).1 as f64 / mode(m).0 as f64 + 1e-6;
        near(r[0].0, 0.25, tol, 2); near(r[0].1, 0.75, tol, 2); near(r[2].0, 1.0, tol, 2); near(r[2].1, 0.0, tol, 2);
        check(r[1].0 >= 0.0 && r[1].0 <= 1.0 && r[1].1 >= 0.0 && r[1].1 <= 1.0, 4);
        cover(1);
    }
}
