//! Triangulation of .obj faces (feature `triangulation`).
use crate::rt::*;
use tmf::*;
/// Reads one face of n corners at the given points; returns its vertex, normal and uv triangles.
fn read(p: &[(i32, i32, i32)], off: u32) -> (TMFMesh, Vec<u32>) {
    let mut t = String::new();
    for _ in 0..off { t.push_str("v 50 50 50\nvn 0 0 1\nvt 0 0\n"); }
    for (x, y, z) in p { t.push_str(&format!("v {x} {y} {z}\nvn 0 0 1\nvt 0 0\n")); }
    t.push_str("vn 1 0 0\nvt 1 1\nf");
    let n = p.len() as u32;
    for i in 0..n { t.push_str(&format!(" {}/{}/{}", i + 1 + off, n - i + off, (i + 1) % n + 1 + off)); }
    t.push('\n');
    let (m, _) = TMFMesh::read_from_obj_one(&mut t.as_bytes()).unwrap();
    let v = m.get_vertex_triangles().unwrap().to_vec();
    (m, v)
}
/// `t` triangulates the polygon 0..n: n-2 triangles of three different corners each, every side of the polygon is a side of exactly
/// one triangle and runs the same way, every other side is shared by two triangles which run opposite ways.
fn triangulation(t: &[u32], n: u32, id: u32) {
    check(t.len() as u32 == 3 * (n - 2), id);
    let mut e = vec![];
    for f in t.chunks(3) {
        if f.len() < 3 { check(false, id); return; }
        check(f[0] != f[1] && f[1] != f[2] && f[2] != f[0], id + 1);
        for (a, b) in [(f[0], f[1]), (f[1], f[2]), (f[2], f[0])] { check(a < n && b < n, id + 2); e.push((a, b)); }
    }
    for (i, x) in e.iter().enumerate() { for y in &e[..i] { check(x != y, id + 3); } }
    for i in 0..n { check(e.contains(&(i, (i + 1) % n)), id + 4); }
    for (a, b) in &e { check((a + 1) % n == *b || e.contains(&(*b, *a)), id + 5); }
}
fn attrs(m: &TMFMesh, v: &[u32], n: u32, off: u32) {
    let (nt, ut) = (m.get_normal_triangles().unwrap(), m.get_uv_triangles().unwrap());
    check(nt.len() == v.len() && ut.len() == v.len(), 20);
    // unused leading elements are dropped from all three arrays by the importer
    let _ = off;
    for i in 0..v.len().min(nt.len()).min(ut.len()) { check(ut[i] == n - 1 - v[i], 21); check(nt[i] == (v[i] + 1) % n, 22); }
}
const CONVEX: [(i32, i32); 8] = [(10, 0), (7, 7), (0, 10), (-7, 7), (-10, 0), (-7, -7), (0, -10), (7, -7)];
entries! {
    /// Any polygon of n corners on a grid of 2^b per axis, degenerate and concave ones included: a triangulation whose corners keep their normals and UVs.
    fn h_tri_any(n, b) {
        let mut p = vec![];
        for _ in 0..n { p.push((choice(0, (1 << b) - 1) as i32, choice(0, (1 << b) - 1) as i32, 0)); }
        let (m, v) = read(&p, 0);
        triangulation(&v, n, 1);
        attrs(&m, &v, n, 0);
        cover(1);
    }
    /// A convex polygon of n of eight corners, in both directions, in each plane, moved by `off` leading elements: besides being a
    /// triangulation no triangle is turned over.
    fn h_tri_convex(n, off) {
        let plane = choice(0, 2);
        let rev = choice(0, 1);
        let s = choice(0, 7) as usize;
        let skip = choice(0, 8 - n) as usize;
        let mut q = vec![];
        for i in 0..n as usize { q.push(CONVEX[(s + i + if i > 1 { skip } else { 0 }) % 8]); }
        if rev == 1 { q.reverse(); }
        let p: Vec<(i32, i32, i32)> = q.iter().map(|(x, y)| match plane { 0 => (*x, *y, 3), 1 => (4, *x, *y), _ => (*y, -5, *x) }).collect();
        let (m, v) = read(&p, off);
        let v: Vec<u32> = v.clone();
        triangulation(&v, n, 1);
        attrs(&m, &v, n, off);
        let mut total = 0i64;
        for f in v.chunks(3) {
            let (a, b, c) = (q[f[0] as usize], q[f[1] as usize], q[f[2] as usize]);
            let area = ((b.0 - a.0) as i64) * ((c.1 - a.1) as i64) - ((c.0 - a.0) as i64) * ((b.1 - a.1) as i64);
            check(if rev == 1 { area < 0 } else { area > 0 }, 30);
            total += area.abs();
        }
        let mut whole = 0i64;
        for i in 0..n as usize { let (a, b) = (q[i], q[(i + 1) % n as usize]); whole += (a.0 * b.1 - b.0 * a.1) as i64; }
        check(total == whole.abs(), 31);
        cover(1);
    }
    /// Angles are arbitrary numbers (not even numbers): the result is a triangulation all the same.
    fn h_tri_opaque(n) {
        opaque_all();
        let p: Vec<(i32, i32, i32)> = (0..n).map(|i| (CONVEX[i as usize].0, CONVEX[i as usize].1, 0)).collect();
        let (m, v) = read(&p, 0);
        triangulation(&v, n, 1);
        attrs(&m, &v, n, 0);
        cover(1);
    }
    /// Faces of three, four and five corners in one file, in a free order: every one gets its own triangles, in file order.
    fn h_tri_mixed() {
        let mut t = String::new();
        for (x, y) in CONVEX { t.push_str(&format!("v {x} {y} 0\nvn 0 0 1\nvt 0.5 0\n")); }
        let mut want = vec![];
        for _ in 0..3 {
            let n = choice(3, 6);
            let s = choice(0, 2);
            t.push('f');
            for i in 0..n { t.push_str(&format!(" {0}/{0}/{0}", (i + s) % 8 + 1)); }
            t.push('\n');
            want.push((n, s));
        }
        let (m, _) = TMFMesh::read_from_obj_one(&mut t.as_bytes()).unwrap();
        let v = m.get_vertex_triangles().unwrap();
        let base = want.iter().map(|x| x.1).min().unwrap();
        let mut at = 0usize;
        for (n, s) in want {
            let k = 3 * (n as usize - 2);
            check(at + k <= v.len(), 1);
            let f: Vec<u32> = v[at..at + k].iter().map(|x| (x + base + 8 - s) % 8).collect();
            triangulation(&f, n, 2);
            at += k;
        }
        check(at == v.len(), 9);
        check(m.verify().is_ok(), 10);
        cover(1);
    }
    /// A face naming a missing vertex is refused, or found by the integrity check when it has three corners.
    fn h_tri_dangling(n) {
        let mut t = String::new();
        for (x, y) in &CONVEX[..4] { t.push_str(&format!("v {x} {y} 0\nvn 0 0 1\nvt 0.5 0\n")); }
        let at = choice(0, n - 1);
        let k = choice(0, 9);
        t.push('f');
        for i in 0..n { t.push_str(&format!(" {}/1/1", if i == at { k } else { i % 4 + 1 })); }
        t.push('\n');
        let r = TMFMesh::read_from_obj_one(&mut t.as_bytes());
        if k > 4 { check(match &r { Err(_) => true, Ok((m, _)) => n == 3 && m.verify().is_err() }, 1); cover(2); }
        if k >= 1 && k <= 4 { check(r.is_ok(), 2); cover(1); }
    }
    /// A convex polygon of n corners on a parabola, cut at a free place, in both directions, one or two of them in the file.
    fn h_tri_large(n, lo, hi) {
        let s = choice(lo, hi) as i32;
        let rev = choice(0, 1) == 1;
        let k = n as i32;
        let q: Vec<(i32, i32)> = (0..k).map(|i| { let i = (if rev { k - 1 - i } else { i } + s) % k; (i * 4, i * i) }).collect();
        let p: Vec<(i32, i32, i32)> = q.iter().map(|(x, y)| (*x, *y, 7)).collect();
        let (m, v) = read(&p, 0);
        triangulation(&v, n, 1);
        attrs(&m, &v, n, 0);
        for f in v.chunks(3) {
            let (a, b, c) = (q[f[0] as usize], q[f[1] as usize], q[f[2] as usize]);
            let area = ((b.0 - a.0) as i64) * ((c.1 - a.1) as i64) - ((c.0 - a.0) as i64) * ((b.1 - a.1) as i64);
            check(if rev { area < 0 } else { area > 0 }, 30);
        }
        cover(1);
    }
}
