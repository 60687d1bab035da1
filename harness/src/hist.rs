//! Histories: sequences of operations on one mesh.
use crate::rt::*;
use crate::idx::*;
use crate::ops::*;
use tmf::*;
fn close3(a: Vector3, b: Vector3, t: f64) -> bool { (a.0 as f64 - b.0 as f64).abs() <= t && (a.1 as f64 - b.1 as f64).abs() <= t && (a.2 as f64 - b.2 as f64).abs() <= t }
/// Vertices of a face much smaller than the others.
fn small(k: u32) -> Vector3 { [(0.5, 0.0, 100.0), (0.51, 0.0, 100.0), (0.5, 0.01, 100.0)][k as usize] }
/// Whether element i of `kind` is the original element k, up to the accumulated precision loss; u is the free coordinate of UV 0.
fn is(m: &TMFMesh, kind: u32, i: usize, k: u32, u: f32) -> bool {
    match kind {
        0 => if k >= 8 { close3(m.get_vertices().unwrap()[i], small(k - 8), 0.0045) } else { close3(m.get_vertices().unwrap()[i], pos(k), 0.35) },
        1 => close3(m.get_normals().unwrap()[i], dir(k), 0.05),
        2 => { let v = m.get_uvs().unwrap()[i]; let mut w = tex(k); if k == 0 { w.1 = u; } (v.0 as f64 - w.0 as f64).abs() <= 0.002 && (v.1 as f64 - w.1 as f64).abs() <= 0.002 }
        _ => { let v = m.get_tangents().unwrap()[i]; close3(v.0, dir(k), 0.05) && v.1 == tan(k).1 }
    }
}
struct State { m: TMFMesh, want: Vec<Vec<u32>>, has: [bool; 4], cust: Option<Vec<u32>>, u: f32, name: String }
fn inspect(s: &State, id: u32) {
    check(s.m.verify().is_ok(), id);
    for k in 0..4 {
        if !s.has[k as usize] { check(get_tri(&s.m, k).is_none() && len(&s.m, k).is_none(), id + 1); continue; }
        let t = get_tri(&s.m, k).unwrap();
        let w = &s.want[k as usize];
        check(t.len() == w.len(), id + 2);
        let l = len(&s.m, k).unwrap();
        for i in 0..t.len() { check((t[i] as usize) < l, id + 3); check(is(&s.m, k, t[i] as usize, w[i], s.u), id + 4 + k); }
    }
    match (&s.cust, s.m.lookup_custom_data("keep")) { (Some(c), Some(d)) => eq_idx(d.as_index().unwrap().0, c, id + 8), (None, None) => {} _ => check(false, id + 7) }
}
fn step(s: &mut State, op: u32) {
    match op {
        0 => s.m.reorder_data(),
        1 => s.m.unify_index_data(),
        2 => s.m.normalize(),
        3 => {
            let mut o = vec![];
            s.m.write_tmf_one(&mut o, &TMFPrecisionInfo::default(), &s.name[..]).unwrap();
            let (m, n) = TMFMesh::read_tmf_one(&mut &o[..]).unwrap();
            check(n == s.name, 50);
            s.m = m;
        }
        4 | 8 => {
            // one more face (a small one), of elements which are new: what it names is appended first
            for k in 0..4 {
                if !s.has[k as usize] { continue; }
                let l = len(&s.m, k).unwrap() as u32;
                match k { 0 if op == 4 => s.m.append_vertices(&[pos(5), pos(6)]), 0 => s.m.append_vertices(&[small(0), small(1), small(2)]), 1 => s.m.append_normals(&[dir(5), dir(6)]), 2 => s.m.append_uvs(&[tex(5), tex(6)]), _ => s.m.append_tangents(&[tan(5), tan(6)]) }
                let f = if k == 0 && op == 8 { [1, 2, 0] } else { [[1, 0, 1], [0, 1, 1], [1, 1, 0], [0, 0, 1]][k as usize] };
                let i = [l + f[0], l + f[1], l + f[2]];
                match k { 0 => s.m.append_vertex_triangles(&i), 1 => s.m.append_normal_triangles(&i), 2 => s.m.append_uv_triangles(&i), _ => s.m.append_tangent_triangles(&i) }
                let first = if k == 0 && op == 8 { 8 } else { 5 };
                s.want[k as usize].extend([first + f[0], first + f[1], first + f[2]]);
            }
        }
        5 => s.m = s.m.clone(),
        6 => for k in 0..4 { if s.has[k as usize] { match k { 0 => s.m.append_vertices(&[pos(7)]), 1 => s.m.append_normals(&[dir(7)]), 2 => s.m.append_uvs(&[tex(7)]), _ => s.m.append_tangents(&[tan(7)]) } } },
        7 => {
            // take everything out and put it back
            let v = s.m.set_vertices(vec![]).unwrap(); s.m.set_vertices(v);
            let v = s.m.set_normal_triangles(vec![]).unwrap(); s.m.set_normal_triangles(v);
            let v = s.m.set_uvs(vec![]).unwrap(); s.m.set_uvs(v);
            if s.has[3] { let v = s.m.set_tangent_triangles(vec![]).unwrap(); s.m.set_tangent_triangles(v); }
        }
        _ => {
            let mut o = vec![];
            s.m.write_obj_one(&mut o, &s.name).unwrap();
            let (m, n) = TMFMesh::read_from_obj_one(&mut &o[..]).unwrap();
            check(n == s.name, 51);
            s.m = m;
            s.has[3] = false;
            s.cust = None;
        }
    }
}
fn start(obj: bool, corners: u32) -> State {
    let mut m = TMFMesh::empty();
    for k in 0..4 { set_data(&mut m, k, 5); }
    let u = if obj { 0.4375 } else { bits(6) as f32 / 64.0 };
    let mut t: Vec<Vector2> = (0..5).map(tex).collect();
    t[0].1 = u;
    m.set_uvs(t);
    let (x, y) = (choice(0, corners - 1), choice(0, corners - 1));
    let want = vec![vec![2, x, 4, 1, 4, 2], vec![3, y, 1, 1, 1, x], vec![0, x, y, 4, 2, 0], vec![1, 4, 2, y, 2, 1]];
    for k in 0..4 { set_tri(&mut m, k, want[k as usize].clone()); }
    let c = vec![u32s(), 9];
    m.add_custom_data(CustomData::from(&c[..]), "keep").unwrap();
    State { m, want, has: [true; 4], cust: Some(c), u, name: "thing".into() }
}
entries! {
    /// A mesh of two faces with free corners, a free coordinate and free custom data; the operation `first`, then n arbitrary operations (0 to 8;
    /// 9, export to .obj and import, too when obj = 1): after each every corner has what it had, the mesh is sound, custom data is kept.
    fn h_hist(first, n, obj, corners) {
        let mut s = start(obj == 1, corners);
        inspect(&s, 1);
        step(&mut s, first);
        inspect(&s, 11);
        for _ in 0..n { step(&mut s, choice(0, if obj == 1 { 9 } else { 8 })); inspect(&s, 21); }
        cover(1);
    }
    /// A fixed history: the operations are the n octal (hex above 7) digits of a, last first; free corners as above.
    fn h_hist_of(a, n, obj, corners) {
        let mut s = start(obj == 1, corners);
        for i in 0..n { step(&mut s, a >> (4 * i) & 15); inspect(&s, 21); }
        cover(1);
    }
}
