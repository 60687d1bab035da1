use crate::rt::*;
use crate::idx::round_trip;
use tmf::*;
fn prec(i: u32) -> f32 { [0.1f32, 0.01, 0.5, 1.0, 0.001][i as usize] }
fn pi(p: f32) -> TMFPrecisionInfo { let mut pi = TMFPrecisionInfo::default(); pi.vertex_precision = VertexPrecisionMode(p); pi }
/// Symbolic value k/2^bits in 0..1.
fn unit(bits: u32) -> f32 { below(1 << bits) as f32 / (1u32 << bits) as f32 }
fn put(v: Vector3, axis: u32, x: f32) -> Vector3 { match axis { 0 => (x, v.1, v.2), 1 => (v.0, x, v.2), _ => (v.0, v.1, x) } }
fn at(v: Vector3, axis: u32) -> f32 { match axis { 0 => v.0, 1 => v.1, _ => v.2 } }
/// Every coordinate within `tol` of the original.
fn near(a: &[Vector3], b: &[Vector3], tol: f32, id: u32) {
    check(a.len() == b.len(), 1);
    for i in 0..a.len().min(b.len()) {
        for k in 0..3 {
            let (x, y) = (at(a[i], k), at(b[i], k));
            check((x - y).abs() <= tol, id);
        }
    }
}
entries! {
    /// A vertex anywhere (on a grid of 2^gbits) along one axis of a fixed box.
    fn h_vtx_axis(axis, pidx, gbits) {
        let g = unit(gbits);
        let p = prec(pidx);
        let t = match axis { 0 => (g * 4.0 - 1.0, 0.5, 0.25), 1 => (1.5, g * 2.0, 0.25), _ => (1.5, 0.25, g * 8.0 - 4.0) };
        let vs = vec![(-1.0, 0.0, -4.0), (3.0, 2.0, 4.0), t];
        let mut m = TMFMesh::empty();
        m.set_vertices(vs.clone());
        let m2 = round_trip(&m, &pi(p));
        check(m2.get_vertex_triangles().is_none() && m2.get_normals().is_none() && m2.get_uvs().is_none(), 3);
        near(m2.get_vertices().unwrap(), &vs, p * 0.1 + 1e-5, 2);
        cover(1);
    }
    /// n vertices with every coordinate on a grid of 2^gbits: the bounding box, its precision and the contents are symbolic.
    fn h_vtx_free(n, pidx, gbits) {
        let p = prec(pidx);
        let mut vs = vec![];
        for i in 0..n { let f = if i == 0 { -2.0 } else { 3.0 }; vs.push((unit(gbits) * f, unit(gbits) * 2.0 + 1.0, unit(gbits) - 4.0)); }
        let mut m = TMFMesh::empty();
        m.set_vertices(vs.clone());
        let m2 = round_trip(&m, &pi(p));
        near(m2.get_vertices().unwrap(), &vs, p * 0.1 + 1e-5, 2);
        cover(1);
    }
    /// The box spans [-a, b] on one axis for every a, b on a grid; a third vertex lies anywhere within (or beyond) it.
    fn h_vtx_box(axis, pidx, gbits, cbits) {
        let p = prec(pidx);
        let g = || choice(0, (1 << gbits) - 1) as f32 / (1u32 << gbits) as f32;
        let (a, b, c) = (g() * 8.0, g() * 8.0, unit(cbits) * 8.0);
        let vs = vec![put((1.0, 2.0, 3.0), axis, -a), put((1.5, 2.5, 3.5), axis, b), put((1.25, 2.25, 3.25), axis, c - 4.0)];
        let mut m = TMFMesh::empty();
        m.set_vertices(vs.clone());
        let m2 = round_trip(&m, &pi(p));
        near(m2.get_vertices().unwrap(), &vs, p * 0.1 + 1e-5, 2);
        cover(1);
    }
    /// A box of size `scale` (times 10^-4) on a grid of 2^gbits: tiny and huge models without faces.
    fn h_vtx_scale(axis, scale, pidx, gbits) {
        let p = prec(pidx);
        let s = scale as f32 * 1e-4;
        let x = unit(gbits) * s;
        let vs = vec![(0.0, 0.0, 0.0), (s, s, s), put((s * 0.25, s * 0.5, s * 0.75), axis, x)];
        let mut m = TMFMesh::empty();
        m.set_vertices(vs.clone());
        let m2 = round_trip(&m, &pi(p));
        near(m2.get_vertices().unwrap(), &vs, p * 0.1 + s * 1e-6, 2);
        cover(1);
    }
    /// A right triangle with symbolic legs (possibly degenerate) and a far vertex: the tolerance follows the shortest edge.
    fn h_vtx_edge(pidx, gbits, rot) {
        let p = prec(pidx);
        let (a, b) = (below(1 << gbits), below(1 << gbits));
        let c = unit(gbits);
        let k = 1.0 / 16.0;
        let (fa, fb) = (a as f32 * k, b as f32 * k);
        let r = |v: Vector3| match rot { 0 => v, 1 => (v.1, v.2, v.0), _ => (v.2, v.0, v.1) };
        let vs = vec![r((0.0, 0.0, 0.0)), r((fa, 0.0, 0.0)), r((0.0, fb, 0.0)), r((4.0 + c, 3.0, -5.0))];
        let mut m = TMFMesh::empty();
        m.set_vertices(vs.clone());
        m.set_vertex_triangles(match rot { 0 => vec![0, 1, 2], 1 => vec![1, 2, 0], _ => vec![2, 1, 0] });
        let m2 = round_trip(&m, &pi(p));
        let short = if a == 0 && b == 0 { 0.1 } else if a == 0 { fb } else if b == 0 { fa } else if a < b { fa } else { fb };
        near(m2.get_vertices().unwrap(), &vs, p * short + 1e-5, 2);
        cover(1);
    }
    /// Faces naming symbolic vertices (dangling ones and incomplete faces included): saving succeeds, count and order kept.
    fn h_vtx_faces(n) {
        let vs = vec![(0.0, 0.0, 0.0), (1.0, 0.0, 0.0), (0.0, 2.0, 0.0), (4.0, 3.0, -5.0)];
        let mut t = vec![];
        for _ in 0..n { t.push(choice(0, 4)); }
        let mut m = TMFMesh::empty();
        m.set_vertices(vs.clone());
        m.set_vertex_triangles(t.clone());
        let m2 = round_trip(&m, &pi(0.1));
        let d = |a: u32, b: u32| { let (a, b) = (a.min(b), a.max(b)); if a == b || b > 3 { f32::INFINITY } else { match (a, b) { (0, 1) => 1.0, (0, 2) => 2.0, (0, 3) => 7.0, (1, 2) => 2.236, (1, 3) => 6.55, _ => 6.4 } } };
        let mut short = f32::INFINITY;
        for i in 0..(n / 3) as usize { short = short.min(d(t[3 * i], t[3 * i + 1])).min(d(t[3 * i + 1], t[3 * i + 2])).min(d(t[3 * i + 2], t[3 * i])); }
        if short == f32::INFINITY { short = 0.1; }
        near(m2.get_vertices().unwrap(), &vs, 0.1 * short + 1e-5, 2);
        check(m2.get_vertex_triangles().unwrap() == &t[..], 4);
        cover(1);
    }
    /// n concrete vertices in a small region followed by n in a large one (the encoder splits them), with one symbolic
    /// vertex inside the region at place `pos`.
    fn h_vtx_many(n, pos, gbits, shape) {
        let mut vs = vec![];
        let mut s = 12345u32;
        let mut rnd = || { s = s.wrapping_mul(1664525).wrapping_add(1013904223); (s >> 16) as f32 / 65536.0 };
        let size = |i: u32| match shape { 0 => if i < n { 0.05 } else { 400.0 }, 1 => if i < n { 300.0 } else { 0.1 }, _ => if i < n / 2 { 0.02 } else if i < n { 2.0 } else if i < n + n / 2 { 90.0 } else { 600.0 } };
        for i in 0..2 * n {
            let k: f32 = size(i);
            if i % (n / 4) == 0 { vs.push((-k, -k, -k)); } else if i % (n / 4) == 1 { vs.push((k, k, k)); }
            else { vs.push((rnd() * k, rnd() * k - k * 0.5, rnd() * k * -0.9)); }
        }
        let g = unit(gbits) - 0.5;
        let k = size(pos);
        vs[pos as usize] = (g * k, g * k * -0.25, (g + 0.25) * k);
        let mut m = TMFMesh::empty();
        m.set_vertices(vs.clone());
        let m2 = round_trip(&m, &pi(0.1));
        near(m2.get_vertices().unwrap(), &vs, 0.01 + 4e-4, 2);
        cover(1);
    }
    /// Vertex arrays of length 0 and 1 with arbitrary (finite, moderate) coordinates.
    fn h_vtx_single(n, gbits) {
        let mut vs = vec![];
        for _ in 0..n { let e = unit(gbits) * 1000.0 - 500.0; vs.push((e, e * 0.5, 7.0 - e)); }
        let mut m = TMFMesh::empty();
        m.set_vertices(vs.clone());
        let m2 = round_trip(&m, &pi(0.1));
        match m2.get_vertices() { Some(v) => near(v, &vs, 0.01 + 1e-3, 2), None => check(n == 0, 5) }
        cover(1);
    }
    /// Boxes from 10^-7 to 10^20 along one axis and precisions from 10^-7 to 10: coarse, fine, and finer than single precision.
    fn h_vtx_fine(axis, slo, shi, gbits) {
        let s = [1e-7f32, 3e-6, 1e-4, 7e-4, 0.02, 1.0, 1234.0, 1e6, 3e9, 1e12, 1e20][choice(slo, shi) as usize];
        let p = [10.0f32, 0.1, 1e-3, 1e-5, 1e-7][choice(0, 4) as usize];
        let x = unit(gbits) * s;
        let vs = vec![put((0.5, 0.0, 1.0), axis, s), put((-0.5, 1.0, 0.0), axis, x), put((0.0, 0.25, 0.125), axis, s * 0.3333), put((0.1, 0.2, 0.3), axis, 0.0)];
        let mut m = TMFMesh::empty();
        m.set_vertices(vs.clone());
        let m2 = round_trip(&m, &pi(p));
        let v = m2.get_vertices().unwrap();
        check(v.len() == 4, 1);
        for i in 0..4 {
            for k in 0..3 {
                let (a, b) = (at(v[i], k), at(vs[i], k));
                check((a as f64 - b as f64).abs() <= p as f64 * 0.1 + if k == axis { s as f64 * 4e-7 } else { 4e-7 }, 2);
            }
        }
        cover(1);
    }
}
