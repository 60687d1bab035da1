//! Large inputs: arrays, files, lines and polygons beyond the sizes a shortcut might be made for. Everything is concrete but what is said to be free.
use crate::file::{rd, ser};
use crate::idx::*;
use crate::ops::*;
use crate::rt::*;
use tmf::*;
fn put3(m: &mut TMFMesh, kind: u32, n: u32) {
    match kind {
        0 => { m.set_vertices((0..n).map(|j| (j as f32, 0.0, 1.0)).collect::<Vec<_>>()); }
        1 => { m.set_normals((0..n).map(|j| (0.0, j as f32, 1.0)).collect::<Vec<_>>()); }
        2 => { m.set_uvs((0..n).map(|j| (1.0, j as f32)).collect::<Vec<_>>()); }
        _ => { m.set_tangents((0..n).map(|j| ((1.0, 0.0, j as f32), 1.0)).collect::<Vec<_>>()); }
    }
}
fn mark(m: &TMFMesh, kind: u32, j: usize) -> f32 { match kind { 0 => m.get_vertices().unwrap()[j].0, 1 => m.get_normals().unwrap()[j].1, 2 => m.get_uvs().unwrap()[j].1, _ => m.get_tangents().unwrap()[j].0 .2 } }
entries! {
    /// Index arrays of n elements with the one at p free in b bits (above what the pattern has there), in the kinds of `mask`.
    fn h_idx_huge(pat, n, p, b, mask) {
        let mut v: Vec<u32> = (0..n).map(|i| match pat { 0 => i.wrapping_mul(2654435761) >> 16, 1 => if i < n / 2 { i % 7 } else { 1_000_000 + i % 300 }, 2 => i / 3 + i % 3, _ => u32::MAX - (i * 7 & 1023) }).collect();
        let base = match pat { 0 => 0, 1 => if p < n / 2 { 0 } else { 1_000_000 }, 2 => p & !3, _ => u32::MAX - 1000 };
        if pat == 0 { v[0] = 0; v[1] = 65535; }
        v[p as usize] = base + bits(b);
        let mut m = TMFMesh::empty();
        for k in 0..4 { if mask >> k & 1 == 1 { set_tri(&mut m, k, v.clone()); } }
        let m2 = round_trip(&m, &TMFPrecisionInfo::default());
        for k in 0..4 { match get_tri(&m2, k) { Some(g) => { check(mask >> k & 1 == 1, 3); eq_idx(g, &v, 1); } None => check(mask >> k & 1 == 0, 4) } }
        cover(1);
    }
    /// n normals (kind 1), UV pairs (2), tangents (3) or custom elements (4 floats, 5 colours, 6 indices), the one at place p free.
    fn h_data_huge(kind, n, p) {
        let q = bits(4);
        let dirs = |i: u32| dir(i * 5 % 8);
        let mut m = TMFMesh::empty();
        let d = dir(split((q & 7) as u64) as u32);
        let f = |i: u32| if i == p { q as f32 / 16.0 } else { (i % 257) as f32 / 256.0 };
        match kind {
            1 => { m.set_normals((0..n).map(|i| if i == p { d } else { dirs(i) }).collect::<Vec<_>>()); }
            2 => { m.set_uvs((0..n).map(|i| (f(i), 1.0 - f(i))).collect::<Vec<_>>()); }
            3 => { m.set_tangents((0..n).map(|i| (if i == p { d } else { dirs(i) }, if i % 3 == 0 { -1.0 } else { 1.0 })).collect::<Vec<_>>()); }
            4 => m.add_custom_data(CustomData::CustomFloat((0..n).map(f).collect::<Vec<_>>().into(), 0.001), "c").unwrap(),
            5 => m.add_custom_data(CustomData::CustomColorRGBA((0..n).map(|i| (f(i), 1.0, 0.0, 1.0 - f(i))).collect::<Vec<_>>().into(), 0.001), "c").unwrap(),
            _ => m.add_custom_data(CustomData::CustomIndex((0..n).map(|i| if i == p { q } else { i }).collect::<Vec<_>>().into(), n as usize), "c").unwrap(),
        }
        let r = round_trip(&m, &TMFPrecisionInfo::default());
        let near = |a: f32, b: f32, t: f32| (a as f64 - b as f64).abs() <= t as f64;
        let near3 = |a: Vector3, b: Vector3| near(a.0, b.0, 0.02) && near(a.1, b.1, 0.02) && near(a.2, b.2, 0.02);
        let mut ok = true;
        let mut l = 0;
        match kind {
            1 => { let (a, b) = (r.get_normals().unwrap(), m.get_normals().unwrap()); l = a.len(); for i in 0..l.min(b.len()) { ok &= near3(a[i], b[i]); } }
            2 => { let (a, b) = (r.get_uvs().unwrap(), m.get_uvs().unwrap()); l = a.len(); for i in 0..l.min(b.len()) { ok &= near(a[i].0, b[i].0, 0.001) && near(a[i].1, b[i].1, 0.001); } }
            3 => { let (a, b) = (r.get_tangents().unwrap(), m.get_tangents().unwrap()); l = a.len(); for i in 0..l.min(b.len()) { ok &= near3(a[i].0, b[i].0) && a[i].1 == b[i].1; } }
            4 => { let a = r.lookup_custom_data("c").unwrap().as_float().unwrap().0; l = a.len(); for i in 0..l { ok &= near(a[i], f(i as u32), 0.001); } }
            5 => { let a = r.lookup_custom_data("c").unwrap().as_color_rgba().unwrap().0; l = a.len(); for i in 0..l { ok &= near(a[i].0, f(i as u32), 0.001) && near(a[i].1, 1.0, 0.001) && near(a[i].2, 0.0, 0.001) && near(a[i].3, 1.0 - f(i as u32), 0.001); } }
            _ => { let a = r.lookup_custom_data("c").unwrap().as_index().unwrap().0; l = a.len(); for i in 0..l { ok &= a[i] == if i as u32 == p { q } else { i as u32 }; } }
        }
        check(l == n as usize, 1);
        check(ok, 2);
        cover(1);
    }
    /// A file of n meshes, empty but for the one at place p, which has a free index (way = 0: written by the crate, 1: made here).
    fn h_meshes_many(n, p, way) {
        let x = 256 + bits(8);
        let b = if way == 0 {
            let e = TMFMesh::empty();
            let mut f = TMFMesh::empty();
            f.set_uv_triangles(vec![3, x]);
            let v: Vec<(TMFMesh, &str)> = (0..n).map(|i| if i == p { (f.clone(), "x") } else { (e.clone(), "") }).collect();
            let mut o = vec![];
            TMFMesh::write_tmf(&v, &mut o, &TMFPrecisionInfo::default()).unwrap();
            o
        } else {
            let mut f = TMFMesh::empty();
            f.set_uv_triangles(vec![3, x]);
            let one = ser(&[(f, "x".into())]);
            let mut b = one[..11].to_vec();
            b.extend_from_slice(&n.to_le_bytes());
            for i in 0..n { if i == p { b.extend_from_slice(&one[15..]); } else { b.extend_from_slice(&[0, 0, 0, 0]); } }
            b
        };
        let r = rd(&b).unwrap();
        check(r.len() == n as usize, 1);
        check(r[p as usize].1 == "x" && (p == 0 || r[p as usize - 1].1.is_empty()), 2);
        eq_idx(r[p as usize].0.get_uv_triangles().unwrap(), &[3, x], 3);
        cover(1);
    }
    /// A dangling index at any place of n: found.
    fn h_ver_where(kind, n, lo, hi) {
        let p = choice(lo, hi) as usize;
        let mut m = TMFMesh::empty();
        set_data(&mut m, kind, 8);
        let mut v: Vec<u32> = (0..n).map(|i| i % 8).collect();
        let x = u32s();
        v[p] = x;
        set_tri(&mut m, kind, v);
        let r = m.verify();
        match r {
            Ok(()) => check(x < 8, 1),
            Err(TMFIntegrityStatus::IndexOutsideVertexArray(i, l)) => check(kind == 0 && x >= 8 && i == x && l == 8, 2),
            Err(TMFIntegrityStatus::IndexOutsideNormalArray(i, l)) => check(kind == 1 && x >= 8 && i == x && l == 8, 3),
            Err(TMFIntegrityStatus::IndexOutsideUVArray(i, l)) => check(kind == 2 && x >= 8 && i == x && l == 8, 4),
            Err(_) => check(false, 5),
        }
        cover(1);
    }
    /// A defect of the data at place p of n: a UV pair outside, a normal of half the length.
    fn h_ver_data(kind, n, p) {
        let bad = choice(0, 1) == 1;
        let g = bits(10) as f32 / 1024.0;
        let mut m = TMFMesh::empty();
        if kind == 1 { m.set_normals((0..n).map(|i| if i == p { if bad { (g * 0.99, 0.0, 0.0) } else { (0.0, 0.0, -1.0) } } else { dir(i % 8) }).collect::<Vec<_>>()); }
        else { m.set_uvs((0..n).map(|i| if i == p { (g, if bad { 1.5 + g } else { g }) } else { (0.5, (i % 8) as f32 / 8.0) }).collect::<Vec<_>>()); }
        match m.verify() { Ok(()) => check(!bad, 1), Err(TMFIntegrityStatus::NormalsNotNormalized) => check(bad && kind == 1, 2), Err(TMFIntegrityStatus::UVOutsideRange(..)) => check(bad && kind == 2, 3), Err(_) => check(false, 4) }
        cover(1);
    }
    /// Reordering n corners over `size` elements, the free ones among six indices at and around the powers of two.
    fn h_reorder_big(kind, n, size) {
        let mut m = TMFMesh::empty();
        put3(&mut m, kind, size);
        let pick = [0u32, 1, 255, 256, size - 1, size - 2];
        let v: Vec<u32> = (0..n).map(|i| if i == 0 { if size > 65536 { size - 65536 } else { 2 } } else { pick[choice(if i == 1 { 3 } else { 0 }, 5) as usize] }).collect();
        set_tri(&mut m, kind, v.clone());
        m.reorder_data();
        let t = get_tri(&m, kind).unwrap();
        check(t.len() == v.len(), 1);
        let l = len(&m, kind).unwrap();
        let mut next = 0;
        for i in 0..t.len() { check((t[i] as usize) < l, 2); check(mark(&m, kind, t[i] as usize) == v[i] as f32, 3); check(t[i] <= next, 4); if t[i] == next { next += 1; } }
        check(l == next as usize, 5);
        cover(1);
    }
    /// Reordering n corners which are all different (a permutation), but one free.
    fn h_reorder_many(kind, n, p) {
        let mut m = TMFMesh::empty();
        put3(&mut m, kind, n);
        let mut v: Vec<u32> = (0..n).map(|i| (i * 7 + 3) % n).collect();
        v[p as usize] = choice(0, 3) * (n / 4);
        set_tri(&mut m, kind, v.clone());
        m.reorder_data();
        let t = get_tri(&m, kind).unwrap();
        check(t.len() == v.len(), 1);
        let l = len(&m, kind).unwrap();
        let mut next = 0;
        let mut ok = true;
        for i in 0..t.len() { ok &= (t[i] as usize) < l && mark(&m, kind, t[i] as usize) == v[i] as f32 && t[i] <= next; if t[i] == next { next += 1; } }
        check(ok, 2);
        check(l == next as usize, 3);
        cover(1);
    }
    /// Unifying n corners which are all different, but one free; kinds of `mask`.
    fn h_unify_many(mask, n, p) {
        let mut m = TMFMesh::empty();
        let mut v: Vec<Vec<u32>> = vec![];
        let x = choice(0, 3) * (n / 4);
        for kind in 0..4 {
            v.push(vec![]);
            if mask >> kind & 1 == 0 { continue; }
            put3(&mut m, kind, n + kind);
            v[kind as usize] = (0..n).map(|i| ((if i == p { x } else { i }) * (2 * kind + 1) + kind) % n).collect();
            set_tri(&mut m, kind, v[kind as usize].clone());
        }
        m.unify_index_data();
        let kinds: Vec<u32> = (0..4).filter(|k| mask >> k & 1 == 1).collect();
        let f = get_tri(&m, kinds[0]).unwrap().to_vec();
        for kind in kinds {
            let t = get_tri(&m, kind).unwrap();
            check(t.len() == n as usize && f.len() == n as usize, 2);
            let l = len(&m, kind).unwrap();
            let mut ok = true;
            for i in 0..t.len().min(f.len()) { ok &= t[i] == f[i] && (t[i] as usize) < l && mark(&m, kind, t[i] as usize) == v[kind as usize][i] as f32; }
            check(ok, 5);
        }
        cover(1);
    }
    /// Lines of more than `n` characters: long fractions, many blanks, long names, long comments, polygons; one digit free.
    fn h_obj_long(n) {
        let d = below(10) as u8;
        let mut t = vec![];
        let zeros = "0".repeat(n as usize);
        let blanks = " ".repeat(n as usize);
        let letters = "n".repeat(n as usize);
        let mut cut = |s: &str| t.extend_from_slice(s.as_bytes());
        let dg = (b'0' + d) as char;
        let mut one = String::new(); one.push(dg);
        cut("# "); cut(&letters); cut("\no "); cut(&letters); cut("\nv 1."); cut(&one); cut(&zeros); cut(" 2 3\nv 4"); cut(&blanks); cut("5"); cut(&blanks); cut(&one); cut("\nv "); cut(&zeros); cut("7 8 9\n");
        cut("vn 0 0 1."); cut(&zeros); cut("\nvt 0."); cut(&one); cut(&zeros); cut(" 0.5\nf 1/1/1 2/1/1"); cut(&blanks); cut(" 3/1/1\n");
        let r = TMFMesh::read_from_obj(&mut &t[..]).unwrap();
        check(r.len() == 1 && r[0].1 == letters, 1);
        let m = &r[0].0;
        eq_idx(m.get_vertex_triangles().unwrap(), &[0, 1, 2], 2);
        let v = m.get_vertices().unwrap();
        check(v.len() == 3, 4);
        let c = |a: f32, b: f64| (a as f64 - b).abs() <= 1e-5;
        check(c(v[0].0, 1.0 + d as f64 / 10.0) && v[0].1 == 2.0 && v[0].2 == 3.0 && v[1].0 == 4.0 && v[1].1 == 5.0 && c(v[1].2, d as f64) && v[2] == (7.0, 8.0, 9.0), 5);
        check(m.get_normals().unwrap() == [(0.0, 0.0, 1.0)] && c(m.get_uvs().unwrap()[0].0, d as f64 / 10.0) && m.get_uvs().unwrap()[0].1 == 0.5, 6);
        cover(1);
    }
    /// An .obj file of n vertices, normals, UVs and faces; the corner of face p free in four values.
    fn h_obj_big(n, p) {
        let mut t = vec![];
        let x = choice(0, 3) * (n / 4) + 1;
        for i in 0..n { t.extend_from_slice(format!("v {i} 0 1\nvn 0 0 {}\nvt 0.5 {i}\n", if i % 2 == 0 { 1 } else { -1 }).as_bytes()); }
        t.extend_from_slice(b"o big\n");
        let at = |i: u32, k: u32| if i == p && k == 1 { x } else { (i * 3 + k) % n + 1 };
        for i in 0..n { t.extend_from_slice(format!("f {0}/{1}/{2} {1}/{2}/{0} {2}/{0}/{1}\n", at(i, 0), at(i, 1), at(i, 2)).as_bytes()); }
        let r = TMFMesh::read_from_obj(&mut &t[..]).unwrap();
        check(r.len() == 1 && r[0].1 == "big", 1);
        let (v, u, k) = (r[0].0.get_vertex_buffer().unwrap(), r[0].0.get_uv_buffer().unwrap(), r[0].0.get_normal_buffer().unwrap());
        check(v.len() == 3 * n as usize && u.len() == v.len() && k.len() == v.len(), 2);
        let mut ok = true;
        for i in 0..n { let q = [at(i, 0), at(i, 1), at(i, 2)]; for j in 0..3 { let e = (3 * i + j) as usize; ok &= v[e].0 == (q[j as usize] - 1) as f32 && u[e].1 == (q[(j as usize + 1) % 3] - 1) as f32 && k[e].2 == if (q[(j as usize + 2) % 3] - 1) % 2 == 0 { 1.0 } else { -1.0 }; } }
        check(ok, 3);
        cover(1);
    }
    /// Saving a mesh whose segments take more than n bytes through a sink of at most `step` bytes per call, one of whose calls is interrupted: the
    /// same file; loading it from such a source: the same mesh.
    fn h_fault_large(n, step) {
        let x = u8s();
        let mut m = TMFMesh::empty();
        let mut v: Vec<u32> = (0..n / 2).map(|i| i.wrapping_mul(2654435761) >> 16).collect();
        v[0] = 0; v[1] = 65535; v[n as usize / 4] = x as u32;
        m.set_vertex_triangles(v.clone());
        m.set_uvs((0..n / 3).map(|i| ((i % 91) as f32 / 91.0, (i % 7) as f32 / 7.0)).collect::<Vec<_>>());
        let mut all = vec![];
        m.write_tmf_one(&mut all, &TMFPrecisionInfo::default(), "q").unwrap();
        check(all.len() > n as usize, 1);
        let mut s = crate::fault::sink(usize::MAX);
        s.step = step as usize;
        s.mask = 1 << choice(0, 9);
        m.write_tmf_one(&mut s, &TMFPrecisionInfo::default(), "q").unwrap();
        check(s.got.len() == all.len(), 2);
        let mut ok = true;
        for i in 0..all.len().min(s.got.len()) { ok &= s.got[i] == all[i]; }
        check(ok, 3);
        let mut r = crate::fault::source(&all, usize::MAX);
        r.step = step as usize;
        r.mask = s.mask;
        let (g, _) = TMFMesh::read_tmf_one(&mut r).unwrap();
        eq_idx(g.get_vertex_triangles().unwrap(), &v, 4);
        check(g.get_uvs().unwrap().len() == n as usize / 3, 6);
        cover(1);
    }
    /// n elements which change slowly from one to the next, by k (free) times less than a step of the precision: none of them is off.
    fn h_slow(kind, n, fine) {
        let k = if kind == 0 || kind == 2 { bits(4) } else { choice(0, 15) } as f32 / 16.0;
        let step = [0.01f32, 0.001, 0.0002][fine as usize];
        let f = |i: u32| 0.3 + i as f32 * k * step;
        let d = |i: u32| { let a = f(i); (a, (1.0 - a * a).sqrt(), 0.0) };
        let mut m = TMFMesh::empty();
        let mut p = TMFPrecisionInfo::default();
        let mut tol = 0.011f64;
        match kind {
            0 => { let mut v: Vec<Vector3> = (0..n).map(|i| (f(i), 0.5, 1.0 - f(i))).collect(); v[0] = (0.0, 0.0, 0.0); v[1] = (1.0, 1.0, 1.0); v[2] = (0.0, 1.0, 0.0); m.set_vertices(v); m.set_vertex_triangles(vec![0, 1, 2]); p.vertex_precision = VertexPrecisionMode(0.01); }
            1 => { m.set_normals((0..n).map(d).collect::<Vec<_>>()); p.normal_precision = NormalPrecisionMode::from_deg_dev(0.57); tol = 0.02; }
            2 => { m.set_uvs((0..n).map(|i| (f(i), 1.0 - f(i))).collect::<Vec<_>>()); p.uv_prec = UvPrecisionMode::form_texture_resolution(100.0, 1.0); }
            3 => { m.set_tangents((0..n).map(|i| (d(i), if i % 3 == 1 { -1.0 } else { 1.0 })).collect::<Vec<_>>()); p.tangent_prec = TangentPrecisionMode::from_deg_dev(0.57); tol = 0.02; }
            4 => m.add_custom_data(CustomData::CustomFloat((0..n).map(f).collect::<Vec<_>>().into(), 0.01), "c").unwrap(),
            _ => m.add_custom_data(CustomData::CustomColorRGBA((0..n).map(|i| (f(i), 1.0, 0.0, 1.0 - f(i))).collect::<Vec<_>>().into(), 0.01), "c").unwrap(),
        }
        let r = round_trip(&m, &p);
        let near = |a: f32, b: f32| (a as f64 - b as f64).abs() <= tol;
        let near3 = |a: Vector3, b: Vector3| near(a.0, b.0) & near(a.1, b.1) & near(a.2, b.2);
        for i in 0..n as usize {
            let g = f(i as u32);
            check(match kind {
                // a hundredth of the shortest edge, which is less than 1.8
                0 => { let (a, b) = (r.get_vertices().unwrap()[i], m.get_vertices().unwrap()[i]); near(a.0, b.0) & near(a.1, b.1) & near(a.2, b.2) }
                1 => near3(r.get_normals().unwrap()[i], d(i as u32)),
                2 => near(r.get_uvs().unwrap()[i].0, g) & near(r.get_uvs().unwrap()[i].1, 1.0 - g),
                3 => near3(r.get_tangents().unwrap()[i].0, d(i as u32)) && r.get_tangents().unwrap()[i].1 == if i % 3 == 1 { -1.0 } else { 1.0 },
                4 => near(r.lookup_custom_data("c").unwrap().as_float().unwrap().0[i], g),
                _ => { let c = r.lookup_custom_data("c").unwrap().as_color_rgba().unwrap().0[i]; near(c.0, g) & near(c.1, 1.0) & near(c.2, 0.0) & near(c.3, 1.0 - g) }
            }, 1);
        }
        cover(1);
    }
    /// Corners whose indices are just like those of others but for the power 2^b in one kind and one in the next: none are taken for equal.
    fn h_unify_pack(mask, b) {
        let mut m = TMFMesh::empty();
        let size = (1u32 << b) + 8;
        let kinds: Vec<u32> = (0..4).filter(|k| mask >> k & 1 == 1).collect();
        let high = choice(0, kinds.len() as u32 - 1) as usize;
        let mut v: Vec<Vec<u32>> = vec![];
        for (i, k) in kinds.iter().enumerate() {
            put3(&mut m, *k, size);
            let h = if i == high { 1 << b } else { 0 };
            v.push(vec![3, h + 3 + choice(0, 1), 3 + choice(0, 1)]);
            set_tri(&mut m, *k, v[i].clone());
        }
        m.unify_index_data();
        let f = get_tri(&m, kinds[0]).unwrap().to_vec();
        for (i, k) in kinds.iter().enumerate() {
            let t = get_tri(&m, *k).unwrap();
            check(t.len() == 3 && t == &f[..], 2);
            for j in 0..3 { check((t[j] as usize) < len(&m, *k).unwrap(), 3); check(mark(&m, *k, t[j] as usize) == v[i][j] as f32, 4); }
        }
        cover(1);
    }
}
