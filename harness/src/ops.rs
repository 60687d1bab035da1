//! Integrity check, reordering, unifying, accessors, normalisation.
use crate::rt::*;
use crate::idx::*;
use tmf::*;
pub fn pos(i: u32) -> Vector3 { (i as f32 + 0.5, -(i as f32), 100.0 + i as f32) }
pub fn tex(i: u32) -> Vector2 { (i as f32 / 16.0, 1.0 - i as f32 / 16.0) }
pub fn dir(i: u32) -> Vector3 { [(1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0), (-1.0, 0.0, 0.0), (0.0, -1.0, 0.0), (0.0, 0.0, -1.0), (0.6, 0.8, 0.0), (0.0, 0.6, -0.8)][i as usize] }
pub fn tan(i: u32) -> Tangent { (dir(i), if i % 2 == 0 { 1.0 } else { -1.0 }) }
pub fn set_data(m: &mut TMFMesh, kind: u32, n: u32) {
    match kind {
        0 => { m.set_vertices((0..n).map(pos).collect::<Vec<_>>()); }
        1 => { m.set_normals((0..n).map(dir).collect::<Vec<_>>()); }
        2 => { m.set_uvs((0..n).map(tex).collect::<Vec<_>>()); }
        _ => { m.set_tangents((0..n).map(tan).collect::<Vec<_>>()); }
    }
}
/// Which original element the element at `i` of the data array of `kind` is (the arrays above have no equal elements).
fn element(m: &TMFMesh, kind: u32, i: usize) -> u32 {
    let find = |f: &dyn Fn(u32) -> bool| (0..8u32).find(|k| f(*k)).unwrap_or(99);
    match kind {
        0 => { let v = m.get_vertices().unwrap()[i]; find(&|k| pos(k) == v) }
        1 => { let v = m.get_normals().unwrap()[i]; find(&|k| dir(k) == v) }
        2 => { let v = m.get_uvs().unwrap()[i]; find(&|k| tex(k) == v) }
        _ => { let v = m.get_tangents().unwrap()[i]; find(&|k| tan(k) == v) }
    }
}
pub fn len(m: &TMFMesh, kind: u32) -> Option<usize> {
    match kind { 0 => m.get_vertices().map(|v| v.len()), 1 => m.get_normals().map(|v| v.len()), 2 => m.get_uvs().map(|v| v.len()), _ => m.get_tangents().map(|v| v.len()) }
}
/// What is expected of one group: None, or the error.
#[derive(PartialEq, Clone, Copy, Debug)]
enum Bad { VMissing, VIndex(u32, u32), NMissing, NLength, NIndex(u32, u32), UMissing, URange, UIndex(u32, u32) }
fn same(e: &TMFIntegrityStatus, b: Bad) -> bool {
    match (e, b) {
        (TMFIntegrityStatus::VertexArrayMissing, Bad::VMissing) | (TMFIntegrityStatus::NormalArrayMissing, Bad::NMissing) | (TMFIntegrityStatus::UVArrayMissing, Bad::UMissing)
        | (TMFIntegrityStatus::NormalsNotNormalized, Bad::NLength) | (TMFIntegrityStatus::UVOutsideRange(..), Bad::URange) => true,
        (TMFIntegrityStatus::IndexOutsideVertexArray(i, l), Bad::VIndex(a, b)) | (TMFIntegrityStatus::IndexOutsideNormalArray(i, l), Bad::NIndex(a, b)) | (TMFIntegrityStatus::IndexOutsideUVArray(i, l), Bad::UIndex(a, b)) => *i == a && *l == b,
        _ => false,
    }
}
fn expect(r: Result<(), TMFIntegrityStatus>, want: &[Bad], id: u32) {
    match r {
        Ok(()) => check(want.is_empty(), id),
        Err(TMFIntegrityStatus::CompositeError(l)) => {
            check(want.len() > 1 && l.len() == want.len(), id + 1);
            for w in want { check(l.iter().any(|e| same(e, *w)), id + 2); }
        }
        Err(e) => { check(want.len() == 1, id + 3); check(want.iter().any(|w| same(&e, *w)), id + 4); }
    }
}
fn mag_ok(v: Vector3) -> Option<bool> {
    let m = (v.0 as f64 * v.0 as f64 + v.1 as f64 * v.1 as f64 + v.2 as f64 * v.2 as f64).sqrt();
    if (m - 1.0).abs() < 0.000_999 { Some(true) } else if (m - 1.0).abs() > 0.001_001 { Some(false) } else { None }
}
entries! {
    /// n arbitrary indices of one kind into l elements: accepted exactly when all of them are inside, else the first one outside is named.
    fn h_ver_idx(kind, n, l) {
        let mut m = TMFMesh::empty();
        set_data(&mut m, kind, l);
        let v: Vec<u32> = (0..n).map(|_| u32s()).collect();
        set_tri(&mut m, kind, v.clone());
        let mut want = vec![];
        for x in &v { if *x >= l { want.push(match kind { 0 => Bad::VIndex(*x, l), 1 => Bad::NIndex(*x, l), _ => Bad::UIndex(*x, l) }); break; } }
        expect(m.verify(), &want, 1);
        cover(if want.is_empty() { 1 } else { 2 });
    }
    /// Groups of different sizes with one arbitrary index each: every group is measured by its own elements.
    fn h_ver_cross(lo, hi) {
        let (a, b, c) = (choice(lo, hi), choice(lo, hi), choice(lo, hi));
        let size = [1u32, 3, 6];
        let mut m = TMFMesh::empty();
        let mut want = vec![];
        for (k, s) in [a, b, c].into_iter().enumerate() {
            let l = size[s as usize];
            set_data(&mut m, k as u32, l);
            let x = u32s();
            set_tri(&mut m, k as u32, vec![0, x, l - 1]);
            if x >= l { want.push(match k { 0 => Bad::VIndex(x, l), 1 => Bad::NIndex(x, l), _ => Bad::UIndex(x, l) }); }
        }
        expect(m.verify(), &want, 1);
        cover(if want.is_empty() { 1 } else { 2 });
    }
    /// A long array with one arbitrary index at place `p`.
    fn h_ver_long(kind, n, p, l) {
        let mut m = TMFMesh::empty();
        set_data(&mut m, kind, l);
        let mut v: Vec<u32> = (0..n).map(|i| i % l).collect();
        let x = u32s();
        v[p as usize] = x;
        set_tri(&mut m, kind, v);
        let want = if x < l { vec![] } else { vec![match kind { 0 => Bad::VIndex(x, l), 1 => Bad::NIndex(x, l), _ => Bad::UIndex(x, l) }] };
        expect(m.verify(), &want, 1);
        cover(if x < l { 1 } else { 2 });
    }
    /// UV pairs of arbitrary bits, the one at place p of n.
    fn h_ver_uv(n, p) {
        let mut m = TMFMesh::empty();
        let mut v: Vec<Vector2> = (0..n).map(tex).collect();
        let (a, b) = (u32s(), u32s());
        v[p as usize] = (f32::from_bits(a), f32::from_bits(b));
        m.set_uvs(v);
        match choice(0, 3) { 0 => {} 1 => { m.set_uv_triangles(vec![0, p, n - 1]); } 2 => { m.set_uv_triangles(vec![(p + 1) % n; 3]); } _ => { m.set_uv_triangles(vec![]); } }
        // order of the bit patterns, zero of either sign included
        let ok = |x: u32| x <= 0x3f80_0000 || x == 0x8000_0000;
        let want = if ok(a) && ok(b) { vec![] } else { vec![Bad::URange] };
        let r = m.verify();
        if let Err(TMFIntegrityStatus::UVOutsideRange(x, y)) = &r { check(x.to_bits() == a && y.to_bits() == b, 9); }
        expect(r, &want, 1);
        cover(if want.is_empty() { 1 } else { 2 });
    }
    /// Normals whose length is near one: which = 0 along an axis, 1 in a plane, 2 anywhere; the one at place p of n. Accepted exactly
    /// when the length is within 0.001 of one.
    fn h_ver_nrm(which, n, p) {
        let g = bits(12) as f32 / 4096.0 - 0.5;
        let k = 1.0 + g * 0.006;
        let s = if choice(0, 1) == 1 { -1.0 } else { 1.0 };
        let v = match which { 0 => (k * s, 0.0, 0.0), 1 => (0.0, 0.6 * k, -0.8 * k * s), 2 => (0.48 * k, -0.6 * k * s, 0.64 * k), _ => (0.0, g * 4.0 * s, 0.0) };
        let mut m = TMFMesh::empty();
        let mut a: Vec<Vector3> = (0..n).map(dir).collect();
        a[p as usize] = v;
        m.set_normals(a);
        // whether it is in use or not
        match choice(0, 3) { 0 => {} 1 => { m.set_normal_triangles(vec![0, p, n - 1]); } 2 => { m.set_normal_triangles(vec![(p + 1) % n; 3]); } _ => { m.set_normal_triangles(vec![]); } }
        match mag_ok(v) {
            Some(true) => { expect(m.verify(), &[], 1); cover(1); }
            Some(false) => { expect(m.verify(), &[Bad::NLength], 1); cover(2); }
            None => { let _ = m.verify(); }
        }
    }
    /// Normals which are not numbers, infinite, zero, subnormal or huge.
    fn h_ver_odd() {
        let c = [f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 0.0, -0.0, 1e-40, 1e38, -1e38, 1.0, -1.0];
        let v = (c[choice(0, 9) as usize], c[choice(0, 9) as usize], c[choice(0, 9) as usize]);
        let mut m = TMFMesh::empty();
        m.set_normals(vec![v]);
        match mag_ok(v) { Some(true) => { expect(m.verify(), &[], 1); cover(1); } _ => { expect(m.verify(), &[Bad::NLength], 1); cover(2); } }
    }
    /// Every combination of arrays, index arrays and defects of the three groups: nothing masks anything else.
    fn h_ver_combo() {
        let mut m = TMFMesh::empty();
        let mut want = vec![];
        for k in 0..3 {
            match choice(0, 6) {
                0 => {}
                1 => set_data(&mut m, k, 2),
                2 => { set_data(&mut m, k, 2); set_tri(&mut m, k, vec![1, 0, 1]); }
                3 => { set_tri(&mut m, k, vec![0]); want.push([Bad::VMissing, Bad::NMissing, Bad::UMissing][k as usize]); }
                4 => { set_data(&mut m, k, 2); set_tri(&mut m, k, vec![1, 2, 3]); want.push([Bad::VIndex(2, 2), Bad::NIndex(2, 2), Bad::UIndex(2, 2)][k as usize]); }
                5 => match k { 0 => set_data(&mut m, 0, 0), 1 => { m.set_normals(vec![(0.0, 0.0, 1.0), (0.0, 0.0, 0.5)]); want.push(Bad::NLength); } _ => { m.set_uvs(vec![(0.5, 0.5), (0.5, 1.5)]); want.push(Bad::URange); } },
                _ => { set_data(&mut m, k, 0); set_tri(&mut m, k, vec![]); }
            }
        }
        if choice(0, 1) == 1 { set_data(&mut m, 3, 2); m.add_custom_data(CustomData::from(&[1u32][..]), "c").unwrap(); }
        expect(m.verify(), &want, 1);
        cover(1);
    }
    /// n arbitrary indices into k elements of one kind: after reordering every corner has the data it had, no element is unused
    /// or repeated, the others arrays are left alone, a second call changes nothing.
    fn h_reorder(kind, n, k) {
        let mut m = TMFMesh::empty();
        set_data(&mut m, kind, k);
        let v: Vec<u32> = (0..n).map(|_| choice(0, k - 1)).collect();
        set_tri(&mut m, kind, v.clone());
        set_data(&mut m, 3, 3);
        m.set_tangent_triangles(vec![2, 0]);
        m.add_custom_data(CustomData::from(&v[..]), "keep").unwrap();
        m.reorder_data();
        let t = get_tri(&m, kind).unwrap().to_vec();
        check(t.len() == v.len(), 1);
        let l = len(&m, kind).unwrap();
        for i in 0..t.len() { check((t[i] as usize) < l, 2); check(element(&m, kind, t[i] as usize) == v[i], 3); }
        if n > 0 {
            for j in 0..l { check(t.iter().any(|x| *x as usize == j), 4); for i in 0..j { check(element(&m, kind, i) != element(&m, kind, j), 5); } }
            // laid out in the order of first use
            let mut next = 0;
            for x in &t { check(*x <= next, 6); if *x == next { next += 1; } }
        } else { check(l == k as usize, 7); }
        for o in 0..3 { if o != kind { check(len(&m, o).is_none() && get_tri(&m, o).is_none(), 8); } }
        check(len(&m, 3) == Some(3) && get_tri(&m, 3).unwrap() == [2, 0], 9);
        for i in 0..3 { check(element(&m, 3, i) == i as u32, 10); }
        check(m.lookup_custom_data("keep").unwrap().as_index().unwrap().0 == &v[..], 11);
        let c = m.clone();
        m.reorder_data();
        check(get_tri(&m, kind) == get_tri(&c, kind) && len(&m, kind) == len(&c, kind), 12);
        for j in 0..l { check(element(&m, kind, j) == element(&c, kind, j), 13); }
        cover(1);
    }
    /// All three kinds at once, of different sizes or (off = 0) of the same size with index arrays which may be equal; a kind without indices
    /// or without data stays as it is.
    fn h_reorder_all(n, k, off) {
        let mut m = TMFMesh::empty();
        let mut v: Vec<Vec<u32>> = vec![];
        let size = |kind: u32| k + 1 + kind * off;
        for kind in 0..3 {
            set_data(&mut m, kind, size(kind));
            v.push((0..n).map(|_| choice(0, k - 1) + kind * off).collect());
        }
        let gap = choice(0, 3);
        for kind in 0..3 { if gap != kind { set_tri(&mut m, kind, v[kind as usize].clone()); } }
        set_data(&mut m, 3, 2); set_tri(&mut m, 3, v[0].clone());
        m.reorder_data();
        check(len(&m, 3) == Some(2) && get_tri(&m, 3).unwrap() == &v[0][..], 9);
        for kind in 0..3 {
            if gap == kind { check(get_tri(&m, kind).is_none() && len(&m, kind) == Some(size(kind) as usize), 1); for j in 0..size(kind) { check(element(&m, kind, j as usize) == j, 2); } continue; }
            let t = get_tri(&m, kind).unwrap();
            check(t.len() == n as usize, 3);
            let mut next = 0;
            for i in 0..t.len() { check(element(&m, kind, t[i] as usize) == v[kind as usize][i], 4); check(t[i] <= next, 5); if t[i] == next { next += 1; } }
            check(len(&m, kind) == Some(if n == 0 { size(kind) as usize } else { next as usize }), 6);
            for i in 0..next as usize { for j in 0..i { check(element(&m, kind, i) != element(&m, kind, j), 7); } }
        }
        cover(1);
    }
    /// A long mesh with one arbitrary corner.
    fn h_reorder_long(kind, n, p) {
        let mut m = TMFMesh::empty();
        set_data(&mut m, kind, 8);
        let mut v: Vec<u32> = (0..n).map(|i| (i * i + 3) % 7).collect();
        v[p as usize] = choice(0, 7);
        set_tri(&mut m, kind, v.clone());
        m.reorder_data();
        let t = get_tri(&m, kind).unwrap();
        check(t.len() == v.len(), 1);
        for i in 0..t.len() { check(element(&m, kind, t[i] as usize) == v[i], 2); }
        let mut used: Vec<u32> = vec![];
        for x in &v { if !used.contains(x) { used.push(*x); } }
        check(len(&m, kind) == Some(used.len()), 3);
        cover(1);
    }
    /// Kinds of `mask` present with n arbitrary corners over k elements each: afterwards all index arrays are the same array, every
    /// corner has the data it had, there is one element per different combination, other kinds stay absent, and custom data is kept.
    fn h_unify(mask, n, k) {
        let mut m = TMFMesh::empty();
        let mut v: Vec<Vec<u32>> = vec![];
        for kind in 0..4 {
            v.push(vec![]);
            if mask >> kind & 1 == 0 { continue; }
            set_data(&mut m, kind, k + kind);
            v[kind as usize] = (0..n).map(|_| choice(0, k - 1) + kind).collect();
            set_tri(&mut m, kind, v[kind as usize].clone());
        }
        let orig = m.clone();
        m.add_custom_data(CustomData::from(&[7u32, 3][..]), "keep").unwrap();
        m.unify_index_data();
        let mut combos: Vec<Vec<u32>> = vec![];
        for i in 0..n as usize { let c: Vec<u32> = (0..4).filter(|k| mask >> k & 1 == 1).map(|k| v[k as usize][i]).collect(); if !combos.contains(&c) { combos.push(c); } }
        let mut first: Option<Vec<u32>> = None;
        let kinds: Vec<u32> = (0..4).filter(|k| mask >> k & 1 == 1).collect();
        let equal = kinds.iter().all(|k| v[*k as usize] == v[kinds[0] as usize]);
        for kind in 0..4 {
            if mask >> kind & 1 == 0 { check(len(&m, kind).is_none() && get_tri(&m, kind).is_none(), 1); continue; }
            let t = get_tri(&m, kind).unwrap();
            check(t.len() == n as usize, 2);
            if let Some(f) = &first { check(&f[..] == t, 3); } else { first = Some(t.to_vec()); }
            let l = len(&m, kind).unwrap();
            for i in 0..t.len() { check((t[i] as usize) < l, 4); check(element(&m, kind, t[i] as usize) == v[kind as usize][i], 5); }
            if equal { check(get_tri(&orig, kind).unwrap() == t && len(&orig, kind) == Some(l), 6); }
            else { check(l == combos.len(), 7); }
        }
        check(m.lookup_custom_data("keep").unwrap().as_index().unwrap().0 == [7, 3], 8);
        let c = m.clone();
        m.unify_index_data();
        for kind in 0..4 { check(get_tri(&m, kind) == get_tri(&c, kind) && len(&m, kind) == len(&c, kind), 9); }
        cover(1);
    }
    /// Indices beyond 8 and 16 bits: n corners of the kinds of `mask` over `size` elements, the free ones among six indices at and
    /// around the powers of two.
    fn h_unify_big(mask, n, size) {
        let mut m = TMFMesh::empty();
        let mut v: Vec<Vec<u32>> = vec![];
        let pick = [0u32, 1, 255, 256, size - 1, size - 2];
        for kind in 0..4 {
            v.push(vec![]);
            if mask >> kind & 1 == 0 { continue; }
            match kind { 0 => { m.set_vertices((0..size).map(|j| (j as f32, 0.0, 1.0)).collect::<Vec<_>>()); } 1 => { m.set_normals((0..size).map(|j| (0.0, j as f32, 1.0)).collect::<Vec<_>>()); } 2 => { m.set_uvs((0..size).map(|j| (1.0, j as f32)).collect::<Vec<_>>()); } _ => { m.set_tangents((0..size).map(|j| ((1.0, 0.0, j as f32), 1.0)).collect::<Vec<_>>()); } }
            v[kind as usize] = (0..n).map(|i| if i == 0 { if size > 65536 { size - 65536 } else { 2 } } else { pick[choice(if i == 1 { 4 } else { 0 }, 5) as usize] }).collect();
            set_tri(&mut m, kind, v[kind as usize].clone());
        }
        m.unify_index_data();
        let kinds: Vec<u32> = (0..4).filter(|k| mask >> k & 1 == 1).collect();
        let mut first: Option<Vec<u32>> = None;
        for kind in kinds {
            let t = get_tri(&m, kind).unwrap();
            check(t.len() == n as usize, 2);
            if let Some(f) = &first { check(&f[..] == t, 3); } else { first = Some(t.to_vec()); }
            let l = len(&m, kind).unwrap();
            for i in 0..t.len() { check((t[i] as usize) < l, 4); let j = t[i] as usize; let x = match kind { 0 => m.get_vertices().unwrap()[j].0, 1 => m.get_normals().unwrap()[j].1, 2 => m.get_uvs().unwrap()[j].1, _ => m.get_tangents().unwrap()[j].0.2 }; check(x == v[kind as usize][i] as f32, 5); }
        }
        cover(1);
    }
    /// A kind with data but no indices next to kinds to unify is left alone.
    fn h_unify_plain(plain, n, k) {
        let mut m = TMFMesh::empty();
        let mut v: Vec<Vec<u32>> = vec![];
        for kind in 0..4 {
            set_data(&mut m, kind, k + kind);
            v.push((0..n).map(|_| choice(0, k - 1) + kind).collect());
            if kind != plain { set_tri(&mut m, kind, v[kind as usize].clone()); }
        }
        m.unify_index_data();
        let mut first: Option<Vec<u32>> = None;
        for kind in 0..4 {
            if kind == plain { check(get_tri(&m, kind).is_none() && len(&m, kind) == Some((k + kind) as usize), 1); for j in 0..k + kind { check(element(&m, kind, j as usize) == j, 2); } continue; }
            let t = get_tri(&m, kind).unwrap();
            if let Some(f) = &first { check(&f[..] == t, 3); } else { first = Some(t.to_vec()); }
            check(t.len() == n as usize, 4);
            for i in 0..t.len() { check(element(&m, kind, t[i] as usize) == v[kind as usize][i], 5); }
        }
        cover(1);
    }
    /// set, get, append and the buffers of one kind with arbitrary contents.
    fn h_access(kind, n, a) {
        let mut m = TMFMesh::empty();
        check(get_tri(&m, kind).is_none() && len(&m, kind).is_none(), 1);
        let v: Vec<u32> = (0..n).map(|_| u32s()).collect();
        let w: Vec<u32> = (0..a).map(|_| u32s()).collect();
        let put = |m: &mut TMFMesh, v: &[u32]| match kind { 0 => m.set_vertex_triangles(v), 1 => m.set_normal_triangles(v), 2 => m.set_uv_triangles(v), _ => m.set_tangent_triangles(v) };
        let app = |m: &mut TMFMesh, v: &[u32]| match kind { 0 => m.append_vertex_triangles(v), 1 => m.append_normal_triangles(v), 2 => m.append_uv_triangles(v), _ => m.append_tangent_triangles(v) };
        app(&mut m, &w);
        eq_idx(get_tri(&m, kind).unwrap(), &w, 2);
        let old = put(&mut m, &v);
        eq_idx(&old.unwrap(), &w, 4);
        eq_idx(get_tri(&m, kind).unwrap(), &v, 6);
        app(&mut m, &w);
        let mut e = v.clone(); e.extend(&w);
        eq_idx(get_tri(&m, kind).unwrap(), &e, 8);
        for k in 0..4 { if k != kind { check(get_tri(&m, k).is_none(), 10); } check(len(&m, k).is_none(), 11); }
        // the data arrays, with arbitrary bits
        let f = |v: &[u32]| -> Vec<f32> { v.iter().map(|x| f32::from_bits(*x)).collect() };
        let (fv, fw) = (f(&v), f(&w));
        let v3 = |x: &[f32]| x.iter().map(|a| (*a, 1.5, -*a)).collect::<Vec<Vector3>>();
        let same = |x: f32, y: f32| x.to_bits() == y.to_bits() || x.is_nan() && y.is_nan();
        let ff: Vec<f32> = fv.iter().chain(&fw).copied().collect();
        let pick = |m: &TMFMesh| -> Vec<f32> { match kind { 0 => m.get_vertices().unwrap().iter().map(|x| x.0).collect(), 1 => m.get_normals().unwrap().iter().map(|x| x.0).collect(), 2 => m.get_uvs().unwrap().iter().map(|x| x.1).collect(), _ => m.get_tangents().unwrap().iter().map(|x| x.1).collect() } };
        let uv = |x: &[f32]| x.iter().map(|a| (0.25, *a)).collect::<Vec<Vector2>>();
        let tn = |x: &[f32]| x.iter().map(|a| ((0.0, 0.0, 1.0), *a)).collect::<Vec<Tangent>>();
        let old = match kind { 0 => m.set_vertices(v3(&fv)).is_none(), 1 => m.set_normals(v3(&fv)).is_none(), 2 => m.set_uvs(uv(&fv)).is_none(), _ => m.set_tangents(tn(&fv)).is_none() };
        check(old, 12);
        match kind { 0 => m.append_vertices(&v3(&fw)), 1 => m.append_normals(&v3(&fw)), 2 => m.append_uvs(&uv(&fw)), _ => m.append_tangents(&tn(&fw)) }
        let g = pick(&m);
        check(g.len() == ff.len(), 13);
        let mut ok = true;
        for i in 0..g.len() { ok &= same(g[i], ff[i]); }
        check(ok, 14);
        for k in 0..4 { if k != kind { check(len(&m, k).is_none(), 15); } }
        eq_idx(get_tri(&m, kind).unwrap(), &e, 16);
        let n_old = match kind { 0 => m.set_vertices(vec![]).unwrap().len(), 1 => m.set_normals(vec![]).unwrap().len(), 2 => m.set_uvs(vec![]).unwrap().len(), _ => m.set_tangents(vec![]).unwrap().len() };
        check(n_old == ff.len() && len(&m, kind) == Some(0), 18);
        match kind { 0 => m.append_vertices(&v3(&fw)), 1 => m.append_normals(&v3(&fw)), 2 => m.append_uvs(&uv(&fw)), _ => m.append_tangents(&tn(&fw)) }
        check(len(&m, kind) == Some(fw.len()), 19);
        cover(1);
    }
    /// Appending to a mesh without the array creates it.
    fn h_append_new(kind, n) {
        let mut m = TMFMesh::default();
        match kind { 0 => m.append_vertices(&(0..n).map(pos).collect::<Vec<_>>()), 1 => m.append_normals(&(0..n).map(dir).collect::<Vec<_>>()), 2 => m.append_uvs(&(0..n).map(tex).collect::<Vec<_>>()), _ => m.append_tangents(&(0..n).map(tan).collect::<Vec<_>>()) }
        check(len(&m, kind) == Some(n as usize), 1);
        for i in 0..n { check(element(&m, kind, i as usize) == i, 2); }
        for k in 0..4 { if k != kind { check(len(&m, k).is_none(), 3); } check(get_tri(&m, k).is_none(), 4); }
        cover(1);
    }
    /// Appending a indices to the array of one kind in a mesh which has everything else: absent (base = 0) or of base - 1 indices; and elements to
    /// arrays which are in use.
    fn h_append_full(kind, base, a) {
        let mut m = TMFMesh::empty();
        for k in 0..4 { set_data(&mut m, k, 3); if k != kind { set_tri(&mut m, k, vec![2, k % 3, 1]); } }
        let mut e: Vec<u32> = (1..base).map(|_| u32s()).collect();
        if base > 0 { set_tri(&mut m, kind, e.clone()); }
        let x: Vec<u32> = (0..a).map(|_| u32s()).collect();
        match kind { 0 => m.append_vertex_triangles(&x), 1 => m.append_normal_triangles(&x), 2 => m.append_uv_triangles(&x), _ => m.append_tangent_triangles(&x) }
        e.extend(&x);
        match get_tri(&m, kind) { Some(t) => eq_idx(t, &e, 1), None => check(false, 3) }
        let more = [3, 4];
        match kind { 0 => m.append_vertices(&more.map(pos)), 1 => m.append_normals(&more.map(dir)), 2 => m.append_uvs(&more.map(tex)), _ => m.append_tangents(&more.map(tan)) }
        for k in 0..4 {
            check(len(&m, k) == Some(if k == kind { 5 } else { 3 }), 4);
            for i in 0..len(&m, k).unwrap() { check(element(&m, k, i) == i as u32, 5); }
            if k != kind { eq_idx(get_tri(&m, k).unwrap(), &[2, k % 3, 1], 6); }
        }
        eq_idx(get_tri(&m, kind).unwrap(), &e, 8);
        cover(1);
    }
    /// The expanded buffers: element by element what the indices name, nothing when an index is outside or something is missing.
    fn h_buffer(kind, n, l) {
        let mut m = TMFMesh::empty();
        let v: Vec<u32> = (0..n).map(|_| u32s()).collect();
        let what = choice(0, 2);
        if what != 1 { set_data(&mut m, kind, l); }
        if what != 2 { set_tri(&mut m, kind, v.clone()); }
        let ok = what == 0 && v.iter().all(|x| *x < l);
        let bl = match kind { 0 => m.get_vertex_buffer().map(|b| b.len()), 1 => m.get_normal_buffer().map(|b| b.len()), _ => m.get_uv_buffer().map(|b| b.len()) };
        check(bl == if ok { Some(n as usize) } else { None }, 1);
        if !ok { cover(2); return; }
        for i in 0..n as usize {
            let k = split(v[i] as u64) as u32;
            check(match kind { 0 => m.get_vertex_buffer().unwrap()[i] == pos(k), 1 => m.get_normal_buffer().unwrap()[i] == dir(k), _ => m.get_uv_buffer().unwrap()[i] == tex(k) }, 2);
        }
        for k in 0..3 { if k != kind { check(match k { 0 => m.get_vertex_buffer().is_none(), 1 => m.get_normal_buffer().is_none(), _ => m.get_uv_buffer().is_none() }, 3); } }
        cover(1);
    }
    /// Normalising: unit length, same direction, zero stays zero; other arrays and the order are kept. Components on a grid of 2^b.
    fn h_normalize(b, scale, p) {
        let s = [1.0f32, 1e-3, 1e6, 0.37, 5e-20, 1e-12, 1e17][scale as usize];
        let tol = if scale == 4 { 1e-5 } else { 1e-6 };
        let f = || (bits(b) as f32 - (1u32 << b >> 1) as f32) * s;
        let v = (f(), f(), f());
        let mut a = vec![(0.0, 3.0, 4.0), (0.0, 0.0, -2.0), (0.0, 0.0, 0.0)];
        a[p as usize] = v;
        let mut m = TMFMesh::empty();
        set_data(&mut m, 0, 2);
        set_tri(&mut m, 1, vec![2, 1, 0]);
        m.set_tangents(vec![((0.0, 0.0, 9.0), 1.0)]);
        m.set_normals(a.clone());
        m.normalize();
        let r = m.get_normals().unwrap();
        check(r.len() == 3, 1);
        for i in 0..3 {
            let (x, y) = (a[i], r[i]);
            if x.0 == 0.0 && x.1 == 0.0 && x.2 == 0.0 { check(y.0 == 0.0 && y.1 == 0.0 && y.2 == 0.0, 2); continue; }
            let l = (x.0 as f64 * x.0 as f64 + x.1 as f64 * x.1 as f64 + x.2 as f64 * x.2 as f64).sqrt();
            for (p, q) in [(x.0, y.0), (x.1, y.1), (x.2, y.2)] { check((p as f64 / l - q as f64).abs() <= tol, 3); }
        }
        check(get_tri(&m, 1).unwrap() == [2, 1, 0] && element(&m, 0, 1) == 1 && len(&m, 0) == Some(2) && m.get_tangents().unwrap()[0].0 .2 == 9.0, 4);
        cover(1);
    }
    /// Odd components: infinities, not a number, overflowing and vanishing squares.
    fn h_normalize_odd() {
        let c = [f32::NAN, f32::INFINITY, 0.0, -0.0, 3e38, -1.0, 1e-30];
        let v = (c[choice(0, 6) as usize], c[choice(0, 6) as usize], c[choice(0, 6) as usize]);
        let mut m = TMFMesh::empty();
        m.set_normals(vec![(0.0, 0.0, 5.0), v]);
        m.normalize();
        let r = m.get_normals().unwrap();
        check(r.len() == 2 && r[0] == (0.0, 0.0, 1.0), 1);
        let y = r[1];
        if v.0.is_nan() || v.1.is_nan() || v.2.is_nan() { check(y == (0.0, 0.0, 0.0), 2); }
        if v.0 == 0.0 && v.1 == 0.0 && v.2 == 0.0 { check(y == (0.0, 0.0, 0.0), 3); }
        let mut e = TMFMesh::empty();
        e.normalize();
        check(e.get_normals().is_none(), 4);
        cover(1);
    }
}
