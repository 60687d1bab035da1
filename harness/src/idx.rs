use crate::rt::*;
use tmf::*;
pub fn set_tri(m: &mut TMFMesh, kind: u32, v: Vec<u32>) {
    match kind { 0 => { m.set_vertex_triangles(v); } 1 => { m.set_normal_triangles(v); } 2 => { m.set_uv_triangles(v); } _ => { m.set_tangent_triangles(v); } }
}
pub fn get_tri(m: &TMFMesh, kind: u32) -> Option<&[u32]> {
    match kind { 0 => m.get_vertex_triangles(), 1 => m.get_normal_triangles(), 2 => m.get_uv_triangles(), _ => m.get_tangent_triangles() }
}
pub fn eq_idx(a: &[u32], b: &[u32], id: u32) {
    check(a.len() == b.len(), id);
    let mut ok = true;
    for i in 0..a.len().min(b.len()) { ok &= a[i] == b[i]; }
    check(ok, id + 1);
}
#[inline(never)]
pub fn round_trip(m: &TMFMesh, p: &TMFPrecisionInfo) -> TMFMesh {
    let mut out = Vec::new();
    m.write_tmf_one(&mut out, p, "mesh").unwrap();
    let (m2, name) = TMFMesh::read_tmf_one(&mut &out[..]).unwrap();
    check(name == "mesh", 90);
    m2
}
/// Case split over the relative order of the elements.
pub fn order(v: &[u32]) {
    for i in 0..v.len() { for j in 0..i { split((v[i] < v[j]) as u64); split((v[j] < v[i]) as u64); } }
}
entries! {
    /// n arbitrary indices of one kind.
    fn h_idx(kind, n) {
        let mut v = vec![];
        for _ in 0..n { v.push(u32s()); }
        order(&v);
        let mut m = TMFMesh::empty();
        set_tri(&mut m, kind, v.clone());
        let m2 = round_trip(&m, &TMFPrecisionInfo::default());
        for k in 0..4 { if k != kind { check(get_tri(&m2, k).is_none(), 5); } }
        match get_tri(&m2, kind) { Some(g) => eq_idx(g, &v, 1), None => check(n == 0, 3) }
        cover(1);
    }
    /// Every combination of the four kinds: absent, the array A, a copy of A which differs in its last element, or an array of its own; A has
    /// n elements of which the last is arbitrary. Equal arrays may be stored once: every array comes back as it was.
    fn h_idx_shared(n) {
        let x = u32s();
        let a: Vec<u32> = (0..n).map(|i| if i + 1 == n { x } else { i * 3 % 5 }).collect();
        let mut c = a.clone();
        if let Some(l) = c.last_mut() { *l ^= 1; }
        let own = vec![7u32, bits(3), 2];
        let mut m = TMFMesh::empty();
        let mut w: Vec<Option<Vec<u32>>> = vec![];
        for k in 0..4 {
            let v = match choice(0, 3) { 0 => None, 1 => Some(a.clone()), 2 => Some(c.clone()), _ => Some(own.clone()) };
            if let Some(v) = &v { set_tri(&mut m, k, v.clone()); }
            w.push(v);
        }
        let m2 = round_trip(&m, &TMFPrecisionInfo::default());
        for k in 0..4 {
            match (&w[k as usize], get_tri(&m2, k)) { (None, None) => {} (Some(v), Some(g)) => eq_idx(g, v, 1), (Some(v), None) => check(v.is_empty(), 3), (None, Some(_)) => check(false, 4) }
        }
        cover(1);
    }
    /// Arrays equal to one another with all n elements arbitrary, in the kinds of `mask`.
    fn h_idx_equal(mask, n) {
        let v: Vec<u32> = (0..n).map(|_| u32s()).collect();
        order(&v);
        let mut m = TMFMesh::empty();
        for k in 0..4 { if mask >> k & 1 == 1 { set_tri(&mut m, k, v.clone()); } }
        let m2 = round_trip(&m, &TMFPrecisionInfo::default());
        for k in 0..4 { match get_tri(&m2, k) { Some(g) => { check(mask >> k & 1 == 1, 3); eq_idx(g, &v, 1); } None => check(mask >> k & 1 == 0 || n == 0, 4) } }
        cover(1);
    }
    /// Two or more arrays of the same length, element wise arbitrary in `b` bits: equal or not is left to the solver.
    fn h_idx_pair(k1, k2, n, b) {
        let v: Vec<u32> = (0..n).map(|_| bits(b)).collect();
        let w: Vec<u32> = (0..n).map(|_| bits(b)).collect();
        let mut m = TMFMesh::empty();
        set_tri(&mut m, k1, v.clone()); set_tri(&mut m, k2, w.clone());
        let m2 = round_trip(&m, &TMFPrecisionInfo::default());
        eq_idx(get_tri(&m2, k1).unwrap(), &v, 1);
        eq_idx(get_tri(&m2, k2).unwrap(), &w, 3);
        for k in 0..4 { if k != k1 && k != k2 { check(get_tri(&m2, k).is_none(), 5); } }
        cover(1);
    }
    /// A long array which the encoder may split: pattern `pat` of n elements with the ones at p and q arbitrary (q in `b` bits), in the kinds of `mask`.
    fn h_idx_long(pat, n, p, q, b, mask) {
        let mut v: Vec<u32> = (0..n).map(|i| match pat {
            0 => if i < n / 2 { i % 7 } else { 1_000_000 + i % 7 },
            1 => if i < n / 2 { 4_000_000_000 + i % 3 } else { 9 + i % 2 },
            2 => if i < n / 3 || i >= 2 * n / 3 { 70_000 + i } else { i % 2 },
            3 => 123_456,
            4 => i,
            5 => u32::MAX - i,
            6 => (i * i * 7919) % 4096,
            _ => 1 << (i * 32 / n),
        }).collect();
        v[p as usize] = u32s();
        if q != p { v[q as usize] = bits(b); }
        let mut m = TMFMesh::empty();
        for k in 0..4 { if mask >> k & 1 == 1 { set_tri(&mut m, k, v.clone()); } }
        let mut out = Vec::new();
        m.write_tmf_one(&mut out, &TMFPrecisionInfo::default(), "mesh").unwrap();
        let (m2, _) = TMFMesh::read_tmf_one(&mut &out[..]).unwrap();
        for k in 0..4 { match get_tri(&m2, k) { Some(g) => { check(mask >> k & 1 == 1, 3); eq_idx(g, &v, 1); } None => check(mask >> k & 1 == 0, 4) } }
        cover(1);
        // the number of segments follows the header, the length of the name and the name
        if out[15 + 2 + 4] as u32 > mask.count_ones() { cover(2); }
    }
}
