use crate::rt::*;
use crate::idx::{eq_idx, round_trip};
use tmf::*;
fn fp(i: u32) -> f32 { [0.01f32, 0.1, 0.5, 0.003, 1.0, 3.0, 1e-6, 1e-9, 1e-15][i as usize] }
/// k/(2^b-1)
fn unit(b: u32) -> f32 { bits(b) as f32 / ((1u32 << b) - 1) as f32 }
fn name(n: u32) -> String { let mut s = String::new(); for _ in 0..n { let b = u8s(); assume(b < 0x80); s.push(b as char); } s }
fn save(d: Vec<(CustomData, String)>) -> TMFMesh {
    let mut m = TMFMesh::empty();
    for (d, n) in d { m.add_custom_data(d, &n).unwrap(); }
    round_trip(&m, &TMFPrecisionInfo::default())
}
fn floats(m: &TMFMesh, n: &str, v: &[f32], p: f32) {
    let d = m.lookup_custom_data(n);
    check(d.is_some(), 10);
    let f = d.unwrap().as_float();
    check(f.is_some() && d.unwrap().as_index().is_none() && d.unwrap().as_intiger().is_none() && d.unwrap().as_color_rgba().is_none(), 11);
    let f = f.unwrap().0;
    check(f.len() == v.len(), 12);
    for i in 0..v.len().min(f.len()) { check((f[i] as f64 - v[i] as f64).abs() <= p as f64 + v[i].abs() as f64 * 1e-6 + 1e-6, 13); }
}
fn colors(m: &TMFMesh, n: &str, v: &[Vector4], p: f32) {
    let d = m.lookup_custom_data(n);
    check(d.is_some(), 10);
    let f = d.unwrap().as_color_rgba();
    check(f.is_some() && d.unwrap().as_index().is_none() && d.unwrap().as_intiger().is_none() && d.unwrap().as_float().is_none(), 11);
    let f = f.unwrap().0;
    check(f.len() == v.len(), 12);
    let t = p as f64 + 1e-6;
    for i in 0..v.len().min(f.len()) {
        for (a, b) in [(f[i].0, v[i].0), (f[i].1, v[i].1), (f[i].2, v[i].2), (f[i].3, v[i].3)] { check((a as f64 - b as f64).abs() <= t, 14); }
    }
}
fn ints(m: &TMFMesh, n: &str, kind: u32, v: &[u32]) {
    let d = m.lookup_custom_data(n);
    check(d.is_some(), 10);
    let d = d.unwrap();
    let (f, other) = if kind == 0 { (d.as_index(), d.as_intiger()) } else { (d.as_intiger(), d.as_index()) };
    check(f.is_some() && other.is_none() && d.as_float().is_none() && d.as_color_rgba().is_none(), 11);
    eq_idx(f.unwrap().0, v, 15);
    if v.len() > 0 { check(f.unwrap().1 == *v.iter().max().unwrap() as usize, 17); }
}
entries! {
    /// Floats a <= x <= b: the ends and (through x on a grid of xbits) everything between.
    fn h_cf(p, a, b, xbits) {
        let (a, b) = (a as i32 as f32 * 0.125, b as i32 as f32 * 0.125);
        let x = a + unit(xbits) * (b - a);
        let v = vec![b, x, a, a];
        let m = save(vec![(CustomData::CustomFloat(v.clone().into(), fp(p)), "f".into())]);
        floats(&m, "f", &v, fp(p));
        cover(1);
    }
    /// The span itself is symbolic (equal values included), and so is the precision.
    fn h_cf_span(sbits, pbits) {
        let s = bits(sbits) as f32 * 0.75;
        let p = (bits(pbits) + 1) as f32 / 16.0;
        let v = vec![-3.0, s - 3.0, s * 0.5 - 3.0];
        let m = save(vec![(CustomData::CustomFloat(v.clone().into(), p), "f".into())]);
        floats(&m, "f", &v, p);
        cover(1);
    }
    /// Arrays of length 0, 1, n.
    fn h_cf_len(n, p) {
        let mut v = vec![];
        for i in 0..n { v.push((i * 7 % 5) as f32 - 2.0); }
        if n > 0 { v[n as usize / 2] = unit(8) * 4.0 - 2.0; }
        let m = save(vec![(CustomData::CustomFloat(v.clone().into(), fp(p)), "f".into())]);
        floats(&m, "f", &v, fp(p));
        cover(1);
    }
    /// One colour on a grid of 2^(4 * cbits).
    fn h_cc(p, cbits) {
        let v = vec![(0.0, 1.0, 0.5, 1.0), (unit(cbits), unit(cbits), unit(cbits), unit(cbits)), (1.0, 0.25, 0.0, 0.0)];
        let m = save(vec![(CustomData::CustomColorRGBA(v.clone().into(), fp(p)), "c".into())]);
        colors(&m, "c", &v, fp(p));
        cover(1);
    }
    /// One channel of a colour on a fine grid, the precision symbolic too.
    fn h_cc_prec(ch, xbits, pbits) {
        let x = unit(xbits);
        let p = (bits(pbits) + 1) as f32 / 64.0;
        let mut c = [0.75f32, 0.125, 1.0, 0.0];
        c[ch as usize] = x;
        let v = vec![(c[0], c[1], c[2], c[3])];
        let m = save(vec![(CustomData::CustomColorRGBA(v.clone().into(), p), "c".into())]);
        colors(&m, "c", &v, p);
        cover(1);
    }
    fn h_cc_len(n, p) {
        let mut v = vec![];
        for i in 0..n { let k = (i * 7 % 5) as f32 / 4.0; v.push((k, 1.0 - k, 0.5, k)); }
        if n > 0 { v[n as usize - 1] = (unit(6), 0.0, 1.0, unit(6)); }
        let m = save(vec![(CustomData::CustomColorRGBA(v.clone().into(), fp(p)), "c".into())]);
        colors(&m, "c", &v, fp(p));
        cover(1);
    }
    /// n arbitrary 32 bit values of an index (0) or integer (1) array; the declared maximum is the true one.
    fn h_ci(kind, n) {
        let mut v = vec![];
        for _ in 0..n { v.push(u32s()); }
        crate::idx::order(&v);
        let d = if kind == 0 { CustomData::from(&v[..]) } else { CustomData::CustomIntiger(v.clone().into(), v.iter().max().copied().unwrap_or(0) as usize) };
        let m = save(vec![(d, "i".into())]);
        ints(&m, "i", kind, &v);
        cover(1);
    }
    /// The declared maximum is any number which is at least the true one.
    fn h_ci_max(kind, lo, hi) {
        let v = vec![u32s(), 5];
        crate::idx::order(&v);
        let b = choice(lo, hi);
        let mx = if b == 64 { u64::MAX } else { (1u64 << b) - 1 + (u8s() as u64 & 1) } as usize;
        assume(mx >= v[0].max(v[1]) as usize);
        let d = if kind == 0 { CustomData::CustomIndex(v.clone().into(), mx) } else { CustomData::CustomIntiger(v.clone().into(), mx) };
        let m = save(vec![(d, "i".into())]);
        ints(&m, "i", kind, &v);
        cover(1);
    }
    /// Several arrays of different kinds under symbolic names: a lookup returns the first of that name, others are found, absent names are not.
    fn h_cname(l1, l2, lq) {
        let (n1, n2, q) = (name(l1), name(l2), name(lq));
        let m = save(vec![(CustomData::CustomIndex(vec![1, 2, 3].into(), 3), n1.clone()), (CustomData::CustomIntiger(vec![7].into(), 7), n2.clone())]);
        let d = m.lookup_custom_data(&q);
        if q == n1 { check(d.is_some(), 10); check(d.unwrap().as_index().is_some(), 11); ints(&m, &q, 0, &[1, 2, 3]); cover(1); }
        else if q == n2 { check(d.is_some(), 10); ints(&m, &q, 1, &[7]); cover(2); }
        else { check(d.is_none(), 16); cover(3); }
    }
    /// In memory: two arrays added under free names of l1 and l2 bytes (0 allowed): an empty name is refused and changes nothing, a lookup returns
    /// the first array of exactly that name as it was given, also from a clone and after the mesh was changed otherwise.
    fn h_cmem(l1, l2, lq) {
        let (n1, n2, q) = (name(l1), name(l2), name(lq));
        let (x, y) = (u32s(), u32s());
        let mut m = TMFMesh::empty();
        let r1 = m.add_custom_data(CustomData::CustomIndex(vec![x, 2].into(), x.max(2) as usize), &n1);
        check(r1.is_ok() == (l1 > 0) && (l1 > 0 || matches!(r1, Err(DataSegmentError::NoName))), 21);
        let r2 = m.add_custom_data(CustomData::CustomIntiger(vec![7, y, 7].into(), y.max(7) as usize), &n2);
        check(r2.is_ok() == (l2 > 0), 22);
        let mut c = m.clone();
        c.set_vertices(vec![(1.0, 2.0, 3.0)]); c.append_uv_triangles(&[1]); c.normalize(); c.reorder_data();
        for m in [m, c] {
            let d = m.lookup_custom_data(&q);
            if l1 > 0 && q == n1 { let v = d.unwrap().as_index().unwrap(); check(v.0.len() == 2 && v.0[0] == x && v.0[1] == 2, 23); check(d.unwrap().as_intiger().is_none() && d.unwrap().as_float().is_none() && d.unwrap().as_color_rgba().is_none(), 24); cover(1); }
            else if l2 > 0 && q == n2 { let v = d.unwrap().as_intiger().unwrap(); check(v.0.len() == 3 && v.0[0] == 7 && v.0[1] == y && v.0[2] == 7, 25); check(d.unwrap().as_index().is_none(), 26); cover(2); }
            else { check(d.is_none(), 27); cover(3); }
        }
    }
    /// Names of every length: 1..=255 bytes are kept, an empty or longer name is refused.
    fn h_cname_len(lo, hi) {
        let n = choice(lo, hi);
        let k = u8s(); assume(k < 0x80);
        let mut s = String::new();
        for i in 0..n { s.push(if i == n / 2 { k as char } else { (97 + (i % 26) as u8) as char }); }
        let mut m = TMFMesh::empty();
        let r = m.add_custom_data(CustomData::CustomIndex(vec![9].into(), 9), &s);
        if n == 0 { check(matches!(r, Err(DataSegmentError::NoName)), 18); cover(2); return; }
        if n > 255 { check(matches!(r, Err(DataSegmentError::NameTooLong)), 19); cover(3); return; }
        check(r.is_ok(), 20);
        let m2 = round_trip(&m, &TMFPrecisionInfo::default());
        ints(&m2, &s, 0, &[9]);
        cover(1);
    }
    /// Non-ASCII names.
    fn h_cname_utf8(k) {
        let (a, b) = (u8s(), u8s());
        let s = match k { 0 => { assume(a >= 0xc2 && a < 0xe0 && b >= 0x80 && b < 0xc0); vec![b'x', a, b] } _ => { assume(a >= 0x80 && a < 0xa0 && b >= 0x80 && b < 0xc0); vec![0xed, a, b, b'y'] } };
        let s = unsafe { String::from_utf8_unchecked(s) };
        let m = save(vec![(CustomData::CustomIndex(vec![9].into(), 9), s.clone())]);
        ints(&m, &s, 0, &[9]);
        cover(1);
    }
    /// All four kinds at once keep their order and contents.
    fn h_call() {
        let x = u32s();
        let f = unit(6);
        let c = (unit(3), 0.0, 1.0, unit(3));
        let mut d = vec![(CustomData::CustomFloat(vec![0.0, f, 1.0].into(), 0.01), "f".to_string()), (CustomData::CustomColorRGBA(vec![c].into(), 0.01), "c".to_string()), (CustomData::CustomIndex(vec![x].into(), x as usize), "i".to_string()), (CustomData::CustomIntiger(vec![0, x].into(), x as usize), "n".to_string())];
        let r = choice(0, 3) as usize;
        d.rotate_left(r);
        let m = save(d);
        floats(&m, "f", &[0.0, f, 1.0], 0.01);
        colors(&m, "c", &[c], 0.01);
        ints(&m, "i", 0, &[x]);
        ints(&m, "n", 1, &[0, x]);
        cover(1);
    }
    /// Two arrays whose names of n bytes are the same but for the byte at `at` (free, different): both are kept and found. So are two of the same name
    /// (same = 1): the first of them is found.
    fn h_cname_twin(lo, hi, same) {
        let n = choice(lo, hi);
        let at = [0, n / 2, n - 1][choice(0, 2) as usize] as usize;
        let (a, b) = (below(128) as u8, below(128) as u8);
        assume((a == b) == (same == 1));
        let nm = |k: u8| (0..n as usize).map(|i| if i == at { k as char } else { (97 + (i % 26) as u8) as char }).collect::<String>();
        let m = save(vec![(CustomData::CustomIndex(vec![1, 2].into(), 2), nm(a)), (CustomData::CustomIntiger(vec![7].into(), 7), nm(b))]);
        ints(&m, &nm(a), 0, &[1, 2]);
        if same == 0 { ints(&m, &nm(b), 1, &[7]); }
        cover(1);
    }
}
