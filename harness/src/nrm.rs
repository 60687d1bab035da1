use crate::rt::*;
use crate::idx::round_trip;
use tmf::*;
/// (degrees, sine below which the documented deviation is not kept, degrees kept there)
fn prec(p: u32) -> (f32, f64, f64) {
    match p {
        0 => (1.0, 0.25, 5.1),
        1 => (5.0, 0.25, 10.4),
        2 => (10.0, 0.3, 14.9),
        3 => (0.1, 0.25, 1.8),
        4 => (30.0, 0.6, 36.9),
        5 => (0.01, 0.25, 0.55),
        6 => (0.003, 0.25, 0.35),
        _ => (0.00002, 0.25, 0.1),
    }
}
/// Single precision rounding: the arc sine of a number next to one is off by up to this many radians (fast_trig: see there).
const SLACK: f64 = if cfg!(feature = "feat") { 0.001 } else { 0.000_5 };
/// The angle between `n` and the decoded `d` is at most `deg` degrees (as a distance, both being unit vectors up to rounding).
fn within(n: Vector3, d: Vector3, deg: f64) -> bool {
    let e = (n.0 as f64 - d.0 as f64, n.1 as f64 - d.1 as f64, n.2 as f64 - d.2 as f64);
    let l = (deg * 0.008_726_646_259_97).sin() * 2.0 + SLACK;
    e.0 * e.0 + e.1 * e.1 + e.2 * e.2 <= l * l
}
fn dot(a: Vector3, b: Vector3) -> f64 { a.0 as f64 * b.0 as f64 + a.1 as f64 * b.1 as f64 + a.2 as f64 * b.2 as f64 }
/// `strict`: the documented deviation is demanded near the poles too (a known finding).
fn close(n: Vector3, d: Vector3, p: u32, strict: bool) {
    let mag = dot(d, d);
    check(mag > 0.9999 && mag < 1.0001, 2);
    let (deg, cap, polar) = prec(p);
    let out = n.0 as f64 * n.0 as f64 + n.1 as f64 * n.1 as f64 >= cap * cap * dot(n, n);
    check(!out | within(n, d, deg as f64), 21);
    check(out | within(n, d, polar), 22);
    if strict { check(out | within(n, d, deg as f64), 20); }
}
fn sgn(n: Vector3, s: u32) -> Vector3 { (if s & 1 == 1 { -n.0 } else { n.0 }, if s & 2 == 2 { -n.1 } else { n.1 }, if s & 4 == 4 { -n.2 } else { n.2 }) }
fn through(v: &[Vector3], hand: &[f32], p: u32, tan: u32) -> Vec<Vector3> {
    let mut m = TMFMesh::empty();
    let mut pi = TMFPrecisionInfo::default();
    if tan != 0 {
        m.set_tangents(v.iter().zip(hand).map(|(n, h)| (*n, *h)).collect::<Vec<_>>());
        pi.tangent_prec = if tan == 1 { TangentPrecisionMode::from_deg_dev(prec(p).0) } else { TangentPrecisionMode::from_rad_dev(prec(p).0.to_radians()) };
        let m2 = round_trip(&m, &pi);
        check(m2.get_normals().is_none() && m2.get_tangent_triangles().is_none(), 5);
        let t = m2.get_tangents().unwrap();
        check(t.len() == v.len(), 1);
        for i in 0..t.len() { check(t[i].1 == if hand[i].is_sign_negative() { -1.0 } else { 1.0 }, 4); }
        t.iter().map(|x| x.0).collect()
    } else {
        m.set_normals(v.to_vec());
        pi.normal_precision = NormalPrecisionMode::from_deg_dev(prec(p).0);
        let m2 = round_trip(&m, &pi);
        check(m2.get_tangents().is_none() && m2.get_normal_triangles().is_none(), 5);
        let t = m2.get_normals().unwrap();
        check(t.len() == v.len(), 1);
        t.to_vec()
    }
}
/// A direction in the octant `s`: azimuth anywhere in sector `sec` of `secs` of the quarter turn, height anywhere in band `band` of `bands`.
fn direction(s: u32, sec: u32, secs: u32, abits: u32, band: u32, bands: u32, zbits: u32) -> Vector3 {
    let a = (sec as f32 + unit(abits)) / secs as f32 * 1.570_796_4;
    let z = (band as f32 + unit(zbits)) / bands as f32;
    let r = (1.0 - z * z).sqrt();
    sgn((a.sin() * r, a.cos() * r, z), s)
}
fn unit(b: u32) -> f32 { bits(b) as f32 / (1u32 << b) as f32 }
entries! {
    /// All azimuths of 2^abits steps per sector and all heights of 2^zbits steps per band, in every sector and the given bands and octants.
    fn h_nrm(p, tan, oct, secs, abits, lo, hi, bands, zbits) {
        let s = if oct < 8 { oct } else { choice(0, 7) };
        let sec = choice(0, secs - 1);
        let band = choice(lo, hi);
        let n = direction(s, sec, secs, abits, band, bands, zbits);
        let h = if tan != 0 { f32s() } else { 0.0 };
        let d = through(&[n], &[h], p, tan);
        close(n, d[0], p, true);
        cover(1);
    }
    /// The axes, the diagonals and directions which are not of unit length by rounding.
    fn h_nrm_axes(p, tan) {
        let i = choice(0, 26);
        let f = |x: u32| x as f32 - 1.0;
        let v = (f(i % 3), f(i / 3 % 3), f(i / 9));
        let m = (v.0 * v.0 + v.1 * v.1 + v.2 * v.2).sqrt();
        assume(m > 0.0);
        let n = (v.0 / m, v.1 / m, v.2 / m);
        let d = through(&[n], &[-1.0], p, tan);
        close(n, d[0], p, false);
        for (a, b) in [(n.0, d[0].0), (n.1, d[0].1), (n.2, d[0].2)] { check(a != 0.0 || b.abs() < 0.02, 6); }
        cover(1);
    }
    /// n directions, the one at `pos` symbolic: count and order are kept, neighbours do not disturb each other.
    fn h_nrm_many(n, pos, p, tan, bands) {
        let mut v = vec![];
        let mut h = vec![];
        let mut s = 99u32;
        let mut rnd = || { s = s.wrapping_mul(1664525).wrapping_add(1013904223); (s >> 16) as f32 / 65536.0 };
        for i in 0..n {
            let (a, z): (f32, f32) = (rnd() * 6.28, rnd() * 1.8 - 0.9);
            let r = (1.0 - z * z).sqrt();
            v.push((a.sin() * r, a.cos() * r, z)); h.push(if i % 3 == 1 { -1.0 } else { 1.0 });
        }
        v[pos as usize] = direction(choice(0, 7), 0, 1, 6, choice(0, bands - 1), bands, 4);
        h[pos as usize] = f32s();
        let d = through(&v, &h, p, tan);
        for i in 0..d.len() { close(v[i], d[i], p, false); }
        cover(1);
    }
    /// Any deviation on a grid of degrees (the number of stored bits follows it): the documented deviation holds outside the polar caps.
    fn h_nrm_mode(lo, hi, tan) {
        let deg = (bits(4) as f32 / 16.0 + choice(lo, hi) as f32) * 0.5 + 0.05;
        let n = direction(choice(0, 7), 0, 1, 4, 0, 2, 4);
        let mut m = TMFMesh::empty();
        let mut pi = TMFPrecisionInfo::default();
        let d = if tan == 0 {
            m.set_normals(vec![n]);
            pi.normal_precision = NormalPrecisionMode::from_rad_dev(deg.to_radians());
            round_trip(&m, &pi).get_normals().unwrap()[0]
        } else {
            m.set_tangents(vec![(n, 1.0)]);
            pi.tangent_prec = TangentPrecisionMode::from_rad_dev(deg.to_radians());
            round_trip(&m, &pi).get_tangents().unwrap()[0].0
        };
        check(within(n, d, deg as f64), 7);
        cover(1);
    }
}
