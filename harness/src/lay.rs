//! The stored form at many precisions: what the writer stores is decoded by the independent parser, what the independent builder stores is read.
use crate::rt::*;
use crate::spec::*;
use crate::idx::*;
use tmf::*;
fn close(a: f64, b: f64, t: f64, id: u32) { check((a - b).abs() <= t, id); }
fn segs<'a>(b: &'a [u8], ty: u64) -> Vec<&'a [u8]> {
    let p = parse(b);
    check(p.len() == 1 && p[0].name == b"q" && p[0].segs.iter().all(|s| s.ty == ty), 70);
    p[0].segs.iter().map(|s| s.data).collect()
}
fn save(m: &TMFMesh, p: &TMFPrecisionInfo) -> Vec<u8> { let mut o = vec![]; m.write_tmf_one(&mut o, p, "q").unwrap(); o }
fn dir(a: u64, z: u64, s: (u64, u64, u64), p: u64) -> [f64; 3] {
    let m = ((1u64 << p) - 1) as f64;
    let (a, z) = (a as f64 / m * 1.570_796_326_794_9, z as f64 / m);
    let r = (1.0 - z * z).sqrt();
    let g = |s: u64| if s != 0 { -1.0 } else { 1.0 };
    [a.sin() * r * g(s.0), a.cos() * r * g(s.1), z * g(s.2)]
}
fn near3(v: Vector3, d: [f64; 3], t: f64, id: u32) { close(v.0 as f64, d[0], t, id); close(v.1 as f64, d[1], t, id); close(v.2 as f64, d[2], t, id); }
const DEV: [f32; 9] = [30.0, 10.0, 3.0, 1.0, 0.3, 0.1, 0.03, 0.003, 0.0001];
/// p bits: a free low part of f bits under a fixed pattern.
fn field(p: u32, f: u32, pat: u32) -> u64 {
    let f = f.min(p);
    let hi = match pat { 0 => 0u64, 1 => u64::MAX, 2 => 0x5555_5555_5555_5555, _ => 0x3_0f0f_1234_9ac5 };
    ((hi << f) & ((1u64 << p) - 1)) | bits(f) as u64
}
entries! {
    /// Three points in a box whose extents differ by axis (so that the three widths do), one of them on a grid of 2^6 along `axis`.
    fn h_lay_vtx(pidx, axis, ext) {
        let p = [1.0f32, 0.1, 0.01, 0.001, 0.00003][pidx as usize];
        let e = [[1.0f32, 40.0, 900.0], [0.03, 7.0, 1.0], [5000.0, 0.5, 0.5], [2.0, 2.0, 30000.0]][ext as usize];
        let g = bits(6) as f32 / 64.0;
        let lo = [-0.25f32, 3.0, -9.0];
        let mut c = [lo[0] + e[0] * 0.375, lo[1] + e[1] * 0.625, lo[2] + e[2] * 0.125];
        c[axis as usize] = lo[axis as usize] + e[axis as usize] * g;
        let vs = [[lo[0], lo[1], lo[2]], c, [lo[0] + e[0], lo[1] + e[1], lo[2] + e[2]]];
        let mut m = TMFMesh::empty();
        m.set_vertices(vs.iter().map(|v| (v[0], v[1], v[2])).collect::<Vec<_>>());
        let mut pi = TMFPrecisionInfo::default();
        pi.vertex_precision = VertexPrecisionMode(p);
        let b = save(&m, &pi);
        let s = segs(&b, 1);
        check(s.len() == 1, 1);
        let mut r = Rd::new(s[0]);
        check(r.le(8) == 3, 2);
        let bx = [(r.f64(), r.f64()), (r.f64(), r.f64()), (r.f64(), r.f64())];
        let pr = [split(r.le(1)), split(r.le(1)), split(r.le(1))];
        let mut z = Bits::new(r.take(s[0].len() - 59));
        for v in &vs { for k in 0..3 {
            let q = z.get(pr[k]) as f64 / ((1u64 << pr[k]) - 1) as f64;
            // a tenth of a unit is the assumed edge; the rest is single precision rounding of the box
            close(bx[k].0 + q * (bx[k].1 - bx[k].0), v[k] as f64, 0.1 * p as f64 + e[k] as f64 * 4e-7 + 1e-6, 3);
        } }
        check(z.end(), 4);
        cover(1);
    }
    /// Normals (tan 0) or tangents at one of nine deviations: the stored form means the direction; the middle one is free in azimuth.
    fn h_lay_nrm(k, tan, oct) {
        let s = |x: f32, b: u32| if oct >> b & 1 == 1 { -x } else { x };
        let mk = |a: f32, h: f32| { let r = (1.0 - h * h).sqrt(); (s(a.sin() * r, 0), s(a.cos() * r, 1), s(h, 2)) };
        let vs = vec![mk(0.3, 0.2), mk(bits(6) as f32 / 64.0 * 1.5 + 0.02, 0.55), mk(1.4, 0.75)];
        let mut m = TMFMesh::empty();
        let mut pi = TMFPrecisionInfo::default();
        let hs: Vec<f32> = (0..3).map(|_| f32s()).collect();
        if tan == 1 {
            m.set_tangents(vs.iter().zip(&hs).map(|(v, h)| (*v, *h)).collect::<Vec<_>>());
            pi.tangent_prec = TangentPrecisionMode::from_deg_dev(DEV[k as usize]);
        } else {
            m.set_normals(vs.clone());
            pi.normal_precision = NormalPrecisionMode::from_deg_dev(DEV[k as usize]);
        }
        let b = save(&m, &pi);
        let d = segs(&b, if tan == 1 { 9 } else { 3 });
        check(d.len() == 1, 1);
        let mut r = Rd::new(d[0]);
        check(r.le(8) == 3, 2);
        let p = split(r.le(1));
        let mut z = Bits::new(r.take(d[0].len() - 9));
        let tol = (DEV[k as usize] as f64).to_radians() + 3e-6;
        for (v, h) in vs.iter().zip(&hs) {
            if tan == 1 { check((z.get(1) == 1) == h.is_sign_negative(), 3); }
            let sg = (z.get(1), z.get(1), z.get(1));
            let (a, h) = (z.get(p), z.get(p));
            near3(*v, dir(a, h, sg, p), tol, 4);
        }
        check(z.end(), 5);
        cover(1);
    }
    /// UV pairs at nine precisions, one of them free on a grid of 2^8.
    fn h_lay_uv(k) {
        let (res, dev) = [(4.0f32, 1.0f32), (16.0, 1.0), (64.0, 0.5), (256.0, 0.5), (1000.0, 0.3), (4096.0, 0.1), (65536.0, 0.1), (65536.0, 0.001), (1e6, 1e-4)][k as usize];
        let g = bits(8) as f32 / 255.0;
        let v = vec![(0.125f32, 0.9f32), (g, 0.3), (0.7, 1.0 - g), (0.0, 1.0)];
        let mut m = TMFMesh::empty();
        m.set_uvs(v.clone());
        let mut pi = TMFPrecisionInfo::default();
        pi.uv_prec = UvPrecisionMode::form_texture_resolution(res, dev);
        let b = save(&m, &pi);
        let d = segs(&b, 5);
        check(d.len() == 1, 1);
        let mut r = Rd::new(d[0]);
        let p = split(r.le(1));
        check(r.le(8) == 4, 2);
        let mut z = Bits::new(r.take(d[0].len() - 9));
        let div = ((1u64 << p) - 1) as f64;
        for x in &v { for c in [x.0, x.1] { close(z.get(p) as f64 / div, c as f64, dev as f64 / res as f64 + 2e-7, 3); } }
        check(z.end(), 4);
        cover(1);
    }
    /// Custom floats and colours at several precisions, indices and integers of several widths: the stored form means the values.
    fn h_lay_custom(kind, k) {
        let mut m = TMFMesh::empty();
        let g = bits(6) as f32 / 64.0;
        let prec = [0.5f32, 0.1, 0.01, 0.001, 0.00001][k as usize];
        let ty = match kind {
            0 => {
                let v = [-3.5f32, g * 9.0 - 3.5, 0.25, 5.5];
                m.add_custom_data(CustomData::CustomFloat(v[..].into(), prec), "fn").unwrap();
                let b = save(&m, &TMFPrecisionInfo::default());
                let d = segs(&b, 16);
                let mut r = Rd::new(d[0]);
                check(d.len() == 1 && r.le(1) == 2 && r.take(2) == b"fn" && r.le(8) == 4, 1);
                let (lo, hi) = (r.f64(), r.f64());
                let p = split(r.le(1));
                let l = d[0].len() - r.p;
                let mut z = Bits::new(r.take(l));
                for x in v { close(lo + z.get(p) as f64 / ((1u64 << p) - 1) as f64 * (hi - lo), x as f64, prec as f64 + 2e-6, 2); }
                check(z.end(), 3);
                16
            }
            1 => {
                let v = [(0.0f32, g, 0.25f32, 1.0f32), (1.0 - g, 0.6, 0.8, 0.1)];
                m.add_custom_data(CustomData::CustomColorRGBA(v[..].into(), prec), "fn").unwrap();
                let b = save(&m, &TMFPrecisionInfo::default());
                let d = segs(&b, 23);
                let mut r = Rd::new(d[0]);
                check(d.len() == 1 && r.le(1) == 2 && r.take(2) == b"fn" && r.le(8) == 2, 4);
                let p = split(r.le(1));
                let l = d[0].len() - r.p;
                let mut z = Bits::new(r.take(l));
                for x in v { for c in [x.0, x.1, x.2, x.3] { close(z.get(p) as f64 / ((1u64 << p) - 1) as f64, c as f64, prec as f64 + 2e-7, 5); } }
                check(z.end(), 6);
                23
            }
            _ => {
                let w = [1u32, 7, 13, 21, 32][k as usize];
                let top = ((1u64 << w) - 1) as u32;
                let v = [top, bits(w.min(8)), 0, top / 2];
                m.add_custom_data(if kind == 2 { CustomData::CustomIndex(v[..].into(), top as usize) } else { CustomData::CustomIntiger(v[..].into(), top as usize) }, "fn").unwrap();
                let b = save(&m, &TMFPrecisionInfo::default());
                let t = if kind == 2 { 15 } else { 24 };
                let d = segs(&b, t);
                check(d.len() == 1 && d[0][..3] == [2, b'f', b'n'], 7);
                let g = indices(&d[0][3..]);
                check(g.len() == 4, 8);
                for i in 0..4 { check(g[i] == v[i] as u64, 9); }
                t
            }
        };
        check(parse(&save(&m, &TMFPrecisionInfo::default()))[0].segs[0].ty == ty, 10);
        cover(1);
    }
    /// n indices of one kind at a width of w bits over the smallest, one free: whatever segments the writer makes, together they mean the array.
    fn h_lay_idx(kind, w, n, base) {
        let top = ((1u64 << w) - 1) as u32;
        let mut v: Vec<u32> = (0..n).map(|i| base + (i.wrapping_mul(2654435761) >> (32 - w))).collect();
        v[0] = base; v[1] = base + top;
        v[n as usize / 2] = base + bits(w.min(10));
        let mut m = TMFMesh::empty();
        set_tri(&mut m, kind, v.clone());
        let b = save(&m, &TMFPrecisionInfo::default());
        let mut g = vec![];
        for s in segs(&b, [2, 4, 6, 10][kind as usize]) { g.extend(indices(s)); }
        check(g.len() == v.len(), 1);
        for i in 0..g.len() { check(g[i] == v[i] as u64, 2); }
        cover(1);
    }
    /// Different arrays of blocks in different order per kind (the writer splits them and may share segments): each comes back in its order.
    fn h_lay_blocks(va, na, ua, ta) {
        let x = bits(4);
        let blk = |k: u32| -> Vec<u32> { match k { 0 => (0..60).map(|i| i % 3).collect(), 1 => (0..60).map(|i| 5_000_000 + i % 5).collect(), 2 => (0..60).map(|i| if i == 31 { 70_000 + x } else { 70_000 + i % 16 }).collect(), _ => vec![3_000_000_000 + x; 30] } };
        let arr = |mut c: u32| -> Vec<u32> { let mut v = vec![]; while c > 0 { v.extend(blk(c % 10 - 1)); c /= 10; } v };
        let w = [arr(va), arr(na), arr(ua), arr(ta)];
        let mut m = TMFMesh::empty();
        for k in 0..4 { if !w[k].is_empty() { set_tri(&mut m, k as u32, w[k].clone()); } }
        let m2 = round_trip_q(&m);
        for k in 0..4 { match get_tri(&m2, k as u32) { Some(g) => eq_idx(g, &w[k], 1), None => check(w[k].is_empty(), 3) } }
        cover(1);
    }
    /// Stored directions of p bits whose low f bits are free under a pattern, n of them at odd places in the bit stream.
    fn h_lay_read_nrm(minor, p, f, pat, tan) {
        let minor = minor as u64;
        let mut w = Wr::default();
        w.le(2, 8).le(p as u64, 1);
        let mut fs = vec![];
        let mut e = vec![];
        for i in 0..2u32 {
            let h = bits(1) as u64;
            if tan == 1 { fs.push((h, 1)); }
            let s = (bits(1) as u64, (i & 1) as u64, bits(1) as u64);
            let (a, z) = if i == 0 { (field(p, 0, 2), field(p, 0, 3)) } else if pat & 4 == 0 { (field(p, f, pat & 3), field(p, 0, 2)) } else { (field(p, 0, 2), field(p, f, pat & 3)) };
            fs.extend([(s.0, 1), (s.1, 1), (s.2, 1), (a, p), (z, p)]);
            e.push((a, z, s, h));
        }
        w.raw(&pack(&fs));
        let mut o = Wr::file(minor, 1);
        o.mesh(b"q", 1).seg(minor, if tan == 1 { 9 } else { 3 }, 0, &w.0);
        let (m, _) = TMFMesh::read_tmf_one(&mut &o.0[..]).unwrap();
        for i in 0..2 {
            let d = dir(e[i].0, e[i].1, e[i].2, p as u64);
            if tan == 1 {
                let t = m.get_tangents().unwrap();
                check(t.len() == 2 && t[i].1 == if e[i].3 == 1 { -1.0 } else { 1.0 }, 1);
                near3(t[i].0, d, 1e-3, 2);
            } else { let t = m.get_normals().unwrap(); check(t.len() == 2, 1); near3(t[i], d, 1e-3, 2); }
        }
        cover(1);
    }
    /// Stored points of up to 40 bits per axis, with the low 6 bits of one coordinate free under a pattern.
    fn h_lay_read_vtx(minor, px, py, pz, axis, pat) {
        let minor = minor as u64;
        let bx = [(-1.0f64, 2.0f64), (0.5, 9.5), (-7.0, -3.0)];
        let pr = [px, py, pz];
        let mut w = Wr::default();
        w.le(2, 8);
        for (a, b) in bx { w.f64(a).f64(b); }
        for p in pr { w.le(p as u64, 1); }
        let mut f = vec![];
        for i in 0..2 { for k in 0..3 { f.push((field(pr[k], if i == 1 && k == axis as usize { 6 } else { 0 }, if i == 1 && k == axis as usize { pat } else { 3 - i }), pr[k])); } }
        w.raw(&pack(&f));
        let mut o = Wr::file(minor, 1);
        o.mesh(b"q", 1).seg(minor, 1, 0, &w.0);
        let (m, _) = TMFMesh::read_tmf_one(&mut &o.0[..]).unwrap();
        let v = m.get_vertices().unwrap();
        check(v.len() == 2, 1);
        for i in 0..2 { let g = [v[i].0, v[i].1, v[i].2]; for k in 0..3 { let (q, p) = f[3 * i + k]; close(g[k] as f64, bx[k].0 + q as f64 / ((1u64 << p) - 1) as f64 * (bx[k].1 - bx[k].0), 4e-6, 2); } }
        cover(1);
    }
    /// Stored custom floats (0) and colours (1) and UV pairs (2) of p bits, the low f bits of the second value free under a pattern.
    fn h_lay_read_unit(minor, kind, p, f, pat) {
        let minor = minor as u64;
        let mut w = Wr::default();
        let fs: Vec<(u64, u32)> = (0..4).map(|i| (if i == 1 { field(p, f, pat) } else { field(p, 0, i) }, p)).collect();
        let ty = match kind {
            0 => { w.le(1, 1).raw(b"c").le(4, 8).f64(-2.0).f64(6.0).le(p as u64, 1); 16 }
            1 => { w.le(1, 1).raw(b"c").le(1, 8).le(p as u64, 1); 23 }
            _ => { w.le(p as u64, 1).le(2, 8); 5 }
        };
        w.raw(&pack(&fs));
        let mut o = Wr::file(minor, 1);
        o.mesh(b"q", 1).seg(minor, ty, 0, &w.0);
        let (m, _) = TMFMesh::read_tmf_one(&mut &o.0[..]).unwrap();
        let g: Vec<f32> = match kind {
            0 => m.lookup_custom_data("c").unwrap().as_float().unwrap().0.to_vec(),
            1 => m.lookup_custom_data("c").unwrap().as_color_rgba().unwrap().0.iter().flat_map(|c| [c.0, c.1, c.2, c.3]).collect(),
            _ => m.get_uvs().unwrap().iter().flat_map(|c| [c.0, c.1]).collect(),
        };
        check(g.len() == 4, 1);
        let d = ((1u64 << p) - 1) as f64;
        for i in 0..4 { let u = fs[i].0 as f64 / d; close(g[i] as f64, if kind == 0 { u * 8.0 - 2.0 } else { u }, 2e-6, 2); }
        cover(1);
    }
}
fn round_trip_q(m: &TMFMesh) -> TMFMesh { TMFMesh::read_tmf_one(&mut &save(m, &TMFPrecisionInfo::default())[..]).unwrap().0 }
