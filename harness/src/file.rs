//! Container: meshes, names, headers, versions, unknown segments, layout.
use crate::rt::*;
use crate::spec::*;
use crate::idx::*;
use tmf::*;
pub fn ser(m: &[(TMFMesh, String)]) -> Vec<u8> { let mut o = vec![]; TMFMesh::write_tmf(m, &mut o, &TMFPrecisionInfo::default()).unwrap(); o }
pub fn rd(b: &[u8]) -> Result<Vec<(TMFMesh, String)>, TMFImportError> { TMFMesh::read_tmf(&mut &b[..]) }
pub fn name(len: u32) -> String { let mut s = String::new(); for _ in 0..len { s.push(bits(7) as u8 as char); } s }
fn bare(m: &TMFMesh) -> bool {
    m.get_vertices().is_none() && m.get_normals().is_none() && m.get_uvs().is_none() && m.get_tangents().is_none()
        && m.get_vertex_triangles().is_none() && m.get_normal_triangles().is_none() && m.get_uv_triangles().is_none() && m.get_tangent_triangles().is_none()
}
fn close(a: f64, b: f64, t: f64, id: u32) { check((a - b).abs() <= t, id); }
/// Direction of a normal from its stored form.
fn direction(a: u64, z: u64, s: (u64, u64, u64), p: u32) -> [f64; 3] {
    let m = ((1u64 << p) - 1) as f64;
    let (a, z) = (a as f64 / m * 1.570_796_326_794_9, z as f64 / m);
    let r = (1.0 - z * z).sqrt();
    let g = |s: u64| if s != 0 { -1.0 } else { 1.0 };
    [a.sin() * r * g(s.0), a.cos() * r * g(s.1), z * g(s.2)]
}
fn near3(v: Vector3, d: [f64; 3], t: f64, id: u32) { close(v.0 as f64, d[0], t, id); close(v.1 as f64, d[1], t, id); close(v.2 as f64, d[2], t, id); }
fn seg_file(minor: u64, ty: u64, data: &[u8]) -> Vec<u8> { let mut w = Wr::file(minor, 1); w.mesh(b"q", 1).seg(minor, ty, 0, data); w.0 }
fn one(b: &[u8]) -> TMFMesh { let (m, n) = TMFMesh::read_tmf_one(&mut &b[..]).unwrap(); check(n == "q", 89); m }
fn idx_data(minor: u64, p: u32, min: u64, v: &[u64]) -> Vec<u8> {
    let mut w = Wr::default();
    w.le(p as u64, 1).le(v.len() as u64, 8);
    if minor > 1 { w.le(min, 8); }
    w.raw(&pack(&v.iter().map(|x| (*x, p)).collect::<Vec<_>>()));
    w.0
}
entries! {
    /// n meshes with symbolic names of 0..=l bytes and one distinguishing index each: names, order and contents are kept,
    /// the single mesh calls accept exactly one, sync and async readers agree, saving twice gives the same bytes.
    fn h_meshes(n, l) {
        let mut ms = vec![];
        for i in 0..n {
            let mut m = TMFMesh::empty();
            let x = if n == 1 { u32s() } else { bits(3) };
            if i % 2 == 0 { m.set_vertex_triangles(vec![x]); } else { m.set_uv_triangles(vec![x]); }
            ms.push((m, name(choice(0, l)), x));
        }
        let v: Vec<(TMFMesh, String)> = ms.iter().map(|(m, n, _)| (m.clone(), n.clone())).collect();
        let b = ser(&v);
        check(ser(&v) == b, 1);
        let p = parse(&b);
        check(p.len() == v.len(), 2);
        for (x, y) in p.iter().zip(&v) { check(x.name == y.1.as_bytes(), 3); check(x.segs.len() == 1, 4); }
        let r = rd(&b).unwrap();
        check(r.len() == v.len(), 5);
        for (i, ((m, nm), (_, n0, x))) in r.iter().zip(&ms).enumerate() {
            check(nm == n0, 6);
            let (a, o) = if i % 2 == 0 { (m.get_vertex_triangles(), m.get_uv_triangles()) } else { (m.get_uv_triangles(), m.get_vertex_triangles()) };
            check(o.is_none() && m.get_vertices().is_none(), 7);
            check(a.unwrap().len() == 1 && a.unwrap()[0] == *x, 8);
        }
        match TMFMesh::read_tmf_one(&mut &b[..]) {
            Ok((_, nm)) => check(n == 1 && nm == ms[0].1, 9),
            Err(TMFImportError::NoMeshes) => check(n == 0, 10),
            Err(TMFImportError::TooManyMeshes) => check(n > 1, 11),
            Err(_) => check(false, 12),
        }
        let a = futures::executor::block_on(TMFMesh::read_tmf_async(&mut &b[..])).unwrap();
        check(a.len() == r.len(), 13);
        for (x, y) in a.iter().zip(&r) { check(x.1 == y.1 && x.0.get_vertex_triangles() == y.0.get_vertex_triangles() && x.0.get_uv_triangles() == y.0.get_uv_triangles(), 14); }
        check(futures::executor::block_on(TMFMesh::read_tmf_one_async(&mut &b[..])).is_ok() == (n == 1), 15);
        if n == 1 { let mut o = vec![]; v[0].0.write_tmf_one(&mut o, &TMFPrecisionInfo::default(), &v[0].1[..]).unwrap(); check(o == b, 16); }
        cover(1);
    }
    /// Names of every length lo..=hi (plus 0 and 65535..): kept, or refused when the format has no room for the length.
    fn h_name_len(lo, hi) {
        let n = choice(lo, hi);
        let mut s = String::new();
        for i in 0..n { s.push((b'a' + (i % 23) as u8) as char); }
        let mut m = TMFMesh::empty();
        m.set_normal_triangles(vec![7]);
        let mut o = vec![];
        match m.write_tmf_one(&mut o, &TMFPrecisionInfo::default(), &s[..]) {
            Ok(()) => { check(n <= 65535, 1); let (_, r) = TMFMesh::read_tmf_one(&mut &o[..]).unwrap(); check(r == s, 2); cover(1); }
            Err(_) => { check(n > 65535, 3); cover(2); }
        }
    }
    /// A name of n arbitrary bytes in a file: accepted exactly when it is UTF-8, and then returned unchanged.
    fn h_name_utf8(n) {
        let mut w = Wr::file(2, 1);
        let b: Vec<u8> = (0..n).map(|_| u8s()).collect();
        w.mesh(&b, 0);
        // reference: shortest form, no surrogates, at most U+10FFFF
        let mut i = 0;
        let mut ok = true;
        let cont = |k: usize| k < b.len() && b[k] & 0xc0 == 0x80;
        while i < b.len() {
            let c = b[i];
            if c < 0x80 { i += 1; }
            else if c >= 0xc2 && c <= 0xdf && cont(i + 1) { i += 2; }
            else if c >= 0xe0 && c <= 0xef && cont(i + 1) && cont(i + 2) && !(c == 0xe0 && b[i + 1] < 0xa0) && !(c == 0xed && b[i + 1] >= 0xa0) { i += 3; }
            else if c >= 0xf0 && c <= 0xf4 && cont(i + 1) && cont(i + 2) && cont(i + 3) && !(c == 0xf0 && b[i + 1] < 0x90) && !(c == 0xf4 && b[i + 1] >= 0x90) { i += 4; }
            else { ok = false; break; }
        }
        match rd(&w.0) {
            Ok(v) => { check(ok && v.len() == 1 && v[0].1.as_bytes() == &b[..], 1); cover(1); }
            Err(TMFImportError::IO(_)) => { check(!ok, 2); cover(2); }
            Err(_) => check(false, 3),
        }
    }
    /// Every header: magic, four version numbers and no mesh.
    fn h_header() {
        let mut w = Wr::default();
        for _ in 0..3 { w.0.push(u8s()); }
        let (a, b, c, d) = (u16s(), u16s(), u16s(), u16s());
        w.le(a as u64, 2).le(b as u64, 2).le(c as u64, 2).le(d as u64, 2).le(0, 4);
        let magic = w.0[0] == b'T' && w.0[1] == b'M' && w.0[2] == b'F';
        let fits = c == 0 && d <= 2;
        match rd(&w.0) {
            Ok(v) => { check(magic && fits && v.is_empty(), 1); cover(1); }
            Err(TMFImportError::NotTMFFile) => { check(!magic, 2); cover(2); }
            Err(TMFImportError::NewerVersionRequired) => { check(magic && !fits, 3); cover(3); }
            Err(_) => check(false, 4),
        }
    }
    /// An index array of n values of p bits, in the layout of any supported version, as any of the index segments
    /// (ty 2, 4, 6, 10; 25 with any mask): the reader returns what is stored, where it belongs.
    fn h_read_idx(minor, ty, p, n) {
        let minor = minor as u64;
        let mut v = vec![];
        for _ in 0..n { let x = if p == 0 { 0 } else { u32s() as u64 & ((1u64 << p.min(32)) - 1) }; v.push(x); }
        let min = if minor > 1 { u16s() as u64 } else { 0 };
        let mask = if ty == 25 { choice(0, 7) } else { match ty { 2 => 1, 4 => 2, 6 => 4, _ => 8 } };
        let mut d = if ty == 25 { vec![mask as u8] } else { vec![] };
        d.extend(idx_data(minor, p, min, &v));
        let fits = v.iter().all(|x| x + min <= u32::MAX as u64);
        match rd(&seg_file(minor, ty as u64, &d)) {
            Ok(r) => {
                check(fits && r.len() == 1, 1);
                for k in 0..4 {
                    let g = get_tri(&r[0].0, k);
                    if mask >> k & 1 == 0 { check(g.is_none(), 2); continue; }
                    let g = g.unwrap();
                    check(g.len() == n as usize, 3);
                    let mut ok = true;
                    for i in 0..g.len() { ok &= g[i] as u64 == v[i] + min; }
                    check(ok, 4);
                }
                cover(1);
            }
            Err(TMFImportError::IO(_)) => { check(!fits, 5); }
            Err(_) => check(false, 6),
        }
    }
    /// One vertex segment of n points of any stored content at (px, py, pz) bits in a concrete box.
    fn h_read_vtx(minor, px, py, pz, n) {
        let minor = minor as u64;
        let mut w = Wr::default();
        let bx = [(-1.0f64, 2.0f64), (0.5, 0.5), (-7.0, -3.0)];
        w.le(n as u64, 8);
        for (a, b) in bx { w.f64(a).f64(b); }
        w.le(px as u64, 1).le(py as u64, 1).le(pz as u64, 1);
        let pr = [px, py, pz];
        let mut f = vec![];
        for _ in 0..n { for p in pr { f.push((bits(p) as u64, p)); } }
        w.raw(&pack(&f));
        let m = one(&seg_file(minor, 1, &w.0));
        let v = m.get_vertices().unwrap();
        check(v.len() == n as usize, 1);
        for i in 0..v.len() {
            let g = [v[i].0, v[i].1, v[i].2];
            for k in 0..3 { let (q, p) = f[3 * i + k]; close(g[k] as f64, bx[k].0 + q as f64 / ((1u64 << p) - 1) as f64 * (bx[k].1 - bx[k].0), 2e-6, 2); }
        }
        cover(1);
    }
    /// Normals (tan 0) or tangents (tan 1) of any stored content at p bits.
    fn h_read_nrm(minor, p, n, tan) {
        let minor = minor as u64;
        let mut w = Wr::default();
        w.le(n as u64, 8).le(p as u64, 1);
        let mut f = vec![];
        let mut e = vec![];
        for _ in 0..n {
            let h = if tan == 1 { bits(1) as u64 } else { 0 };
            if tan == 1 { f.push((h, 1)); }
            let s = (bits(1) as u64, bits(1) as u64, bits(1) as u64);
            let (a, z) = (bits(p) as u64, bits(p) as u64);
            f.extend([(s.0, 1), (s.1, 1), (s.2, 1), (a, p), (z, p)]);
            e.push((direction(a, z, s, p), h));
        }
        w.raw(&pack(&f));
        let m = one(&seg_file(minor, if tan == 1 { 9 } else { 3 }, &w.0));
        let l = if tan == 1 { m.get_tangents().unwrap().len() } else { m.get_normals().unwrap().len() };
        check(l == n as usize, 1);
        for i in 0..l {
            if tan == 1 {
                let t = m.get_tangents().unwrap()[i];
                check(t.1 == if e[i].1 == 1 { -1.0 } else { 1.0 }, 2);
                near3(t.0, e[i].0, 3e-4, 3);
            } else { near3(m.get_normals().unwrap()[i], e[i].0, 3e-4, 3); }
        }
        cover(1);
    }
    /// UV pairs of any stored content at p bits.
    fn h_read_uv(minor, p, n) {
        let minor = minor as u64;
        let mut w = Wr::default();
        w.le(p as u64, 1).le(n as u64, 8);
        let f: Vec<(u64, u32)> = (0..2 * n).map(|_| (bits(p) as u64, p)).collect();
        w.raw(&pack(&f));
        let m = one(&seg_file(minor, 5, &w.0));
        let v = m.get_uvs().unwrap();
        check(v.len() == n as usize, 1);
        let d = if p == 0 { 1.0 } else { ((1u64 << p) - 1) as f64 };
        for i in 0..v.len() { close(v[i].0 as f64, f[2 * i].0 as f64 / d, 1e-6, 2); close(v[i].1 as f64, f[2 * i + 1].0 as f64 / d, 1e-6, 3); }
        cover(1);
    }
    /// Custom data of every kind (0 index, 1 integer, 2 float, 3 colour) as stored at p bits.
    fn h_read_custom(minor, kind, p, n) {
        let minor = minor as u64;
        let mut w = Wr::default();
        w.le(2, 1).raw(b"cd");
        let k = if kind == 3 { 4 } else { 1 };
        let f: Vec<(u64, u32)> = (0..n * k).map(|_| (bits(p) as u64, p)).collect();
        match kind {
            0 | 1 => { w.raw(&idx_data(minor, p, 5, &f.iter().map(|x| x.0).collect::<Vec<_>>())); }
            2 => { w.le(n as u64, 8).f64(-2.0).f64(6.0).le(p as u64, 1).raw(&pack(&f)); }
            _ => { w.le(n as u64, 8).le(p as u64, 1).raw(&pack(&f)); }
        }
        let m = one(&seg_file(minor, [15, 24, 16, 23][kind as usize], &w.0));
        check(bare(&m) && m.lookup_custom_data("c").is_none(), 1);
        let c = m.lookup_custom_data("cd").unwrap();
        let d = ((1u64 << p) - 1) as f64;
        let min = if minor > 1 { 5 } else { 0 };
        match kind {
            0 | 1 => {
                let (v, _) = if kind == 0 { c.as_index().unwrap() } else { c.as_intiger().unwrap() };
                check(v.len() == n as usize, 2);
                for i in 0..v.len() { check(v[i] as u64 == f[i].0 + min, 3); }
            }
            2 => { let (v, _) = c.as_float().unwrap(); check(v.len() == n as usize, 2); for i in 0..v.len() { close(v[i] as f64, f[i].0 as f64 / d * 8.0 - 2.0, 2e-6, 4); } }
            _ => {
                let (v, _) = c.as_color_rgba().unwrap();
                check(v.len() == n as usize, 2);
                for i in 0..v.len() { let g = [v[i].0, v[i].1, v[i].2, v[i].3]; for j in 0..4 { close(g[j] as f64, f[4 * i + j].0 as f64 / d, 1e-6, 5); } }
            }
        }
        cover(1);
    }
    /// Segments of one kind given several times are concatenated in file order; kinds do not mix; shared index segments
    /// go to every array of their mask.
    fn h_read_parts(minor) {
        let minor = minor as u64;
        let (a, b, c) = (u32s(), u32s(), u32s());
        let mask = choice(0, 7) as u8;
        let mut w = Wr::file(minor, 1);
        let d = |v: &[u32]| idx_data(minor, 32, 0, &v.iter().map(|x| *x as u64).collect::<Vec<_>>());
        let mut sh = vec![mask]; sh.extend(d(&[c]));
        w.mesh(b"q", 5).seg(minor, 2, 0, &d(&[a])).seg(minor, 25, 0, &sh).seg(minor, 2, 0, &d(&[b, b])).seg(minor, 6, 0, &d(&[b])).seg(minor, 10, 0, &d(&[]));
        let m = one(&w.0);
        let mut e = vec![vec![a], vec![], vec![], vec![]];
        for k in 0..3 { if mask >> k & 1 == 1 { e[k].push(c); } }
        e[0].push(b); e[0].push(b); e[2].push(b);
        for k in 0..4 { match get_tri(&m, k as u32) { Some(g) => eq_idx(g, &e[k], 1), None => check(e[k].is_empty() && k != 3, 3) } }
        cover(1);
    }
    /// A segment of any type the format does not define is skipped whatever it contains, and what follows is read.
    fn h_unknown(minor, len) {
        let minor = minor as u64;
        let ty = if minor > 1 { u8s() as u64 } else { u16s() as u64 };
        assume(![1, 2, 3, 4, 5, 6, 9, 10, 15, 16, 23, 24, 25].contains(&ty));
        let x = u32s();
        let junk: Vec<u8> = (0..len).map(|_| u8s()).collect();
        let comp = [0, 1, 2, 255][choice(0, 3) as usize];
        let mut w = Wr::file(minor, 2);
        w.mesh(b"q", 3).seg(minor, 2, 0, &idx_data(minor, 8, 0, &[9])).seg(minor, ty, comp, &junk).seg(minor, 4, 0, &idx_data(minor, 32, 0, &[x as u64])).mesh(b"z", 0);
        let r = rd(&w.0).unwrap();
        check(r.len() == 2 && r[0].1 == "q" && r[1].1 == "z" && bare(&r[1].0), 1);
        let m = &r[0].0;
        eq_idx(m.get_vertex_triangles().unwrap(), &[9], 2);
        eq_idx(m.get_normal_triangles().unwrap(), &[x], 4);
        check(m.get_vertices().is_none() && m.get_normals().is_none() && m.get_uvs().is_none() && m.get_tangents().is_none() && m.get_uv_triangles().is_none() && m.get_tangent_triangles().is_none(), 6);
        cover(1);
    }
    /// The same for large payloads, of which three bytes are free.
    fn h_unknown_large(minor, len) {
        let minor = minor as u64;
        let ty = [7u64, 26, 255][choice(0, 2) as usize];
        let x = u32s();
        let (a, b, c) = (u8s(), u8s(), u8s());
        let mut junk: Vec<u8> = (0..len).map(|i| (i * 7 % 251) as u8).collect();
        junk[0] = a; junk[len as usize / 2] = b; junk[len as usize - 1] = c;
        let mut w = Wr::file(minor, 2);
        w.mesh(b"q", 3).seg(minor, 2, 0, &idx_data(minor, 8, 0, &[9])).seg(minor, ty, 0, &junk).seg(minor, 4, 0, &idx_data(minor, 32, 0, &[x as u64])).mesh(b"z", 0);
        let r = rd(&w.0).unwrap();
        check(r.len() == 2 && r[0].1 == "q" && r[1].1 == "z" && bare(&r[1].0), 1);
        let m = &r[0].0;
        eq_idx(m.get_vertex_triangles().unwrap(), &[9], 2);
        eq_idx(m.get_normal_triangles().unwrap(), &[x], 4);
        check(m.get_vertices().is_none() && m.get_normals().is_none() && m.get_uvs().is_none() && m.get_tangents().is_none() && m.get_uv_triangles().is_none() && m.get_tangent_triangles().is_none(), 6);
        cover(1);
    }
    /// Compression codes: unknown ones are refused by name, known ones the reader can not undo are refused for every kind of data.
    fn h_compression(minor, ty, empty) {
        let minor = minor as u64;
        let c = u8s();
        let mut w = Wr::file(minor, 1);
        let mut d = match ty { 25 => vec![1], 15 | 16 | 23 | 24 => vec![1, b'a'], _ => vec![] };
        match ty {
            2 | 4 | 6 | 10 | 25 | 15 | 24 => d.extend(idx_data(minor, 8, 0, &[3, 1])),
            5 => { d.push(2); d.extend(1u64.to_le_bytes()); d.push(0x90); }
            _ => {
                d.extend(1u64.to_le_bytes());
                if ty == 1 { for _ in 0..3 { d.extend((-1f64).to_le_bytes()); d.extend(1f64.to_le_bytes()); } d.extend([2, 2, 2]); } else if ty == 16 { d.extend((-1f64).to_le_bytes()); d.extend(1f64.to_le_bytes()); d.push(2); } else { d.push(2); }
                d.push(0x50);
            }
        }
        if empty == 1 { d.clear(); assume(c != 0); }
        w.mesh(b"q", 1).seg(minor, ty as u64, c as u64, &d);
        match rd(&w.0) {
            Ok(_) => { check(c == 0, 1); cover(1); }
            Err(TMFImportError::CompressionTypeUnknown(x)) => { check(x == c && c != 0 && c != 1 && c != 2 && c != 255, 2); cover(2); }
            Err(TMFImportError::UnsuportedCompressionType(_)) => { check(c == 1 || c == 2 || c == 255, 3); cover(3); }
            Err(_) => check(false, 4),
        }
    }
    /// What the writer produces for all arrays at once, read by the independent parser.
    fn h_layout(n, m) {
        let mut a = TMFMesh::empty();
        let g = bits(6) as f32 / 64.0;
        let vs = vec![(-1.0, 0.0, 2.0), (1.0, 4.0, 2.5), (g * 2.0 - 1.0, g * 4.0, 2.25)];
        a.set_vertices(vs.clone());
        let t: Vec<u32> = (0..n).map(|_| u32s()).collect();
        let u: Vec<u32> = (0..n).map(|_| bits(3) + 40).collect();
        let ns = vec![(g * 0.8, (1.0 - g * g * 0.64).sqrt(), 0.0), (0.6, 0.0, -0.8)];
        let uv = vec![(g, 1.0 - g)];
        a.set_normals(ns.clone()); a.set_uvs(uv.clone());
        a.set_tangents(vec![((0.0, -0.6, 0.8), -1.0)]);
        a.set_uv_triangles(t.clone()); a.set_tangent_triangles(u.clone());
        if m == 1 { a.set_vertex_triangles(vec![0, 1, 2]); }
        a.add_custom_data(CustomData::from(&[3u32, 1][..]), "ix").unwrap();
        let b = ser(&[(a, "mesh".to_owned())]);
        let p = parse(&b);
        check(p.len() == 1 && p[0].name == b"mesh", 1);
        let ty: Vec<u64> = p[0].segs.iter().map(|s| s.ty).collect();
        let seen = |k: u64| ty.iter().filter(|x| **x == k).count();
        check(seen(1) == 1 && seen(3) == 1 && seen(5) == 1 && seen(6) == 1 && seen(9) == 1 && seen(10) == 1 && seen(15) == 1 && seen(2) == m as usize && ty.len() == 7 + m as usize, 2);
        for s in &p[0].segs {
            let mut r = Rd::new(s.data);
            match s.ty {
                1 => {
                    check(r.le(8) == 3, 3);
                    let bx = [(r.f64(), r.f64()), (r.f64(), r.f64()), (r.f64(), r.f64())];
                    check(bx == [(-1.0, 1.0), (0.0, 4.0), (2.0, 2.5)], 4);
                    let pr = [split(r.le(1)), split(r.le(1)), split(r.le(1))];
                    let mut z = Bits::new(r.take(s.data.len() - 59));
                    for v in &vs { let c = [v.0, v.1, v.2]; for k in 0..3 { let q = z.get(pr[k]) as f64 / ((1u64 << pr[k]) - 1) as f64; close(bx[k].0 + q * (bx[k].1 - bx[k].0), c[k] as f64, 0.1, 5); } }
                    check(z.end(), 6);
                }
                3 => {
                    check(r.le(8) == 2, 7);
                    let p = split(r.le(1)) as u32;
                    check(p == 7, 8);
                    let mut z = Bits::new(r.take(s.data.len() - 9));
                    for v in &ns { let sg = (z.get(1), z.get(1), z.get(1)); let (a, h) = (z.get(p as u64), z.get(p as u64)); near3(*v, direction(a, h, sg, p), 0.03, 9); }
                    check(z.end(), 10);
                }
                5 => {
                    let p = split(r.le(1));
                    check(r.le(8) == 1, 11);
                    let mut z = Bits::new(r.take(s.data.len() - 9));
                    for x in [uv[0].0, uv[0].1] { close(z.get(p) as f64 / ((1u64 << p) - 1) as f64, x as f64, 0.001, 12); }
                    check(z.end(), 13);
                }
                9 => {
                    check(r.le(8) == 1 && r.le(1) == 7, 14);
                    let mut z = Bits::new(r.take(s.data.len() - 9));
                    check(z.get(1) == 1, 15);
                    let sg = (z.get(1), z.get(1), z.get(1)); let (a, h) = (z.get(7), z.get(7));
                    near3((0.0, -0.6, 0.8), direction(a, h, sg, 7), 0.03, 16);
                }
                2 => check(indices(s.data) == [0, 1, 2], 17),
                6 => { let v = indices(s.data); check(v.len() == t.len(), 18); let mut ok = true; for i in 0..v.len() { ok &= v[i] == t[i] as u64; } check(ok, 19); }
                10 => { let v = indices(s.data); check(v.len() == u.len(), 20); let mut ok = true; for i in 0..v.len() { ok &= v[i] == u[i] as u64; } check(ok, 21); }
                _ => { check(r.le(1) == 2 && r.take(2) == b"ix", 22); check(indices(&s.data[3..]) == [3, 1], 23); }
            }
        }
        cover(1);
    }
    /// Every combination of present arrays (custom data included): exactly those come back, with their lengths and contents, after another
    /// mesh with other arrays in the same file.
    fn h_presence(first) {
        let x = 4 + bits(2);
        let mut m = TMFMesh::empty();
        let has: Vec<bool> = (0..9).map(|_| choice(0, 1) == 1).collect();
        if has[0] { m.set_vertices(vec![(0.0, 1.0, 2.0), (3.0, 1.5, 2.5)]); }
        if has[1] { m.set_normals(vec![(0.0, 0.0, 1.0)]); }
        if has[2] { m.set_uvs(vec![(0.0, 1.0), (1.0, 0.0), (1.0, 1.0)]); }
        if has[3] { m.set_tangents(vec![((0.0, 0.0, -1.0), -1.0), ((0.0, 0.0, 1.0), 1.0)]); }
        if has[4] { m.set_vertex_triangles(vec![0, 1, 1]); }
        if has[5] { m.set_normal_triangles(vec![0, 0, 0]); }
        if has[6] { m.set_uv_triangles(vec![2, x]); }
        if has[7] { m.set_tangent_triangles(vec![1]); }
        if has[8] { m.add_custom_data(CustomData::from(&[x, 9][..]), "cd").unwrap(); }
        let mut l = vec![(m, "m".to_owned())];
        let other = crate::reader::full();
        if first == 0 { l.push((other, "o".to_owned())); } else { l.insert(0, (other, "o".to_owned())); }
        let r = rd(&ser(&l)).unwrap();
        check(r.len() == 2 && r[first as usize].1 == "m" && r[1 - first as usize].1 == "o", 1);
        let (a, o) = (&r[first as usize].0, &r[1 - first as usize].0);
        check(a.get_vertices().map(|v| v.len()) == if has[0] { Some(2) } else { None } && a.get_normals().map(|v| v.len()) == if has[1] { Some(1) } else { None }, 2);
        check(a.get_uvs().map(|v| v.len()) == if has[2] { Some(3) } else { None } && a.get_tangents().map(|v| v.len()) == if has[3] { Some(2) } else { None }, 3);
        if has[0] { let v = a.get_vertices().unwrap(); close(v[0].0 as f64, 0.0, 0.011, 4); close(v[1].0 as f64, 3.0, 0.011, 4); close(v[1].2 as f64, 2.5, 0.011, 4); }
        if has[1] { close(a.get_normals().unwrap()[0].2 as f64, 1.0, 1e-6, 5); }
        if has[2] { let v = a.get_uvs().unwrap(); check(v[0] == (0.0, 1.0) && v[1] == (1.0, 0.0) && v[2] == (1.0, 1.0), 6); }
        if has[3] { let v = a.get_tangents().unwrap(); check(v[0].1 == -1.0 && v[1].1 == 1.0 && v[0].0 .2 < 0.0 && v[1].0 .2 > 0.0, 7); }
        let e = [vec![0, 1, 1], vec![0, 0, 0], vec![2, x], vec![1]];
        for k in 0..4 { match get_tri(a, k) { Some(g) => { check(has[4 + k as usize], 8); eq_idx(g, &e[k as usize], 9); } None => check(!has[4 + k as usize], 11) } }
        match a.lookup_custom_data("cd") { Some(c) => { check(has[8], 12); eq_idx(c.as_index().unwrap().0, &[x, 9], 13); } None => check(!has[8], 15) }
        check(o.get_vertices().unwrap().len() == 3 && o.get_normals().unwrap().len() == 2 && o.get_uvs().unwrap().len() == 1 && o.get_tangents().unwrap().len() == 1 && o.lookup_custom_data("cd").is_none() && o.lookup_custom_data("fl").is_some(), 16);
        cover(1);
    }
    /// n custom arrays: kept, or refused when the format has no room for the number of segments.
    fn h_seg_limit(lo, hi) {
        let n = choice(lo, hi);
        let mut m = TMFMesh::empty();
        let d = CustomData::from(&[][..] as &[u32]);
        for i in 0..n { m.add_custom_data(d.clone(), if i + 1 == n { "z" } else { "a" }).unwrap(); }
        let mut o = vec![];
        match m.write_tmf_one(&mut o, &TMFPrecisionInfo::default(), "m") {
            Ok(()) => { check(n <= 65535, 1); let (r, _) = TMFMesh::read_tmf_one(&mut &o[..]).unwrap(); check(r.lookup_custom_data("z").is_some() == (n > 0), 2); cover(1); }
            Err(_) => { check(n > 65535, 3); cover(2); }
        }
    }
}
