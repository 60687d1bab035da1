//! .obj import and export.
use crate::rt::*;
use tmf::*;
fn rd(t: &[u8]) -> std::io::Result<Vec<(TMFMesh, String)>> { TMFMesh::read_from_obj(&mut &t[..]) }
fn digit() -> u8 { b'0' + below(10) as u8 }
fn near(a: f32, b: f64, id: u32) { check((a as f64 - b).abs() <= b.abs() * 1e-6 + 1e-9, id); }
/// `whole` digits, and if frac > 0 a dot and `frac` digits; returns the value.
fn number(t: &mut Vec<u8>, sign: u32, whole: u32, frac: u32) -> f64 {
    if sign == 1 { t.push(b'-'); }
    let mut m = 0u64;
    for _ in 0..whole { let d = digit(); t.push(d); m = m * 10 + (d - b'0') as u64; }
    if frac > 0 { t.push(b'.'); }
    for _ in 0..frac { let d = digit(); t.push(d); m = m * 10 + (d - b'0') as u64; }
    let v = m as f64 / 10f64.powi(frac as i32);
    if sign == 1 { -v } else { v }
}
const BASE: &str = "v 1 0 0\nv 2 1 0\nv 3 0 1\nv 4 5 6\nvn 1 0 0\nvn 0 1 0\nvn 0 0 1\nvn 0 0 -1\nvt 0 0\nvt 1 0\nvt 0 1\nvt 0.5 0.5\n";
fn bv(i: u32) -> Vector3 { [(1.0, 0.0, 0.0), (2.0, 1.0, 0.0), (3.0, 0.0, 1.0), (4.0, 5.0, 6.0)][i as usize] }
fn bn(i: u32) -> Vector3 { [(1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0), (0.0, 0.0, -1.0)][i as usize] }
fn bt(i: u32) -> Vector2 { [(0.0, 0.0), (1.0, 0.0), (0.0, 1.0), (0.5, 0.5)][i as usize] }
/// One face corner "v/t/n" of 1-based choices in 1..=k.
fn corner(t: &mut Vec<u8>, k: u32) -> (u32, u32, u32) {
    let (a, b, c) = (choice(0, k - 1), choice(0, k - 1), choice(0, k - 1));
    for x in format!(" {}/{}/{}", a + 1, b + 1, c + 1).bytes() { t.push(x); }
    (a, b, c)
}
fn corners(m: &TMFMesh, e: &[(u32, u32, u32)], id: u32) {
    let (v, n, u) = (m.get_vertex_buffer().unwrap(), m.get_normal_buffer().unwrap(), m.get_uv_buffer().unwrap());
    check(v.len() == e.len() && n.len() == e.len() && u.len() == e.len(), id);
    for i in 0..e.len().min(v.len()) { check(v[i] == bv(e[i].0) && u[i] == bt(e[i].1) && n[i] == bn(e[i].2), id + 1); }
    check(m.verify().is_ok(), id + 2);
}
fn tri_name(i: u32) -> &'static str { ["a", "Two", "x_3", ""][i as usize] }
fn cut(t: &mut Vec<u8>, s: &str) { t.extend_from_slice(s.as_bytes()); }
fn val(i: u32) -> f32 { [0.0, -0.0, 1.0, -2.5, 0.1, 3.4028235e38, 1e-45, -1.1754944e-38, 16777216.0, 123456.79, 1e20, -0.33333334, 5e-7, 1e7, 8.5e-39, 65504.0][i as usize] }
entries! {
    /// Numbers of every digit string of the given shape, as the component `at` of a line of kind 0 v, 1 vn, 2 vt.
    fn h_obj_num(kind, at, sign, whole, frac) {
        let mut t = vec![];
        cut(&mut t, ["v", "vn", "vt"][kind as usize]);
        let n = if kind == 2 { 2 } else { 3 };
        let mut x = 0.0;
        for i in 0..n { t.push(b' '); if i == at { x = number(&mut t, sign, whole, frac); } else { cut(&mut t, "-7.25"); } }
        t.push(b'\n');
        let r = rd(&t).unwrap();
        check(r.len() == 1, 1);
        let m = &r[0].0;
        let g = match kind { 0 => { let v = m.get_vertices().unwrap()[0]; vec![v.0, v.1, v.2] } 1 => { let v = m.get_normals().unwrap()[0]; vec![v.0, v.1, v.2] } _ => { let v = m.get_uvs().unwrap()[0]; vec![v.0, v.1] } };
        for i in 0..n as usize { near(g[i], if i == at as usize { x } else { -7.25 }, 2); }
        cover(1);
    }
    /// One face of three corners with all indices free in 1..=k.
    fn h_obj_face(k) {
        let mut t = BASE.as_bytes().to_vec();
        t.push(b'f');
        let e = [corner(&mut t, k), corner(&mut t, k), corner(&mut t, k)];
        if choice(0, 1) == 1 { t.push(b'\n'); }
        let r = rd(&t).unwrap();
        check(r.len() == 1, 1);
        corners(&r[0].0, &e, 2);
        cover(1);
    }
    /// One face of three corners whose nine indices are arbitrary digits in 1..=4 (not split): the corners are the ones named.
    fn h_obj_digits(which) {
        let mut t = BASE.as_bytes().to_vec();
        cut(&mut t, "f");
        let mut e = vec![];
        for i in 0..3 {
            let c = if i == which || which == 3 { (below(4), below(4), below(4)) } else { (i, 3 - i, i) };
            t.push(b' '); t.push(b'1' + c.0 as u8); t.push(b'/'); t.push(b'1' + c.1 as u8); t.push(b'/'); t.push(b'1' + c.2 as u8);
            e.push(c);
        }
        t.push(b'\n');
        let r = rd(&t).unwrap();
        check(r.len() == 1, 1);
        corners(&r[0].0, &e, 2);
        cover(1);
    }
    /// n faces; the corners other than one are fixed. Order is kept.
    fn h_obj_faces(n, p) {
        let mut t = BASE.as_bytes().to_vec();
        let mut e = vec![];
        for i in 0..3 * n {
            if i % 3 == 0 { cut(&mut t, "f"); }
            if i == p { e.push(corner(&mut t, 4)); } else { let k = (i * 5 % 3 + 1) % 4; cut(&mut t, &format!(" {}/{}/{}", k + 1, 4 - k, k + 1)); e.push((k, 3 - k, k)); }
            if i % 3 == 2 { t.push(b'\n'); }
        }
        let r = rd(&t).unwrap();
        check(r.len() == 1 && r[0].1.is_empty(), 1);
        corners(&r[0].0, &e, 2);
        cover(1);
    }
    /// Lines of other kinds anywhere in the file change nothing: `w` picks the line, `l` its length in free characters.
    fn h_obj_noise(l) {
        let k = choice(0, 6);
        let mut junk = vec![];
        cut(&mut junk, ["# ", "mtllib ", "usemtl ", "s ", "g ", "vp ", ""][k as usize]);
        if k < 6 { for _ in 0..l { junk.push(b' ' + below(95) as u8); } }
        junk.push(b'\n');
        let at = choice(0, 3);
        let parts = ["o m\n", BASE, "f 2/2/2 3/3/3 4/4/4\n", "f 2/2/2 4/3/4 3/3/3\n"];
        let mut t = vec![];
        for (i, p) in parts.iter().enumerate() { if at == i as u32 { t.extend(&junk); } cut(&mut t, p); }
        let r = rd(&t).unwrap();
        check(r.len() == 1 && r[0].1 == "m", 1);
        corners(&r[0].0, &[(1, 1, 1), (2, 2, 2), (3, 3, 3), (1, 1, 1), (3, 2, 3), (2, 2, 2)], 2);
        cover(1);
    }
    /// Several objects, each with its own corners into the shared arrays: split by "o" with names and order kept.
    fn h_obj_objects(n, k) {
        let mut t = vec![];
        let mut e = vec![];
        let first = choice(0, 1);
        if first == 1 { cut(&mut t, BASE); }
        for i in 0..n {
            cut(&mut t, &format!("o {}\n", tri_name(i)));
            if i == 0 && first == 0 { cut(&mut t, BASE); }
            let a = [choice(0, k - 1) + 1, choice(0, k - 1) + 1, 2];
            cut(&mut t, &format!("f {}/{}/{} {}/{}/{} 3/2/2\n", a[0] + 1, a[1] + 1, a[0] + 1, a[1] + 1, a[0] + 1, a[1] + 1));
            e.push([(a[0], a[1], a[0]), (a[1], a[0], a[1]), (2, 1, 1)]);
        }
        let r = rd(&t).unwrap();
        check(r.len() == n as usize, 1);
        for i in 0..r.len() { check(r[i].1 == tri_name(i as u32), 2); corners(&r[i].0, &e[i], 3); }
        match TMFMesh::read_from_obj_one(&mut &t[..]) { Ok((m, nm)) => { check(n == 1 && nm == tri_name(0), 6); corners(&m, &e[0], 7); } Err(_) => check(n != 1, 10) }
        cover(1);
    }
    /// n objects which each bring a or b elements of each kind (none included) and two faces naming elements of their own or of earlier objects.
    fn h_obj_sparse(n, most) {
        let mut t = vec![];
        let mut e = vec![];
        let (mut nv, mut nn, mut nu) = (0u32, 0u32, 0u32);
        for i in 0..n {
            cut(&mut t, &format!("o {}\n", tri_name(i)));
            let least = if i == 0 { 1 } else { 0 };
            for _ in 0..choice(least, most) { let v = bv(nv % 4); cut(&mut t, &format!("v {} {} {}\n", v.0, v.1, v.2)); nv += 1; }
            for _ in 0..choice(least, most) { let v = bn(nn % 4); cut(&mut t, &format!("vn {} {} {}\n", v.0, v.1, v.2)); nn += 1; }
            for _ in 0..choice(least, most) { let v = bt(nu % 4); cut(&mut t, &format!("vt {} {}\n", v.0, v.1)); nu += 1; }
            let mut c = vec![];
            for j in 0..2 * 3 {
                if j % 3 == 0 { cut(&mut t, "f"); }
                let k = if j == 1 { (nv - 1, 0, nn - 1) } else { ((j * 2 + i) % nv, (j + 2 * i) % nu, (j + i + 1) % nn) };
                cut(&mut t, &format!(" {}/{}/{}", k.0 + 1, k.1 + 1, k.2 + 1));
                if j % 3 == 2 { cut(&mut t, "\n"); }
                c.push((k.0 % 4, k.1 % 4, k.2 % 4));
            }
            e.push(c);
        }
        let r = rd(&t).unwrap();
        check(r.len() == n as usize, 1);
        for i in 0..r.len().min(e.len()) {
            check(r[i].1 == tri_name(i as u32), 2);
            check(r[i].0.get_vertex_triangles().unwrap().len() == 6 && r[i].0.get_normal_triangles().unwrap().len() == 6 && r[i].0.get_uv_triangles().unwrap().len() == 6, 6);
            corners(&r[i].0, &e[i], 3);
        }
        cover(1);
    }
    /// Lines which do not say enough are refused, they never panic: kind 0 v, 1 vn, 2 vt with `c` components, one of them of free characters;
    /// 3 faces with c corners.
    fn h_obj_bad(kind, c) {
        let mut t = vec![];
        if kind == 3 {
            cut(&mut t, BASE); cut(&mut t, "f");
            for _ in 0..c { cut(&mut t, " 1/1/1"); }
            let r = rd(&t);
            check(r.is_ok() == (c == 3), 1);
            cover(1);
            return;
        }
        cut(&mut t, ["v", "vn", "vt"][kind as usize]);
        for _ in 0..c { cut(&mut t, " 1.5"); }
        let r = rd(&t);
        check(r.is_ok() == (c >= if kind == 2 { 2 } else { 3 }), 2);
        cover(1);
    }
    /// A vertex whose last number is n arbitrary bytes: read or refused, never a panic; digits only are always read.
    fn h_obj_text(n) {
        let mut t = b"v 1 2 ".to_vec();
        let mut digits = true;
        for _ in 0..n { let c = u8s(); digits &= c >= b'0' && c <= b'9'; t.push(c); }
        match rd(&t) { Ok(r) => { check(r.len() == 1, 1); cover(1); } Err(_) => { check(!digits, 2); cover(2); } }
    }
    /// A whole file of n arbitrary bytes never panics.
    fn h_obj_any(n) {
        let t: Vec<u8> = (0..n).map(|_| u8s()).collect();
        match rd(&t) { Ok(r) => { check(r.len() >= 1, 1); cover(1); } Err(_) => { cover(2); } }
    }
    /// A face line of arbitrary bytes after well formed data.
    fn h_obj_face_text(n) {
        let mut t = BASE.as_bytes().to_vec();
        cut(&mut t, "f 1/1/1 2/2/2 3/3/");
        for _ in 0..n { let c = u8s(); assume(c != b'\n' && c != b'o'); t.push(c); }
        match rd(&t) { Ok(r) => { let m = &r[0].0; check(m.get_vertex_triangles().unwrap().len() == 3 && m.get_normal_triangles().unwrap().len() == 3, 1); cover(1); } Err(_) => { cover(2); } }
    }
    /// Export and import of a mesh of n corners: the same corners. Index arrays are free over k elements.
    fn h_obj_trip(n, k) {
        let mut m = TMFMesh::empty();
        m.set_vertices((0..4).map(bv).collect::<Vec<_>>()); m.set_normals((0..4).map(bn).collect::<Vec<_>>()); m.set_uvs((0..4).map(bt).collect::<Vec<_>>());
        let e: Vec<(u32, u32, u32)> = (0..n).map(|_| (choice(0, k - 1), choice(0, k - 1), choice(0, k - 1))).collect();
        m.set_vertex_triangles(e.iter().map(|x| x.0).collect::<Vec<_>>());
        m.set_uv_triangles(e.iter().map(|x| x.1).collect::<Vec<_>>());
        m.set_normal_triangles(e.iter().map(|x| x.2).collect::<Vec<_>>());
        let mut o = vec![];
        m.write_obj_one(&mut o, "thing").unwrap();
        let (r, nm) = TMFMesh::read_from_obj_one(&mut &o[..]).unwrap();
        check(nm == "thing", 1);
        corners(&r, &e, 2);
        cover(1);
    }
    /// Two meshes of different sizes in one file (a point cloud between them when cloud is 1, at the start when 2): every mesh comes
    /// back with its own corners.
    fn h_obj_multi(cloud, k) {
        let mk = |nv: u32, off: u32| { let mut m = TMFMesh::empty();
            m.set_vertices((0..nv).map(|i| bv((i + off) % 4)).collect::<Vec<_>>()); m.set_normals((0..nv + 1).map(|i| bn((i + off) % 4)).collect::<Vec<_>>()); m.set_uvs((0..nv + 2).map(|i| bt((i + off) % 4)).collect::<Vec<_>>()); m };
        let mut l = vec![];
        let mut e = vec![];
        for i in 0..2 {
            let (nv, off) = (3 + i, i);
            let mut m = mk(nv, off);
            let c: Vec<(u32, u32, u32)> = (0..3).map(|j| if j == 1 { (choice(0, k - 1), choice(0, k), choice(0, k)) } else { (j, j, j) }).collect();
            m.set_vertex_triangles(c.iter().map(|x| x.0).collect::<Vec<_>>());
            m.set_uv_triangles(c.iter().map(|x| x.1).collect::<Vec<_>>());
            m.set_normal_triangles(c.iter().map(|x| x.2).collect::<Vec<_>>());
            e.push(c.iter().map(|x| ((x.0 + off) % 4, (x.1 + off) % 4, (x.2 + off) % 4)).collect::<Vec<_>>());
            if cloud == 2 && i == 0 || cloud == 1 && i == 1 { let mut p = TMFMesh::empty(); p.set_vertices(vec![(9.0, 9.0, 9.0), (8.0, 8.0, 8.0)]); if choice(0, 1) == 1 { p.set_normals(vec![(0.0, 0.0, 1.0)]); p.set_uvs(vec![(0.25, 0.25)]); } l.push((p, "cloud")); }
            l.push((m, tri_name(i)));
        }
        let mut o = vec![];
        TMFMesh::write_obj(&l, &mut o).unwrap();
        let r = rd(&o).unwrap();
        check(r.len() == 2, 1);
        for i in 0..2 { if cloud == 0 { check(r[i].1 == tri_name(i as u32), 2); } corners(&r[i].0, &e[i], 3); }
        cover(1);
    }
    /// Coordinates of sixteen kinds (signed zeros, subnormal, largest, many digits) are written so that they read back exactly.
    fn h_obj_values() {
        let (a, b, c) = (val(choice(0, 15)), val(choice(0, 15)), val(choice(0, 15)));
        let mut m = TMFMesh::empty();
        m.set_vertices(vec![(a, b, c)]); m.set_normals(vec![(b, c, a)]); m.set_uvs(vec![(c, a)]);
        let mut o = vec![];
        m.write_obj_one(&mut o, "p").unwrap();
        let (r, nm) = TMFMesh::read_from_obj_one(&mut &o[..]).unwrap();
        check(nm == "p", 1);
        let s = |x: f32, y: f32| x.to_bits() == y.to_bits();
        let (v, n, u) = (r.get_vertices().unwrap()[0], r.get_normals().unwrap()[0], r.get_uvs().unwrap()[0]);
        check(s(v.0, a) && s(v.1, b) && s(v.2, c), 2);
        check(s(n.0, b) && s(n.1, c) && s(n.2, a), 3);
        check(s(u.0, c) && s(u.1, a), 4);
        cover(1);
    }
    /// Which index arrays are present and how long they are: exported when consistent, refused when not, never a panic.
    fn h_obj_shape() {
        let mut m = TMFMesh::empty();
        m.set_vertices((0..4).map(bv).collect::<Vec<_>>()); m.set_normals((0..4).map(bn).collect::<Vec<_>>()); m.set_uvs((0..4).map(bt).collect::<Vec<_>>());
        let len = |x: u32| match x { 0 => None, 1 => Some(0usize), 2 => Some(3), _ => Some(6) };
        let (a, b, c) = (len(choice(0, 3)), len(choice(0, 3)), len(choice(0, 3)));
        let v = |n: usize| (0..n as u32).map(|i| i % 4).collect::<Vec<u32>>();
        if let Some(n) = a { m.set_vertex_triangles(v(n)); }
        if let Some(n) = b { m.set_normal_triangles(v(n)); }
        if let Some(n) = c { m.set_uv_triangles(v(n)); }
        let ok = match a { None => b.is_none() && c.is_none(), Some(n) => b.map_or(true, |x| x == n) && c.map_or(true, |x| x == n) };
        let mut o = vec![];
        let r = m.write_obj_one(&mut o, "s");
        check(r.is_ok() == ok, 1);
        if !ok { cover(2); return; }
        // the corners written: "v", "v/t", "v//n" or "v/t/n"
        let t = String::from_utf8(o).unwrap();
        let mut got = vec![];
        for l in t.lines() { if let Some(f) = l.strip_prefix("f ") { for c in f.split(' ') { if !c.is_empty() { got.push(c.to_owned()); } } } }
        let n = a.unwrap_or(0);
        check(got.len() == n, 2);
        for i in 0..n.min(got.len()) { let k = i % 4 + 1; let e = match (b, c) { (None, None) => format!("{k}"), (None, _) => format!("{k}/{k}"), (_, None) => format!("{k}//{k}"), _ => format!("{k}/{k}/{k}") }; check(got[i] == e, 3); }
        cover(1);
    }
    /// A face index of `d` free digits (the first not 0) in place `at` of a corner: stored as written, whatever its size.
    fn h_obj_index(d, at) {
        let mut t = BASE.as_bytes().to_vec();
        cut(&mut t, "f 1/1/1 2/2/2");
        let mut n = 0u64;
        for k in 0..3 {
            t.push(if k == 0 { b' ' } else { b'/' });
            if k != at { t.push(b'3'); continue; }
            for i in 0..d { let c = digit(); if i == 0 { assume(c != b'0'); } t.push(c); n = n * 10 + (c - b'0') as u64; }
        }
        t.push(b'\n');
        assume(n <= u32::MAX as u64);
        let r = rd(&t).unwrap();
        check(r.len() == 1, 1);
        let m = &r[0].0;
        let g = [m.get_vertex_triangles().unwrap(), m.get_uv_triangles().unwrap(), m.get_normal_triangles().unwrap()];
        for k in 0..3 { check(g[k].len() == 3 && g[k][0] == 0 && g[k][1] == 1, 2); check(g[k][2] as u64 == if k as u32 == at { n - 1 } else { 2 }, 3); }
        cover(1);
    }
    /// Numbers with an exponent, "w.fe[-]x", in every place.
    fn h_obj_exp(kind, at, frac, upper) {
        let mut t = vec![];
        cut(&mut t, ["v", "vn", "vt"][kind as usize]);
        let n = if kind == 2 { 2 } else { 3 };
        let mut x = 0.0;
        for i in 0..n {
            t.push(b' ');
            if i != at { cut(&mut t, "0.5"); continue; }
            x = number(&mut t, 0, 1, frac);
            t.push(if upper == 1 { b'E' } else { b'e' });
            let s = choice(0, 2);
            if s > 0 { t.push(if s == 1 { b'-' } else { b'+' }); }
            let e = choice(0, 9);
            t.push(b'0' + e as u8);
            if s == 1 { x /= 10f64.powi(e as i32); } else { x *= 10f64.powi(e as i32); }
        }
        t.push(b'\n');
        let r = rd(&t).unwrap();
        check(r.len() == 1, 1);
        let m = &r[0].0;
        let g = match kind { 0 => { let v = m.get_vertices().unwrap()[0]; vec![v.0, v.1, v.2] } 1 => { let v = m.get_normals().unwrap()[0]; vec![v.0, v.1, v.2] } _ => { let v = m.get_uvs().unwrap()[0]; vec![v.0, v.1] } };
        for i in 0..n as usize { near(g[i], if i == at as usize { x } else { 0.5 }, 2); }
        cover(1);
    }
    /// Two meshes in one file, each of any shape (arrays absent, empty or in use): the text is read by an independent reader of the .obj
    /// format and every face names the data of its own mesh.
    fn h_obj_shapes(lo, hi) {
        let mut l = vec![];
        let mut want: Vec<Vec<(Vector3, Option<Vector2>, Option<Vector3>)>> = vec![];
        for i in 0..2u32 {
            let k = if i == 0 { choice(lo, hi) } else { choice(0, 3) };
            // how many elements of each kind, which are indexed
            let (nv, nn, nu, tri, nt, ut) = match k { 0 => (3, 4, 2, 3, true, true), 1 => (4, 3, 1, 3, true, false), 2 => (3, 0, 3, 3, false, true), 3 => (3, 2, 0, 6, false, false), 4 => (2, 3, 4, 0, true, true), 5 => (4, 1, 2, 0, true, false), 6 => (3, 2, 1, 0, false, false), 7 => (2, 2, 2, 9, false, false), _ => (0, 3, 2, 9, false, false) };
            let o = i * 2 + k;
            let mut m = TMFMesh::empty();
            if nv > 0 { m.set_vertices((0..nv).map(|j| bv((j + o) % 4)).collect::<Vec<_>>()); }
            if nn > 0 { m.set_normals((0..nn).map(|j| bn((j + o) % 4)).collect::<Vec<_>>()); }
            if nu > 0 { m.set_uvs((0..nu).map(|j| bt((j + o) % 4)).collect::<Vec<_>>()); }
            let mut e = vec![];
            if tri < 9 {
                let c: Vec<u32> = (0..tri).map(|j| (j + o) % 3).collect();
                let (cn, cu): (Vec<u32>, Vec<u32>) = (c.iter().map(|x| x % nn.max(1)).collect(), c.iter().map(|x| x % nu.max(1)).collect());
                for j in 0..tri as usize { e.push((bv((c[j] + o) % 4), if ut { Some(bt((cu[j] + o) % 4)) } else { None }, if nt { Some(bn((cn[j] + o) % 4)) } else { None })); }
                m.set_vertex_triangles(c);
                if nt { m.set_normal_triangles(cn); }
                if ut { m.set_uv_triangles(cu); }
            }
            want.push(e);
            l.push((m, tri_name(i)));
        }
        let mut o = vec![];
        TMFMesh::write_obj(&l, &mut o).unwrap();
        let t = String::from_utf8(o).unwrap();
        let (mut v, mut n, mut u) = (vec![], vec![], vec![]);
        let mut got: Vec<Vec<(Vector3, Option<Vector2>, Option<Vector3>)>> = vec![];
        let mut names = vec![];
        // coordinates are among these
        let f = |s: &str| match s { "0" => 0.0f32, "1" => 1.0, "2" => 2.0, "3" => 3.0, "4" => 4.0, "5" => 5.0, "6" => 6.0, "-1" => -1.0, "0.5" => 0.5, _ => { check(false, 1); 0.0 } };
        let ix = |s: &str| { let mut k = 0usize; for c in s.bytes() { check(c >= b'0' && c <= b'9', 2); k = k * 10 + (c - b'0') as usize; } k };
        for line in t.lines() {
            let p: Vec<&str> = line.split(' ').filter(|x| !x.is_empty()).collect();
            if p.is_empty() { continue; }
            match p[0] {
                "v" => v.push((f(p[1]), f(p[2]), f(p[3]))),
                "vn" => n.push((f(p[1]), f(p[2]), f(p[3]))),
                "vt" => u.push((f(p[1]), f(p[2]))),
                "o" => { names.push(p.get(1).copied().unwrap_or("").to_owned()); got.push(vec![]); }
                "f" => {
                    check(p.len() == 4 && !got.is_empty(), 3);
                    for c in &p[1..] {
                        let q: Vec<&str> = c.split('/').collect();
                        let a = ix(q[0]); let b = q.get(1).map_or(0, |s| ix(s)); let d = q.get(2).map_or(0, |s| ix(s));
                        check(a >= 1 && a <= v.len() && b <= u.len() && d <= n.len(), 4);
                        got.last_mut().unwrap().push((v[a - 1], if b == 0 { None } else { Some(u[b - 1]) }, if d == 0 { None } else { Some(n[d - 1]) }));
                    }
                }
                _ => {}
            }
        }
        check(names.len() == 2 && names[0] == tri_name(0) && names[1] == tri_name(1), 5);
        for i in 0..got.len().min(2) { check(got[i].len() == want[i].len(), 6); for j in 0..got[i].len().min(want[i].len()) { check(got[i][j] == want[i][j], 7); } }
        cover(1);
    }
    /// Any run of up to n blanks and tabs between the words of a line, and before and after them (at most one place has such a run).
    fn h_obj_blanks(n) {
        let words = ["v", "4", "5", "6", "vn", "0", "0", "-1", "vt", "0.5", "0.5", "f", "4/4/4", "1/2/1", "2/1/3"];
        let at = choice(0, words.len() as u32 + 3);
        let l = choice(1, n);
        let mut t = BASE.replace("v 4 5 6\n", "").replace("vn 0 0 -1\n", "").replace("vt 0.5 0.5\n", "").into_bytes();
        let run = |t: &mut Vec<u8>| for _ in 0..l { t.push(if bits(1) == 1 { b'\t' } else { b' ' }); };
        let mut k = 0;
        for (i, w) in words.iter().enumerate() {
            let first = ["v", "vn", "vt", "f"].contains(w);
            if first { if i > 0 { if k == at { run(&mut t); } k += 1; t.push(b'\n'); } if k == at && i == 0 { run(&mut t); } }
            else if k == at { run(&mut t); } else { t.push(b' '); }
            if !(first && i > 0) { k += 1; }
            cut(&mut t, w);
        }
        if k == at { run(&mut t); }
        t.push(b'\n');
        let r = rd(&t).unwrap();
        check(r.len() == 1, 1);
        corners(&r[0].0, &[(3, 3, 3), (0, 1, 0), (1, 0, 2)], 2);
        cover(1);
    }
    /// Numbers of many digits, two of them free: read as the nearest float, to the last bit.
    fn h_obj_exact(whole, frac, seed) {
        let mut s = String::new();
        let at = [(seed as usize * 5) % (whole + frac) as usize, (whole + frac) as usize - 1];
        for i in 0..(whole + frac) as usize {
            if i == whole as usize { s.push('.'); }
            s.push((b'0' + if at.contains(&i) { choice(0, 9) } else { (i as u32 * 7 + seed * 3 + 1) * 11 % 10 } as u8) as char);
        }
        let e: f32 = s.parse().unwrap();
        let t = format!("v {s} -{s} {s}\nvn -{s} 0 {s}\nvt {s} -{s}\nf 1/1/1 1/1/1 1/1/1\n");
        let r = rd(t.as_bytes()).unwrap();
        let m = &r[0].0;
        check(m.get_vertices().unwrap() == [(e, -e, e)] && m.get_normals().unwrap() == [(-e, 0.0, e)] && m.get_uvs().unwrap() == [(e, -e)], 1);
        cover(1);
    }
    /// Lines which end in a line feed or in a carriage return and a line feed, each as it likes.
    fn h_obj_crlf() {
        let d = digit();
        let mut t = vec![];
        let n = choice(0, 2);
        for (i, l) in ["# c", "o name", "v 1 0 0", "v 2 1 0", "v 3 0 1", "vn 1 0 0", "vn 0 1 0", "vt 0 0", "vt 1 0", "", "s off", "f 1/1/1 2/2/2 3/1/2", "o second", "f 3/2/1 2/1/1 1/1/2"].into_iter().enumerate() {
            cut(&mut t, l);
            if i == 2 { t.push(d); }
            // all, one of two kinds, or free ones
            let cr = match n { 0 => true, 1 => i % 2 == 0, _ => if i % 3 == 1 { choice(0, 1) == 1 } else { i % 3 == 0 } };
            if cr { t.push(b'\r'); }
            t.push(b'\n');
        }
        let r = rd(&t).unwrap();
        check(r.len() == 2 && r[0].1 == "name" && r[1].1 == "second", 1);
        let a = &r[0].0;
        check(a.get_vertices().unwrap().len() == 3 && a.get_normals().unwrap().len() == 2 && a.get_uvs().unwrap().len() == 2, 2);
        check(a.get_vertices().unwrap()[0] == (1.0, 0.0, (d - b'0') as f32) && a.get_vertices().unwrap()[2] == (3.0, 0.0, 1.0), 3);
        check(a.get_vertex_triangles().unwrap() == [0, 1, 2] && a.get_uv_triangles().unwrap() == [0, 1, 0] && a.get_normal_triangles().unwrap() == [0, 1, 1], 4);
        check(r[1].0.get_vertex_buffer().unwrap()[1] == (2.0, 1.0, 0.0) && r[1].0.get_uv_buffer().unwrap()[0] == (1.0, 0.0), 5);
        cover(1);
    }
    /// Spellings of numbers: read as the number they spell, or refused.
    fn h_obj_spell(kind, at) {
        let d = digit();
        let x = (d - b'0') as f64;
        let i = choice(0, 23);
        let (a, b, want): (&str, &str, Option<f64>) = match i {
            0 => ("+", "", Some(x)), 1 => (".", "", Some(x / 10.0)), 2 => ("", ".", Some(x)), 3 => ("-.", "5", Some(-(x / 10.0 + 0.05))), 4 => ("00", "", Some(x)), 5 => ("0.00", "", Some(x / 1000.0)),
            6 => ("1", "e2", Some((10.0 + x) * 100.0)), 7 => ("", "E-3", Some(x / 1000.0)), 8 => ("1.5e+", "", { let p = choice(0, 9); assume(d == b'0' + p as u8); Some(1.5 * 10u64.pow(p) as f64) }), 9 => ("3", "00000", Some(3e6 + x * 1e5)),
            10 => ("0x", "", None), 11 => ("1_", "", None), 12 => ("1,", "", None), 13 => ("--", "", None), 14 => ("1.2.", "", None), 15 => ("", "e", None), 16 => ("", "f", None), 17 => ("e", "", None), 18 => ("+-", "", None), 19 => ("1 -", "-", None),
            20 => ("", "-", None), 21 => ("#", "", None), 22 => ("a", "", None), _ => ("$", "", None),
        };
        let n = if kind == 2 { 2 } else { 3 };
        let mut t = vec![];
        cut(&mut t, BASE); cut(&mut t, ["v", "vn", "vt"][kind as usize]);
        for k in 0..n { t.push(b' '); if k == at { cut(&mut t, a.trim_start_matches("1 ")); t.push(d); cut(&mut t, b); } else { cut(&mut t, "0.25"); } }
        t.push(b'\n'); cut(&mut t, "f 1/1/1 2/2/2 3/3/3\n");
        match rd(&t) {
            Ok(r) => {
                check(want.is_some() && r.len() == 1, 1);
                let m = &r[0].0;
                let g = match kind { 0 => { let v = m.get_vertices().unwrap()[4]; vec![v.0, v.1, v.2] } 1 => { let v = m.get_normals().unwrap()[4]; vec![v.0, v.1, v.2] } _ => { let v = m.get_uvs().unwrap()[4]; vec![v.0, v.1] } };
                for k in 0..n as usize { near(g[k], if k == at as usize { want.unwrap() } else { 0.25 }, 2); }
                check(m.get_vertex_triangles().unwrap() == [0, 1, 2] && m.get_normal_triangles().unwrap() == [0, 1, 2] && m.get_uv_triangles().unwrap() == [0, 1, 2], 3);
                cover(1);
            }
            Err(_) => { check(want.is_none(), 6); cover(2); }
        }
    }
    /// Components beyond those asked for (weights, vertex colours, the third texture coordinate) are passed over.
    fn h_obj_extra(kind, more) {
        let mut t = vec![];
        let d = [digit(), digit(), digit()];
        let n = if kind == 2 { 2 } else { 3 };
        cut(&mut t, ["v", "vn", "vt"][kind as usize]);
        for k in 0..n { t.push(b' '); t.push(d[k as usize]); }
        for _ in 0..more { cut(&mut t, " 0."); t.push(digit()); }
        t.push(b'\n'); cut(&mut t, BASE); cut(&mut t, "f 1/1/1 2/2/2 3/3/3\n");
        let r = rd(&t).unwrap();
        check(r.len() == 1, 1);
        let m = &r[0].0;
        let (v, u, w) = (m.get_vertices().unwrap(), m.get_uvs().unwrap(), m.get_normals().unwrap());
        check(v.len() == 4 + (kind == 0) as usize && w.len() == 4 + (kind == 1) as usize && u.len() == 4 + (kind == 2) as usize, 2);
        let f = |k: usize| (d[k] - b'0') as f32;
        match kind { 0 => check(v[0] == (f(0), f(1), f(2)) && v[1] == bv(0), 3), 1 => check(w[0] == (f(0), f(1), f(2)) && w[1] == bn(0), 4), _ => check(u[0] == (f(0), f(1)) && u[1] == bt(0), 5) }
        cover(1);
    }
    /// Lines in any order: texture coordinates and normals between the vertices, faces between them, also faces before the last elements.
    fn h_obj_order(seed) {
        let mut left: Vec<&str> = BASE.lines().collect();
        let (mut iv, mut iv_n, mut iv_t) = (0, 4, 8);
        let mut t = vec![];
        let mut e = vec![];
        let mut s = seed;
        for step in 0..12 {
            // one of the kinds, its elements in order
            s = s.wrapping_mul(1103515245).wrapping_add(12345);
            let open: Vec<usize> = [iv < 4, iv_n < 8, iv_t < 12].iter().enumerate().filter(|x| *x.1).map(|x| x.0).collect();
            match open[(s >> 16) as usize % open.len()] { 0 => { cut(&mut t, left[iv]); iv += 1; } 1 => { cut(&mut t, left[iv_n]); iv_n += 1; } _ => { cut(&mut t, left[iv_t]); iv_t += 1; } }
            t.push(b'\n');
            if step % 4 == seed as usize % 4 {
                let a = choice(0, 3);
                let c = [(a, (a + step as u32) % 4, 3 - a), (1, 3, 2), ((a + 1) % 4, 0, a)];
                cut(&mut t, "f");
                for k in c { cut(&mut t, &format!(" {}/{}/{}", k.0 + 1, k.1 + 1, k.2 + 1)); e.push(k); }
                t.push(b'\n');
            }
        }
        left.clear();
        let r = rd(&t).unwrap();
        check(r.len() == 1, 1);
        corners(&r[0].0, &e, 2);
        cover(1);
    }
    /// A line whose first word is no known one (n free letters) is passed over wherever it stands.
    fn h_obj_word(n) {
        let w: Vec<u8> = (0..n).map(|_| { let c = u8s(); assume(c >= b'A' && c <= b'Z' || c >= b'a' && c <= b'z'); c }).collect();
        assume(!(n == 1 && (w[0] == b'v' || w[0] == b'f' || w[0] == b'o')));
        assume(!(n == 2 && w[0] == b'v' && (w[1] == b'n' || w[1] == b't')));
        let parts = ["o m\n", BASE, "f 2/2/2 3/3/3 4/4/4\n", "f 2/2/2 4/3/4 3/3/3\n"];
        let at = choice(0, 3);
        let mut t = vec![];
        for (i, p) in parts.iter().enumerate() { if at == i as u32 { t.extend(&w); cut(&mut t, " 1/1/1 2/2/2 4/4/4\n"); } cut(&mut t, p); }
        let r = rd(&t).unwrap();
        check(r.len() == 1 && r[0].1 == "m", 1);
        corners(&r[0].0, &[(1, 1, 1), (2, 2, 2), (3, 3, 3), (1, 1, 1), (3, 2, 3), (2, 2, 2)], 2);
        cover(1);
    }
    /// Names of n free characters (without blanks and slashes), between two pieces of text: read as written, and exported and read again unchanged (trip 1).
    fn h_obj_name(n, trip, kind) {
        let (a, z) = [("", ""), ("Cube.00", "_x"), ("\u{e4}", "\u{4e2d}\u{1f600}"), ("v", ""), ("#", "-")][kind as usize];
        let mut w = a.as_bytes().to_vec();
        for _ in 0..n { let c = bits(7) as u8; assume(c > b' ' && c < 0x7f && c != b'/'); w.push(c); }
        w.extend(z.as_bytes());
        let w = String::from_utf8(w).unwrap();
        let mut t = vec![];
        if trip == 1 {
            let mk = |k: u32| { let mut m = TMFMesh::empty(); m.set_vertices((0..4).map(bv).collect::<Vec<_>>()); m.set_normals((0..4).map(bn).collect::<Vec<_>>()); m.set_uvs((0..4).map(bt).collect::<Vec<_>>()); for j in 0..3 { crate::idx::set_tri(&mut m, j, vec![k, 1, 2]); } m };
            TMFMesh::write_obj(&[(mk(0), &w[..]), (mk(3), "next")], &mut t).unwrap();
        } else {
            cut(&mut t, BASE); cut(&mut t, "o "); cut(&mut t, &w); cut(&mut t, "\nf 1/1/1 2/2/2 3/3/3\no next\nf 4/4/4 2/2/2 3/3/3\n");
        }
        let r = rd(&t).unwrap();
        check(r.len() == 2, 1);
        check(r[0].1.as_bytes() == w.as_bytes() && r[1].1 == "next", 2);
        corners(&r[0].0, &[(0, 0, 0), (1, 1, 1), (2, 2, 2)], 3);
        corners(&r[1].0, &[(3, 3, 3), (1, 1, 1), (2, 2, 2)], 6);
        cover(1);
    }
    /// A name of n characters.
    fn h_obj_name_long(n) {
        let k = choice(0, 1);
        let mut w = String::new();
        for i in 0..n { w.push((b'a' + ((i * 7 + k) % 26) as u8) as char); }
        let t = format!("{BASE}o {w}\nf 1/1/1 2/2/2 3/3/3\n");
        let r = rd(t.as_bytes()).unwrap();
        check(r.len() == 1 && r[0].1 == w, 1);
        let mut o = vec![];
        r[0].0.write_obj_one(&mut o, &w[..]).unwrap();
        let q = rd(&o).unwrap();
        check(q.len() == 1 && q[0].1 == w, 2);
        corners(&q[0].0, &[(0, 0, 0), (1, 1, 1), (2, 2, 2)], 3);
        cover(1);
    }
    /// Two objects may have the same name; names may be missing.
    fn h_obj_same_name() {
        let nm = |k: u32| ["a", "b", ""][k as usize];
        let (a, b, c) = (choice(0, 2), choice(0, 2), choice(0, 2));
        let t = format!("{BASE}o {}\nf 1/1/1 2/2/2 3/3/3\no {}\nf 2/2/2 1/1/1 4/4/4\nf 4/4/4 2/2/2 2/2/2\no {}\nf 3/3/3 3/3/3 4/4/4\n", nm(a), nm(b), nm(c));
        let r = rd(t.as_bytes()).unwrap();
        check(r.len() == 3 && r[0].1 == nm(a) && r[1].1 == nm(b) && r[2].1 == nm(c), 1);
        corners(&r[0].0, &[(0, 0, 0), (1, 1, 1), (2, 2, 2)], 2);
        corners(&r[1].0, &[(1, 1, 1), (0, 0, 0), (3, 3, 3), (3, 3, 3), (1, 1, 1), (1, 1, 1)], 5);
        corners(&r[2].0, &[(2, 2, 2), (2, 2, 2), (3, 3, 3)], 8);
        cover(1);
    }
}
