use crate::rt::*;
use tmf::unaligned_rw::*;
fn m(w: u32) -> u64 { if w >= 64 { u64::MAX } else { (1u64 << w) - 1 } }
fn md(w: u32) -> UnalignedRWMode { UnalignedRWMode::precision_bits(w as u8) }
/// Reference layout: fields one after another, most significant bit first, zero padded to a byte.
fn reference(fields: &[(u32, u64)]) -> Vec<u8> {
    let total: u32 = fields.iter().map(|f| f.0).sum();
    let mut out = vec![0u8; ((total + 7) / 8) as usize];
    let mut pos = 0u32;
    for &(w, v) in fields {
        let mut left = w;
        while left > 0 {
            let room = 8 - (pos & 7);
            let k = if room < left { room } else { left };
            let bits = ((v >> (left - k)) & m(k)) as u8;
            out[(pos >> 3) as usize] |= bits << (room - k);
            pos += k; left -= k;
        }
    }
    out
}
fn same(a: &[u8], b: &[u8], id: u32) {
    check(a.len() == b.len(), id);
    let mut ok = true;
    for i in 0..a.len().min(b.len()) { ok &= a[i] == b[i]; }
    check(ok, id + 1);
}
entries! {
    /// n fields of widths lo..=hi (every combination), arbitrary contents: layout and read back.
    fn h_bits_fields(n, lo, hi) {
        let mut f = vec![];
        for _ in 0..n { let w = choice(lo, hi); f.push((w, u64s())); }
        let mut out = Vec::new();
        { let mut w = UnalignedWriter::new(&mut out); for &(k, v) in &f { w.write_unaligned(md(k), v).unwrap(); } }
        let f: Vec<(u32, u64)> = f.into_iter().map(|(k, v)| (k, v & m(k))).collect();
        same(&out, &reference(&f), 1);
        let mut r = UnalignedReader::new(&out[..]);
        for &(k, v) in &f { let g = r.read_unaligned(md(k)); check(g.is_ok(), 3); if let Ok(g) = g { check(g == v, 4); } }
        cover(1);
    }
    /// A field of width w0, then two (or three) fields of equal width read in one call, then a field of width 7.
    fn h_bits_multi(three, lo, hi, w0) {
        let w = choice(lo, hi);
        let (a, b, c, d, e) = (u64s(), u64s(), u64s(), u64s(), u64s());
        let mut out = Vec::new();
        { let mut wr = UnalignedWriter::new(&mut out);
          wr.write_unaligned(md(w0), a).unwrap(); wr.write_unaligned(md(w), b).unwrap(); wr.write_unaligned(md(w), c).unwrap();
          if three == 1 { wr.write_unaligned(md(w), d).unwrap(); }
          wr.write_unaligned(md(7), e).unwrap(); }
        let mut r = UnalignedReader::new(&out[..]);
        check(r.read_unaligned(md(w0)).unwrap() == a & m(w0), 1);
        if three == 1 {
            let g = r.read3_unaligned(md(w)).unwrap();
            check(g.0 == b & m(w), 2); check(g.1 == c & m(w), 3); check(g.2 == d & m(w), 4);
        } else {
            let g = r.read2_unaligned(md(w)).unwrap();
            check(g.0 == b & m(w), 2); check(g.1 == c & m(w), 3);
        }
        check(r.read_unaligned(md(7)).unwrap() == e & m(7), 5);
        cover(1);
    }
    /// Two fields of different width read with one call.
    fn h_bits_pair(lo, hi, w0) {
        let (w1, w2) = (choice(lo, hi), choice(0, 64));
        let (a, b, c, e) = (u64s(), u64s(), u64s(), u64s());
        let mut out = Vec::new();
        { let mut wr = UnalignedWriter::new(&mut out);
          wr.write_unaligned(md(w0), a).unwrap(); wr.write_unaligned(md(w1), b).unwrap(); wr.write_unaligned(md(w2), c).unwrap(); wr.write_unaligned(md(7), e).unwrap(); }
        let mut r = UnalignedReader::new(&out[..]);
        check(r.read_unaligned(md(w0)).unwrap() == a & m(w0), 1);
        let g = r.read_pair_unaligned(md(w1), md(w2)).unwrap();
        check(g.0 == b & m(w1), 2); check(g.1 == c & m(w2), 3);
        check(r.read_unaligned(md(7)).unwrap() == e & m(7), 4);
        cover(1);
    }
    /// n single bits (written and read one at a time or as one field), after a prefix of `w0` bits.
    fn h_bits_bits(n, w0) {
        let (a, p) = (u64s(), u64s());
        let mut o1 = Vec::new();
        { let mut w = UnalignedWriter::new(&mut o1); w.write_unaligned(md(w0), p).unwrap(); for i in 0..n { w.write_bit((a >> (n - 1 - i)) & 1 == 1).unwrap(); } }
        let mut o2 = Vec::new();
        { let mut w = UnalignedWriter::new(&mut o2); w.write_unaligned(md(w0), p).unwrap(); w.write_unaligned(md(n), a).unwrap(); }
        same(&o1, &o2, 1);
        let mut r = UnalignedReader::new(&o1[..]);
        check(r.read_unaligned(md(w0)).unwrap() == p & m(w0), 3);
        check(r.read_unaligned(md(n)).unwrap() == a & m(n), 4);
        let mut r = UnalignedReader::new(&o2[..]);
        check(r.read_unaligned(md(w0)).unwrap() == p & m(w0), 5);
        let mut g = 0u64;
        for _ in 0..n { g = (g << 1) | (r.read_bit().unwrap() as u64); }
        check(g == a & m(n), 6);
        cover(1);
    }
    /// The source hands out its bytes in pieces of arbitrary size.
    fn h_bits_chunks(n, lo, hi) {
        let mut f = vec![];
        for _ in 0..n { let w = choice(lo, hi); f.push((w, u64s() & m(w))); }
        let out = reference(&f);
        let mut r = UnalignedReader::new(Chunks { d: &out });
        for &(k, v) in &f { let g = r.read_unaligned(md(k)); check(g.is_ok(), 1); if let Ok(g) = g { check(g == v, 2); } }
        cover(1);
    }
    /// Reading from `len` arbitrary bytes: fields inside the data are exact, a field beyond it is an error.
    fn h_bits_eof(len, lo, hi) {
        let mut d = vec![]; for _ in 0..len { d.push(u8s()); }
        let mut r = UnalignedReader::new(&d[..]);
        let mut pos = 0;
        for _ in 0..3 {
            let w = choice(lo, hi);
            let g = r.read_unaligned(md(w));
            if pos + w <= len * 8 {
                let mut e = 0u64;
                for i in pos..pos + w { e = (e << 1) | ((d[(i / 8) as usize] >> (7 - i % 8)) & 1) as u64; }
                check(g.is_ok(), 1);
                if let Ok(g) = g { check(g == e, 2); }
                pos += w;
            } else { check(g.is_err(), 3); break; }
        }
        let w = choice(0, 1);
        if pos == len * 8 && w == 1 { check(r.read_bit().is_err(), 4); }
        cover(1);
    }
    /// Fields straddling the internal buffer of the writer (`k` bytes are already written).
    fn h_bits_long(k, w0, lo, hi) {
        let (a, p, b, e) = (u64s(), u64s(), u64s(), u64s());
        let w = choice(lo, hi);
        let mut out = Vec::new();
        { let mut wr = UnalignedWriter::new(&mut out);
          wr.write_unaligned(md(w0), p).unwrap();
          for i in 0..k { wr.write_unaligned(md(8), (i * 7 + 3) as u64).unwrap(); }
          wr.write_unaligned(md(w), a).unwrap(); wr.write_unaligned(md(13), b).unwrap(); wr.write_unaligned(md(w), e).unwrap(); }
        check(out.len() as u32 == (w0 + 8 * k + 2 * w + 13 + 7) / 8, 1);
        let mut r = UnalignedReader::new(&out[..]);
        check(r.read_unaligned(md(w0)).unwrap() == p & m(w0), 2);
        for i in 0..k { check(r.read_unaligned(md(8)).unwrap() == (i * 7 + 3) as u64 & 255, 3); }
        check(r.read_unaligned(md(w)).unwrap() == a & m(w), 4);
        check(r.read_unaligned(md(13)).unwrap() == b & m(13), 5);
        check(r.read_unaligned(md(w)).unwrap() == e & m(w), 6);
        cover(1);
    }
}
/// A source which returns between one byte and everything it has left on each read.
pub struct Chunks<'a> { pub d: &'a [u8] }
impl<'a> std::io::Read for Chunks<'a> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.d.len());
        if n == 0 { return Ok(0); }
        let k = choice(1, n as u32) as usize;
        b[..k].copy_from_slice(&self.d[..k]);
        self.d = &self.d[k..];
        Ok(k)
    }
}
