// Analysis harness: appended to a scratch copy of the crate as module `__verif`.
// Nothing here is ever executed; the abstract interpreter analyses it together
// with the crate's MIR.
#![allow(dead_code, unused, unsafe_code, missing_docs)]
use crate::{CodingProcess, ColorTransform, Decoder, Error, ImageInfo, PixelFormat, UnsupportedFeature};
use std::io::{self, Read, Write};

// ---- primitives interpreted by the engine (bodies are never looked at) ----
#[inline(never)] pub fn nd_bool() -> bool { loop {} }
#[inline(never)] pub fn nd_u8() -> u8 { loop {} }
#[inline(never)] pub fn nd_u16() -> u16 { loop {} }
#[inline(never)] pub fn nd_usize() -> usize { loop {} }
#[inline(never)] pub fn nd_range(_lo: usize, _hi: usize) -> usize { loop {} }
#[inline(never)] pub fn nd_transform() -> ColorTransform { loop {} }
#[inline(never)] pub fn nd_ioerror() -> io::Error { loop {} }
#[inline(never)] pub fn check(_c: bool, _id: &'static str) { loop {} }
#[inline(never)] pub fn check_eq(_a: usize, _b: usize, _id: &'static str) { loop {} }
#[inline(never)] pub fn reach(_id: &'static str) { loop {} }
#[inline(never)] pub fn split(_c: bool) -> bool { loop {} }
#[inline(never)] pub fn assume(_c: bool) { loop {} }
#[inline(never)] pub fn stop() -> ! { loop {} }
#[inline(never)] pub fn ghost(_k: usize, _v: usize) { loop {} }
#[inline(never)] pub fn ghost_of(_k: usize) -> usize { loop {} }
#[inline(never)] pub fn part(_k: usize, _v: usize) { loop {} }
#[inline(never)] pub fn part_of(_k: usize) -> usize { loop {} }
#[inline(never)] pub fn pick(_k: usize, _lo: usize, _hi: usize) -> usize { loop {} }
#[inline(never)] pub fn bigbuf() -> &'static mut [u8] { loop {} }
#[inline(never)] pub fn loop_nd() { loop {} }
#[inline(never)] pub fn native_next<I, T>(_it: &mut I) -> Option<T> { loop {} }
#[inline(never)] pub fn dump_str(_a: usize, _id: &'static str) { loop {} }

// ---- environment: an arbitrary byte stream ----
pub struct Any;
impl Read for Any {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        loop_nd();
        if nd_bool() { return Err(nd_ioerror()); }
        let n = nd_usize();
        if n > buf.len() { return Ok(0); }
        for b in buf.iter_mut() { *b = nd_u8(); }
        Ok(n)
    }
    fn read_exact(&mut self, buf: &mut [u8]) -> io::Result<()> {
        if nd_bool() { return Err(nd_ioerror()); }
        for b in buf.iter_mut() { *b = nd_u8(); }
        Ok(())
    }
}

// ---- environment: a stream given byte by byte; some bytes arbitrary ----
pub struct S { pub b: Vec<u8>, pub pos: usize }
impl Read for S {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let left = self.b.len() - self.pos;
        let n = if split(buf.len() < left) { buf.len() } else { left };
        buf[..n].copy_from_slice(&self.b[self.pos..self.pos + n]);
        self.pos += n;
        ghost(0, self.pos);
        Ok(n)
    }
    fn read_exact(&mut self, buf: &mut [u8]) -> io::Result<()> {
        let left = self.b.len() - self.pos;
        if split(buf.len() > left) {
            self.pos = self.b.len();
            return Err(nd_ioerror());
        }
        buf.copy_from_slice(&self.b[self.pos..self.pos + buf.len()]);
        self.pos += buf.len();
        ghost(0, self.pos);
        Ok(())
    }
}
/// scripted bytes followed by arbitrary ones
pub struct P { pub b: Vec<u8>, pub pos: usize }
impl Read for P {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if split(self.pos + buf.len() <= self.b.len()) {
            buf.copy_from_slice(&self.b[self.pos..self.pos + buf.len()]);
            self.pos += buf.len();
            return Ok(buf.len());
        }
        loop_nd();
        if nd_bool() { return Err(nd_ioerror()); }
        let n = nd_usize();
        if n > buf.len() { return Ok(0); }
        for b in buf.iter_mut() { *b = nd_u8(); }
        Ok(n)
    }
    fn read_exact(&mut self, buf: &mut [u8]) -> io::Result<()> {
        if split(self.pos + buf.len() <= self.b.len()) {
            buf.copy_from_slice(&self.b[self.pos..self.pos + buf.len()]);
            self.pos += buf.len();
            return Ok(());
        }
        if nd_bool() { return Err(nd_ioerror()); }
        for b in buf.iter_mut() { *b = nd_u8(); }
        Ok(())
    }
}
fn put(v: &mut Vec<u8>, s: &[u8]) { v.extend_from_slice(s); }
fn nd_bytes(v: &mut Vec<u8>, n: usize) { let mut i = 0; while i < n { v.push(nd_u8()); i += 1; } }
fn be(h: u8, l: u8) -> u16 { (h as u16) * 256 + (l as u16) }

// ---- std models ----
fn m_box_default<T: Default>() -> Box<T> {
    Box::new(T::default())
}
pub fn m_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
    let mut v = Vec::new();
    let mut it = it.into_iter();
    while let Some(x) = it.next() { v.push(x); }
    v
}
pub fn m_extend<T, A, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() { v.push(x); }
}
pub fn m_take_read<T: Read>(t: &mut io::Take<T>, buf: &mut [u8]) -> io::Result<usize> {
    let limit = t.limit();
    if split(limit == 0) { return Ok(0); }
    let max = if split((buf.len() as u64) < limit) { buf.len() } else { limit as usize };
    let n = t.get_mut().read(&mut buf[..max])?;
    t.set_limit(limit - n as u64);
    Ok(n)
}
pub fn m_io_copy<R: Read + ?Sized, W: Write + ?Sized>(r: &mut R, _w: &mut W) -> io::Result<u64> {
    let mut n = 0u64;
    loop {
        let k = r.read(bigbuf())?;
        if split(k == 0) { return Ok(n); }
        n += k as u64;
    }
}
#[cfg(feature = "rayon")]
pub fn m_par_for_each<I: rayon::iter::ParallelIterator, OP: Fn(I::Item) + Sync + Send>(it: I, op: OP) {
    let mut it = it;
    while let Some(x) = native_next::<I, I::Item>(&mut it) { op(x); }
}

// ---- roots ----
/// outcome class of a call: 0 Ok, 1 Format, 2 Io, 3 Internal, 10.. Unsupported
fn kind<T>(r: &Result<T, Error>) -> usize {
    match r {
        Ok(_) => 0,
        Err(Error::Format(_)) => 1,
        Err(Error::Io(_)) => 2,
        Err(Error::Internal(_)) => 3,
        Err(Error::Unsupported(u)) => match u {
            UnsupportedFeature::Hierarchical => HIER,
            UnsupportedFeature::ArithmeticEntropyCoding => ARITH,
            UnsupportedFeature::SamplePrecision(_) => PREC,
            UnsupportedFeature::ComponentCount(_) => COMPS,
            UnsupportedFeature::DNL => DNL,
            UnsupportedFeature::SubsamplingRatio => 15,
            UnsupportedFeature::NonIntegerSubsamplingRatio => RATIO,
            UnsupportedFeature::ColorTransform(_) => 17,
        },
    }
}
const HIER: usize = 10;
const ARITH: usize = 11;
const PREC: usize = 12;
const COMPS: usize = 13;
const DNL: usize = 14;
const RATIO: usize = 16;

// ---- C04, C06, C30: frame headers ----
fn process(m: u8) -> CodingProcess {
    match m & 3 { 2 => CodingProcess::DctProgressive, 3 => CodingProcess::Lossless, _ => CodingProcess::DctSequential }
}
fn precision_legal(m: u8, p: u8) -> bool {
    if m == 0xC0 { p == 8 } else if m & 3 == 3 { p >= 2 && p <= 16 } else { p == 8 || p == 12 }
}
fn comps_legal(c: &[u8], n: usize, lossless: bool) -> bool {
    let mut i = 0;
    while i < n {
        let h = c[9 + 3 * i] >> 4;
        let v = c[9 + 3 * i] & 15;
        let t = c[10 + 3 * i];
        if h < 1 || h > 4 || v < 1 || v > 4 || t > 3 || (lossless && t != 0) { return false; }
        let mut j = 0;
        while j < i {
            if c[8 + 3 * j] == c[8 + 3 * i] { return false; }
            j += 1;
        }
        i += 1;
    }
    true
}
/// a frame header with marker m and n components, every other byte arbitrary
fn sof(m: u8, n: usize, free: usize, dec: bool) {
    let mut v = vec![0xFF, 0xD8, 0xFF, m];
    let mut c = Vec::new();
    nd_bytes(&mut c, 8 + 3 * n);
    c[7] = n as u8;
    // several components: all but one sampling byte fixed here, see root_ratio for combinations
    let mut i = 0;
    while i < n && n > 1 { if i != free { c[9 + 3 * i] = 0x11; } i += 1; }
    put(&mut v, &c);
    let mut d = Decoder::new(S { b: v, pos: 0 });
    let k = if dec { kind(&d.decode()) } else { kind(&d.read_info()) };
    let ok = if dec { 2 } else { 0 };
    let hier = m == 0xC5 || m == 0xC6 || m == 0xC7 || m >= 0xCD;
    let arith = m >= 0xC9;
    let p = c[2];
    let h = be(c[3], c[4]);
    let w = be(c[5], c[6]);
    if be(c[0], c[1]) as usize == 8 + 3 * n && n > 0 && precision_legal(m, p) && w > 0 && comps_legal(&c, n, m & 3 == 3) && (n <= 4 || m & 3 != 2) {
        let twelve = p == 12 && m & 3 != 3;
        let count = n != 1 && n != 3 && n != 4;
        if h > 0 && !hier && !arith && !twelve && !count {
            check(k == ok, "C04");
            reach("C04-accepted");
            if k == ok {
                match d.info() {
                    Some(i) => {
                        check(i.width == w, "C04");
                        check(i.height == h, "C04");
                        check(i.coding_process == process(m), "C04");
                        let l8 = i.pixel_format == PixelFormat::L8;
                        let l16 = i.pixel_format == PixelFormat::L16;
                        if n == 1 && p <= 8 { check(i.pixel_format == PixelFormat::L8, "C30"); }
                        else if n == 1 { check(i.pixel_format == PixelFormat::L16, "C30"); }
                        else if n == 3 { check(i.pixel_format == PixelFormat::RGB24, "C30"); }
                        else { check(i.pixel_format == PixelFormat::CMYK32, "C30"); }
                    }
                    None => check(false, "C04"),
                }
            }
        } else {
            reach("C06-unsupported");
            check(k != ok, "C04");
            if h == 0 { check(k == DNL || (k == HIER && hier) || (k == ARITH && arith) || (k == PREC && twelve) || (k == COMPS && count), "C06"); }
            else if hier { check(k == HIER || (k == ARITH && arith) || (k == PREC && twelve) || (k == COMPS && count), "C06"); }
            else if arith { check(k == ARITH || (k == PREC && twelve) || (k == COMPS && count), "C06"); }
            else if twelve { check(k == PREC || (k == COMPS && count), "C06"); }
            else { check(k == COMPS, "C06"); }
        }
    } else {
        reach("C04-rejected");
        check(k != ok, "C04");
    }
    if k != ok { check(d.info().is_none(), "C04"); }
}
pub fn root_sof_c0_1() { sof(0xC0, 1, 0, false); }
pub fn root_sof_c1_1() { sof(0xC1, 1, 0, true); }
pub fn root_sof_c3_1() { sof(0xC3, 1, 0, false); }
pub fn root_sof_c0_3() { sof(0xC0, 3, 1, false); }
pub fn root_sof_c2_3() { sof(0xC2, 3, 0, true); }
pub fn root_sof_c3_4() { sof(0xC3, 4, 3, false); }

// ---- stream pieces ----
fn dims(h: u8, w: u8) -> [u8; 4] { [0, h, 0, w] }
/// SOI
fn soi() -> Vec<u8> { vec![0xFF, 0xD8] }
/// frame header with fixed content; sampling byte of component i is hv[i]
fn put_sof(v: &mut Vec<u8>, m: u8, p: u8, h: u8, w: u8, ids: &[u8], hv: &[u8]) {
    put(v, &[0xFF, m, 0, 8 + 3 * ids.len() as u8, p, 0, h, 0, w, ids.len() as u8]);
    let mut i = 0;
    while i < ids.len() { put(v, &[ids[i], hv[i], 0]); i += 1; }
}
/// one quantisation table of ones
fn put_dqt(v: &mut Vec<u8>, idx: u8) {
    put(v, &[0xFF, 0xDB, 0, 67, idx]);
    let mut i = 0;
    while i < 64 { v.push(1); i += 1; }
}
/// a Huffman table with a single code '0' for the symbol
fn put_dht1(v: &mut Vec<u8>, tcth: u8, sym: u8) {
    put(v, &[0xFF, 0xC4, 0, 20, tcth, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, sym]);
}
fn put_sos(v: &mut Vec<u8>, ids: &[u8], td: u8, ss: u8, se: u8, a: u8) {
    put(v, &[0xFF, 0xDA, 0, 6 + 2 * ids.len() as u8, ids.len() as u8]);
    let mut i = 0;
    while i < ids.len() { put(v, &[ids[i], td]); i += 1; }
    put(v, &[ss, se, a]);
}

// ---- C05: scan headers ----
/// all other bytes of a scan header for ns components arbitrary, in a frame of nf components
fn sos(m: u8, nf: usize, ns: usize, hv: u8) {
    let ids = [1u8, 2, 3, 4];
    let base = m == 0xC0;
    let lossless = m == 0xC3;
    let prog = m == 0xC2;
    let mut v = soi();
    put_dqt(&mut v, 0);
    let mut t = 0u8;
    while t < 2 || (!base && t < 4) {
        put_dht1(&mut v, t, 0);
        put_dht1(&mut v, 0x10 | t, 0);
        t += 1;
    }
    put_sof(&mut v, m, 8, 8, 8, &ids[..nf], &[hv, 0x11, 0x11, 0x11]);
    put(&mut v, &[0xFF, 0xDA]);
    let mut c = Vec::new();
    nd_bytes(&mut c, 6 + 2 * ns);
    c[2] = ns as u8;
    put(&mut v, &c);
    let cs = c.clone();
    let mut d = Decoder::new(S { b: v, pos: 0 });
    let k0 = kind(&d.read_info());
    check(k0 == 0, "C05");
    // case split on which components the scan names
    let mut i = 0;
    while i < ns && i < 4 && ns > 1 {
        let mut j = 1;
        while j <= nf {
            let hit = split(c[3 + 2 * i] == j as u8);
            if hit { part(i, j); j = 9; }
            j += 1;
        }
        i += 1;
    }
    if prog && split(c[3 + 2 * ns] == 0) { part(8, 1); }
    if prog && split(c[5 + 2 * ns] >> 4 == 0) { part(9, 1); }
    if prog && split(c[4 + 2 * ns] == 0) { part(10, 1); }
    let k = kind(&d.decode());
    let mut ok = be(c[0], c[1]) as usize == 6 + 2 * ns && ns >= 1 && ns <= 4;
    let mut i = 0;
    while ok && i < ns && i < 4 {
        let id = c[3 + 2 * i];
        let t = c[4 + 2 * i];
        let tmax = if base { 1 } else { 3 };
        if id < 1 || id > nf as u8 || (t >> 4) > tmax || (t & 15) > tmax { ok = false; }
        if i > 0 && id <= c[1 + 2 * i] { ok = false; }
        i += 1;
    }
    let ss = c[3 + 2 * ns];
    let se = c[4 + 2 * ns];
    let ah = c[5 + 2 * ns] >> 4;
    let al = c[5 + 2 * ns] & 15;
    if al >= 8 { ok = false; }
    if prog {
        if se > 63 || ss > se || (ss == 0 && se != 0) || (ss != 0 && ns != 1) { ok = false; }
        if ah != 0 && ah != al + 1 { ok = false; }
    } else if lossless {
        if se != 0 || ah != 0 || ss > 7 { ok = false; }
    } else if ss != 0 || (se != 0 && se != 63) || ah != 0 || al != 0 { ok = false; }
    if ok {
        reach("C05-accepted");
        check(k == 2, "C05");
    } else {
        reach("C05-rejected");
        check(k == 1, "C05");
    }
}
pub fn root_sos_c0_11() { sos(0xC0, 1, 1, 0x11); }
pub fn root_sos_c0_31() { sos(0xC0, 3, 1, 0x22); }
pub fn root_sos_c0_33() { sos(0xC0, 3, 3, 0x22); }
pub fn root_sos_c1_32() { sos(0xC1, 3, 2, 0x22); }
pub fn root_sos_c2_11() { sos(0xC2, 1, 1, 0x11); }
pub fn root_sos_c2_32() { sos(0xC2, 3, 2, 0x11); }
pub fn root_sos_c2_33() { sos(0xC2, 3, 3, 0x11); }
pub fn root_sos_c3_11() { sos(0xC3, 1, 1, 0x11); }
pub fn root_sos_c3_31() { sos(0xC3, 3, 1, 0x11); }
pub fn root_sos_c3_32() { sos(0xC3, 3, 2, 0x11); }
pub fn root_sos_c1_44() { sos(0xC1, 4, 4, 0x11); }
pub fn root_sos_c0_10() { sos(0xC0, 1, 0, 0x11); }
pub fn root_sos_c0_15() { sos(0xC0, 4, 5, 0x11); }
/// blocks per MCU: sampling factors of one component arbitrary, the others and the scan fixed
fn blocks(hv0: u8, free: usize, hv2: u8) {
    let mut v = soi();
    put_dqt(&mut v, 0);
    put_dht1(&mut v, 0, 0);
    put_dht1(&mut v, 0x10, 0);
    let x = nd_u8();
    assume(x & 15 == 1 || x >> 4 == 1 || x == 0x22 || x == 0x24 || x == 0x42 || x == 0x44);
    let mut hv = [hv0, 0x11, hv2];
    hv[free] = x;
    put_sof(&mut v, 0xC1, 8, 16, 16, &[1, 2, 3], &hv);
    put_sos(&mut v, &[1, 2, 3], 0, 0, 63, 0);
    let mut d = Decoder::new(S { b: v, pos: 0 });
    let k0 = kind(&d.read_info());
    assume(k0 == 0);
    let k = kind(&d.decode());
    let mut n = 0u32;
    let mut i = 0;
    while i < 3 { n += (hv[i] >> 4) as u32 * (hv[i] & 15) as u32; i += 1; }
    if n <= 10 { reach("C05-blocks-ok"); check(k == 2, "C05"); } else { reach("C05-blocks-over"); check(k == 1, "C05"); }
}
pub fn root_sos_blk_1() { blocks(0x42, 1, 0x11); }
pub fn root_sos_blk_2() { blocks(0x22, 1, 0x22); }
pub fn root_sos_blk_3() { blocks(0x11, 0, 0x11); }

// ---- C07: table definition segments ----
/// sentinel: a frame header that is only found if the segment before it was consumed exactly
fn put_sentinel(v: &mut Vec<u8>) {
    // one stray byte that is a marker code, so that a missing byte shows too
    v.push(0xD9);
    put_sof(v, 0xC0, 8, 7, 9, &[5], &[0x11]);
}
fn sentinel_ok(d: &Decoder<S>) -> bool {
    match d.info() {
        Some(i) => i.width == 9 && i.height == 7,
        None => false,
    }
}
/// n bytes of DQT payload, all arbitrary; length field consistent or arbitrary
fn dqt(n: usize, free_len: bool) {
    let mut v = soi();
    put(&mut v, &[0xFF, 0xDB]);
    let mut c = Vec::new();
    let l = (n + 2) as u16;
    let (lh, ll) = if free_len { (nd_u8(), nd_u8()) } else { ((l >> 8) as u8, l as u8) };
    put(&mut v, &[lh, ll]);
    if n <= 65 { nd_bytes(&mut c, n); }
    else {
        // destinations and two entries arbitrary
        let mut i = 0;
        while i < n { c.push(if i == 0 || i == 40 || i == 43 || i == 65 || i == 128 || i == 129 || i == 130 { nd_u8() } else { 1 }); i += 1; }
    }
    put(&mut v, &c);
    if n > 65 {
        if split(c[0] >= 0x10) { part(200, 1); }
        let mut j = 0u8;
        while j < 4 { if split(c[0] & 15 == j) { part(201, j as usize); } j += 1; }
    }
    put_sentinel(&mut v);
    let mut d = Decoder::new(S { b: v, pos: 0 });
    let k = kind(&d.read_info());
    // independent reading of the payload
    let mut ok = true;
    let mut i = 0;
    while ok && i < n {
        let b = c[i];
        if b & 15 > 3 || b > 0x1F { ok = false; }
        else {
            if split(b >= 0x10) {
                part(i, 1);
                if i + 129 > n { ok = false; }
                let mut j = 0;
                while ok && j < 64 { if c[i + 1 + 2 * j] == 0 && c[i + 2 + 2 * j] == 0 { ok = false; } j += 1; }
                i += 129;
            } else {
                if i + 65 > n { ok = false; }
                let mut j = 0;
                while ok && j < 64 { if c[i + 1 + j] == 0 { ok = false; } j += 1; }
                i += 65;
            }
        }
    }
    if ok { reach("C07-dqt-ok"); check(k == 0, "C07"); if k == 0 { check(sentinel_ok(&d), "C07"); } }
    else { reach("C07-dqt-bad"); check(k == 1, "C07"); }
}
pub fn root_dqt_0() { dqt(0, false); }
pub fn root_dqt_1() { dqt(1, false); }
pub fn root_dqt_64() { dqt(64, false); }
pub fn root_dqt_65() { dqt(65, false); }
pub fn root_dqt_66() { dqt(66, false); }
pub fn root_dqt_128() { dqt(128, false); }
pub fn root_dqt_129() { dqt(129, false); }
pub fn root_dqt_130() { dqt(130, false); }

pub fn root_dri() {
    let mut v = soi();
    let (a, b) = (nd_u8(), nd_u8());
    put(&mut v, &[0xFF, 0xDD, a, b, 0, 1]);
    put_sentinel(&mut v);
    let mut d = Decoder::new(S { b: v, pos: 0 });
    let k = kind(&d.read_info());
    if be(a, b) == 4 { reach("C07-dri-ok"); check(k == 0, "C07"); if k == 0 { check(sentinel_ok(&d), "C07"); } }
    else { reach("C07-dri-bad"); check(k == 1, "C07"); }
}
/// Huffman segment: class and destination arbitrary, n1 codes of length s1 and n2 of length s2
fn dht(base: usize, n: usize, s1: usize, s2: usize, vals: usize, lo1: usize, hi1: usize, hi2: usize) {
    let mut v = soi();
    if base > 0 { put_sof(&mut v, if base == 1 { 0xC0 } else { 0xC1 }, 8, 7, 9, &[5], &[0x11]); }
    put(&mut v, &[0xFF, 0xC4]);
    let l = (n + 2) as u16;
    put(&mut v, &[(l >> 8) as u8, l as u8]);
    let tc = nd_u8();
    let mut cnt = [0u8; 16];
    cnt[s2 - 1] = pick(2, 0, hi2) as u8;
    cnt[s1 - 1] = pick(1, lo1, hi1) as u8;
    let n1 = cnt[s1 - 1] as usize;
    let n2 = if s1 == s2 { 0 } else { cnt[s2 - 1] as usize };
    v.push(tc);
    put(&mut v, &cnt);
    let mut i = 0;
    while i < vals { v.push(0); i += 1; }
    if base == 0 { put_sentinel(&mut v); }
    let mut d = Decoder::new(S { b: v, pos: 0 });
    let k0 = if base > 0 { kind(&d.read_info()) } else { 0 };
    check(k0 == 0, "C07");
    if split(tc < 0x10) { part(3, 1); }
    if split(tc & 15 < 4) { part(4, 1); }
    let sum = n1 + n2;
    let k = if base > 0 { kind(&d.decode()) } else { kind(&d.read_info()) };
    let idx = tc & 15;
    let mut ok = tc <= 0x1F && idx <= (if base == 1 { 1 } else { 3 }) && sum > 0 && sum <= 256 && n == 17 + sum;
    // the code space: n1 / 2^s1 + n2 / 2^s2 <= 1
    if s1 == s2 { if n1 > (1 << s1) { ok = false; } }
    else if n1 * (1 << (s2 - s1)) + n2 > (1 << s2) { ok = false; }
    if ok { reach("C07-dht-ok"); if base > 0 { check(k == 2, "C07"); } else { check(k == 0, "C07"); if k == 0 { check(sentinel_ok(&d), "C07"); } } }
    else { reach("C07-dht-bad"); check(k == 1, "C07"); }
}
pub fn root_dht_a() { dht(0, 17 + 2, 1, 1, 2, 0, 4, 0); }
pub fn root_dht_b() { dht(1, 17 + 3, 2, 3, 3, 0, 3, 3); }
pub fn root_dht_c() { dht(2, 17 + 4, 3, 16, 4, 0, 4, 4); }
pub fn root_dht_d() { dht(0, 17, 2, 2, 0, 0, 1, 0); }
pub fn root_dht_e() { dht(0, 17 + 257, 8, 9, 257, 254, 255, 3); }
pub fn root_dht_f() { dht(0, 16, 8, 9, 0, 0, 0, 0); }
pub fn root_dht_g() { dht(2, 17 + 6, 2, 3, 6, 0, 4, 6); }
pub fn root_dht_h() { dht(0, 17 + 256, 8, 9, 256, 254, 255, 2); }

// ---- C10, C24: application and comment segments ----
/// one segment with marker m and lo..=hi arbitrary payload bytes
fn app(m: u8, lo: usize, hi: usize) {
    let n = pick(0, lo, hi);
    let mut v = soi();
    let l = n + 2;
    put(&mut v, &[0xFF, m, (l >> 8) as u8, l as u8]);
    let mut c = Vec::new();
    nd_bytes(&mut c, n);
    put(&mut v, &c);
    put_sentinel(&mut v);
    let mut d = Decoder::new(S { b: v, pos: 0 });
    let mut adobe = false;
    if m == 0xEE && n >= 12 {
        adobe = c[0] == b'A' && c[1] == b'd' && c[2] == b'o' && c[3] == b'b' && c[4] == b'e' && c[5] == 0 && c[11] > 2;
        if split(adobe) { part(1, 1); }
    }
    let k = kind(&d.read_info());
    if adobe { reach("C10-adobe-bad"); check(k == 0 || k == 1, "C10"); }
    else { reach("C10-skipped"); check(k == 0, "C10"); }
    if k == 0 { check(sentinel_ok(&d), "C10"); }
}
pub fn root_app_e0() { app(0xE0, 0, 20); }
pub fn root_app_e1() { app(0xE1, 0, 33); }
pub fn root_app_e2() { app(0xE2, 0, 18); }
pub fn root_app_e5() { app(0xE5, 0, 4); }
pub fn root_app_ed() { app(0xED, 0, 18); }
pub fn root_app_ee() { app(0xEE, 0, 16); }
pub fn root_app_fe() { app(0xFE, 0, 6); }
pub fn root_app_short() {
    // a declared length below 2
    let mut v = soi();
    let ms = [0xE0u8, 0xE1, 0xE2, 0xE3, 0xED, 0xEE, 0xEF, 0xFE, 0xDB, 0xC4, 0xDD, 0xC0, 0xC2];
    let m = ms[pick(0, 0, 12)];
    put(&mut v, &[0xFF, m, 0, nd_range(0, 1) as u8]);
    let mut i = 0;
    while i < 40 { v.push(nd_u8()); i += 1; }
    let mut d = Decoder::new(S { b: v, pos: 0 });
    reach("C10-short");
    check(kind(&d.read_info()) == 1, "C10");
}
fn starts(c: &[u8], s: &[u8]) -> bool {
    if c.len() < s.len() { return false; }
    let mut i = 0;
    let mut r = true;
    while i < s.len() { r = r & (c[i] == s[i]); i += 1; }
    r
}
fn same(a: Option<&[u8]>, b: &[u8], id: &'static str) {
    match a {
        Some(x) => {
            check(x.len() == b.len(), id);
            let mut i = 0;
            while i < b.len() && i < x.len() { check(x[i] == b[i], id); i += 1; }
        }
        None => check(false, id),
    }
}
/// two APPn segments; the first is an APP1 with k1 bytes, the second has marker m and k2 bytes
fn app1(k1: usize, m: u8, k2: usize) {
    let mut v = soi();
    let mut c = Vec::new();
    nd_bytes(&mut c, k1);
    let mut e = Vec::new();
    nd_bytes(&mut e, k2);
    put(&mut v, &[0xFF, 0xE1, 0, k1 as u8 + 2]);
    put(&mut v, &c);
    put(&mut v, &[0xFF, m, 0, k2 as u8 + 2]);
    put(&mut v, &e);
    put_sentinel(&mut v);
    let x1 = split(starts(&c, b"Exif\0\0"));
    part(1, x1 as usize);
    let m1 = !x1 && split(starts(&c, b"http://ns.adobe.com/xap/1.0/\0"));
    part(2, m1 as usize);
    let x2 = m == 0xE1 && split(starts(&e, b"Exif\0\0"));
    part(3, x2 as usize);
    let m2 = m == 0xE1 && !x2 && split(starts(&e, b"http://ns.adobe.com/xap/1.0/\0"));
    part(4, m2 as usize);
    let mut d = Decoder::new(S { b: v, pos: 0 });
    let k = kind(&d.read_info());
    assume(k == 0);
    if x2 { reach("C24-exif2"); same(d.exif_data(), &e[6..], "C24"); }
    else if x1 { reach("C24-exif1"); same(d.exif_data(), &c[6..], "C24"); }
    else { reach("C24-noexif"); check(d.exif_data().is_none(), "C24"); }
    if m2 { reach("C24-xmp2"); same(d.xmp_data(), &e[29..], "C24"); }
    else if m1 { reach("C24-xmp1"); same(d.xmp_data(), &c[29..], "C24"); }
    else { check(d.xmp_data().is_none(), "C24"); }
}
pub fn root_exif_a() { app1(8, 0xE1, 31); }
pub fn root_exif_b() { app1(32, 0xE1, 9); }
pub fn root_exif_c() { app1(6, 0xE0, 34); }
pub fn root_exif_d() { app1(29, 0xED, 34); }
pub fn root_exif_e() { app1(5, 0xE1, 28); }
pub fn root_exif_f() { app1(30, 0xE2, 40); }
pub fn root_exif_g() { app1(9, 0xEE, 14); }

// ---- C25: ICC profiles ----
fn put_icc(v: &mut Vec<u8>, seq: u8, num: u8, data: &[u8]) {
    put(v, &[0xFF, 0xE2, 0, 16 + data.len() as u8]);
    put(v, b"ICC_PROFILE\0");
    put(v, &[seq, num]);
    put(v, data);
}
fn icc(count: usize) {
    let mut v = soi();
    let mut data: Vec<Vec<u8>> = Vec::new();
    let mut seq = Vec::new();
    let mut num = Vec::new();
    let odd = if count > 2 { pick(20, 2, count) } else { pick(20, 0, count) };
    let oddn = pick(21, 0, 4);
    if odd == count { assume(oddn == 0); }
    let mut i = 0;
    while i < count {
        let mut c = Vec::new();
        nd_bytes(&mut c, i + 1);
        let s = if count > 2 { pick(i, 1, count + (i == 1) as usize) } else { pick(i, 0, count + 2) };
        let s = if s == count + 2 { 255 } else { s as u8 };
        let n = if i == odd { oddn as u8 } else { count as u8 };
        put_icc(&mut v, s, n, &c);
        // another application segment in between must not matter
        put(&mut v, &[0xFF, 0xE2, 0, 3, nd_u8()]);
        data.push(c);
        seq.push(s);
        num.push(n);
        i += 1;
    }
    put_sentinel(&mut v);
    let mut d = Decoder::new(S { b: v, pos: 0 });
    let k = kind(&d.read_info());
    assume(k == 0);
    let p = d.icc_profile();
    let mut ok = count > 0;
    let mut want = Vec::new();
    let mut j = 1;
    while j <= count {
        let mut hit = 0;
        let mut i = 0;
        while i < count { if seq[i] as usize == j { hit += 1; put(&mut want, &data[i]); } i += 1; }
        if hit != 1 { ok = false; }
        j += 1;
    }
    let mut i = 0;
    while i < count { if num[i] as usize != count { ok = false; } i += 1; }
    if ok {
        reach("C25-some");
        match p { Some(x) => same(Some(&x[..]), &want, "C25"), None => check(false, "C25") }
    } else {
        reach("C25-none");
        check(p.is_none(), "C25");
    }
}
pub fn root_icc_0() { icc(0); }
pub fn root_icc_1() { icc(1); }
pub fn root_icc_2() { icc(2); }
pub fn root_icc_3() { icc(3); }
/// the largest profile: n chunks numbered 1..=n
fn icc_many(n: usize) {
    let mut v = soi();
    let mut i = 1;
    let mut want = Vec::new();
    while i <= n { let b = nd_u8(); put_icc(&mut v, i as u8, n as u8, &[b]); want.push(b); i += 1; }
    put_sentinel(&mut v);
    let mut d = Decoder::new(S { b: v, pos: 0 });
    let k = kind(&d.read_info());
    assume(k == 0);
    reach("C25-many");
    match d.icc_profile() { Some(x) => same(Some(&x[..]), &want, "C25"), None => check(false, "C25") }
}
pub fn root_icc_254() { icc_many(254); }
pub fn root_icc_255() { icc_many(255); }

// ---- C06: subsampling ratios ----
fn divides(a: u8, b: u8) -> bool { b == 1 || a == b || a % b == 0 }
fn ratio(vert: bool, m: u8) {
    let mut v = soi();
    let x = [pick(0, 1, 4) as u8, pick(1, 1, 4) as u8, pick(2, 1, 4) as u8];
    let mut hv = [0u8; 3];
    let mut i = 0;
    while i < 3 { hv[i] = if vert { 0x10 + x[i] } else { x[i] * 16 + 1 }; i += 1; }
    put_sof(&mut v, m, 8, 255, 255, &[1, 2, 3], &hv);
    let mut mx = x[0];
    if split(x[1] > mx) { mx = x[1]; }
    if split(x[2] > mx) { mx = x[2]; }
    let mut d = Decoder::new(S { b: v, pos: 0 });
    let k = kind(&d.read_info());
    let whole = mx % x[0] == 0 && mx % x[1] == 0 && mx % x[2] == 0;
    if whole { reach("C06-ratio-ok"); check(k == 0, "C06"); check(k == 0, "C04"); }
    else { reach("C06-ratio-bad"); check(k == RATIO, "C06"); }
}
pub fn root_ratio_h() { ratio(false, 0xC0); }
pub fn root_ratio_v() { ratio(true, 0xC2); }

// ---- C11, C29: positions ----
fn put_gray(v: &mut Vec<u8>, m: u8, h: u8, w: u8, data: &[u8]) {
    put_dqt(v, 0);
    put_dht1(v, 0, 0);
    put_dht1(v, 0x10, 0);
    put_sof(v, m, 8, h, w, &[1], &[0x11]);
    put_sos(v, &[1], 0, if m == 0xC3 { 1 } else { 0 }, if m == 0xC2 || m == 0xC3 { 0 } else { 63 }, 0);
    put(v, data);
}
fn position(m: u8, h: u8, w: u8, data: &[u8]) {
    let mut v = soi();
    put_gray(&mut v, m, h, w, data);
    let sof_end = 2 + 69 + 22 + 22 + 13;
    let end = v.len();
    put(&mut v, &[0xFF, nd_u8(), nd_u8(), nd_u8(), 0xFF, 0xD9]);
    let mut d = Decoder::new(S { b: v, pos: 0 });
    let k = kind(&d.read_info());
    check(k == 0, "C11");
    check(ghost_of(0) == sof_end, "C11");
    let i1 = d.info();
    let k = kind(&d.read_info());
    check(k == 0, "C29");
    check(ghost_of(0) == sof_end, "C29");
    let i2 = d.info();
    match (i1, i2) {
        (Some(a), Some(b)) => check(a.width == b.width && a.height == b.height && a.width == w as u16 && a.height == h as u16, "C29"),
        _ => check(false, "C29"),
    }
    reach("C11-info");
    let r = d.decode();
    let k = kind(&r);
    check(k == 0, "C11");
    check(ghost_of(0) == end, "C11");
    reach("C11-decode");
}
pub fn root_pos_a() { position(0xC0, 8, 8, &[0x3F, 0xFF, 0xD9]); }

pub fn root_pos_b() { position(0xC1, 8, 17, &[0x00, 0xFF, 0xD9]); }
pub fn root_pos_c() { position(0xC2, 8, 8, &[0x7F, 0xFF, 0xD0, 0xFF, 0xD9]); }
pub fn root_pos_d() { position(0xC3, 2, 2, &[0x0F, 0xFF, 0xFF, 0xD9]); }
pub fn root_pos_e() { position(0xC3, 1, 1, &[0x7F, 0xFF, 0xD7, 0xFF, 0xD6, 0xFF, 0xD9]); }

// ---- C08: a reader that fails or ends at an arbitrary point ----
/// scripted bytes; every call may fail, and the data may end early
pub struct F { pub b: Vec<u8>, pub pos: usize }
impl Read for F {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if nd_bool() { part(90, self.pos + 1); return Err(nd_ioerror()); }
        let left = self.b.len() - self.pos;
        let n = if split(buf.len() < left) { buf.len() } else { left };
        if split(n == 0 && buf.len() > 0) { part(90, self.pos + 1); }
        if n > 0 && nd_bool() { part(90, self.pos + 1); self.pos = self.b.len(); return Ok(0); }
        buf[..n].copy_from_slice(&self.b[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
    fn read_exact(&mut self, buf: &mut [u8]) -> io::Result<()> {
        let left = self.b.len() - self.pos;
        if split(buf.len() > left) { part(90, self.pos + 1); self.pos = self.b.len(); return Err(nd_ioerror()); }
        if nd_bool() { part(90, self.pos + 1); return Err(nd_ioerror()); }
        buf.copy_from_slice(&self.b[self.pos..self.pos + buf.len()]);
        self.pos += buf.len();
        Ok(())
    }
}
fn faults(v: Vec<u8>) {
    let mut d = Decoder::new(F { b: v, pos: 0 });
    let k = kind(&d.read_info());
    if part_of(90) > 0 { reach("C08-info"); check(k == 2, "C08"); stop(); }
    check(k == 0, "C08");
    let k = kind(&d.decode());
    if part_of(90) > 0 { reach("C08-decode"); check(k == 2, "C08"); stop(); }
    reach("C08-whole");
    check(k == 0, "C08");
}
fn put_seg(v: &mut Vec<u8>, m: u8, s: &[u8], extra: usize) {
    let l = s.len() + extra + 2;
    put(v, &[0xFF, m, (l >> 8) as u8, l as u8]);
    put(v, s);
    nd_bytes(v, extra);
}
pub fn root_fault_app() {
    let mut v = soi();
    put_seg(&mut v, 0xE0, b"JFIF\0", 9);
    put_seg(&mut v, 0xE0, b"", 3);
    put_seg(&mut v, 0xE1, b"Exif\0\0", 4);
    put_seg(&mut v, 0xE2, b"ICC_PROFILE\0", 5);
    put_seg(&mut v, 0xE2, b"FPXR", 14);
    put_seg(&mut v, 0xE7, b"", 5);
    put_seg(&mut v, 0xED, b"Photoshop 3.0\0", 3);
    put_seg(&mut v, 0xEE, b"Adobe\0", 5);
    let n = v.len();
    v[n - 1] = 1;
    put_seg(&mut v, 0xEE, b"AdobeX", 12);
    put_seg(&mut v, 0xFE, b"", 5);
    put_gray(&mut v, 0xC0, 8, 8, &[0x3F, 0xFF, 0xD9]);
    faults(v);
}
pub fn root_fault_tables() {
    let mut v = soi();
    put(&mut v, &[0xFF, 0xDB, 0, 132, 0x11]);
    let mut i = 0;
    while i < 128 { v.push(1); i += 1; }
    v.push(0);
    put(&mut v, &[0xFF, 0xFF, 0xDD, 0, 4, 0, 0, 7, 0xFF, 0]);
    let n = v.len();
    put_gray(&mut v, 0xC1, 8, 16, &[0x0F, 0xFF, 0xD9]);
    // the table segment must be well formed: drop the stray byte
    v.remove(4 + 2 + 129);
    v[5] = 131;
    faults(v);
}
pub fn root_fault_rst() {
    let mut v = soi();
    put(&mut v, &[0xFF, 0xDD, 0, 4, 0, 1]);
    put_gray(&mut v, 0xC0, 8, 24, &[0x3F, 0xFF, 0xD0, 0x3F, 0xFF, 0xFF, 0xD1, 0x3F, 0xFF, 0xD9]);
    faults(v);
}
pub fn root_fault_trail() {
    let mut v = soi();
    put_gray(&mut v, 0xC0, 8, 8, &[0x3F, 0xFF, 0xD0, 0xFF, 0xD9]);
    faults(v);
}
pub fn root_fault_prog() {
    let mut v = soi();
    put_gray(&mut v, 0xC2, 8, 8, &[0x7F]);
    put_sos(&mut v, &[1], 0, 1, 63, 0);
    put(&mut v, &[0x7F, 0xFF, 0x00, 0xFF, 0xFF, 0xD9]);
    faults(v);
}
pub fn root_fault_lossless() {
    let mut v = soi();
    put(&mut v, &[0xFF, 0xDD, 0, 4, 0, 2]);
    put_gray(&mut v, 0xC3, 2, 2, &[0x3F, 0xFF, 0xD0, 0x3F, 0xFF, 0xD1, 0xFF, 0xD9]);
    faults(v);
}

// ---- C12: restart markers ----
/// n MCUs of one block each with a restart interval of one; the marker at position i is arbitrary
fn restart(m: u8, n: usize) {
    let i = pick(0, 0, n - 2);
    let r = nd_u8();
    let mut v = soi();
    put(&mut v, &[0xFF, 0xDD, 0, 4, 0, 1]);
    let mut data = Vec::new();
    let mut j = 0;
    while j < n {
        data.push(0x3F);
        if j + 1 < n {
            data.push(0xFF);
            data.push(if j == i { r } else { 0xD0 + (j & 7) as u8 });
        }
        j += 1;
    }
    put(&mut data, &[0xFF, 0xD9]);
    if m == 0xC3 { put_gray(&mut v, m, 1, n as u8, &data); } else { put_gray(&mut v, m, 8, (8 * n) as u8, &data); }
    let mut d = Decoder::new(S { b: v, pos: 0 });
    let k0 = kind(&d.read_info());
    check(k0 == 0, "C12");
    let want = 0xD0 + (i & 7) as u8;
    if split(r == want) { part(1, 1); }
    if split(r == 0) { part(1, 2); }
    if split(r == 0xFF) { part(1, 3); }
    let k = kind(&d.decode());
    if r == want { reach("C12-right"); check(k == 0, "C12"); } else { reach("C12-wrong"); check(k == 1, "C12"); }
}
pub fn root_rst_c0() { restart(0xC0, 11); }
pub fn root_rst_c2() { restart(0xC2, 4); }
pub fn root_rst_c3() { restart(0xC3, 11); }
/// interval 2 in a scan of 2n MCUs: markers where and only where they belong
pub fn root_rst_two() {
    let mut v = soi();
    put(&mut v, &[0xFF, 0xDD, 0, 4, 0, 2]);
    let a = 0xC0 + pick(1, 0, 62) as u8;
    if a == 0xD9 { stop(); }
    put_gray(&mut v, 0xC1, 8, 40, &[0x0F, 0xFF, 0xD0, 0x0F, 0xFF, a, 0x3F, 0xFF, 0xD9]);
    let mut d = Decoder::new(S { b: v, pos: 0 });
    let k = kind(&d.decode());
    if a == 0xD1 { reach("C12-two"); check(k == 0, "C12"); } else { check(k == 1, "C12"); }
}

/// a Huffman table with n codes of the lengths 1, 2, .. for the symbols
fn put_dht_stairs(v: &mut Vec<u8>, tcth: u8, syms: &[u8]) {
    put(v, &[0xFF, 0xC4, 0, 19 + syms.len() as u8, tcth]);
    let mut i = 0;
    while i < 16 { v.push(if i < syms.len() { 1 } else { 0 }); i += 1; }
    put(v, syms);
}
fn put_dqt_of(v: &mut Vec<u8>, q: u8) {
    put(v, &[0xFF, 0xDB, 0, 67, 0]);
    let mut i = 0;
    while i < 64 { v.push(q); i += 1; }
}
/// what a restart clears: DC predictions, and the bits left over from the interval before
fn cleared(m: u8) {
    let pad = pick(0, 0, if m == 0xC3 { 7 } else { 63 }) as u8 * if m == 0xC3 { 9 } else { 1 };
    let mut v = soi();
    put(&mut v, &[0xFF, 0xDD, 0, 4, 0, 1]);
    put_dqt_of(&mut v, 8);
    // '10' selects category 7, '10' ends the block
    put_dht_stairs(&mut v, 0, &[11, 7]);
    put_dht_stairs(&mut v, 0x10, &[1, 0]);
    if m == 0xC3 { put_sof(&mut v, m, 8, 3, 1, &[1], &[0x11]); } else { put_sof(&mut v, m, 8, 8, 24, &[1], &[0x11]); }
    if m == 0xC3 { put_sos(&mut v, &[1], 0, pick(2, 1, 7) as u8, 0, 0); } else { put_sos(&mut v, &[1], 0, 0, if m == 0xC2 { 0 } else { 63 }, 0); }
    // 64: 10 1000000 (10); -64: 10 0111111 (10)
    let tail = if m == 0xC1 { 0x40 | (pad & 31) } else { pad };
    put(&mut v, &[0xA0, tail, 0xFF, 0xD0]);
    put(&mut v, &[0x9F, 0x80 | tail, 0xFF, 0xD1]);
    put(&mut v, &[0xA0, tail, 0xFF, 0xD9]);
    let mut d = Decoder::new(S { b: v, pos: 0 });
    let r = d.decode();
    check(kind(&r) == 0, "C12");
    if let Ok(p) = r {
        reach("C12-cleared");
        let s = if m == 0xC3 { 1 } else { 8 };
        check(p[0] == 192, "C12");
        check(p[s] == 64, "C12");
        check(p[2 * s] == 192, "C12");
    }
}
pub fn root_reset_c1() { cleared(0xC1); }
pub fn root_reset_c2() { cleared(0xC2); }
pub fn root_reset_c3() { cleared(0xC3); }
/// three components: every prediction is cleared
pub fn root_reset_three() {
    let inter = pick(0, 0, 1) == 1;
    let mut v = soi();
    put(&mut v, &[0xFF, 0xDD, 0, 4, 0, 1]);
    put_dqt_of(&mut v, 8);
    put_dht1(&mut v, 0, 7);
    put_dht1(&mut v, 0x10, 0);
    put_sof(&mut v, 0xC1, 8, 8, 16, &[1, 2, 3], &[0x11, 0x11, 0x11]);
    if inter {
        put_sos(&mut v, &[1, 2, 3], 0, 0, 63, 0);
        let b = bits_of(&[64, -64, -66]);
        put(&mut v, &b);
        put(&mut v, &[0xFF, 0xD0]);
        let b = bits_of(&[-70, 72, 74]);
        put(&mut v, &b);
    } else {
        // the expected number starts at 0 in every scan, and an interval holds one MCU of the scan
        let a = [64, -64, -66];
        let c = [-70, 72, 74];
        let mut i = 0;
        while i < 3 {
            put_sos(&mut v, &[i as u8 + 1], 0, 0, 63, 0);
            let b = bits_of(&[a[i]]);
            put(&mut v, &b);
            put(&mut v, &[0xFF, 0xD0]);
            let b = bits_of(&[c[i]]);
            put(&mut v, &b);
            i += 1;
        }
    }
    put(&mut v, &[0xFF, 0xD9]);
    let mut d = Decoder::new(S { b: v, pos: 0 });
    d.set_color_transform(ColorTransform::RGB);
    let r = d.decode();
    check(kind(&r) == 0, "C12");
    if let Ok(p) = r {
        reach("C12-three");
        check(p[0] == 192 && p[1] == 64 && p[2] == 62, "C12");
        check(p[24] == 58 && p[25] == 200 && p[26] == 202, "C12");
    }
}
/// an end-of-band run does not reach past a restart marker
pub fn root_reset_eob() {
    let refine = pick(0, 0, 1) == 1;
    let mut v = soi();
    put_dqt_of(&mut v, 255);
    put_dht1(&mut v, 0, 0);
    // '0' two or three blocks, '10' one coefficient, '110' one block
    put_dht_stairs(&mut v, 0x10, &[0x10, 0x01, 0x00]);
    put_sof(&mut v, 0xC2, 8, 8, 24, &[1], &[0x11]);
    put_sos(&mut v, &[1], 0, 0, 0, 0);
    put(&mut v, &[0x1F]);
    if refine { put_sos(&mut v, &[1], 0, 1, 1, 1); put(&mut v, &[0x7F]); }
    put(&mut v, &[0xFF, 0xDD, 0, 4, 0, 1]);
    put_sos(&mut v, &[1], 0, 1, 1, if refine { 0x10 } else { 0 });
    pack(b"00", &mut v);
    put(&mut v, &[0xFF, 0xD0]);
    pack(b"101", &mut v);
    put(&mut v, &[0xFF, 0xD1]);
    pack(b"110", &mut v);
    put(&mut v, &[0xFF, 0xD9]);
    let mut d = Decoder::new(S { b: v, pos: 0 });
    let r = d.decode();
    check(kind(&r) == 0, "C12");
    if let Ok(p) = r {
        reach("C12-eob");
        check(p[8] > 160 && p[15] < 96, "C12");
        check(p[0] == 128 && p[7] == 128 && p[16] == 128 && p[23] == 128, "C12");
    }
}
/// an interval set or cleared between scans holds for the scans after it
pub fn root_reset_dri() {
    let first = pick(0, 0, 2);
    let second = pick(1, 0, 2);
    let mut v = soi();
    put_dqt(&mut v, 0);
    put_dht1(&mut v, 0, 0);
    put_dht1(&mut v, 0x10, 0);
    put_sof(&mut v, 0xC1, 8, 8, 24, &[1, 2, 3], &[0x11, 0x11, 0x11]);
    let mut i = 0;
    while i < 3 {
        let n = if i == 0 { first } else { second };
        if i < 2 { put(&mut v, &[0xFF, 0xDD, 0, 4, 0, n as u8]); }
        put_sos(&mut v, &[i as u8 + 1], 0, 0, 63, 0);
        if n == 0 { put(&mut v, &[0x03]); }
        if n == 1 { put(&mut v, &[0x3F, 0xFF, 0xD0, 0x3F, 0xFF, 0xD1, 0x3F]); }
        if n == 2 { put(&mut v, &[0x0F, 0xFF, 0xD0, 0x3F]); }
        i += 1;
    }
    put(&mut v, &[0xFF, 0xD9]);
    let mut d = Decoder::new(S { b: v, pos: 0 });
    let k = kind(&d.decode());
    reach("C12-dri");
    check(k == 0, "C12");
}
/// lossless: the prediction starts anew with every interval
pub fn root_reset_pred() {
    let lines = pick(0, 1, 4);
    let p = pick(1, 1, 7);
    let mut v = soi();
    if lines < 4 { put(&mut v, &[0xFF, 0xDD, 0, 4, 0, 2 * lines as u8]); }
    put_dht_stairs(&mut v, 0, &[0, 3]);
    put_sof(&mut v, 0xC3, 8, 4, 2, &[1], &[0x11]);
    put_sos(&mut v, &[1], 0, p as u8, 0, 0);
    let diffs: [i32; 8] = [5, 0, -4, 6, 7, -6, 5, 4];
    let mut out = [0i32; 8];
    let mut y = 0;
    let mut rst = 0;
    let mut bits = Vec::new();
    while y < 4 {
        let first = y % lines == 0;
        if first && y > 0 {
            pack(&bits, &mut v);
            bits.clear();
            put(&mut v, &[0xFF, 0xD0 + rst]);
            rst += 1;
        }
        let mut x = 0;
        while x < 2 {
            let d = diffs[2 * y + x];
            if d == 0 { bits.push(b'0'); } else {
                let m = if d < 0 { d + 7 } else { d };
                bits.push(b'1'); bits.push(b'0');
                bits.push(b'0' + (m >> 2 & 1) as u8); bits.push(b'0' + (m >> 1 & 1) as u8); bits.push(b'0' + (m & 1) as u8);
            }
            let pred = if x == 0 { if first { 128 } else { out[2 * y - 2] } }
                else if first { out[2 * y] }
                else {
                    let (a, b, c) = (out[2 * y], out[2 * y - 1], out[2 * y - 2]);
                    match p { 1 => a, 2 => b, 3 => c, 4 => a + b - c, 5 => a + ((b - c) >> 1), 6 => b + ((a - c) >> 1), _ => (a + b) / 2 }
                };
            out[2 * y + x] = pred + d;
            x += 1;
        }
        y += 1;
    }
    pack(&bits, &mut v);
    put(&mut v, &[0xFF, 0xD9]);
    let mut d = Decoder::new(S { b: v, pos: 0 });
    let r = d.decode();
    check(kind(&r) == 0, "C12");
    if let Ok(q) = r {
        reach("C12-pred");
        let mut i = 0;
        while i < 8 { check(q[i] as i32 == out[i], "C12"); i += 1; }
    }
}

// ---- C22, C23: colour transform ----
/// n components of one pixel each with the sample values 192, 64, 62 and 208
fn put_const(v: &mut Vec<u8>, ids: &[u8]) {
    put(v, &[0xFF, 0xDB, 0, 67, 0]);
    let mut i = 0;
    while i < 64 { v.push(8); i += 1; }
    put_dht1(v, 0, 7);
    put_dht1(v, 0x10, 0);
    put_sof(v, 0xC1, 8, 1, 1, ids, &[0x11, 0x11, 0x11, 0x11]);
    // every scan component uses tables 0
    put_sos(v, ids, 0, 0, 63, 0);
}
fn bits_of(diffs: &[i32]) -> Vec<u8> {
    // '0' selects category 7, seven bits of magnitude, '0' ends the block
    let mut out = Vec::new();
    let mut acc = 0u32;
    let mut n = 0;
    let mut i = 0;
    while i < diffs.len() {
        let m = if diffs[i] < 0 { diffs[i] + 127 } else { diffs[i] } as u32;
        let code = m << 1;
        let mut k = 9;
        while k > 0 {
            k -= 1;
            acc = acc << 1 | (code >> k & 1);
            n += 1;
            if n == 8 { out.push(acc as u8); acc = 0; n = 0; }
        }
        i += 1;
    }
    while n > 0 && n < 8 { acc = acc << 1 | 1; n += 1; }
    if n == 8 { out.push(acc as u8); }
    out
}
fn transform(i: usize) -> ColorTransform {
    match i {
        0 => ColorTransform::None, 1 => ColorTransform::Unknown, 2 => ColorTransform::Grayscale, 3 => ColorTransform::RGB,
        4 => ColorTransform::YCbCr, 5 => ColorTransform::CMYK, 6 => ColorTransform::YCCK, 7 => ColorTransform::JcsBgYcc, _ => ColorTransform::JcsBgRgb,
    }
}
/// documented choice; numbering as in `transform`
fn chosen(n: usize, ids: &[u8], jfif: bool, adobe: usize) -> usize {
    if n == 3 {
        if ids[0] == 1 && ids[1] == 2 && ids[2] == 3 { return 4; }
        if ids[0] == 1 && ids[1] == 34 && ids[2] == 35 { return 7; }
        if ids[0] == b'R' && ids[1] == b'G' && ids[2] == b'B' { return 3; }
        if ids[0] == b'r' && ids[1] == b'g' && ids[2] == b'b' { return 8; }
        if jfif { return 4; }
        if adobe == 1 { return 3; }
        if adobe == 3 { return 6; }
        return 4;
    }
    if adobe == 2 { return 4; }
    if adobe == 3 { return 6; }
    5
}
fn near(a: u8, b: u8) -> bool { (a as i32 - b as i32) <= 1 && (b as i32 - a as i32) <= 1 }
fn colour(n: usize, over: usize, markers: usize, idset: usize, late: bool) {
    let jfif = pick(1, 0, if markers == 0 { 0 } else { 1 }) == 1;
    let adobe = pick(2, 0, if markers == 0 { 0 } else { 3 });
    let over = pick(3, if over == 0 { 9 } else { 0 }, if over == 0 { 9 } else { 8 });
    let mut v = soi();
    if jfif && adobe != 2 { put_seg(&mut v, 0xE0, b"JFIF\0\x01\x02\0\0\x01\0\x01\0\0", 0); }
    if adobe > 0 { put_seg(&mut v, 0xEE, b"Adobe\0\x64\0\0\0\0", 0); let l = v.len(); v[l - 12] = 14; v.push(adobe as u8 - 1); }
    if jfif && adobe == 2 { put_seg(&mut v, 0xE0, b"JFIF\0\x01\x02\0\0\x01\0\x01\0\0", 0); }
    let mut ids = [1u8, 2, 3, 4];
    if idset == 1 { ids = [b'R', b'G', b'B', 4]; }
    if idset == 2 { ids = [1, 34, 35, 4]; }
    if idset == 3 { ids = [b'r', b'g', b'b', 4]; }
    if idset == 4 { ids = [b'R', nd_u8(), b'B', 200]; }
    if idset == 8 { ids = [7, 8, 9, 200]; }
    if idset == 5 { ids = [nd_u8(), 2, 3, 200]; }
    if idset == 6 { ids = [1, nd_u8(), 3, 200]; }
    if idset == 7 { ids = [b'R', b'G', nd_u8(), 200]; }
    put_const(&mut v, &ids[..n]);
    let bits = bits_of(&[64, -64, -66, 80][..n]);
    put(&mut v, &bits);
    put(&mut v, &[0xFF, 0xD9]);
    let mut d = Decoder::new(S { b: v, pos: 0 });
    if over < 9 && !late { d.set_color_transform(transform(over)); }
    let k = kind(&d.read_info());
    if idset >= 4 && idset < 8 {
        // identifiers must differ
        if ids[0] == ids[1] || ids[0] == ids[2] || ids[1] == ids[2] || (n == 4 && (ids[0] == 200 || ids[1] == 200 || ids[2] == 200)) { stop(); }
        if split(ids[0] == 1) { part(10, 1); }
        if split(ids[1] == 2) { part(11, 1); }
        if split(ids[2] == 3) { part(12, 1); }
        if split(ids[2] == b'B') { part(12, 2); }
        if idset == 4 { if split(ids[1] == b'G') { part(11, 2); } }
    }
    check(k == 0, "C22");
    if over < 9 && late { d.set_color_transform(transform(over)); }
    let r = d.decode();
    let k = kind(&r);
    let t = if over < 9 { over } else { chosen(n, &ids, jfif, adobe) };
    let fits = if n == 1 { true } else if n == 3 { t == 0 || t == 3 || t == 4 } else { t == 0 || t == 5 || t == 6 };
    if !fits { reach("C23-mismatch"); check(k != 0 && k != 2, "C23"); stop(); }
    reach("C22-match");
    check(k == 0, "C22");
    if let Ok(p) = r {
        check(p.len() == n, "C22");
        if p.len() == n {
            if n == 1 { check(p[0] == 192, "C22"); }
            else if t == 0 || t == 3 { check(p[0] == 192 && p[1] == 64 && p[2] == 62, "C22"); if n == 4 { check(p[3] == 208, "C22"); } }
            else if t == 5 { check(p[0] == 255 - 192 && p[1] == 255 - 64 && p[2] == 255 - 62 && p[3] == 255 - 208, "C22"); }
            else {
                check(near(p[0], 99) && near(p[1], 255) && near(p[2], 79), "C22");
                if n == 4 { check(p[3] == 255 - 208, "C22"); }
            }
        }
    }
}
pub fn root_colour_3_std() { colour(3, 0, 1, 0, false); }
pub fn root_colour_3_rgb() { colour(3, 0, 1, 1, false); }
pub fn root_colour_3_bgycc() { colour(3, 0, 1, 2, false); }
pub fn root_colour_3_bgrgb() { colour(3, 0, 1, 3, false); }
pub fn root_colour_3_mid() { colour(3, 0, 1, 4, false); }
pub fn root_colour_3_oth() { colour(3, 0, 1, 8, false); }
pub fn root_colour_3_id0() { colour(3, 0, 1, 5, false); }
pub fn root_colour_3_id1() { colour(3, 0, 1, 6, false); }
pub fn root_colour_3_id2() { colour(3, 0, 1, 7, false); }
pub fn root_colour_4_std() { colour(4, 0, 1, 0, false); }
pub fn root_colour_4_rgb() { colour(4, 0, 1, 1, false); }
pub fn root_colour_4_any() { colour(4, 0, 1, 5, false); }
pub fn root_colour_1() { colour(1, 0, 1, 0, false); }
pub fn root_colour_1_set() { colour(1, 1, 1, 1, false); }
pub fn root_colour_3_set() { colour(3, 1, 1, 0, false); }
pub fn root_colour_3_late() { colour(3, 1, 1, 1, true); }
pub fn root_colour_4_set() { colour(4, 1, 1, 0, false); }
pub fn root_colour_4_late() { colour(4, 1, 1, 3, true); }
/// marker segments that are or only resemble the JFIF and Adobe ones
fn lookalike(n: usize, mode: usize) {
    let ids = [7u8, 8, 9, 200];
    let x = nd_u8();
    let m = if mode < 2 { 0 } else { pick(1, 0xE0, 0xEF) };
    let mut v = soi();
    let jf;
    let mut adobe = 0;
    if mode == 0 {
        put_seg(&mut v, 0xE0, b"JFIF", 0);
        let l = v.len();
        v[l - 5] = 7;
        v.push(x);
        let (n1, n2) = (nd_u8(), nd_u8());
        // the declared length is 7: two more bytes
        v[l - 5] = 9;
        put(&mut v, &[n1, n2]);
        put_seg(&mut v, 0xEE, b"Adobe\0\x64\0\0\0\0\0", 0);
        adobe = 1;
        jf = x == 0;
    } else if mode == 1 {
        put_seg(&mut v, 0xEE, b"Adobe\x01\x64\0\0\0\0\0", 0);
        let l = v.len();
        v[l - 7] = x;
        v[l - 1] = if n == 3 { 0 } else { 2 };
        jf = false;
        if x == 0 { adobe = if n == 3 { 1 } else { 3 }; }
    } else if mode == 2 {
        put_seg(&mut v, m as u8, b"Adobe\0\x64\0\0\0\0\0", 0);
        let l = v.len();
        v[l - 1] = if n == 3 { 0 } else { 2 };
        jf = false;
        if m == 0xEE { adobe = if n == 3 { 1 } else { 3 }; }
    } else {
        put_seg(&mut v, m as u8, b"JFIF\0\x01\x02\0\0\x01\0\x01\0\0", 0);
        put_seg(&mut v, 0xEE, b"Adobe\0\x64\0\0\0\0\0", 0);
        adobe = 1;
        jf = m == 0xE0;
    }
    put_const(&mut v, &ids[..n]);
    let bits = bits_of(&[64, -64, -66, 80][..n]);
    put(&mut v, &bits);
    put(&mut v, &[0xFF, 0xD9]);
    let mut d = Decoder::new(S { b: v, pos: 0 });
    let k = kind(&d.read_info());
    check(k == 0, "C22");
    if split(x == 0) { part(2, 1); }
    let r = d.decode();
    let t = chosen(n, &ids, jf, adobe);
    check(kind(&r) == 0, "C22");
    reach("C22-lookalike");
    if let Ok(p) = r {
        check(p.len() == n, "C22");
        if p.len() == n {
            let raw = p[0] == 192 && p[1] == 64 && p[2] == 62;
            let inv = p[0] == 255 - 192 && p[1] == 255 - 64 && p[2] == 255 - 62;
            let ycc = near(p[0], 99) && near(p[1], 255) && near(p[2], 79);
            check(if t == 3 { raw } else if t == 5 { inv } else { ycc }, "C22");
        }
    }
}
pub fn root_colour_sig_jfif() { lookalike(3, 0); }
pub fn root_colour_sig_adobe3() { lookalike(3, 1); }
pub fn root_colour_sig_adobe4() { lookalike(4, 1); }
pub fn root_colour_sig_app3() { lookalike(3, 2); }
pub fn root_colour_sig_app4() { lookalike(4, 2); }
pub fn root_colour_sig_jfapp() { lookalike(3, 3); }

// ---- C30: scale and info ----
fn scaled(m: u8, n: usize, hv: u8) {
    let mut v = soi();
    let (h1, h2, w1, w2) = (nd_u8(), nd_u8(), nd_u8(), nd_u8());
    let p = if m == 0xC3 { 12 } else { 8 };
    put(&mut v, &[0xFF, m, 0, 8 + 3 * n as u8, p, h1, h2, w1, w2, n as u8]);
    let mut i = 0;
    while i < n { put(&mut v, &[i as u8 + 1, if i == 0 { hv } else { 0x11 }, 0]); i += 1; }
    let w = be(w1, w2);
    let h = be(h1, h2);
    assume(w > 0);
    assume(h > 0);
    let mut d = Decoder::new(S { b: v, pos: 0 });
    let k = kind(&d.read_info());
    check(k == 0, "C30");
    match d.info() {
        Some(i) => check(i.width == w && i.height == h && i.coding_process == process(m), "C30"),
        None => check(false, "C30"),
    }
    let (rw, rh) = (nd_u16(), nd_u16());
    let c = |x: u16, s: u32| (x as u32 * s + 7) / 8;
    // the smallest factor that reaches the requested size in one axis
    let mut s = 8;
    let mut t = 4;
    while t > 0 {
        if split(c(w, t) >= rw as u32) { s = t; part(t as usize, 1); } else if split(c(h, t) >= rh as u32) { s = t; part(t as usize, 2); }
        t /= 2;
    }
    if m == 0xC3 { s = 8; }
    match d.scale(rw, rh) {
        Ok((a, b)) => {
            reach("C30-scaled");
            check(a as u32 == c(w, s), "C30");
            check(b as u32 == c(h, s), "C30");
            match d.info() {
                Some(i) => check(i.width == a && i.height == b && i.coding_process == process(m), "C30"),
                None => check(false, "C30"),
            }
        }
        Err(_) => check(false, "C30"),
    }
    // scaling again starts from the frame's own size
    if let Ok((a, b)) = d.scale(65535, 65535) { check(a == w && b == h, "C30"); } else { check(false, "C30"); }
}
pub fn root_scale_c0_1() { scaled(0xC0, 1, 0x11); }
pub fn root_scale_c1_3() { scaled(0xC1, 3, 0x22); }
pub fn root_scale_c2_4() { scaled(0xC2, 4, 0x41); }
pub fn root_scale_c3_1() { scaled(0xC3, 1, 0x11); }
pub fn root_scale_c3_3() { scaled(0xC3, 3, 0x11); }

// ---- C13, C14: output size ----
fn put_lossless(v: &mut Vec<u8>, p: u8, h: u8, w: u8, ids: &[u8]) {
    put_dht1(v, 0, 0);
    put_sof(v, 0xC3, p, h, w, ids, &[0x11, 0x11, 0x11, 0x11]);
    put_sos(v, ids, 0, 1, 0, 0);
}
fn zeros(v: &mut Vec<u8>, n: usize) { let mut i = 0; while i < n { v.push(0); i += 1; } put(v, &[0xFF, 0xD9]); }
fn sample_width(n: usize, lo: usize, hi: usize) {
    let ids = [1u8, 2, 3, 4];
    let p = pick(1, lo, hi);
    let mut v = soi();
    if hi == 1 { put_const(&mut v, &ids[..n]); let b = bits_of(&[64, -64, -66, 80][..n]); put(&mut v, &b); put(&mut v, &[0xFF, 0xD9]); }
    else { put_lossless(&mut v, p as u8, 1, 1, &ids[..n]); zeros(&mut v, 1); }
    let mut d = Decoder::new(S { b: v, pos: 0 });
    let r = d.decode();
    check(kind(&r) == 0, "C14");
    match (r, d.info()) {
        (Ok(b), Some(i)) => { reach("C14-decoded"); check(b.len() == i.pixel_format.pixel_bytes(), "C14"); }
        _ => check(false, "C14"),
    }
}
pub fn root_width_1_lo() { sample_width(1, 2, 8); }
pub fn root_width_1_hi() { sample_width(1, 9, 16); }
pub fn root_width_3_lo() { sample_width(3, 2, 8); }
pub fn root_width_4_lo() { sample_width(4, 2, 8); }
pub fn root_width_3_hi() { sample_width(3, 9, 16); }
pub fn root_width_4_hi() { sample_width(4, 9, 16); }
pub fn root_width_1_dct() { sample_width(1, 1, 1); }
pub fn root_width_3_dct() { sample_width(3, 1, 1); }
pub fn root_width_4_dct() { sample_width(4, 1, 1); }

/// arbitrary limit; the output is returned exactly when it fits
fn limited(m: u8, p: u8, n: usize, h: u8, w: u8, hv: u8, scale: u16) {
    let ids = [1u8, 2, 3, 4];
    let limit = nd_usize();
    let mut v = soi();
    if m == 0xC3 {
        put_lossless(&mut v, p, h, w, &ids[..n]);
    } else {
        put_dqt(&mut v, 0);
        put_dht1(&mut v, 0, 0);
        put_dht1(&mut v, 0x10, 0);
        put_sof(&mut v, m, 8, h, w, &ids[..n], &[hv, 0x11, 0x11, 0x11]);
        put_sos(&mut v, &ids[..n], 0, 0, if m == 0xC2 { 0 } else { 63 }, 0);
    }
    zeros(&mut v, 20);
    let mut d = Decoder::new(S { b: v, pos: 0 });
    d.set_max_decoding_buffer_size(limit);
    let mut need = n * h as usize * w as usize * if p > 8 { 2 } else { 1 };
    if scale > 0 {
        match d.scale(scale, scale) { Ok((a, b)) => need = n * a as usize * b as usize, Err(_) => check(false, "C13") }
    }
    let r = d.decode();
    let k = kind(&r);
    match r {
        Ok(b) => { reach("C13-fits"); check(b.len() <= limit, "C13"); check(b.len() == need, "C13"); check(b.len() == need, "C34"); }
        Err(_) => { reach("C13-exceeds"); check(k == 1, "C13"); check(limit < need, "C13"); }
    }
}
pub fn root_limit_c0_1() { limited(0xC0, 8, 1, 3, 5, 0x11, 0); }
pub fn root_limit_c1_3() { limited(0xC1, 8, 3, 2, 9, 0x21, 0); }
pub fn root_limit_c2_3() { limited(0xC2, 8, 3, 2, 2, 0x11, 0); }
pub fn root_limit_c0_4() { limited(0xC0, 8, 4, 1, 3, 0x11, 0); }
pub fn root_limit_c0_s() { limited(0xC0, 8, 3, 9, 17, 0x11, 3); }
pub fn root_limit_c3_1() { limited(0xC3, 8, 1, 3, 2, 0x11, 0); }
pub fn root_limit_c3_p() { limited(0xC3, 16, 1, 3, 2, 0x11, 0); }
pub fn root_limit_c3_9() { limited(0xC3, 9, 3, 2, 2, 0x11, 0); }
pub fn root_limit_c3_4() { limited(0xC3, 3, 4, 2, 2, 0x11, 0); }

// ---- C27: undefined tables ----
/// code string to bytes, padded with ones
fn pack(s: &[u8], v: &mut Vec<u8>) {
    let mut acc = 0u8;
    let mut n = 0;
    let mut i = 0;
    while i < s.len() {
        acc = acc << 1 | (s[i] - b'0');
        n += 1;
        if n == 8 { v.push(acc); if acc == 0xFF { v.push(0); } acc = 0; n = 0; }
        i += 1;
    }
    if n > 0 { while n < 8 { acc = acc << 1 | 1; n += 1; } v.push(acc); if acc == 0xFF { v.push(0); } }
}
/// component i uses quantisation table q[i], DC table td[i], AC table ta[i]; one table (or none) is missing
fn tables(m: u8, n: usize, q: &[u8], t: &[u8], near_avi: bool, late: bool) {
    let missing = pick(1, 0, 12);
    let ids = [1u8, 2, 3];
    let mut v = soi();
    if near_avi { put_seg(&mut v, 0xE0, b"AVI2\0", 0); }
    if late { put_sof3(&mut v, m, &ids[..n], q); }
    let mut i = 0;
    while i < 4 {
        if missing != i + 1 { put_dqt(&mut v, i as u8); }
        if (i < 2 || m != 0xC0) && missing != i + 5 { put_dht1(&mut v, i as u8, 0); }
        if (i < 2 || m != 0xC0) && missing != i + 9 { put_dht1(&mut v, 0x10 | i as u8, 0); }
        i += 1;
    }
    if !late { put_sof3(&mut v, m, &ids[..n], q); }
    let mut ok = true;
    let mut i = 0;
    while i < n {
        if m != 0xC3 && missing == q[i] as usize + 1 { ok = false; }
        if missing == (t[i] >> 4) as usize + 5 { ok = false; }
        if m != 0xC2 && m != 0xC3 && missing == (t[i] & 15) as usize + 9 { ok = false; }
        i += 1;
    }
    put(&mut v, &[0xFF, 0xDA, 0, 6 + 2 * n as u8, n as u8]);
    let mut i = 0;
    while i < n { put(&mut v, &[ids[i], t[i]]); i += 1; }
    put(&mut v, &[if m == 0xC3 { 1 } else { 0 }, if m == 0xC2 || m == 0xC3 { 0 } else { 63 }, 0]);
    put(&mut v, &[0, 0xFF, 0xD9]);
    let mut d = Decoder::new(S { b: v, pos: 0 });
    let k = kind(&d.decode());
    if ok { reach("C27-defined"); check(k == 0, "C27"); } else { reach("C27-undefined"); check(k == 1, "C27"); }
}
fn put_sof3(v: &mut Vec<u8>, m: u8, ids: &[u8], q: &[u8]) {
    put(v, &[0xFF, m, 0, 8 + 3 * ids.len() as u8, 8, 0, 1, 0, 1, ids.len() as u8]);
    let mut i = 0;
    while i < ids.len() { put(v, &[ids[i], 0x11, if m == 0xC3 { 0 } else { q[i] }]); i += 1; }
}
pub fn root_tables_c0() { tables(0xC0, 3, &[0, 3, 1], &[0x01, 0x10, 0x11], false, false); }
pub fn root_tables_c0_1() { tables(0xC0, 1, &[2], &[0x01], true, true); }
pub fn root_tables_c1() { tables(0xC1, 3, &[1, 2, 2], &[0x12, 0x23, 0x30], false, true); }
pub fn root_tables_c2() { tables(0xC2, 3, &[3, 0, 2], &[0x23, 0x02, 0x31], false, false); }
pub fn root_tables_c3() { tables(0xC3, 3, &[0, 0, 0], &[0x10, 0x20, 0x30], true, false); }
/// progressive AC scans need an AC table and no DC table
pub fn root_tables_ac() {
    let c = pick(1, 0, 6);
    let mut v = soi();
    put_dqt(&mut v, 1);
    put_dht1(&mut v, 0, 0);
    put_dht1(&mut v, 0x12, 0);
    put(&mut v, &[0xFF, 0xC2, 0, 11, 8, 0, 1, 0, 1, 1, 1, 0x11, if c == 1 { 2 } else { 1 }]);
    put(&mut v, &[0xFF, 0xDA, 0, 8, 1, 1, if c == 2 { 0x10 } else { 0x03 }, 0, 0, 0, 0]);
    put(&mut v, &[0xFF, 0xDA, 0, 8, 1, 1, if c == 3 { 0x01 } else if c == 4 { 0x23 } else { 0x32 }, 1, 63, 0, 0, 0]);
    let at = v.len() - 12;
    v.insert(at, 0);
    put(&mut v, &[0xFF, 0xD9]);
    let mut d = Decoder::new(S { b: v, pos: 0 });
    let k = kind(&d.decode());
    if c >= 1 && c <= 4 { check(k == 1, "C27"); } else { reach("C27-ac"); check(k == 0, "C27"); }
}
/// AVI1: default tables stand in for undefined ones only
fn mjpeg(n: usize, late: bool) {
    let def = pick(1, 0, 15);
    let ids = [b'R', b'G', b'B'];
    let mut v = soi();
    if !late { put_seg(&mut v, 0xE0, b"AVI1\0\0\0\0\0", 0); }
    put(&mut v, &[0xFF, 0xDB, 0, 67, 0]);
    let mut i = 0;
    while i < 64 { v.push(8); i += 1; }
    if def & 1 != 0 { put_dht1(&mut v, 0, 7); }
    if def & 2 != 0 { put_dht1(&mut v, 1, 7); }
    if def & 4 != 0 { put_dht1(&mut v, 0x10, 0); }
    if def & 8 != 0 { put_dht1(&mut v, 0x11, 0); }
    put_sof(&mut v, 0xC0, 8, 1, 1, &ids[..n], &[0x11, 0x11, 0x11]);
    if late { put_seg(&mut v, 0xE0, b"AVI1\0\0\0\0\0", 0); }
    put(&mut v, &[0xFF, 0xDA, 0, 6 + 2 * n as u8, n as u8]);
    let mut i = 0;
    while i < n { put(&mut v, &[ids[i], if i == 0 { 0 } else { 0x11 }]); i += 1; }
    put(&mut v, &[0, 63, 0]);
    let mut s = Vec::new();
    let mut i = 0;
    while i < n {
        if i == 0 { put(&mut s, if def & 1 != 0 { b"0" } else { b"11110" }); } else { put(&mut s, if def & 2 != 0 { b"0" } else { b"1111110" }); }
        put(&mut s, if i == 0 { b"1000000" } else if i == 1 { b"0111111" } else { b"1010000" });
        if i == 0 { put(&mut s, if def & 4 != 0 { b"0" } else { b"1010" }); } else { put(&mut s, if def & 8 != 0 { b"0" } else { b"00" }); }
        i += 1;
    }
    pack(&s, &mut v);
    put(&mut v, &[0xFF, 0xD9]);
    let mut d = Decoder::new(S { b: v, pos: 0 });
    let r = d.decode();
    check(kind(&r) == 0, "C27");
    if let Ok(p) = r {
        reach("C27-mjpeg");
        check(p.len() == n, "C27");
        if p.len() == n { check(p[0] == 192, "C27"); if n == 3 { check(p[1] == 64, "C27"); check(p[2] == 208, "C27"); } }
    }
}
pub fn root_mjpeg_1() { mjpeg(1, true); }
pub fn root_mjpeg_3() { mjpeg(3, false); }
/// there is no default for destinations 2 and 3, and none without the AVI1 marker
pub fn root_mjpeg_none() {
    let t = pick(1, 0, 15) as u8;
    let avi = pick(2, 0, 1) == 1;
    let mut v = soi();
    put_seg(&mut v, 0xE0, if avi { b"AVI1\0" } else { b"AVI1\x01" }, 0);
    put_dqt(&mut v, 0);
    put_sof(&mut v, 0xC1, 8, 1, 1, &[1], &[0x11]);
    put_sos(&mut v, &[1], (t >> 2) << 4 | (t & 3), 0, 63, 0);
    // K.3 category 0, K.4 category 0; K.5 and K.6 end of block
    pack(if t & 3 == 0 { b"001010" } else { b"0000" }, &mut v);
    put(&mut v, &[0xFF, 0xD9]);
    let mut d = Decoder::new(S { b: v, pos: 0 });
    let k = kind(&d.decode());
    if avi && t >> 2 < 2 && t & 3 < 2 { reach("C27-avi"); check(k == 0, "C27"); } else { reach("C27-noavi"); check(k == 1, "C27"); }
}

// ---- C28: scans and components ----
/// n components; the scans name the component groups of `part_no`; group entries are component indices
fn groups(n: usize, k: usize) -> Vec<Vec<usize>> {
    let g: &[&[usize]] = if n == 3 {
        match k {
            0 => &[&[0], &[1], &[2]], 1 => &[&[0], &[2], &[1]], 2 => &[&[1], &[0], &[2]], 3 => &[&[1], &[2], &[0]], 4 => &[&[2], &[0], &[1]], 5 => &[&[2], &[1], &[0]],
            6 => &[&[0, 1], &[2]], 7 => &[&[2], &[0, 1]], 8 => &[&[0, 2], &[1]], 9 => &[&[1], &[0, 2]], 10 => &[&[1, 2], &[0]], 11 => &[&[0], &[1, 2]], 12 => &[&[0, 1, 2]],
            // incomplete
            13 => &[&[0, 1]], 14 => &[&[0, 2]], 15 => &[&[1, 2]], 16 => &[&[0]], 17 => &[&[2]], 18 => &[&[0], &[1]], 19 => &[&[1], &[2]], _ => &[&[2], &[0]],
        }
    } else {
        match k {
            0 => &[&[3], &[1], &[0], &[2]], 1 => &[&[0, 3], &[1, 2]], 2 => &[&[1, 3], &[0, 2]], 3 => &[&[1, 2, 3], &[0]], 4 => &[&[0, 1, 3], &[2]],
            5 => &[&[1, 2], &[0, 3]], 6 => &[&[2], &[0, 1, 3]], 7 => &[&[0, 1, 2, 3]],
            13 => &[&[1, 2, 3]], 14 => &[&[0, 1, 2]], 15 => &[&[3]], 16 => &[&[0, 3], &[1]], _ => &[&[1], &[3], &[2]],
        }
    };
    let mut out = Vec::new();
    let mut i = 0;
    while i < g.len() { out.push(g[i].to_vec()); i += 1; }
    out
}
fn scans(m: u8, n: usize, lo: usize, hi: usize, hv: u8) {
    let k = pick(1, lo, hi);
    let g = groups(n, k);
    let ids = [7u8, 5, 9, 2];
    let vals: [i32; 4] = [64, -64, -66, 80];
    let mut v = soi();
    put(&mut v, &[0xFF, 0xDB, 0, 67, 0]);
    let mut i = 0;
    while i < 64 { v.push(8); i += 1; }
    put_dht1(&mut v, 0, 7);
    put_dht1(&mut v, 0x10, 0);
    put_sof(&mut v, m, 8, 1, 1, &ids[..n], &[hv, 0x11, 0x11, 0x11]);
    let mut i = 0;
    while i < g.len() {
        let mut names = Vec::new();
        let mut diffs = Vec::new();
        let mut j = 0;
        while j < g[i].len() {
            names.push(ids[g[i][j]]);
            // an interleaved MCU of the first component holds several blocks: the others repeat the DC value
            diffs.push(vals[g[i][j]]);
            j += 1;
        }
        put_sos(&mut v, &names, 0, if m == 0xC3 { 1 } else { 0 }, if m == 0xC2 || m == 0xC3 { 0 } else { 63 }, 0);
        // lossless and progressive DC scans hold no end-of-block code
        let b = if m == 0xC2 || m == 0xC3 { bits8(&diffs) } else { bits_of(&diffs) };
        put(&mut v, &b);
        i += 1;
    }
    put(&mut v, &[0xFF, 0xD9]);
    let mut d = Decoder::new(S { b: v, pos: 0 });
    d.set_color_transform(if n == 3 { ColorTransform::RGB } else { ColorTransform::CMYK });
    let r = d.decode();
    let q = kind(&r);
    if k >= 13 { reach("C28-incomplete"); check(q == 1, "C28"); stop(); }
    reach("C28-complete");
    check(q == 0, "C28");
    if let Ok(p) = r {
        check(p.len() == n, "C28");
        let mut i = 0;
        while p.len() == n && i < n {
            let w = (vals[i] + 128) as u8;
            let w = if n == 4 && m != 0xC3 { 255 - w } else { w };
            check(p[i] == w, "C28");
            i += 1;
        }
    }
}
fn bits8(diffs: &[i32]) -> Vec<u8> {
    let mut s = Vec::new();
    let mut i = 0;
    while i < diffs.len() {
        let m = if diffs[i] < 0 { diffs[i] + 127 } else { diffs[i] } as u32;
        let mut k = 8;
        while k > 0 { k -= 1; s.push(b'0' + (m >> k & 1) as u8); }
        i += 1;
    }
    let mut v = Vec::new();
    pack(&s, &mut v);
    v
}
pub fn root_scans_c1_3() { scans(0xC1, 3, 0, 12, 0x11); }
pub fn root_scans_c0_3m() { scans(0xC0, 3, 13, 20, 0x11); }
pub fn root_scans_c2_3() { scans(0xC2, 3, 0, 12, 0x11); }
pub fn root_scans_c3_3() { scans(0xC3, 3, 0, 12, 0x11); }
pub fn root_scans_c3_3m() { scans(0xC3, 3, 13, 20, 0x11); }
pub fn root_scans_c0_4() { scans(0xC0, 4, 0, 7, 0x11); }
pub fn root_scans_c1_4m() { scans(0xC1, 4, 13, 17, 0x11); }
pub fn root_scans_c2_4() { scans(0xC2, 4, 0, 7, 0x11); }
pub fn root_scans_c3_4() { scans(0xC3, 4, 0, 7, 0x11); }
pub fn root_scans_c3_4m() { scans(0xC3, 4, 13, 17, 0x11); }

// ---- C01, C02, C03: arbitrary entropy-coded data ----
/// scripted bytes, then an arbitrary entropy-coded segment ended by EOI or by a failure of the reader
pub struct T { pub b: Vec<u8>, pub pos: usize, pub phase: u8, pub rst: bool }
impl Read for T {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if split(self.pos + buf.len() <= self.b.len()) {
            buf.copy_from_slice(&self.b[self.pos..self.pos + buf.len()]);
            self.pos += buf.len();
            return Ok(buf.len());
        }
        Err(nd_ioerror())
    }
    fn read_exact(&mut self, buf: &mut [u8]) -> io::Result<()> {
        if split(self.pos + buf.len() <= self.b.len()) {
            buf.copy_from_slice(&self.b[self.pos..self.pos + buf.len()]);
            self.pos += buf.len();
            return Ok(());
        }
        loop_nd();
        if buf.len() != 1 || nd_bool() { return Err(nd_ioerror()); }
        if self.phase == 0 {
            let b = nd_u8();
            buf[0] = b;
            if split(b == 0xFF) { self.phase = 1; part(60, 1); }
        } else if self.phase == 1 {
            if nd_bool() { buf[0] = 0; self.phase = 0; part(60, 0); }
            else if self.rst && nd_bool() { buf[0] = nd_range(0xD0, 0xD7) as u8; self.phase = 0; part(60, 0); }
            else { buf[0] = 0xD9; self.phase = 2; part(60, 2); }
        } else { return Err(nd_ioerror()); }
        Ok(())
    }
}
/// a gray frame followed by a scan of arbitrary bytes, with Huffman tables of arbitrary symbols
fn entropy(m: u8, h: u8, w: u8, ss: u8, se: u8, a: u8) {
    let mut v = soi();
    put_dqt_of(&mut v, 255);
    put_dht_stairs(&mut v, 0, &[nd_u8(), nd_u8(), nd_u8()]);
    put_dht_stairs(&mut v, 0x10, &[nd_u8(), nd_u8(), nd_u8()]);
    put_sof(&mut v, m, 8, h, w, &[1], &[0x11]);
    put_sos(&mut v, &[1], 0, ss, se, a);
    part(60, 0);
    let mut d = Decoder::new(T { b: v, pos: 0, phase: 0, rst: false });
    let r = d.decode();
    if let Ok(p) = r { reach("C02-decoded"); }
}
pub fn root_ent_c1() { entropy(0xC1, 8, 8, 0, 63, 0); }
pub fn root_ent_c2dc() { entropy(0xC2, 8, 8, 0, 0, 7); }
pub fn root_ent_c2ac() { entropy(0xC2, 8, 8, 1, 63, 7); }
pub fn root_ent_c3() { entropy(0xC3, 2, 2, 7, 0, 0); }
/// scripted bytes, then two bytes over and over, then a tail
pub struct Z { pub b: Vec<u8>, pub pos: usize, pub pat: [u8; 2], pub left: usize, pub tail: [u8; 2] }
impl Z {
    fn next(&mut self) -> Option<u8> {
        if self.pos < self.b.len() { self.pos += 1; return Some(self.b[self.pos - 1]); }
        if self.left > 2 { self.left -= 1; return Some(self.pat[self.left & 1]); }
        if self.left > 0 { self.left -= 1; return Some(self.tail[1 - self.left]); }
        None
    }
}
impl Read for Z {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut i = 0;
        while i < buf.len() { match self.next() { Some(x) => buf[i] = x, None => return Ok(i) } i += 1; }
        Ok(i)
    }
    fn read_exact(&mut self, buf: &mut [u8]) -> io::Result<()> {
        let mut i = 0;
        while i < buf.len() { match self.next() { Some(x) => buf[i] = x, None => return Err(nd_ioerror()) } i += 1; }
        Ok(())
    }
}
/// a Huffman table with the two codes of one bit
fn put_dht2(v: &mut Vec<u8>, tcth: u8, a: u8, b: u8) {
    put(v, &[0xFF, 0xC4, 0, 21, tcth, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, a, b]);
}
fn pattern(p: usize) -> [u8; 2] { match p { 0 => [0, 0], 1 => [0, 0xFF], 2 => [0xAA, 0xAA], _ => [0x33, 0x55] } }
/// AC symbols with the run lengths 0, 1, 7, 14, 15 and every size
fn symbol(k: usize) -> u8 { ([0u8, 1, 7, 14, 15][k / 16] << 4) | (k % 16) as u8 }
/// a first scan holding one such symbol over and over, on four bit patterns
fn walk(m: u8, w: u8, dc: u8, ss: u8, se: u8, a: u8, pat: usize) {
    let sym = symbol(pick(0, 0, 79));
    let mut v = soi();
    put_dqt_of(&mut v, 255);
    put_dht2(&mut v, 0, dc, dc);
    put_dht2(&mut v, 0x10, sym, if pat > 1 { 0xF0 } else { sym });
    put_sof(&mut v, m, 8, 8, w, &[1], &[0x11]);
    put_sos(&mut v, &[1], 0, ss, se, a);
    let mut d = Decoder::new(Z { b: v, pos: 0, pat: pattern(pat), left: 300, tail: [0xFF, 0xD9] });
    let k = kind(&d.decode());
    if k == 0 { reach("C02-walked"); }
}
pub fn root_walk_c1_0() { walk(0xC1, 16, 11, 0, 63, 0, 0); }
pub fn root_walk_c1_1() { walk(0xC1, 16, 11, 0, 63, 0, 1); }
pub fn root_walk_c1_2() { walk(0xC1, 16, 9, 0, 63, 0, 2); }
pub fn root_walk_c2_1() { walk(0xC2, 24, 0, 1, 63, 7, 1); }
pub fn root_walk_c2_3() { walk(0xC2, 24, 0, 5, 62, 0, 3); }
/// a first scan of the coefficients, then a refinement scan of one symbol over and over
fn refined(ss: u8, se: u8, al: u8, first: u8, pat1: u8, pat: usize) {
    let sym = symbol(pick(0, 0, 79));
    let mut v = soi();
    put_dqt_of(&mut v, 255);
    put_dht2(&mut v, 0, 11, 11);
    put_dht2(&mut v, 0x10, first, first);
    put_sof(&mut v, 0xC2, 8, 8, 16, &[1], &[0x11]);
    if ss > 0 { put_sos(&mut v, &[1], 0, 0, 0, 0); put(&mut v, &[0, 0, 0, 0]); }
    put_sos(&mut v, &[1], 0, ss, se, al + 1);
    let mut i = 0;
    if pat1 == 1 {
        // coefficients at the lower end of their range
        while i < 32 { put(&mut v, &[0x40, 0x10, 0x04, 0x01, 0x00]); i += 1; }
    } else {
        while i < 200 { v.push(pat1); if pat1 == 0xFF { v.push(0); } i += 1; }
    }
    put_dht2(&mut v, 0x10, sym, if pat > 1 { 0xF0 } else { sym });
    put_sos(&mut v, &[1], 0, ss, se, ((al + 1) << 4) | al);
    let mut d = Decoder::new(Z { b: v, pos: 0, pat: pattern(pat), left: 100, tail: [0xFF, 0xD9] });
    let k = kind(&d.decode());
    if k == 0 { reach("C02-refined"); }
}
pub fn root_refine_dc() { refined(0, 0, 6, 0, 0, 1); }
/// every coefficient nonzero before the refinement
pub fn root_refine_full_0() { refined(1, 63, 6, 0x0A, 0xFF, 0); }
pub fn root_refine_full_1() { refined(1, 63, 6, 0x0A, 0, 1); }
pub fn root_refine_least() { refined(1, 63, 6, 0x09, 1, 1); }
/// every other coefficient
pub fn root_refine_half_1() { refined(1, 63, 0, 0x1F, 0xFF, 1); }
pub fn root_refine_none_2() { refined(60, 63, 3, 0x00, 0xFF, 2); }
pub fn root_refine_none_1() { refined(1, 63, 0, 0x00, 0xFF, 1); }
/// DC differences of one category in many blocks
fn summed(m: u8, p: u8, dc: u8, pat: usize, a: u8) {
    let mut v = soi();
    put_dqt_of(&mut v, 255);
    put_dht2(&mut v, 0, dc, dc);
    put_dht2(&mut v, 0x10, 0, 0);
    if m == 0xC3 { put_sof(&mut v, m, p, 3, 9, &[1], &[0x11]); } else { put_sof(&mut v, m, p, 16, 72, &[1], &[0x11]); }
    let sel = if m == 0xC3 { 1 + 3 * pick(1, 0, 2) as u8 } else { 0 };
    put_sos(&mut v, &[1], 0, sel, if m == 0xC1 { 63 } else { 0 }, a);
    let mut d = Decoder::new(Z { b: v, pos: 0, pat: pattern(pat), left: 120, tail: [0xFF, 0xD9] });
    let k = kind(&d.decode());
    if k == 0 { reach("C02-summed"); }
}
pub fn root_sum_c1_p() { summed(0xC1, 8, 11, 1, 0); }
pub fn root_sum_c1_n() { summed(0xC1, 8, 11, 0, 0); }
pub fn root_sum_c2_p() { summed(0xC2, 8, 11, 1, 7); }
pub fn root_sum_c1_a() { summed(0xC1, 8, pick(2, 0, 17) as u8, 1, 0); }
pub fn root_sum_c2_a() { summed(0xC2, 8, pick(2, 0, 17) as u8, 0, 7); }
pub fn root_sum_c3_p() { summed(0xC3, 16, pick(2, 0, 17) as u8, 1, 0); }
pub fn root_sum_c3_n() { summed(0xC3, pick(2, 2, 16) as u8, 15, 0, pick(3, 0, 15) as u8); }
/// Huffman codes of every length, as many as fit or few, on four bit patterns
fn lengths(class: u8, n: usize) {
    let len = pick(0, 1, 16);
    let pat = pick(1, 0, 3);
    let short = pick(2, 0, 1);
    let mut v = soi();
    put_dqt_of(&mut v, 255);
    put_dht2(&mut v, if class == 0 { 0x10 } else { 0 }, 0, 0);
    let mut bits = [0u8; 16];
    let mut total = n;
    if n > 1 && len < 8 && n > (1 << len) { total = 1 << len; }
    // a shorter code before the long ones
    if short == 1 && len > 1 { bits[0] = 1; if total > 255 { total = 255; } if len < 9 && total > (1 << (len - 1)) { total = 1 << (len - 1); } }
    bits[len - 1] += if total > 255 { 255 } else { total as u8 };
    let mut n = 0;
    let mut i = 0;
    while i < 16 { n += bits[i] as usize; i += 1; }
    let l = 19 + n;
    put(&mut v, &[0xFF, 0xC4, (l >> 8) as u8, l as u8, class << 4]);
    put(&mut v, &bits);
    let mut i = 0;
    while i < n { v.push(if class == 0 { (i % 12) as u8 } else { i as u8 }); i += 1; }
    put_sof(&mut v, 0xC1, 8, 8, 16, &[1], &[0x11]);
    put_sos(&mut v, &[1], 0, 0, 63, 0);
    let mut d = Decoder::new(Z { b: v, pos: 0, pat: pattern(pat), left: 300, tail: [0xFF, 0xD9] });
    let k = kind(&d.decode());
    if k == 0 { reach("C02-lengths"); }
}
pub fn root_len_dc_1() { lengths(0, 1); }
pub fn root_len_dc_12() { lengths(0, 12); }
pub fn root_len_ac_1() { lengths(1, 1); }
pub fn root_len_ac_255() { lengths(1, 255); }
/// images as wide or as high as can be
fn huge(m: u8, h: u16, w: u16, hv: u8, ids: &[u8]) {
    let mut v = soi();
    put_dqt_of(&mut v, 255);
    put_dht2(&mut v, 0, 0, 0);
    put_dht2(&mut v, 0x10, 0, 0);
    put(&mut v, &[0xFF, m, 0, 8 + 3 * ids.len() as u8, 8, (h >> 8) as u8, h as u8, (w >> 8) as u8, w as u8, ids.len() as u8]);
    let mut i = 0;
    while i < ids.len() { put(&mut v, &[ids[i], if i == 0 { hv } else { 0x11 }, 0]); i += 1; }
    put_sos(&mut v, ids, 0, 0, 0, 0);
    let mut d = Decoder::new(Z { b: v, pos: 0, pat: [0, 0], left: 200000, tail: [0, 0] });
    let k = kind(&d.decode());
    if k == 2 { reach("C01-huge"); }
}
pub fn root_huge_w() { huge(0xC2, 1, 65535, 0x11, &[1]); }
pub fn root_huge_h() { huge(0xC2, 65535, 1, 0x11, &[1]); }
pub fn root_huge_w44() { huge(0xC2, 1, 65535, 0x41, &[1, 2, 3]); }
pub fn root_huge_h44() { huge(0xC2, 65535, 1, 0x14, &[1, 2, 3]); }

// ---- C21: constant tables ----
/// frequencies of the coefficient at a zigzag position, by walking the diagonals (Figure A.6)
fn zigzag(k: usize) -> (usize, usize) {
    let (mut u, mut v, mut i) = (0usize, 0usize, 0);
    while i < k {
        if (u + v) % 2 == 0 {
            if u == 7 { v += 1; } else if v == 0 { u += 1; } else { u += 1; v -= 1; }
        } else {
            if v == 7 { u += 1; } else if u == 0 { v += 1; } else { v += 1; u -= 1; }
        }
        i += 1;
    }
    (u, v)
}
fn negative(x: usize, u: usize) -> bool { let t = (2 * x + 1) * u % 32; t > 8 && t < 24 }
/// one coefficient at zigzag position k of an 8x8 block, its quantiser the only large one
fn one_coefficient(mode: usize) {
    let k = pick(0, 1, 63);
    let mut v = soi();
    put(&mut v, &[0xFF, 0xDB, 0, 67, 0]);
    let mut i = 0;
    while i < 64 { v.push(if i == k { 200 } else { 1 }); i += 1; }
    put_dht1(&mut v, 0, 0);
    let r = ((k - 1) % 16) as u8;
    if mode == 0 {
        // '0' sixteen zeros, '10' the coefficient, '110' end of block
        put_dht_stairs(&mut v, 0x10, &[0xF0, r << 4 | 3, 0]);
        put_sof(&mut v, 0xC1, 8, 8, 8, &[1], &[0x11]);
        put_sos(&mut v, &[1], 0, 0, 63, 0);
        let mut t = vec![b'0'];
        i = 0;
        while i < (k - 1) / 16 { t.push(b'0'); i += 1; }
        put(&mut t, b"10110");
        put(&mut t, b"110");
        pack(&t, &mut v);
    } else {
        put_sof(&mut v, 0xC2, 8, 8, 8, &[1], &[0x11]);
        put_sos(&mut v, &[1], 0, 0, 0, 0);
        put(&mut v, &[0x7F]);
        put_dht_stairs(&mut v, 0x10, &[0, 3, 1]);
        let k8 = k as u8;
        if mode == 1 {
            put_sos(&mut v, &[1], 0, k8, k8, 0);
            pack(b"10110", &mut v);
        } else if mode == 2 {
            // 2, then refined to 5
            put_sos(&mut v, &[1], 0, k8, k8, 1);
            pack(b"1101", &mut v);
            put_sos(&mut v, &[1], 0, k8, k8, 0x10);
            pack(b"01", &mut v);
        } else {
            // first seen by the refinement scan
            put_sos(&mut v, &[1], 0, k8, k8, 3);
            pack(b"0", &mut v);
            put_sos(&mut v, &[1], 0, k8, k8, 0x32);
            pack(b"1101", &mut v);
        }
    }
    put(&mut v, &[0xFF, 0xD9]);
    let mut d = Decoder::new(S { b: v, pos: 0 });
    let r = d.decode();
    check(kind(&r) == 0, "C21");
    if let Ok(p) = r {
        reach("C21-zigzag");
        let (u, w) = zigzag(k);
        let mut y = 0;
        while y < 8 {
            let mut x = 0;
            while x < 8 {
                let s = p[8 * y + x];
                check(if negative(x, u) != negative(y, w) { s < 127 } else { s > 129 }, "C21");
                x += 1;
            }
            y += 1;
        }
    }
}
pub fn root_zigzag_seq() { one_coefficient(0); }
pub fn root_zigzag_prog() { one_coefficient(1); }
pub fn root_zigzag_ref() { one_coefficient(2); }
pub fn root_zigzag_new() { one_coefficient(3); }
/// the code of the k-th symbol of a table of code lengths (Annex C)
fn code_of(bits: &[u8; 16], k: usize, out: &mut Vec<u8>) {
    let mut code = 0usize;
    let mut n = 0usize;
    let mut l = 0;
    while l < 16 {
        let c = bits[l] as usize;
        if k < n + c {
            code += k - n;
            let mut i = l + 1;
            while i > 0 { i -= 1; out.push(b'0' + (code >> i & 1) as u8); }
            return;
        }
        code = (code + c) << 1;
        n += c;
        l += 1;
    }
}
const K3: [u8; 16] = [0, 1, 5, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0];
const K4: [u8; 16] = [0, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0];
const K5: [u8; 16] = [0, 2, 1, 3, 3, 2, 4, 3, 5, 5, 4, 4, 0, 0, 1, 125];
const K6: [u8; 16] = [0, 2, 1, 2, 4, 4, 3, 4, 7, 5, 4, 4, 0, 1, 2, 119];
/// symbol at a position of Table K.5: the codes of up to 12 bits listed, the 16-bit ones in ascending order of what is left
const K5S: [u8; 37] = [0x01, 0x02, 0x03, 0x00, 0x04, 0x11, 0x05, 0x12, 0x21, 0x31, 0x41, 0x06, 0x13, 0x51, 0x61, 0x07,
    0x22, 0x71, 0x14, 0x32, 0x81, 0x91, 0xA1, 0x08, 0x23, 0x42, 0xB1, 0xC1, 0x15, 0x52, 0xD1, 0xF0, 0x24, 0x33, 0x62, 0x72, 0x82];
const K6S: [u8; 43] = [0x00, 0x01, 0x02, 0x03, 0x11, 0x04, 0x05, 0x21, 0x31, 0x06, 0x12, 0x41, 0x51, 0x07, 0x61, 0x71,
    0x13, 0x22, 0x32, 0x81, 0x08, 0x14, 0x42, 0x91, 0xA1, 0xB1, 0xC1, 0x09, 0x23, 0x33, 0x52, 0xF0, 0x15, 0x62, 0x72, 0xD1, 0x0A, 0x16, 0x24, 0x34, 0xE1, 0x25, 0xF1];
fn symbols(short: &[u8]) -> Vec<u8> {
    let mut v = Vec::new();
    put(&mut v, short);
    let mut s = 1usize;
    while s < 0xFB {
        let size = s & 15;
        let mut seen = size == 0 || size > 10;
        let mut i = 0;
        while i < short.len() && !seen { if short[i] as usize == s { seen = true; } i += 1; }
        if !seen { v.push(s as u8); }
        s += 1;
    }
    v
}
/// one symbol of a default table against the coefficient the specification gives it
fn default_symbol(td: u8, ac: bool) {
    let (dcb, acb) = (if td >> 4 == 0 { K3 } else { K4 }, if td & 15 == 0 { K5 } else { K6 });
    let acs = symbols(if td & 15 == 0 { &K5S } else { &K6S });
    check(acs.len() == 162, "C21");
    let k = pick(0, 0, if ac { 161 } else { 11 });
    let s = if ac { acs[k] } else { k as u8 };
    let (run, size) = ((s >> 4) as usize, (s & 15) as usize);
    // sixteen zeros and the end of the block are seen by what follows them
    let zrl = ac && s == 0xF0;
    let eob = ac && s == 0;
    let q = if size == 0 { 200 } else if ac { 400usize >> size } else { 256usize >> size };
    let mut v = soi();
    put_seg(&mut v, 0xE0, b"AVI1\0\0\0\0\0", 0);
    put_dqt_of(&mut v, if q == 0 { 1 } else { q as u8 });
    put_sof(&mut v, 0xC0, 8, 8, 8, &[1], &[0x11]);
    put_sos(&mut v, &[1], td, 0, 63, 0);
    let mut t = Vec::new();
    code_of(&dcb, if ac { 0 } else { k }, &mut t);
    if ac { code_of(&acb, k, &mut t); }
    let mut i = 0;
    while i < size { t.push(b'1'); i += 1; }
    if zrl { code_of(&acb, if td & 15 == 0 { 0 } else { 1 }, &mut t); t.push(b'1'); }
    if !eob { code_of(&acb, if td & 15 == 0 { 3 } else { 0 }, &mut t); }
    // nothing may be left over: a second scan would not be found
    pack(&t, &mut v);
    put(&mut v, &[0xFF, 0xD9]);
    let mut d = Decoder::new(S { b: v, pos: 0 });
    let r = d.decode();
    check(kind(&r) == 0, "C21");
    if let Ok(p) = r {
        reach("C21-defaults");
        let q = if q == 0 { 1 } else { q as i32 };
        let mut y = 0;
        if !ac || eob {
            let c = if eob { 0 } else { ((1 << size) - 1) * q / 8 };
            while y < 64 { let s = p[y] as i32 - 128 - c; check(s >= -1 && s <= 1 || (c > 127 && p[y] == 255), "C21"); y += 1; }
            if size > 0 { check(p[0] > 140, "C21"); }
            stop();
        }
        let at = if zrl { 17 } else { run + 1 };
        let (u, w) = zigzag(at);
        // the sum of the absolute deviations grows with the coefficient
        let mut sum = 0;
        while y < 8 {
            let mut x = 0;
            while x < 8 {
                let s = p[8 * y + x] as i32;
                check(if negative(x, u) != negative(y, w) { s < 128 } else { s >= 128 }, "C21");
                sum += if s < 128 { 128 - s } else { s - 128 };
                x += 1;
            }
            y += 1;
        }
        let c = ((1 << size) - 1) * q;
        let c = if zrl { q } else { c };
        if size == 10 { check(sum > 4300, "C21"); } else { check(4 * sum > 25 * c - 256 && 4 * sum < 33 * c + 256, "C21"); }
    }
}
pub fn root_default_dc0() { default_symbol(0x00, false); }
pub fn root_default_dc1() { default_symbol(0x11, false); }
pub fn root_default_ac0() { default_symbol(0x00, true); }
pub fn root_default_ac1() { default_symbol(0x11, true); }
pub fn root_default_mix() { default_symbol(0x01, true); }
pub fn root_default_mix2() { default_symbol(0x10, true); }
/// what a marker code stands for before the frame header
fn marker_code(lo: usize, hi: usize) {
    let b = pick(0, lo, hi);
    let form = pick(1, 0, if b == 0xC4 || b == 0xDB || b == 0xDD { 1 } else { 0 });
    let mut v = soi();
    put(&mut v, &[0xFF, b as u8]);
    if form == 0 { put(&mut v, &[0, 11, 8, 0, 1, 0, 1, 1, 1, 0x11, 0]); }
    else if b == 0xC4 { let n = v.len(); put_dht1(&mut v, 0, 0); v.remove(n); v.remove(n); }
    else if b == 0xDB { let n = v.len(); put_dqt(&mut v, 0); v.remove(n); v.remove(n); }
    else { put(&mut v, &[0, 4, 0, 1]); }
    put_sof(&mut v, 0xC0, 8, 3, 2, &[1], &[0x11]);
    let mut d = Decoder::new(S { b: v, pos: 0 });
    let k = kind(&d.read_info());
    let sof = b >= 0xC0 && b <= 0xCF && b != 0xC4 && b != 0xC8 && b != 0xCC;
    if sof && b <= 0xC3 {
        check(k == 0, "C21");
        match d.info() {
            Some(i) => { reach("C21-sof"); check(i.width == 1 && i.height == 1 && i.coding_process == process(b as u8), "C21"); }
            None => check(false, "C21"),
        }
    } else if sof {
        reach("C21-unsupported");
        if b < 0xC8 { check(k == HIER, "C21"); } else if b < 0xCC { check(k == ARITH, "C21"); } else { check(k == HIER || k == ARITH, "C21"); }
    } else if b == 0xCC { check(k == ARITH, "C21"); }
    else if b == 0xDE || b == 0xDF { check(k == HIER, "C21"); }
    else if form == 1 || (b >= 0xE0 && b <= 0xEF) || b == 0xFE {
        check(k == 0, "C21");
        match d.info() {
            Some(i) => { reach("C21-skip"); check(i.width == 2 && i.height == 3, "C21"); }
            None => check(false, "C21"),
        }
    } else { reach("C21-bad"); check(k == 1, "C21"); }
}
pub fn root_marker_lo() { marker_code(1, 0xBF); }
pub fn root_marker_hi() { marker_code(0xC0, 0xFE); }

// ---- C34, C36: geometry ----
/// a DC table of twelve codes of four bits, and an AC table with '0' for the end of a block
fn put_geo_tables(v: &mut Vec<u8>) {
    put_dqt_of(v, 8);
    put(v, &[0xFF, 0xC4, 0, 31, 0, 0, 0, 0, 12, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]);
    put_dht1(v, 0x10, 0);
}
fn put_dc(t: &mut Vec<u8>, diff: i32) {
    let a = if diff < 0 { -diff } else { diff };
    let mut c = 0;
    while a >> c > 0 { c += 1; }
    let mut i = 4;
    while i > 0 { i -= 1; t.push(b'0' + (c >> i & 1) as u8); }
    let m = if diff < 0 { diff + (1 << c) - 1 } else { diff };
    let mut i = c;
    while i > 0 { i -= 1; t.push(b'0' + (m >> i & 1) as u8); }
}
fn block_value(c: usize, bx: usize, by: usize) -> i32 { 20 + ((c * 50 + bx * 36 + by * 60) % 200) as i32 }
fn cdiv(a: usize, b: usize) -> usize { (a + b - 1) / b }
/// an image of DC-only blocks, every block of its own value; sampling factors hv, scans as listed
fn geometry(m: u8, w: usize, h: usize, hv: &[u8], groups: &[&[usize]], scale: usize, ac: bool) {
    let n = hv.len();
    let ids = [1u8, 2, 3, 4];
    let (mut hm, mut vm) = (1, 1);
    let mut i = 0;
    while i < n {
        if (hv[i] >> 4) as usize > hm { hm = (hv[i] >> 4) as usize; }
        if (hv[i] & 15) as usize > vm { vm = (hv[i] & 15) as usize; }
        i += 1;
    }
    let mut v = soi();
    put_geo_tables(&mut v);
    put_sof(&mut v, m, 8, h as u8, w as u8, &ids[..n], hv);
    let mut g = 0;
    while g < groups.len() {
        let mut names = Vec::new();
        let mut i = 0;
        while i < groups[g].len() { names.push(ids[groups[g][i]]); i += 1; }
        put_sos(&mut v, &names, 0, 0, if m == 0xC2 { 0 } else { 63 }, 0);
        let single = groups[g].len() == 1;
        let mut t = Vec::new();
        let mut pred = [0i32; 4];
        let c0 = groups[g][0];
        let (h0, v0) = ((hv[c0] >> 4) as usize, (hv[c0] & 15) as usize);
        let mw = if single { cdiv(w * h0, hm * 8) } else { cdiv(w, hm * 8) };
        let mh = if single { cdiv(h * v0, vm * 8) } else { cdiv(h, vm * 8) };
        let mut y = 0;
        while y < mh {
            let mut x = 0;
            while x < mw {
                let mut i = 0;
                while i < groups[g].len() {
                    let c = groups[g][i];
                    let ch = (hv[c] >> 4) as usize;
                    let cv = (hv[c] & 15) as usize;
                    let (nh, nv) = if single { (1, 1) } else { (ch, cv) };
                    let mut b = 0;
                    while b < nh * nv {
                        let bx = x * nh + b % nh;
                        let by = y * nv + b / nh;
                        // what lies outside the component is padding
                        let out = bx >= cdiv(w * ch, hm * 8) || by >= cdiv(h * cv, vm * 8);
                        let val = if out { 127 } else { block_value(c, bx, by) - 128 };
                        put_dc(&mut t, val - pred[c]);
                        pred[c] = val;
                        if m != 0xC2 { t.push(b'0'); }
                        b += 1;
                    }
                    i += 1;
                }
                x += 1;
            }
            y += 1;
        }
        pack(&t, &mut v);
        g += 1;
    }
    if ac {
        let mut c = 0;
        while c < n {
            put_sos(&mut v, &ids[c..c + 1], 0, 1, 63, 0);
            let b = cdiv(w * (hv[c] >> 4) as usize, hm * 8) * cdiv(h * (hv[c] & 15) as usize, vm * 8);
            let mut t = Vec::new();
            let mut i = 0;
            while i < b { t.push(b'0'); i += 1; }
            pack(&t, &mut v);
            c += 1;
        }
    }
    put(&mut v, &[0xFF, 0xD9]);
    let mut d = Decoder::new(S { b: v, pos: 0 });
    if n > 1 { d.set_color_transform(if n == 3 { ColorTransform::RGB } else { ColorTransform::CMYK }); }
    let k = kind(&d.read_info());
    check(k == 0, "C36");
    let (rw, rh) = (cdiv(w * scale, 8), cdiv(h * scale, 8));
    // a smaller factor may reach the size as well
    let full = scale == 8;
    let mut scale = scale;
    while !full && scale > 1 && (cdiv(w * scale / 2, 8) >= rw || cdiv(h * scale / 2, 8) >= rh) { scale /= 2; }
    let (ow, oh) = (cdiv(w * scale, 8), cdiv(h * scale, 8));
    if !full {
        match d.scale(rw as u16, rh as u16) {
            Ok((a, b)) => check(a as usize == ow && b as usize == oh, "C36"),
            Err(_) => check(false, "C36"),
        }
    }
    let r = d.decode();
    check(kind(&r) == 0, "C36");
    if let Ok(p) = r {
        reach("C34-decoded");
        check(p.len() == ow * oh * n, "C34");
        match d.info() {
            Some(i) => check(p.len() == i.width as usize * i.height as usize * i.pixel_format.pixel_bytes(), "C34"),
            None => check(false, "C34"),
        }
        if p.len() != ow * oh * n { stop(); }
        let mut c = 0;
        while c < n {
            let ch = (hv[c] >> 4) as usize;
            let cv = (hv[c] & 15) as usize;
            let (cw, chh) = (cdiv(w * ch * scale, hm * 8), cdiv(h * cv * scale, vm * 8));
            let near_x = hm == 2 * ch;
            let near_y = vm == 2 * cv;
            let mut y = 0;
            while y < oh {
                let mut x = 0;
                while x < ow {
                    // the samples it may be made of
                    let cx = x * ch / hm;
                    let cy = y * cv / vm;
                    let (mut lo, mut hi) = (255, 0);
                    let mut j = 0;
                    while j < 9 {
                        let sx = cx + j % 3;
                        let sy = cy + j / 3;
                        let skip = (j % 3 != 1 && !near_x) || (j / 3 != 1 && !near_y) || sx < 1 || sy < 1 || sx > cw || sy > chh;
                        if !skip {
                            let b = block_value(c, (sx - 1) / scale, (sy - 1) / scale);
                            if b < lo { lo = b; }
                            if b > hi { hi = b; }
                        }
                        j += 1;
                    }
                    let s = p[(y * ow + x) * n + c] as i32;
                    let s = if n == 4 { 255 - s } else { s };
                    check(s >= lo && s <= hi, "C36");
                    x += 1;
                }
                y += 1;
            }
            c += 1;
        }
    }
}
const LAYOUTS: [[u8; 4]; 15] = [
    [0x11, 0, 0, 0], [0x22, 0, 0, 0], [0x14, 0, 0, 0],
    [0x11, 0x11, 0x11, 0], [0x21, 0x11, 0x11, 0], [0x12, 0x11, 0x11, 0], [0x22, 0x11, 0x11, 0], [0x41, 0x11, 0x11, 0], [0x11, 0x22, 0x21, 0],
    [0x22, 0x11, 0x11, 0x22], [0x11, 0x11, 0x11, 0x11],
    // some scans of these hold fewer blocks when they are not interleaved
    [0x41, 0x21, 0x11, 0], [0x14, 0x12, 0x11, 0], [0x44, 0x22, 0x21, 0], [0x24, 0x12, 0x21, 0],
];
/// layouts lo..hi in several sizes; mode: how the components are spread over scans
fn geo(m: u8, lo: usize, hi: usize, mode: usize, scale: usize, small: bool, ac: bool) {
    let l = LAYOUTS[pick(0, lo, hi)];
    let w = if small { [1, 8, 17, 33][pick(1, 0, 3)] } else { [1, 8, 9, 15, 16, 17, 31, 33, 49, 65][pick(1, 0, 9)] };
    let h = if small { [1, 9, 16][pick(2, 0, 2)] } else { [1, 8, 9, 16, 17, 33][pick(2, 0, 5)] };
    let n = if l[1] == 0 { 1 } else if l[3] == 0 { 3 } else { 4 };
    let all = [0usize, 1, 2, 3];
    if mode == 0 || n == 1 { geometry(m, w, h, &l[..n], &[&all[..n]], scale, ac); }
    else if mode == 1 && n == 3 { geometry(m, w, h, &l[..n], &[&[2], &[0], &[1]], scale, ac); }
    else if mode == 1 { geometry(m, w, h, &l[..n], &[&[0], &[3], &[2], &[1]], scale, ac); }
    else if mode == 2 && n == 3 { geometry(m, w, h, &l[..n], &[&[0], &[1, 2]], scale, ac); }
    else if mode == 2 { geometry(m, w, h, &l[..n], &[&[0, 3], &[1, 2]], scale, ac); }
    else if n == 3 { geometry(m, w, h, &l[..n], &[&[0, 2], &[1]], scale, ac); }
    else { geometry(m, w, h, &l[..n], &[&[1], &[0, 2, 3]], scale, ac); }
}
pub fn root_geo_one() { geo(0xC0, 0, 2, 0, 1, false, false); }
pub fn root_geo_seq_all() { geo(0xC1, 3, 8, 0, 1, false, false); }
pub fn root_geo_seq_all4() { geo(0xC0, 9, 12, 0, 1, false, false); }
pub fn root_geo_seq_sep() { geo(0xC1, 3, 8, 1, 1, false, false); }
pub fn root_geo_seq_sep4() { geo(0xC1, 9, 14, 1, 1, false, false); }
pub fn root_geo_seq_mix() { geo(0xC1, 3, 12, 2, 1, true, false); }
pub fn root_geo_seq_mix3() { geo(0xC1, 3, 12, 3, 1, true, false); }
pub fn root_geo_prog_all() { geo(0xC2, 3, 12, 0, 1, true, false); }
pub fn root_geo_prog_sep() { geo(0xC2, 3, 14, 1, 1, true, false); }
pub fn root_geo_prog_ac() { geo(0xC2, 3, 12, 0, 1, true, true); }
pub fn root_geo_prog_ac1() { geo(0xC2, 0, 8, 1, 1, true, true); }
pub fn root_geo_prog_ac2() { geo(0xC2, 9, 14, 1, 1, true, true); }
pub fn root_geo_s2() { geo(0xC0, 0, 12, 0, 2, true, false); }
pub fn root_geo_s4() { geo(0xC0, 0, 12, 0, 4, true, false); }
pub fn root_geo_s4_sep() { geo(0xC1, 11, 14, 1, 4, true, false); }
pub fn root_geo_s8_1() { geo(0xC0, 0, 4, 0, 8, true, false); }
pub fn root_geo_s8_2() { geo(0xC0, 5, 7, 0, 8, true, false); }
pub fn root_geo_s8_3() { geo(0xC0, 8, 10, 0, 8, true, false); }
pub fn root_geo_s8_4() { geo(0xC0, 11, 12, 0, 8, true, false); }
pub fn root_geo_s8_5() { geo(0xC1, 13, 14, 1, 8, true, false); }

// ---- C37: lossless samples ----
fn predicted(p: usize, a: i32, b: i32, c: i32) -> i32 {
    match p { 1 => a, 2 => b, 3 => c, 4 => a + b - c, 5 => a + ((b - c) >> 1), 6 => b + ((a - c) >> 1), _ => (a + b) >> 1 }
}
/// an image of w x h samples per component, coded with the predictor, point transform and restart interval
fn lossless(prec: usize, pt: usize, pred: usize, n: usize, w: usize, h: usize, lines: usize) {
    let ids = [1u8, 2, 3, 4];
    let mut v = soi();
    if lines > 0 { put(&mut v, &[0xFF, 0xDD, 0, 4, 0, (lines * w) as u8]); }
    put(&mut v, &[0xFF, 0xC4, 0, 36, 0, 0, 0, 0, 0, 17, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16]);
    put_sof(&mut v, 0xC3, prec as u8, h as u8, w as u8, &ids[..n], &[0x11, 0x11, 0x11, 0x11]);
    put_sos(&mut v, &ids[..n], 0, pred as u8, 0, pt as u8);
    let top = (1i32 << prec) - 1;
    let mut s = Vec::new();
    let mut i = 0;
    while i < w * h * n {
        // extremes and values between
        let x = match i % 7 { 0 => top, 1 => 0, 2 => top / 3, 3 => top, 4 => top - top / 5, 5 => 0, _ => top / 2 };
        s.push(x >> pt);
        i += 1;
    }
    let mut t = Vec::new();
    let mut rst = 0;
    let mut y = 0;
    while y < h {
        let fresh = y == 0 || (lines > 0 && y % lines == 0);
        if fresh && y > 0 {
            pack(&t, &mut v);
            t.clear();
            put(&mut v, &[0xFF, 0xD0 + rst]);
            rst += 1;
        }
        let mut x = 0;
        while x < w {
            let mut c = 0;
            while c < n {
                let at = (y * w + x) * n + c;
                let p = if x == 0 && fresh { 1 << (prec - pt - 1) }
                    else if x == 0 { s[at - w * n] }
                    else if fresh { s[at - n] }
                    else { predicted(pred, s[at - n], s[at - w * n], s[at - w * n - n]) };
                let mut d = (s[at] - p) & 0xFFFF;
                if d > 32768 { d -= 65536; }
                let a = if d < 0 { -d } else { d };
                let mut k = 0;
                while a >> k > 0 { k += 1; }
                let mut b = 5;
                while b > 0 { b -= 1; t.push(b'0' + (k >> b & 1) as u8); }
                let m = if d < 0 { d + (1 << k) - 1 } else { d };
                let mut b = if k == 16 { 0 } else { k };
                while b > 0 { b -= 1; t.push(b'0' + (m >> b & 1) as u8); }
                c += 1;
            }
            x += 1;
        }
        y += 1;
    }
    pack(&t, &mut v);
    put(&mut v, &[0xFF, 0xD9]);
    let mut d = Decoder::new(S { b: v, pos: 0 });
    if n == 3 { d.set_color_transform(ColorTransform::RGB); }
    let r = d.decode();
    check(kind(&r) == 0, "C37");
    if let Ok(q) = r {
        reach("C37-decoded");
        let wide = prec > 8;
        check(q.len() == w * h * n * if wide { 2 } else { 1 }, "C34");
        let mut i = 0;
        while i < w * h * n {
            let got = if wide { q[2 * i] as i32 + q[2 * i + 1] as i32 * 256 } else { q[i] as i32 };
            check(got == s[i] << pt, "C37");
            i += 1;
        }
    }
}
pub fn root_lossless_lo() { let p = pick(0, 2, 8); lossless(p, pick(1, 0, p - 1), pick(2, 1, 7), 1, 4, 3, 0); }
pub fn root_lossless_hi() { let p = pick(0, 9, 16); lossless(p, pick(1, 0, if p > 9 { 2 } else { 8 }), pick(2, 1, 7), 1, 4, 3, 0); }
pub fn root_lossless_rst() { let p = pick(0, 7, 9); lossless(p, pick(1, 0, 2), pick(2, 1, 7), 1, 3, 5, pick(3, 1, 3)); }
pub fn root_lossless_three() { let p = 7 + pick(0, 0, 1); lossless(p, pick(1, 0, 2), pick(2, 1, 7), 3, pick(4, 1, 3), 3, pick(3, 0, 2)); }
pub fn root_lossless_four() { lossless(8, pick(1, 0, 2), pick(2, 1, 7), 4, 2, pick(4, 1, 3), pick(3, 0, 2)); }

/// every difference arbitrary: one byte per sample, seven bits of magnitude after the code '0', up and down in turn
fn lossless_any(prec: usize, pred: usize, n: usize, w: usize, h: usize, lines: usize) {
    let ids = [1u8, 2, 3, 4];
    let mut v = soi();
    if lines > 0 { put(&mut v, &[0xFF, 0xDD, 0, 4, 0, (lines * w) as u8]); }
    put_dht1(&mut v, 0, 7);
    put_sof(&mut v, 0xC3, prec as u8, h as u8, w as u8, &ids[..n], &[0x11, 0x11, 0x11, 0x11]);
    put_sos(&mut v, &ids[..n], 0, pred as u8, 0, 0);
    let mut s = Vec::new();
    let mut y = 0;
    while y < h {
        let fresh = y == 0 || (lines > 0 && y % lines == 0);
        if fresh && y > 0 { put(&mut v, &[0xFF, 0xD0 + (y / lines - 1) as u8]); }
        let mut x = 0;
        while x < w {
            let mut c = 0;
            while c < n {
                let at = (y * w + x) * n + c;
                let p = if x == 0 && fresh { 1 << (prec - 1) }
                    else if x == 0 { s[at - w * n] }
                    else if fresh { s[at - n] }
                    else { predicted(pred, s[at - n], s[at - w * n], s[at - w * n - n]) };
                let d;
                if (x + y) % 2 == 0 { let m = nd_range(64, 127) as u8; v.push(m); d = m as i32; } else { let m = nd_range(0, 63) as u8; v.push(m); d = m as i32 - 127; }
                let q: i32 = p + d;
                assume(q >= 0);
                assume(q < 1 << prec);
                s.push(q);
                c += 1;
            }
            x += 1;
        }
        y += 1;
    }
    put(&mut v, &[0xFF, 0xD9]);
    let mut d = Decoder::new(S { b: v, pos: 0 });
    if n == 3 { d.set_color_transform(ColorTransform::RGB); }
    let r = d.decode();
    check(kind(&r) == 0, "C37");
    if let Ok(q) = r {
        reach("C37-any");
        let wide = prec > 8;
        check(q.len() == w * h * n * if wide { 2 } else { 1 }, "C34");
        let mut i = 0;
        while i < w * h * n {
            if wide { check(q[2 * i] == s[i] as u8, "C37"); check(q[2 * i + 1] == (s[i] >> 8) as u8, "C37"); }
            else { check(q[i] as i32 == s[i], "C37"); }
            i += 1;
        }
    }
}
pub fn root_lossless_any_1() { lossless_any(8, pick(1, 1, 3), 1, 3, 2, 0); }
pub fn root_lossless_any_4() { lossless_any(8, 4, 1, 2, 3, 0); }
pub fn root_lossless_any_5() { lossless_any(8, 5, 1, 2, 2, 0); }
pub fn root_lossless_any_6() { lossless_any(8, 6, 1, 2, 2, 0); }
pub fn root_lossless_any_7() { lossless_any(8, 7, 1, 2, 2, 0); }
pub fn root_lossless_any_rst() { lossless_any(8, pick(1, 1, 7), 1, 2, 3, pick(2, 1, 2)); }
pub fn root_lossless_any_three() { lossless_any(8, pick(1, 1, 7), 3, 2, 2, 0); }
pub fn root_lossless_any_hi() { lossless_any(12, pick(1, 1, 7), 1, 2, 2, 0); }

/// a first component twice as wide as the others: an MCU holds two samples of it
pub fn root_lossless_sub() {
    let mut v = soi();
    put_dht1(&mut v, 0, 7);
    put_sof(&mut v, 0xC3, 8, 1, 2, &[1, 2, 3], &[0x21, 0x11, 0x11]);
    put_sos(&mut v, &[1, 2, 3], 0, 1, 0, 0);
    let x = nd_range(64, 100) as u8;
    let y = nd_range(63, 63) as u8;
    put(&mut v, &[x, y, 64, 64]);
    put(&mut v, &[0xFF, 0xD9]);
    let mut d = Decoder::new(S { b: v, pos: 0 });
    d.set_color_transform(ColorTransform::RGB);
    let r = d.decode();
    check(kind(&r) == 0, "C37");
    if let Ok(q) = r {
        check(q.len() == 6, "C37");
        check(q[0] == 128 + x, "C37");
        check(q[3] == 128 + x - 64, "C37");
    }
}

/// as geometry, every block's DC value arbitrary: one byte per block in a first DC scan
fn geometry_any(w: usize, h: usize, hv: &[u8], groups: &[&[usize]], scale: usize) {
    let n = hv.len();
    let ids = [1u8, 2, 3, 4];
    let (mut hm, mut vm) = (1, 1);
    let mut i = 0;
    while i < n {
        if (hv[i] >> 4) as usize > hm { hm = (hv[i] >> 4) as usize; }
        if (hv[i] & 15) as usize > vm { vm = (hv[i] & 15) as usize; }
        i += 1;
    }
    let mut v = soi();
    put_dqt_of(&mut v, 8);
    put_dht1(&mut v, 0, 7);
    put_sof(&mut v, 0xC2, 8, h as u8, w as u8, &ids[..n], hv);
    // the DC value of block (x, y) of component c
    let mut val = vec![0i32; n * 64];
    let mut g = 0;
    while g < groups.len() {
        let mut names = Vec::new();
        let mut i = 0;
        while i < groups[g].len() { names.push(ids[groups[g][i]]); i += 1; }
        put_sos(&mut v, &names, 0, 0, 0, 0);
        let single = groups[g].len() == 1;
        let mut pred = [0i32; 4];
        let mut up = [true; 4];
        let c0 = groups[g][0];
        let mw = if single { cdiv(w * (hv[c0] >> 4) as usize, hm * 8) } else { cdiv(w, hm * 8) };
        let mh = if single { cdiv(h * (hv[c0] & 15) as usize, vm * 8) } else { cdiv(h, vm * 8) };
        let mut y = 0;
        while y < mh {
            let mut x = 0;
            while x < mw {
                let mut i = 0;
                while i < groups[g].len() {
                    let c = groups[g][i];
                    let (nh, nv) = if single { (1, 1) } else { ((hv[c] >> 4) as usize, (hv[c] & 15) as usize) };
                    let mut b = 0;
                    while b < nh * nv {
                        // seven bits of magnitude after the code '0': differences up and down in turn
                        let d;
                        if up[c] { let m = nd_range(64, 127) as u8; v.push(m); d = m as i32; } else { let m = nd_range(0, 63) as u8; v.push(m); d = m as i32 - 127; }
                        up[c] = !up[c];
                        pred[c] += d;
                        assume(pred[c] >= -128);
                        assume(pred[c] <= 127);
                        let (bx, by) = (x * nh + b % nh, y * nv + b / nh);
                        if bx < 8 && by < 8 { val[c * 64 + by * 8 + bx] = pred[c]; }
                        b += 1;
                    }
                    i += 1;
                }
                x += 1;
            }
            y += 1;
        }
        g += 1;
    }
    put(&mut v, &[0xFF, 0xD9]);
    let mut d = Decoder::new(S { b: v, pos: 0 });
    if n > 1 { d.set_color_transform(if n == 3 { ColorTransform::RGB } else { ColorTransform::CMYK }); }
    let k = kind(&d.read_info());
    check(k == 0, "C36");
    let (ow, oh) = (cdiv(w * scale, 8), cdiv(h * scale, 8));
    if scale < 8 { assume(d.scale(ow as u16, oh as u16).is_ok()); }
    let r = d.decode();
    check(kind(&r) == 0, "C36");
    if let Ok(p) = r {
        reach("C36-any");
        check(p.len() == ow * oh * n, "C34");
        if p.len() != ow * oh * n { stop(); }
        let mut c = 0;
        while c < n {
            let (ch, cv) = ((hv[c] >> 4) as usize, (hv[c] & 15) as usize);
            // components that are not interpolated
            let exact = hm != 2 * ch && vm != 2 * cv;
            let mut y = 0;
            while y < oh && exact {
                let mut x = 0;
                while x < ow {
                    let b = (y * cv / vm / scale) * 8 + x * ch / hm / scale;
                    let s = p[(y * ow + x) * n + c] as i32;
                    let s = if n == 4 { 255 - s } else { s };
                    check(s == val[c * 64 + b] + 128, "C36");
                    x += 1;
                }
                y += 1;
            }
            c += 1;
        }
    }
}
fn geo_any(lo: usize, hi: usize, mode: usize, scale: usize) {
    let l = LAYOUTS[pick(0, lo, hi)];
    let w = [9, 17, 33][pick(1, 0, 2)];
    let h = [1, 9, 17][pick(2, 0, 2)];
    let n = if l[1] == 0 { 1 } else if l[3] == 0 { 3 } else { 4 };
    let all = [0usize, 1, 2, 3];
    if mode == 0 || n == 1 { geometry_any(w, h, &l[..n], &[&all[..n]], scale); }
    else if n == 3 { geometry_any(w, h, &l[..n], &[&[2], &[0], &[1]], scale); }
    else { geometry_any(w, h, &l[..n], &[&[0], &[3], &[2], &[1]], scale); }
}
pub fn root_geo_any_one() { geo_any(0, 2, 0, 1); }
pub fn root_geo_any_all() { geo_any(3, 12, 0, 1); }
pub fn root_geo_any_sep() { geo_any(3, 14, 1, 1); }
pub fn root_geo_any_s8() { geometry_any(17, 9, &[0x11, 0x11, 0x11], &[&[0, 1, 2]], 8); }
pub fn root_geo_any_s4() { geometry_any(17, 9, &[0x21, 0x21, 0x11], &[&[0], &[1, 2]], 4); }
pub fn root_geo_any_s2() { geometry_any(33, 33, &[0x22, 0x22, 0x11, 0x22], &[&[0], &[1, 2], &[3]], 2); }

// ---- C15: streams that end anywhere ----
/// scripted bytes, then the same end of stream for ever
pub struct E { pub b: Vec<u8>, pub pos: usize }
impl Read for E {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let left = self.b.len() - self.pos;
        let n = if split(buf.len() < left) { buf.len() } else { left };
        buf[..n].copy_from_slice(&self.b[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
    fn read_exact(&mut self, buf: &mut [u8]) -> io::Result<()> {
        if split(buf.len() > self.b.len() - self.pos) {
            self.pos = self.b.len();
            return Err(nd_ioerror());
        }
        buf.copy_from_slice(&self.b[self.pos..self.pos + buf.len()]);
        self.pos += buf.len();
        Ok(())
    }
}
/// a reader whose every call from some point on fails, without the position moving
pub struct G { pub b: Vec<u8>, pub pos: usize, pub stop: usize }
impl Read for G {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let left = self.stop - self.pos;
        if left == 0 && buf.len() > 0 { return Err(nd_ioerror()); }
        let n = if split(buf.len() < left) { buf.len() } else { left };
        buf[..n].copy_from_slice(&self.b[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
    fn read_exact(&mut self, buf: &mut [u8]) -> io::Result<()> {
        if split(buf.len() > self.stop - self.pos) { return Err(nd_ioerror()); }
        buf.copy_from_slice(&self.b[self.pos..self.pos + buf.len()]);
        self.pos += buf.len();
        Ok(())
    }
}
fn ended(mut v: Vec<u8>) {
    let n = pick(0, 0, v.len());
    v.truncate(n);
    let mut d = Decoder::new(E { b: v, pos: 0 });
    let k = kind(&d.decode());
    if k == 0 { reach("C15-whole"); } else { reach("C15-ended"); }
}
fn failing(v: Vec<u8>) {
    let n = pick(0, 0, v.len());
    let mut d = Decoder::new(G { b: v, pos: 0, stop: n });
    let k = kind(&d.decode());
    if k == 0 { reach("C15-whole"); } else { reach("C15-failed"); }
}
fn all_segments() -> Vec<u8> {
    let mut v = soi();
    put_seg(&mut v, 0xE0, b"", 3);
    put_seg(&mut v, 0xE1, b"Exif\0\0", 4);
    put_seg(&mut v, 0xE2, b"ICC_PROFILE\0", 5);
    put_seg(&mut v, 0xED, b"Photoshop 3.0\0", 3);
    put_seg(&mut v, 0xEE, b"Adobe\0", 5);
    let n = v.len();
    v[n - 1] = 1;
    put_seg(&mut v, 0xFE, b"", 5);
    put(&mut v, &[0xFF, 0xFF, 0xDD, 0, 4, 0, 0, 7, 0xFF, 0]);
    put_gray(&mut v, 0xC0, 8, 8, &[0x3F, 0xFF, 0xD9]);
    v
}
fn restarts() -> Vec<u8> {
    let mut v = soi();
    put(&mut v, &[0xFF, 0xDD, 0, 4, 0, 1]);
    put_gray(&mut v, 0xC0, 8, 24, &[0x3F, 0xFF, 0xD0, 0x3F, 0xFF, 0xFF, 0xD1, 0x3F, 0xFF, 0xD9]);
    v
}
fn progressive() -> Vec<u8> {
    let mut v = soi();
    put_gray(&mut v, 0xC2, 8, 8, &[0x7F]);
    put_sos(&mut v, &[1], 0, 1, 63, 0);
    put(&mut v, &[0x7F, 0xFF, 0x00, 0xFF, 0xFF, 0xD9]);
    v
}
fn lossless_rst() -> Vec<u8> {
    let mut v = soi();
    put(&mut v, &[0xFF, 0xDD, 0, 4, 0, 2]);
    put_gray(&mut v, 0xC3, 2, 2, &[0x3F, 0xFF, 0xD0, 0x3F, 0xFF, 0xD1, 0xFF, 0xD9]);
    v
}
pub fn root_end_app() { ended(all_segments()); }
pub fn root_end_rst() { ended(restarts()); }
pub fn root_end_prog() { ended(progressive()); }
pub fn root_end_lossless() { ended(lossless_rst()); }
pub fn root_end_app_fail() { failing(all_segments()); }
pub fn root_end_rst_fail() { failing(restarts()); }
pub fn root_end_prog_fail() { failing(progressive()); }
pub fn root_end_lossless_fail() { failing(lossless_rst()); }
/// a scan whose data ends at once, before any further marker: every code is the one of zero bits, with any symbol
fn filled(m: u8, dc: u8, ss: u8, se: u8, a: u8, mk: u8) {
    let sym = if m == 0xC3 { 0 } else { pick(0, 0, 255) as u8 };
    let mut v = soi();
    put_dqt_of(&mut v, 255);
    put_dht2(&mut v, 0, dc, dc);
    put_dht2(&mut v, 0x10, sym, sym);
    put_sof(&mut v, m, 8, if m == 0xC3 { 2 } else { 8 }, 16, &[1], &[0x11]);
    put_sos(&mut v, &[1], 0, ss, se, a);
    put(&mut v, &[0xFF, mk, 0, 4, 0, 0, 0xFF, 0xD9]);
    let mut d = Decoder::new(E { b: v, pos: 0 });
    let k = kind(&d.decode());
    if k == 0 { reach("C15-filled"); }
}
pub fn root_fill_c1() { filled(0xC1, 0, 0, 63, 0, 0xD9); }
pub fn root_fill_c1_dri() { filled(0xC1, 11, 0, 63, 0, 0xDD); }
pub fn root_fill_c2_ac() { filled(0xC2, 0, 1, 63, 0, 0xD9); }
pub fn root_fill_c2_band() { filled(0xC2, 0, 5, 13, 2, 0xFE); }
pub fn root_fill_c2_ref() { filled(0xC2, 0, 1, 63, 0x10, 0xD9); }
pub fn root_fill_c2_band_ref() { filled(0xC2, 0, 60, 63, 0x21, 0xDD); }
pub fn root_fill_c3() { filled(0xC3, pick(1, 0, 16) as u8, 1, 0, 0, 0xD9); }

// ---- C35: progressive scans, complete or not, against one sequential scan of the coefficients received ----
/// 255 codes of eight bits: the code of a symbol is the symbol
fn put_dht8(v: &mut Vec<u8>, tcth: u8) {
    put(v, &[0xFF, 0xC4, 1, 18, tcth, 0, 0, 0, 0, 0, 0, 0, 255, 0, 0, 0, 0, 0, 0, 0, 0]);
    let mut i = 0;
    while i < 255 { v.push(i as u8); i += 1; }
}
/// bits of a scan
pub struct W { pub t: Vec<u8> }
impl W {
    fn bits(&mut self, x: i32, n: usize) { let mut i = n; while i > 0 { i -= 1; self.t.push(b'0' + (x >> i & 1) as u8); } }
    /// a symbol, then the value of that category
    fn coded(&mut self, run: usize, x: i32) {
        let a = if x < 0 { -x } else { x };
        let mut c = 0;
        while a >> c > 0 { c += 1; }
        self.bits((run * 16 + c) as i32, 8);
        self.bits(if x < 0 { x + (1 << c) - 1 } else { x }, c);
    }
}
fn point(x: i32, al: usize) -> i32 { if x < 0 { -(-x >> al) } else { x >> al } }
/// AC coefficients of one block: first scan of a band
fn first_ac(w: &mut W, b: &[i32], ss: usize, se: usize, al: usize) {
    let mut run = 0;
    let mut k = ss;
    while k <= se {
        let x = point(b[k], al);
        if x == 0 { run += 1; } else {
            while run > 15 { w.bits(0xF0, 8); run -= 16; }
            w.coded(run, x);
            run = 0;
        }
        k += 1;
    }
    if run > 0 { w.bits(0, 8); }
}
/// and its refinement (Section G.1.2.3)
fn refine_ac(w: &mut W, b: &[i32], ss: usize, se: usize, al: usize) {
    let mut run = 0;
    let mut pending = Vec::new();
    let mut last = ss;
    let mut k = ss;
    while k <= se { if point(b[k], al) == 1 || point(b[k], al) == -1 { last = k + 1; } k += 1; }
    let mut k = ss;
    while k <= se {
        let x = point(b[k], al);
        if x == 0 { run += 1; }
        else if x == 1 || x == -1 {
            w.bits((run * 16 + 1) as i32, 8);
            w.bits(if x > 0 { 1 } else { 0 }, 1);
            let mut i = 0;
            while i < pending.len() { w.bits(pending[i], 1); i += 1; }
            pending = Vec::new();
            run = 0;
        } else { pending.push(if x < 0 { -x & 1 } else { x & 1 }); }
        // sixteen zeros before a coefficient that is still to come
        if run == 16 && k < last {
            w.bits(0xF0, 8);
            let mut i = 0;
            while i < pending.len() { w.bits(pending[i], 1); i += 1; }
            pending = Vec::new();
            run = 0;
        }
        k += 1;
    }
    if last <= se {
        w.bits(0, 8);
        let mut i = 0;
        while i < pending.len() { w.bits(pending[i], 1); i += 1; }
    }
}
/// a scan of a progressive image: components, band, approximation high and low
pub struct Sc { pub c: &'static [usize], pub ss: usize, pub se: usize, pub ah: usize, pub al: usize }
/// blocks[c]: the coefficients of every block of component c, in zigzag order
fn progressive_scan(v: &mut Vec<u8>, s: &Sc, blocks: &[Vec<Vec<i32>>], got: &mut [Vec<Vec<i32>>]) {
    let ids = [1u8, 2, 3, 4];
    let mut names = Vec::new();
    let mut i = 0;
    while i < s.c.len() { names.push(ids[s.c[i]]); i += 1; }
    put_sos(v, &names, 0, s.ss as u8, s.se as u8, (s.ah * 16 + s.al) as u8);
    let mut w = W { t: Vec::new() };
    let mut pred = [0i32; 4];
    let mut j = 0;
    while j < blocks[0].len() {
        let mut i = 0;
        while i < s.c.len() {
            let c = s.c[i];
            let b = &blocks[c][j];
            if s.ss == 0 && s.ah == 0 {
                let x = b[0] >> s.al;
                w.coded(0, x - pred[c]);
                pred[c] = x;
            } else if s.ss == 0 {
                w.bits(b[0] >> s.al & 1, 1);
            } else if s.ah == 0 { first_ac(&mut w, b, s.ss, s.se, s.al); } else { refine_ac(&mut w, b, s.ss, s.se, s.al); }
            let mut k = s.ss;
            while k <= s.se { got[c][j][k] = if k == 0 { (b[0] >> s.al) << s.al } else { let x = point(b[k], s.al); if x < 0 { -(-x << s.al) } else { x << s.al } }; k += 1; }
            i += 1;
        }
        j += 1;
    }
    pack(&w.t, v);
}
fn block_of(pat: usize, dc: i32) -> Vec<i32> {
    let mut b = Vec::new();
    let mut k = 0;
    while k < 64 { b.push(0); k += 1; }
    b[0] = dc;
    match pat {
        0 => {}
        1 => { b[1] = 3; b[2] = -1; }
        2 => { b[1] = -1; b[2] = 6; b[63] = 1; }
        3 => { b[5] = -7; b[6] = 2; b[20] = 1; }
        4 => { b[1] = 4; b[2] = -5; b[25] = 1; b[26] = -2; b[50] = 3; }
        5 => { b[63] = -5; }
        6 => { b[1] = 6; b[9] = -4; b[40] = 1; b[41] = 9; b[60] = -1; }
        _ => { let mut k = 1; while k < 64 { b[k] = ((k * 7) % 11) as i32 - 5; k += 1; } }
    }
    b
}
/// n components of two blocks; the scans of the script up to a chosen one
fn received(n: usize, script: &[Sc], lo: usize, hi: usize, scale: usize) {
    let pat = pick(0, lo, hi);
    let upto = pick(1, 1, script.len());
    let dcs = [37i32, -30, 0, 22, -45, 11, 50, -1];
    let mut blocks = Vec::new();
    let mut got = Vec::new();
    let mut c = 0;
    while c < n {
        let mut bs = Vec::new();
        let mut gs = Vec::new();
        let mut j = 0;
        while j < 2 { bs.push(block_of((pat + c * 2 + j * 3) % 8, dcs[(pat + c * 3 + j) % 8])); gs.push(block_of(0, 0)); j += 1; }
        blocks.push(bs);
        got.push(gs);
        c += 1;
    }
    let ids = [1u8, 2, 3, 4];
    let mut v = soi();
    put_dqt_of(&mut v, 9);
    put_dht8(&mut v, 0);
    put_dht8(&mut v, 0x10);
    let mut q = Vec::new();
    put(&mut q, &v);
    put_sof(&mut v, 0xC2, 8, 8, 16, &ids[..n], &[0x11, 0x11, 0x11, 0x11]);
    let mut i = 0;
    while i < upto { progressive_scan(&mut v, &script[i], &blocks, &mut got); i += 1; }
    put(&mut v, &[0xFF, 0xD9]);
    put_sof(&mut q, 0xC1, 8, 8, 16, &ids[..n], &[0x11, 0x11, 0x11, 0x11]);
    put_sos(&mut q, &ids[..n], 0, 0, 63, 0);
    let mut w = W { t: Vec::new() };
    let mut pred = [0i32; 4];
    let mut j = 0;
    while j < 2 {
        let mut c = 0;
        while c < n {
            w.coded(0, got[c][j][0] - pred[c]);
            pred[c] = got[c][j][0];
            first_ac(&mut w, &got[c][j], 1, 63, 0);
            c += 1;
        }
        j += 1;
    }
    pack(&w.t, &mut q);
    put(&mut q, &[0xFF, 0xD9]);
    let mut a = Decoder::new(S { b: v, pos: 0 });
    let mut b = Decoder::new(S { b: q, pos: 0 });
    if n > 1 { let t = if n == 3 { ColorTransform::RGB } else { ColorTransform::CMYK }; a.set_color_transform(t); b.set_color_transform(if n == 3 { ColorTransform::RGB } else { ColorTransform::CMYK }); }
    if scale < 8 {
        let x = a.read_info().is_ok() && a.scale((2 * scale) as u16, scale as u16).is_ok();
        let y = b.read_info().is_ok() && b.scale((2 * scale) as u16, scale as u16).is_ok();
        check(x && y, "C35");
    }
    let ra = a.decode();
    let rb = b.decode();
    check(kind(&ra) == 0, "C35");
    check(kind(&rb) == 0, "C35");
    if let (Ok(x), Ok(y)) = (ra, rb) {
        if upto == script.len() { reach("C35-whole"); } else { reach("C35-part"); }
        check(x.len() == y.len() && x.len() == 2 * scale * scale * n, "C35");
        let mut i = 0;
        while i < x.len() && i < y.len() { check(x[i] == y[i], "C35"); i += 1; }
    }
}
/// successive approximation of everything
const APPROX: [Sc; 7] = [
    Sc { c: &[0], ss: 0, se: 0, ah: 0, al: 1 }, Sc { c: &[0], ss: 1, se: 5, ah: 0, al: 2 }, Sc { c: &[0], ss: 6, se: 63, ah: 0, al: 2 },
    Sc { c: &[0], ss: 1, se: 63, ah: 2, al: 1 }, Sc { c: &[0], ss: 0, se: 0, ah: 1, al: 0 }, Sc { c: &[0], ss: 1, se: 30, ah: 1, al: 0 }, Sc { c: &[0], ss: 31, se: 63, ah: 1, al: 0 },
];
/// spectral selection only
const BANDS: [Sc; 4] = [
    Sc { c: &[0], ss: 0, se: 0, ah: 0, al: 0 }, Sc { c: &[0], ss: 20, se: 63, ah: 0, al: 0 }, Sc { c: &[0], ss: 1, se: 1, ah: 0, al: 0 }, Sc { c: &[0], ss: 2, se: 19, ah: 0, al: 0 },
];
/// three components: scans of single components in any order after the DC scan
const THREE: [Sc; 8] = [
    Sc { c: &[0, 1, 2], ss: 0, se: 0, ah: 0, al: 1 }, Sc { c: &[2], ss: 1, se: 63, ah: 0, al: 1 }, Sc { c: &[0], ss: 1, se: 5, ah: 0, al: 0 },
    Sc { c: &[2], ss: 1, se: 63, ah: 1, al: 0 }, Sc { c: &[0, 1, 2], ss: 0, se: 0, ah: 1, al: 0 }, Sc { c: &[1], ss: 1, se: 63, ah: 0, al: 1 }, Sc { c: &[0], ss: 6, se: 63, ah: 0, al: 0 },
    Sc { c: &[1], ss: 1, se: 63, ah: 1, al: 0 },
];
/// components that receive nothing at first
const LATE: [Sc; 7] = [
    Sc { c: &[2], ss: 0, se: 0, ah: 0, al: 0 }, Sc { c: &[2], ss: 1, se: 63, ah: 0, al: 0 }, Sc { c: &[0, 3], ss: 0, se: 0, ah: 0, al: 0 },
    Sc { c: &[3], ss: 1, se: 63, ah: 0, al: 0 }, Sc { c: &[1], ss: 0, se: 0, ah: 0, al: 0 }, Sc { c: &[1], ss: 1, se: 63, ah: 0, al: 0 }, Sc { c: &[0], ss: 1, se: 63, ah: 0, al: 0 },
];
pub fn root_prog_approx_a() { received(1, &APPROX, 0, 3, 8); }
pub fn root_prog_approx_b() { received(1, &APPROX, 4, 7, 8); }
pub fn root_prog_bands() { received(1, &BANDS, 0, 7, 8); }
pub fn root_prog_three() { received(3, &THREE, 0, 4, 8); }
pub fn root_prog_late() { received(4, &LATE, 3, 7, 8); }
pub fn root_prog_half() { received(3, &THREE, 2, 4, 4); }
pub fn root_prog_eighth() { received(1, &APPROX, 3, 7, 1); }

// ---- C33: wide images go to a parallel worker, narrow ones to the immediate one ----
fn content(c: usize, bx: usize, by: usize, p: usize) -> Vec<i32> {
    block_of((bx * 3 + by + c * 2 + p) % 7, [37i32, -30, 0, 22, -45, 11, 50][(bx + by * 2 + c * 3 + p) % 7])
}
/// kind 0: one sequential scan; 1: a progressive image that is complete; 2: one whose AC scans are missing but for the last component;
/// 3: sequential scans of one component each
fn striped(kind: usize, mw: usize, mh: usize, hv: &[u8], p: usize) -> Vec<u8> {
    let n = hv.len();
    let ids = [1u8, 2, 3, 4];
    let (h0, v0) = ((hv[0] >> 4) as usize, (hv[0] & 15) as usize);
    let mut v = soi();
    put_dqt_of(&mut v, 9);
    put_dht8(&mut v, 0);
    put_dht8(&mut v, 0x10);
    let at = v.len();
    put_sof(&mut v, if kind == 1 || kind == 2 { 0xC2 } else { 0xC1 }, 8, (mh * v0 * 8) as u8, 1, &ids[..n], hv);
    v[at + 7] = (mw * h0 * 8 / 256) as u8;
    v[at + 8] = (mw * h0 * 8 % 256) as u8;
    let prog = kind == 1 || kind == 2;
    let scans = if kind == 3 { n } else { 1 };
    let mut s = 0;
    while s < scans {
        let (c0, c1) = if kind == 3 { (s, s + 1) } else { (0, n) };
        let single = c1 - c0 == 1;
        put_sos(&mut v, &ids[c0..c1], 0, 0, if prog { 0 } else { 63 }, 0);
        let mut w = W { t: Vec::new() };
        let mut pred = [0i32; 4];
        let (hh, vv) = ((hv[c0] >> 4) as usize, (hv[c0] & 15) as usize);
        let (cols, rows) = if single { (mw * hh, mh * vv) } else { (mw, mh) };
        let mut y = 0;
        while y < rows {
            let mut x = 0;
            while x < cols {
                let mut c = c0;
                while c < c1 {
                    let (nh, nv) = if single { (1, 1) } else { ((hv[c] >> 4) as usize, (hv[c] & 15) as usize) };
                    let mut b = 0;
                    while b < nh * nv {
                        let k = content(c, x * nh + b % nh, y * nv + b / nh, p);
                        w.coded(0, k[0] - pred[c]);
                        pred[c] = k[0];
                        if !prog { first_ac(&mut w, &k, 1, 63, 0); }
                        b += 1;
                    }
                    c += 1;
                }
                x += 1;
            }
            y += 1;
        }
        pack(&w.t, &mut v);
        s += 1;
    }
    if prog {
        let mut c = if kind == 2 { n - 1 } else { 0 };
        while c < n {
            put_sos(&mut v, &ids[c..c + 1], 0, 1, 63, 0);
            let mut w = W { t: Vec::new() };
            let (hh, vv) = ((hv[c] >> 4) as usize, (hv[c] & 15) as usize);
            let mut y = 0;
            while y < mh * vv {
                let mut x = 0;
                while x < mw * hh { first_ac(&mut w, &content(c, x, y, p), 1, 63, 0); x += 1; }
                y += 1;
            }
            pack(&w.t, &mut v);
            c += 1;
        }
    }
    put(&mut v, &[0xFF, 0xD9]);
    v
}
fn workers(kind_: usize, hv: &[u8], mh: usize) { workers_at(kind_, hv, mh, 8); }
/// s: size of a block in the output
fn workers_at(kind_: usize, hv: &[u8], mh: usize, s: usize) {
    let n = hv.len();
    let h0 = (hv[0] >> 4) as usize;
    let v0 = (hv[0] & 15) as usize;
    let (nw, ww) = (128 / (s * h0), 128 / (s * h0) + 1);
    let p = pick(0, 0, 1);
    let mut a = Decoder::new(S { b: striped(kind_, nw, mh, hv, p), pos: 0 });
    let mut b = Decoder::new(S { b: striped(kind_, ww, mh, hv, p), pos: 0 });
    if n == 3 { a.set_color_transform(ColorTransform::RGB); b.set_color_transform(ColorTransform::RGB); }
    if n == 4 { a.set_color_transform(ColorTransform::CMYK); b.set_color_transform(ColorTransform::CMYK); }
    let (wx, wy, h) = (128, 128 + s * h0, mh * v0 * s);
    if s != 8 {
        check(matches!(a.scale(wx as u16, h as u16), Ok((w, k)) if w as usize == wx && k as usize == h), "C33");
        check(matches!(b.scale(wy as u16, h as u16), Ok((w, k)) if w as usize == wy && k as usize == h), "C33");
    }
    let ra = a.decode();
    let rb = b.decode();
    check(kind(&ra) == 0, "C33");
    let k = kind(&rb);
    // a thread that cannot be started
    if k == 2 { stop(); }
    check(k == 0, "C33");
    if let (Ok(x), Ok(y)) = (ra, rb) {
        check(x.len() == wx * h * n && y.len() == wy * h * n, "C33");
        if x.len() != wx * h * n || y.len() != wy * h * n { stop(); }
        reach("C33-compared");
        let cols = if h0 == 1 { 128 } else { 128 - s };
        let mut r = 0;
        while r < h {
            let mut i = 0;
            while i < cols * n { check(x[r * wx * n + i] == y[r * wy * n + i], "C33"); i += 1; }
            r += 1;
        }
    }
}
pub fn root_work_half_420() { workers_at(0, &[0x22, 0x11, 0x11], 2, 4); }
pub fn root_work_half_part() { workers_at(2, &[0x21, 0x11, 0x11], 2, 4); }
pub fn root_work_quarter() { workers_at(0, &[0x11], 1, 2); }
pub fn root_work_seq_1() { workers(0, &[0x11], 2); }
pub fn root_work_seq_3() { workers(0, &[0x11, 0x11, 0x11], 2); }
pub fn root_work_seq_422() { workers(0, &[0x21, 0x11, 0x11], 2); }
pub fn root_work_seq_420() { workers(0, &[0x22, 0x11, 0x11], 2); }
pub fn root_work_sep_420() { workers(3, &[0x22, 0x11, 0x11], 2); }
pub fn root_work_prog_3() { workers(1, &[0x11, 0x11, 0x11], 2); }
pub fn root_work_prog_440() { workers(1, &[0x12, 0x11, 0x11], 1); }
pub fn root_work_part_420() { workers(2, &[0x22, 0x11, 0x11], 1); }
pub fn root_work_part_1() { workers(2, &[0x11], 2); }
pub fn root_work_seq_4() { workers(0, &[0x11, 0x11, 0x11, 0x11], 1); }
