#![allow(dead_code)]
//! Builds small JPEG streams by hand.
pub struct Jpg(pub Vec<u8>);
impl Jpg {
    pub fn new() -> Jpg { Jpg(vec![0xFF, 0xD8]) }
    pub fn raw(mut self, b: &[u8]) -> Jpg { self.0.extend_from_slice(b); self }
    pub fn seg(mut self, m: u8, body: &[u8]) -> Jpg {
        self.0.extend_from_slice(&[0xFF, m]);
        self.0.extend_from_slice(&((body.len() + 2) as u16).to_be_bytes());
        self.0.extend_from_slice(body);
        self
    }
    /// comps: (id, hv, tq)
    pub fn sof(self, m: u8, prec: u8, w: u16, h: u16, comps: &[(u8, u8, u8)]) -> Jpg {
        let mut b = vec![prec];
        b.extend_from_slice(&h.to_be_bytes());
        b.extend_from_slice(&w.to_be_bytes());
        b.push(comps.len() as u8);
        for c in comps { b.extend_from_slice(&[c.0, c.1, c.2]); }
        self.seg(m, &b)
    }
    /// comps: (id, tables)
    pub fn sos(self, comps: &[(u8, u8)], ss: u8, se: u8, a: u8) -> Jpg {
        let mut b = vec![comps.len() as u8];
        for c in comps { b.extend_from_slice(&[c.0, c.1]); }
        b.extend_from_slice(&[ss, se, a]);
        self.seg(0xDA, &b)
    }
    pub fn dqt(self, t: u8, v: u8) -> Jpg {
        let mut b = vec![t];
        b.extend_from_slice(&[v; 64]);
        self.seg(0xDB, &b)
    }
    /// One code of one bit (0) for the given symbol.
    pub fn dht1(self, tcth: u8, sym: u8) -> Jpg {
        let mut b = vec![tcth, 1];
        b.extend_from_slice(&[0; 15]);
        b.push(sym);
        self.seg(0xC4, &b)
    }
    /// Codes 0, 10, 110, ... for the given symbols.
    pub fn dht(self, tcth: u8, syms: &[u8]) -> Jpg {
        let mut b = vec![tcth];
        for i in 0..16 { b.push((i < syms.len()) as u8); }
        b.extend_from_slice(syms);
        self.seg(0xC4, &b)
    }
    pub fn eoi(self) -> Vec<u8> { self.raw(&[0xFF, 0xD9]).0 }
}
/// A valid 8x8 grayscale baseline image, up to the scan data.
pub fn gray8() -> Jpg {
    Jpg::new().dqt(0, 1).sof(0xC0, 8, 8, 8, &[(1, 0x11, 0)]).dht1(0x00, 0).dht1(0x10, 0)
        .sos(&[(1, 0)], 0, 63, 0).raw(&[0])
}
