//! A concrete reference of Noise_NX_25519_ChaChaPoly_BLAKE2s, written from the Noise
//! specification (revision 34).

use crate::refprims::*;

pub const NAME: &[u8] = b"Noise_NX_25519_ChaChaPoly_BLAKE2s";

#[derive(Clone)]
pub struct Cs {
    pub k: [u8; 32],
    pub n: u64,
}
impl Cs {
    pub fn seal(&mut self, ad: &[u8], p: &[u8]) -> Vec<u8> {
        let c = seal(&self.k, self.n, ad, p);
        self.n += 1;
        c
    }
    pub fn open(&mut self, ad: &[u8], c: &[u8]) -> Option<Vec<u8>> {
        let p = open(&self.k, self.n, ad, c)?;
        self.n += 1;
        Some(p)
    }
    pub fn rekey(&mut self) {
        let z = seal(&self.k, u64::MAX, &[], &[0u8; 32]);
        self.k.copy_from_slice(&z[..32]);
    }
}

#[derive(Clone)]
pub struct Sym {
    pub h: [u8; 32],
    pub ck: [u8; 32],
    cs: Option<Cs>,
}
impl Sym {
    pub fn new(prologue: &[u8]) -> Sym {
        // The name is longer than HASHLEN, so it is hashed.
        let h = blake2s(&[NAME]);
        let mut s = Sym { h, ck: h, cs: None };
        s.mix_hash(prologue);
        s
    }
    pub fn mix_hash(&mut self, d: &[u8]) {
        self.h = blake2s(&[&self.h, d]);
    }
    pub fn mix_key(&mut self, ikm: &[u8]) {
        let (ck, k) = hkdf2(&self.ck, ikm);
        self.ck = ck;
        self.cs = Some(Cs { k, n: 0 });
    }
    pub fn seal(&mut self, p: &[u8]) -> Vec<u8> {
        let h = self.h;
        let c = match &mut self.cs {
            Some(cs) => cs.seal(&h, p),
            None => p.to_vec(),
        };
        self.mix_hash(&c);
        c
    }
    pub fn open(&mut self, c: &[u8]) -> Option<Vec<u8>> {
        let h = self.h;
        let p = match &mut self.cs {
            Some(cs) => cs.open(&h, c)?,
            None => c.to_vec(),
        };
        self.mix_hash(c);
        Some(p)
    }
    pub fn split(&self) -> (Cs, Cs) {
        let (a, b) = hkdf2(&self.ck, &[]);
        (Cs { k: a, n: 0 }, Cs { k: b, n: 0 })
    }
}

pub struct Done {
    pub h: [u8; 32],
    /// initiator to responder
    pub c1: Cs,
    /// responder to initiator
    pub c2: Cs,
}

pub struct Initiator {
    pub sym: Sym,
    pub e: [u8; 32],
}
impl Initiator {
    pub fn new(prologue: &[u8], e: [u8; 32]) -> Initiator {
        Initiator {
            sym: Sym::new(prologue),
            e,
        }
    }
    pub fn write_a(&mut self, payload: &[u8]) -> Vec<u8> {
        let pe = x25519_base(&self.e);
        self.sym.mix_hash(&pe);
        let mut m = pe.to_vec();
        m.extend(self.sym.seal(payload));
        m
    }
    /// (payload, remote static key, result)
    pub fn read_b(&mut self, m: &[u8]) -> Option<(Vec<u8>, [u8; 32], Done)> {
        if m.len() < 96 {
            return None;
        }
        let mut re = [0u8; 32];
        re.copy_from_slice(&m[..32]);
        self.sym.mix_hash(&re);
        self.sym.mix_key(&x25519(&self.e, &re));
        let s = self.sym.open(&m[32..80])?;
        let mut rs = [0u8; 32];
        rs.copy_from_slice(&s);
        self.sym.mix_key(&x25519(&self.e, &rs));
        let p = self.sym.open(&m[80..])?;
        let (c1, c2) = self.sym.split();
        Some((p, rs, Done { h: self.sym.h, c1, c2 }))
    }
}

pub struct Responder {
    pub sym: Sym,
    pub e: [u8; 32],
    pub s: [u8; 32],
    re: [u8; 32],
}
impl Responder {
    pub fn new(prologue: &[u8], s: [u8; 32], e: [u8; 32]) -> Responder {
        Responder {
            sym: Sym::new(prologue),
            e,
            s,
            re: [0; 32],
        }
    }
    pub fn read_a(&mut self, m: &[u8]) -> Option<Vec<u8>> {
        if m.len() < 32 {
            return None;
        }
        self.re.copy_from_slice(&m[..32]);
        self.sym.mix_hash(&m[..32]);
        self.sym.open(&m[32..])
    }
    pub fn write_b(&mut self, payload: &[u8]) -> (Vec<u8>, Done) {
        let pe = x25519_base(&self.e);
        let ps = x25519_base(&self.s);
        self.write_b_with(&pe, &ps, payload)
    }
    /// With arbitrary public keys put on the wire (for degenerate-key checks).
    pub fn write_b_with(&mut self, pe: &[u8; 32], ps: &[u8; 32], payload: &[u8]) -> (Vec<u8>, Done) {
        self.sym.mix_hash(pe);
        let mut m = pe.to_vec();
        let ee = self.shared(pe, &self.e);
        self.sym.mix_key(&ee);
        m.extend(self.sym.seal(ps));
        let es = self.shared(ps, &self.s);
        self.sym.mix_key(&es);
        m.extend(self.sym.seal(payload));
        let (c1, c2) = self.sym.split();
        (m, Done { h: self.sym.h, c1, c2 })
    }
    /// The secret the initiator will compute from the key on the wire: for a key of ours the
    /// usual product, for a low-order key zero.
    fn shared(&self, on_wire: &[u8; 32], private: &[u8; 32]) -> [u8; 32] {
        if *on_wire == x25519_base(private) {
            x25519(private, &self.re)
        } else {
            [0u8; 32]
        }
    }
}
