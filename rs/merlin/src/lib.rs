//! Recording stand-in for merlin::Transcript: an ideal transcript (random oracle over the full history).
#[derive(Clone)]
pub struct Transcript {
    hist: Vec<u64>,
    tid: u32,
}
impl Transcript {
    pub fn new(label: &'static [u8]) -> Transcript {
        let mut t = Transcript { hist: vec![], tid: vpcore::new_tid() };
        t.append_message(b"dom-sep", label);
        t
    }
    pub fn append_message(&mut self, label: &'static [u8], message: &[u8]) {
        vpcore::append(&mut self.hist, self.tid, label, message)
    }
    pub fn commit_bytes(&mut self, label: &'static [u8], message: &[u8]) {
        self.append_message(label, message)
    }
    pub fn append_u64(&mut self, label: &'static [u8], x: u64) {
        self.append_message(label, &x.to_le_bytes())
    }
    pub fn commit_u64(&mut self, label: &'static [u8], x: u64) {
        self.append_u64(label, x)
    }
    pub fn challenge_bytes(&mut self, label: &'static [u8], dest: &mut [u8]) {
        vpcore::challenge(&mut self.hist, self.tid, label, dest)
    }
}

impl Transcript {
    pub fn build_rng(&self) -> TranscriptRngBuilder {
        TranscriptRngBuilder { st: self.hist.clone() }
    }
}
/// Bytes are fresh when the generator is finalised with system randomness, otherwise a function of what it was given.
pub struct TranscriptRngBuilder {
    st: Vec<u64>,
}
impl TranscriptRngBuilder {
    pub fn rekey_with_witness_bytes(mut self, label: &'static [u8], w: &[u8]) -> Self {
        self.st.extend(label.iter().map(|x| *x as u64));
        self.st.extend(w.iter().map(|x| *x as u64));
        self
    }
    pub fn commit_witness_bytes(self, label: &'static [u8], w: &[u8]) -> Self {
        self.rekey_with_witness_bytes(label, w)
    }
    pub fn finalize<R: rand_core::RngCore + rand_core::CryptoRng>(self, r: &mut R) -> TranscriptRng {
        let mut b = [0u8; 32];
        r.fill_bytes(&mut b);
        let fresh = vpcore::from_system(&b);
        if !fresh {
            vpcore::with(|e| e.log.push("[\"seeded\"]".to_string()));
        }
        let mut h = vec![];
        for x in self.st.iter() {
            h.extend_from_slice(&x.to_le_bytes());
        }
        TranscriptRng { fresh, st: vpcore::hash64(&h, 17) }
    }
}
pub struct TranscriptRng {
    fresh: bool,
    st: u64,
}
impl rand_core::RngCore for TranscriptRng {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0u8; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0u8; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        if self.fresh {
            return vpcore::rng_fill(d);
        }
        for b in d.iter_mut() {
            self.st = self.st.wrapping_add(0x9E3779B97F4A7C15);
            *b = vpcore::hash64(&self.st.to_le_bytes(), 3) as u8
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl rand_core::CryptoRng for TranscriptRng {}
