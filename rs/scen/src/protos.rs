//! One adapter per protocol: an honest statement/witness pair with every value unknown, its prover and verifier.
use crate::env::*;
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use merlin::Transcript;
use qesa::matrix::BlockMatrix;
use qesa::vp::{self, ad, Acc, LeafClone, Leaves, Visitor};

pub type Pt = RistrettoPoint;
pub type Basis = Vec<(String, Pt)>;

pub trait Proto: Sized {
    type Proof: Leaves + LeafClone;
    fn new(c: &Cfg) -> Self;
    fn prove(&self, tr: &mut Transcript) -> Self::Proof;
    fn verify(&self, p: &Self::Proof, tr: &mut Transcript) -> bool;
    /// group elements an algebraic adversary can combine
    fn basis(&self) -> Basis;
    /// what the prover claims (commitments, images, target values)
    fn claims(&mut self, v: &mut dyn Visitor);
    /// every public input
    fn publics(&mut self, v: &mut dyn Visitor);
    /// expected values the analysis needs
    fn notes(&self) {}
}
fn named(n: &str, v: &[Pt]) -> Basis {
    v.iter().enumerate().map(|(i, x)| (format!("{}{}", n, i), *x)).collect()
}
fn bm(v: &Vec<Vec<Vec<Scalar>>>) -> BlockMatrix {
    let mut b = BlockMatrix::new();
    for m in v {
        b.push(m.clone())
    }
    b
}

// ---------------------------------------------------------------- inner product argument
pub struct Ipa {
    n: usize,
    g: Vec<Pt>,
    h: Vec<Pt>,
    q: Pt,
    a: Vec<Scalar>,
    b: Vec<Scalar>,
    pc: Pt,
    t: Scalar,
}
impl Proto for Ipa {
    type Proof = vp::ipa_no_zk::NoZK;
    fn new(c: &Cfg) -> Self {
        let n = c.u("n");
        let (g, h, q) = (pvec("G", n), pvec("H", n), p("Q"));
        let (a, b) = (svec("a", n), svec("b", n));
        let t = ip(&a, &b);
        let pc = plin(&a, &g) + plin(&b, &h) + t * q;
        Ipa { n: c.u_or("vn", n), g, h, q, a, b, pc, t }
    }
    fn prove(&self, tr: &mut Transcript) -> Self::Proof {
        vp::ipa_no_zk::create(tr, ad(&self.g), ad(&self.h), ad(&self.q), ad(&self.a), ad(&self.b))
    }
    fn verify(&self, p: &Self::Proof, tr: &mut Transcript) -> bool {
        p.verify(tr, ad(&self.g), ad(&self.h), ad(&self.q), ad(self.n), ad(&self.pc), ad(&self.t)).acc()
    }
    fn basis(&self) -> Basis {
        [named("G", &self.g), named("H", &self.h), vec![("Q".into(), self.q)]].concat()
    }
    fn claims(&mut self, v: &mut dyn Visitor) {
        self.pc.visit("P", v);
        self.t.visit("t", v);
    }
    fn publics(&mut self, v: &mut dyn Visitor) {
        self.g.visit("G", v);
        self.h.visit("H", v);
        self.q.visit("Q", v);
        self.claims(v);
    }
}

// ---------------------------------------------------------------- masked inner product argument
pub struct Alm {
    n: usize,
    g: Vec<Pt>,
    h: Vec<Pt>,
    q: Pt,
    a: Vec<Scalar>,
    b: Vec<Scalar>,
    cw: Pt,
    t: Scalar,
}
impl Proto for Alm {
    type Proof = vp::alm_zk::AlmZK;
    fn new(c: &Cfg) -> Self {
        let n = c.u("n");
        let (g, h, q) = (pvec("G", n), pvec("H", n), p("Q"));
        let (a, b) = (svec("a", n), svec("b", n));
        let t = ip(&a, &b);
        let cw = plin(&a, &g) + plin(&b, &h);
        Alm { n: c.u_or("vn", n), g, h, q, a, b, cw, t }
    }
    fn prove(&self, tr: &mut Transcript) -> Self::Proof {
        vp::alm_zk::create(tr, ad(&self.g), ad(&self.h), ad(&self.q), ad(&self.cw), ad(&self.a), ad(&self.b), ad(&self.t))
    }
    fn verify(&self, p: &Self::Proof, tr: &mut Transcript) -> bool {
        p.verify(tr, ad(&self.g), ad(&self.h), ad(&self.q), ad(self.n), ad(&self.cw), ad(&self.t)).acc()
    }
    fn basis(&self) -> Basis {
        [named("G", &self.g), named("H", &self.h), vec![("Q".into(), self.q)]].concat()
    }
    fn claims(&mut self, v: &mut dyn Visitor) {
        self.cw.visit("C_w", v);
        self.t.visit("t", v);
    }
    fn publics(&mut self, v: &mut dyn Visitor) {
        self.g.visit("G", v);
        self.h.visit("H", v);
        self.q.visit("Q", v);
        self.claims(v);
    }
    fn notes(&self) {
        out_p("stmt:C_w", &self.cw);
        out_s("stmt:t", &self.t);
    }
}

// ---------------------------------------------------------------- quadratic equations
/// `k` matrices of size d x d with entries unknown, each satisfied by w (w[0] = 1): every satisfied system arises
/// by choosing all entries but the first freely.  `free[i]` false: row and column i are zero.
pub fn satisfied(tag: &str, k: usize, d: usize, w: &[Scalar], free: &dyn Fn(usize) -> bool) -> Vec<Vec<Vec<Scalar>>> {
    let mut out = vec![];
    for b in 0..k {
        let mut m = vec![vec![Scalar::zero(); d]; d];
        let mut acc = Scalar::zero();
        for i in 0..d {
            for j in 0..d {
                if (i, j) == (0, 0) || !free(i) || !free(j) {
                    continue;
                }
                m[i][j] = s(&format!("{}{}_{}_{}", tag, b, i, j));
                acc = acc + m[i][j] * (w[i] * w[j]);
            }
        }
        m[0][0] = -acc;
        out.push(m);
    }
    out
}
/// unconstrained matrices
pub fn arbitrary_blocks(tag: &str, k: usize, d: usize) -> Vec<Vec<Vec<Scalar>>> {
    (0..k)
        .map(|b| (0..d).map(|i| (0..d).map(|j| s(&format!("{}{}_{}_{}", tag, b, i, j))).collect()).collect())
        .collect()
}
fn witness(n: usize) -> Vec<Scalar> {
    let mut w = svec("w", n - 2);
    w[0] = Scalar::one();
    w
}

pub struct Qesa {
    g: Vec<Pt>,
    h: Vec<Pt>,
    q: Pt,
    gamma: Vec<Vec<Vec<Scalar>>>,
    w: Vec<Scalar>,
    r: Vec<Scalar>,
}
impl Proto for Qesa {
    type Proof = vp::qesa_inner::Inner;
    fn new(c: &Cfg) -> Self {
        let n = c.u("n");
        let k = c.u("blocks");
        let w = witness(n);
        let gamma = if c.u_or("anygamma", 0) == 1 { arbitrary_blocks("g", k, n - 2) } else { satisfied("g", k, n - 2, &w, &|_| true) };
        Qesa { g: pvec("G", n), h: pvec("H", n), q: p("Q"), gamma, w, r: svec("rp", 2) }
    }
    fn prove(&self, tr: &mut Transcript) -> Self::Proof {
        let b = bm(&self.gamma);
        vp::qesa_inner::create(tr, ad(&self.g), ad(&self.h), ad(&self.q), ad(&b), ad(&self.w), ad(&self.r))
    }
    fn verify(&self, p: &Self::Proof, tr: &mut Transcript) -> bool {
        let b = bm(&self.gamma);
        p.verify(tr, ad(&self.g), ad(&self.h), ad(&self.q), ad(&b)).acc()
    }
    fn basis(&self) -> Basis {
        [named("G", &self.g), named("H", &self.h), vec![("Q".into(), self.q)]].concat()
    }
    fn claims(&mut self, _v: &mut dyn Visitor) {}
    fn publics(&mut self, v: &mut dyn Visitor) {
        self.g.visit("G", v);
        self.h.visit("H", v);
        self.q.visit("Q", v);
        self.gamma.visit("gamma", v);
    }
}
/// through the public interface
pub struct Zk(Qesa);
impl Proto for Zk {
    type Proof = qesa::qesa_zk::Zk;
    fn new(c: &Cfg) -> Self {
        Zk(Qesa::new(c))
    }
    fn prove(&self, tr: &mut Transcript) -> Self::Proof {
        let s = &self.0;
        let b = bm(&s.gamma);
        qesa::qesa_zk::create(tr, s.g.clone(), s.h.clone(), s.q, &b, s.w.clone())
    }
    fn verify(&self, p: &Self::Proof, tr: &mut Transcript) -> bool {
        let s = &self.0;
        let b = bm(&s.gamma);
        p.verify(tr, s.g.clone(), s.h.clone(), &s.q, &b).acc()
    }
    fn basis(&self) -> Basis {
        self.0.basis()
    }
    fn claims(&mut self, _v: &mut dyn Visitor) {}
    fn publics(&mut self, v: &mut dyn Visitor) {
        self.0.publics(v)
    }
}

// ---------------------------------------------------------------- copy argument
pub struct Cp {
    g: Vec<Pt>,
    h: Vec<Pt>,
    q: Pt,
    gamma: Vec<Vec<Vec<Scalar>>>,
    w: Vec<Scalar>,
    sets: Vec<std::collections::BTreeSet<u16>>,
    open: Vec<(Vec<Scalar>, Scalar)>,
    comms: Vec<Pt>,
    ws: usize,
}
pub fn parse_sets(s: &str) -> Vec<std::collections::BTreeSet<u16>> {
    // no commitments at all
    if s == "none" {
        return vec![];
    }
    s.split(';').map(|t| t.split(',').filter(|x| !x.is_empty()).map(|x| x.trim().parse().unwrap()).collect()).collect()
}
impl Cp {
    fn map(&self) -> vp::mapping::Mapping {
        vp::mapping::compute_mapping(ad(self.g.len()), ad(self.ws), ad_sets(&self.sets))
    }
}
pub fn ad_sets(s: &Vec<std::collections::BTreeSet<u16>>) -> &[std::collections::BTreeSet<u16>] {
    &s[..]
}
impl Proto for Cp {
    type Proof = vp::copy_::Copy;
    fn new(c: &Cfg) -> Self {
        let n = c.u("n");
        let ws = c.u("ws");
        let k = c.u("blocks");
        let sets = parse_sets(c.s("sets"));
        let g = pvec("G", n);
        let idx: std::collections::BTreeSet<usize> = sets.iter().flatten().map(|x| *x as usize).collect();
        let mut w = svec("w", ws);
        w[0] = Scalar::one();
        for i in 1..ws {
            if idx.contains(&i) {
                w[i] = Scalar::zero();
            }
        }
        let mut open = vec![];
        let mut comms = vec![];
        for (i, st) in sets.iter().enumerate() {
            let m = svec(&format!("m{}_", i), st.len());
            let r = s(&format!("cr{}", i));
            let mut cm = r * g[n - 1];
            for (x, j) in m.iter().zip(st.iter()) {
                cm = cm + x * g[*j as usize];
            }
            open.push((m, r));
            comms.push(cm);
        }
        let mut cp = Cp { g, h: pvec("H", n), q: p("Q"), gamma: vec![], w, sets, open, comms, ws };
        // the full witness: the messages sit where the mapping puts them
        let map = cp.map();
        let mut full = vec![Scalar::zero(); n - 2];
        full[..ws].copy_from_slice(&cp.w[..]);
        let flat: Vec<Scalar> = cp.open.iter().flat_map(|(m, _)| m.clone()).collect();
        for (x, mm) in flat.iter().zip(vp_msgs(&map)) {
            full[mm.pos] = *x;
        }
        cp.gamma = if c.u_or("anygamma", 0) == 2 {
            let mut g = arbitrary_blocks("g", k, n - 2);
            for m in g.iter_mut() {
                for i in 0..n - 2 {
                    for j in 0..n - 2 {
                        if idx.contains(&i) || idx.contains(&j) {
                            m[i][j] = Scalar::zero();
                        }
                    }
                }
            }
            g
        } else if c.u_or("anygamma", 0) == 1 {
            arbitrary_blocks("g", k, n - 2)
        } else {
            satisfied("g", k, n - 2, &full, &|i| !idx.contains(&i))
        };
        cp
    }
    fn prove(&self, tr: &mut Transcript) -> Self::Proof {
        let b = bm(&self.gamma);
        vp::copy_::create(tr, ad(&self.g), ad(&self.h), ad(&self.q), ad(&self.map()), ad(&b), ad(&self.w), ad(&self.open))
    }
    fn verify(&self, p: &Self::Proof, tr: &mut Transcript) -> bool {
        let b = bm(&self.gamma);
        vp::copy_::vp::verify(p, tr, &self.g, &self.h, &self.q, &b, &self.map(), &self.comms)
    }
    fn basis(&self) -> Basis {
        [named("G", &self.g), named("H", &self.h), vec![("Q".into(), self.q)]].concat()
    }
    fn claims(&mut self, _v: &mut dyn Visitor) {}
    fn publics(&mut self, v: &mut dyn Visitor) {
        self.g.visit("G", v);
        self.h.visit("H", v);
        self.q.visit("Q", v);
        self.gamma.visit("gamma", v);
        self.comms.visit("comms", v);
    }
    fn notes(&self) {
        for (i, m) in vp_msgs(&self.map()).iter().enumerate() {
            out_n(&format!("map:{}:pos", i), m.pos);
            out_n(&format!("map:{}:index", i), m.index);
            out_n(&format!("map:{}:crs", i), m.crs);
        }
        for (i, c) in self.comms.iter().enumerate() {
            out_p(&format!("stmt:comm{}", i), c);
        }
    }
}
pub fn vp_msgs(m: &vp::mapping::Mapping) -> Vec<vp::mapping::vp::Msg> {
    vp::mapping::vp::msgs(m)
}

// ---------------------------------------------------------------- linear map preimage arguments
pub struct Lm {
    m: usize,
    n: usize,
    k: usize,
    /// what the verifier is told
    vm: usize,
    vn: usize,
    vk: usize,
    a: Vec<Vec<Pt>>,
    g: Vec<Pt>,
    h: Vec<Pt>,
    q: Pt,
    w: Vec<Scalar>,
    t: Vec<Pt>,
}
impl Lm {
    fn mk(c: &Cfg) -> Self {
        let (m, n) = (c.u("m"), c.u("n"));
        let a: Vec<Vec<Pt>> = (0..m).map(|i| pvec(&format!("A{}_", i), n)).collect();
        let w = svec("w", n);
        let t = a.iter().map(|r| plin(&w, r)).collect();
        let k = c.u_or("k", 2);
        Lm { m, n, k, vm: c.u_or("vm", m), vn: c.u_or("vn", n), vk: c.u_or("vk", k), a, g: pvec("G", n), h: pvec("H", n), q: p("Q"), w, t }
    }
    fn basis_(&self) -> Basis {
        let mut b = vec![];
        for (i, r) in self.a.iter().enumerate() {
            b.extend(named(&format!("A{}_", i), r));
        }
        b
    }
    fn claims_(&mut self, v: &mut dyn Visitor) {
        self.t.visit("t", v);
    }
    fn publics_(&mut self, v: &mut dyn Visitor) {
        self.a.visit("A", v);
        self.t.visit("t", v);
    }
    fn notes_(&self) {
        for (i, x) in self.t.iter().enumerate() {
            out_p(&format!("stmt:t{}", i), x);
        }
    }
}
macro_rules! lm {
    ($N:ident, $P:ty, |$s:ident, $tr:ident| $create:expr, |$s2:ident, $p:ident, $tr2:ident| $verify:expr) => {
        pub struct $N(Lm);
        impl Proto for $N {
            type Proof = $P;
            fn new(c: &Cfg) -> Self {
                $N(Lm::mk(c))
            }
            fn prove(&self, $tr: &mut Transcript) -> Self::Proof {
                let $s = &self.0;
                $create
            }
            fn verify(&self, $p: &Self::Proof, $tr2: &mut Transcript) -> bool {
                let $s2 = &self.0;
                $verify.acc()
            }
            fn basis(&self) -> Basis {
                self.0.basis_()
            }
            fn claims(&mut self, v: &mut dyn Visitor) {
                self.0.claims_(v)
            }
            fn publics(&mut self, v: &mut dyn Visitor) {
                self.0.publics_(v)
            }
            fn notes(&self) {
                self.0.notes_()
            }
        }
    };
}
fn zero_pt() -> Pt {
    Pt::default()
}
lm!(
    Lmpa,
    qesa::lmpa::no_zk::NoZK,
    |s, tr| qesa::lmpa::no_zk::create(tr, s.a.clone(), s.g.clone(), s.h.clone(), &s.q, s.w.clone()),
    |s, p, tr| p.verify(tr, s.a.clone(), s.g.clone(), s.h.clone(), &s.q, s.vn, s.t.clone())
);
lm!(
    Klmpa,
    qesa::lmpa::no_zk::lmpa_noZK,
    |s, tr| qesa::lmpa::no_zk::create_lmpa_noZK(tr, s.a.clone(), s.w.clone(), s.t.clone(), s.n, s.m, s.k, Scalar::one(), zero_pt()),
    |s, p, tr| p.verify_lmpa_noZK(tr, s.a.clone(), s.t.clone(), s.vn, s.vm, s.vk, Scalar::one(), zero_pt())
);
lm!(
    Szk,
    qesa::lmpa::simple_zk::SimpleZK,
    |s, tr| qesa::lmpa::simple_zk::create(tr, s.a.clone(), s.g.clone(), s.h.clone(), &s.q, s.w.clone()),
    |s, p, tr| p.verify(tr, s.a.clone(), s.g.clone(), s.h.clone(), &s.q, s.vn, s.t.clone())
);
lm!(
    Gzk,
    qesa::lmpa::simple_zk::SimpleZK_general,
    |s, tr| qesa::lmpa::simple_zk::create_general(tr, s.a.clone(), s.w.clone(), s.t.clone(), s.n, s.m, s.k),
    |s, p, tr| p.verify_general(tr, s.a.clone(), s.t.clone(), s.vn, s.vm, s.vk)
);
