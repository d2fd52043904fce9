//! Engine shared by the symbolic stand-ins for curve25519-dalek, merlin and rand.
//!
//! Symbolic mode: scalars are nodes of a hash-consed expression graph over variables; points are formal linear
//! combinations of basis symbols with scalar coefficients.  Everything the executed code does is recorded: the
//! graph, every comparison it branched on, every transcript operation, every random draw.  The recording is what
//! the SMT queries are generated from.
//!
//! Concrete mode (replay against the real curve25519-dalek): variables take the values of an assignment file.
use std::cell::RefCell;
use std::collections::HashMap;

pub const P61: u64 = (1u64 << 61) - 1;

fn mulm(a: u64, b: u64) -> u64 {
    let t = (a as u128) * (b as u128);
    let lo = (t & (P61 as u128)) as u64;
    let hi = (t >> 61) as u64;
    let s = lo + hi;
    if s >= P61 { s - P61 } else { s }
}
fn addm(a: u64, b: u64) -> u64 {
    let s = a + b;
    if s >= P61 { s - P61 } else { s }
}
fn negm(a: u64) -> u64 {
    if a == 0 { 0 } else { P61 - a }
}
fn invm(a: u64) -> u64 {
    let mut e = P61 - 2;
    let mut b = a;
    let mut r = 1u64;
    while e > 0 {
        if e & 1 == 1 {
            r = mulm(r, b);
        }
        b = mulm(b, b);
        e >>= 1;
    }
    r
}
pub fn hash64(s: &[u8], seed: u64) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
    for b in s {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    h ^= h >> 32;
    h = h.wrapping_mul(0xd6e8feb86659fd93);
    h ^= h >> 32;
    h = h.wrapping_mul(0xd6e8feb86659fd93);
    h ^ (h >> 32)
}

pub type Fp = [u64; 2];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Node {
    Const(i128),
    Big([u8; 32]),
    Var(String),
    Add(u32, u32),
    Mul(u32, u32),
    Neg(u32),
    Inv(u32),
}

pub const MAGIC_S: [u8; 8] = *b"\xf1SYMsc\x9a\x07";
pub const MAGIC_P: [u8; 8] = *b"\xf1SYMpt\x9b\x07";
pub const MAGIC_C: [u8; 8] = *b"\xf1SYMch\x9c\x07"; // transcript output
pub const MAGIC_R: [u8; 8] = *b"\xf1SYMrn\x9d\x07"; // rng output

pub struct Engine {
    pub sym: bool,
    pub nodes: Vec<Node>,
    pub fps: Vec<Fp>,
    map: HashMap<Node, u32>,
    pub basis: Vec<String>,
    basis_ix: HashMap<String, u32>,
    pub points: Vec<Vec<(u32, u32)>>, // (basis, node)
    points_ix: HashMap<Vec<(u32, u32)>, u32>,
    pub bytes_seq: u32,
    pub log: Vec<String>,
    pub forced: Vec<bool>,
    pub ndec: usize,
    pub rnd_names: Vec<String>, // scripted names for the random draws
    pub rnd_script: HashMap<usize, u32>,
    pub nrnd: usize,
    pub chal_hist: HashMap<Vec<u64>, u32>, // history hash -> challenge ordinal
    pub chal_script: HashMap<String, u32>, // var name -> node
    pub chals: Vec<(String, u32)>,         // ordinal -> (name, node)
    pub rnds: Vec<u32>,
    pub assign: HashMap<String, [u8; 32]>,
    pub real_chals: HashMap<Vec<u8>, String>,
    pub seed: u64,
    /// prefix of all names: values of an earlier run in the same process
    pub pre: String,
}

thread_local! { static E: RefCell<Engine> = RefCell::new(Engine::new()); }

pub fn with<R>(f: impl FnOnce(&mut Engine) -> R) -> R {
    E.with(|e| f(&mut e.borrow_mut()))
}

impl Engine {
    pub fn new() -> Engine {
        let mut e = Engine {
            sym: true,
            nodes: vec![],
            fps: vec![],
            map: HashMap::new(),
            basis: vec![],
            basis_ix: HashMap::new(),
            points: vec![],
            points_ix: HashMap::new(),
            bytes_seq: 0,
            log: vec![],
            forced: vec![],
            ndec: 0,
            rnd_names: vec![],
            rnd_script: HashMap::new(),
            nrnd: 0,
            chal_hist: HashMap::new(),
            chal_script: HashMap::new(),
            chals: vec![],
            rnds: vec![],
            assign: HashMap::new(),
            real_chals: HashMap::new(),
            seed: 1,
            pre: String::new(),
        };
        e.mk(Node::Const(0));
        e.mk(Node::Const(1));
        let b = e.basis_id("B0");
        e.mk_point(vec![]); // 0: identity
        e.mk_point(vec![(b, 1)]); // 1: base point
        e
    }
    fn fp_of(&self, n: &Node) -> Fp {
        let mut r = [0u64; 2];
        for k in 0..2 {
            r[k] = match n {
                Node::Const(c) => {
                    let m = (c.unsigned_abs() % (P61 as u128)) as u64;
                    if *c < 0 { negm(m) } else { m }
                }
                Node::Big(b) => {
                    let mut v = 0u64;
                    for x in b.iter().rev() {
                        v = addm(mulm(v, 256), *x as u64);
                    }
                    v
                }
                Node::Var(s) => hash64(s.as_bytes(), 77 + k as u64) % P61,
                Node::Add(a, b) => addm(self.fps[*a as usize][k], self.fps[*b as usize][k]),
                Node::Mul(a, b) => mulm(self.fps[*a as usize][k], self.fps[*b as usize][k]),
                Node::Neg(a) => negm(self.fps[*a as usize][k]),
                Node::Inv(a) => invm(self.fps[*a as usize][k]),
            };
        }
        r
    }
    pub fn mk(&mut self, n: Node) -> u32 {
        if let Some(i) = self.map.get(&n) {
            return *i;
        }
        let f = self.fp_of(&n);
        let i = self.nodes.len() as u32;
        self.nodes.push(n.clone());
        self.fps.push(f);
        self.map.insert(n, i);
        i
    }
    pub fn konst(&mut self, c: i128) -> u32 {
        self.mk(Node::Const(c))
    }
    pub fn var(&mut self, s: &str) -> u32 {
        self.mk(Node::Var(s.to_string()))
    }
    pub fn add(&mut self, a: u32, b: u32) -> u32 {
        if a == 0 {
            return b;
        }
        if b == 0 {
            return a;
        }
        if let (Node::Const(x), Node::Const(y)) = (&self.nodes[a as usize], &self.nodes[b as usize]) {
            if let Some(z) = x.checked_add(*y) {
                return self.konst(z);
            }
        }
        if let Node::Neg(x) = self.nodes[b as usize] {
            if x == a {
                return 0;
            }
        }
        if let Node::Neg(x) = self.nodes[a as usize] {
            if x == b {
                return 0;
            }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Node::Add(a, b))
    }
    pub fn neg(&mut self, a: u32) -> u32 {
        match self.nodes[a as usize] {
            Node::Const(x) if x != i128::MIN => self.konst(-x),
            Node::Neg(x) => x,
            _ => self.mk(Node::Neg(a)),
        }
    }
    pub fn sub(&mut self, a: u32, b: u32) -> u32 {
        if a == b {
            return 0;
        }
        let nb = self.neg(b);
        self.add(a, nb)
    }
    pub fn mul(&mut self, a: u32, b: u32) -> u32 {
        if a == 0 || b == 0 {
            return 0;
        }
        if a == 1 {
            return b;
        }
        if b == 1 {
            return a;
        }
        if let (Node::Const(x), Node::Const(y)) = (&self.nodes[a as usize], &self.nodes[b as usize]) {
            if let Some(z) = x.checked_mul(*y) {
                return self.konst(z);
            }
        }
        for (u, v) in [(a, b), (b, a)] {
            if self.nodes[u as usize] == Node::Const(-1) {
                return self.neg(v);
            }
            if let Node::Neg(x) = self.nodes[u as usize] {
                let m = self.mul(x, v);
                return self.neg(m);
            }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Node::Mul(a, b))
    }
    pub fn inv(&mut self, a: u32) -> u32 {
        match self.nodes[a as usize] {
            Node::Const(0) => 0,
            Node::Const(1) => 1,
            Node::Const(-1) => a,
            Node::Inv(x) => x,
            Node::Neg(x) => {
                let i = self.inv(x);
                self.neg(i)
            }
            _ => {
                if self.is_zero_fp(a) {
                    self.log.push(format!("[\"invzero\",{}]", a));
                }
                let r = self.mk(Node::Inv(a));
                r
            }
        }
    }
    pub fn is_zero_fp(&self, a: u32) -> bool {
        self.fps[a as usize] == [0, 0]
    }
    pub fn basis_id(&mut self, s: &str) -> u32 {
        if let Some(i) = self.basis_ix.get(s) {
            return *i;
        }
        let i = self.basis.len() as u32;
        self.basis.push(s.to_string());
        self.basis_ix.insert(s.to_string(), i);
        i
    }
    pub fn mk_point(&mut self, v: Vec<(u32, u32)>) -> u32 {
        if let Some(i) = self.points_ix.get(&v) {
            return *i;
        }
        let i = self.points.len() as u32;
        self.points.push(v.clone());
        self.points_ix.insert(v, i);
        i
    }
    pub fn basis_point(&mut self, s: &str) -> u32 {
        let b = self.basis_id(s);
        self.mk_point(vec![(b, 1)])
    }
    /// sum of s_i * P_i
    pub fn lincomb(&mut self, terms: &[(u32, u32)]) -> u32 {
        let mut acc: std::collections::BTreeMap<u32, u32> = Default::default();
        for (s, p) in terms {
            if *s == 0 {
                continue;
            }
            let pv = self.points[*p as usize].clone();
            for (b, c) in pv {
                let t = self.mul(*s, c);
                let cur = acc.get(&b).copied().unwrap_or(0);
                let n = self.add(cur, t);
                acc.insert(b, n);
            }
        }
        let v: Vec<(u32, u32)> = acc.into_iter().filter(|(_, c)| *c != 0).collect();
        self.mk_point(v)
    }
    pub fn point_fp(&self, p: u32) -> Vec<u64> {
        let mut r = vec![];
        for (b, c) in &self.points[p as usize] {
            let f = self.fps[*c as usize];
            if f != [0, 0] {
                r.push(*b as u64);
                r.push(f[0]);
                r.push(f[1]);
            }
        }
        r
    }
    /// Is this point the identity for all values?  (Taken from the fingerprints; the obligation is recorded.)
    pub fn is_identity(&mut self, p: u32) -> bool {
        let c: Vec<u32> = self.points[p as usize].iter().map(|x| x.1).filter(|x| *x != 0).collect();
        if c.is_empty() {
            return true;
        }
        let z = c.iter().all(|x| self.is_zero_fp(*x));
        if z {
            self.log.push(format!("[\"zeropt\",{},{:?}]", p, c));
        }
        z
    }
    /// One branch of the executed code on "all these scalars are zero".
    pub fn decide(&mut self, what: &str, diffs: &[u32]) -> bool {
        let d: Vec<(u32, u32)> = diffs.iter().map(|x| (u32::MAX, *x)).collect();
        self.decide_at(what, &d)
    }
    /// coordinates with the basis element they belong to
    pub fn decide_at(&mut self, what: &str, coords: &[(u32, u32)]) -> bool {
        let diffs: Vec<u32> = coords.iter().map(|x| x.1).collect();
        let mut d: Vec<u32> = diffs.iter().copied().filter(|x| *x != 0).collect();
        d.sort();
        d.dedup();
        if d.is_empty() {
            return true;
        }
        // a literal nonzero constant can only answer "different"
        for x in &d {
            if let Node::Const(c) = self.nodes[*x as usize] {
                if c != 0 {
                    return false;
                }
            }
        }
        let dflt = d.iter().all(|x| self.is_zero_fp(*x));
        let k = self.ndec;
        self.ndec += 1;
        let ans = if k < self.forced.len() { self.forced[k] } else { dflt };
        let lab: Vec<String> = coords.iter().filter(|x| x.0 != u32::MAX).map(|x| format!("[{},{}]", x.0, x.1)).collect();
        self.log.push(format!("[\"dec\",{},\"{}\",{:?},{},{},[{}]]", k, what, d, ans, dflt, lab.join(",")));
        ans
    }
    fn token(&self, chunk: &[u8]) -> Option<Vec<u64>> {
        if chunk.len() == 32 {
            let id = u32::from_le_bytes([chunk[8], chunk[9], chunk[10], chunk[11]]);
            if chunk[..8] == MAGIC_P && (id as usize) < self.points.len() {
                let mut v = vec![1u64];
                v.extend(self.point_fp(id));
                return Some(v);
            }
            if chunk[..8] == MAGIC_S && (id as usize) < self.fps.len() {
                let f = self.fps[id as usize];
                return Some(vec![2u64, f[0], f[1]]);
            }
        }
        None
    }
    /// scalars that are zero have the encoding zero (the obligation is recorded)
    pub fn plain(&mut self, msg: &[u8]) -> Vec<u8> {
        let mut m = msg.to_vec();
        let mut i = 0;
        while i + 32 <= m.len() {
            let id = u32::from_le_bytes([m[i + 8], m[i + 9], m[i + 10], m[i + 11]]);
            if m[i..i + 8] == MAGIC_S && (id as usize) < self.fps.len() && self.is_zero_fp(id) {
                if id != 0 {
                    self.log.push(format!("[\"zeropt\",0,[{}]]", id));
                }
                m[i..i + 32].copy_from_slice(&[0u8; 32]);
                i += 31;
            }
            i += 1;
        }
        m
    }
    /// canonical content of a message, for "same history, same challenge"
    pub fn canon(&self, msg: &[u8]) -> Vec<u64> {
        let mut r = vec![msg.len() as u64];
        let mut i = 0;
        while i < msg.len() {
            if i + 32 <= msg.len() {
                if let Some(t) = self.token(&msg[i..i + 32]) {
                    r.push(u64::MAX);
                    r.extend(t);
                    i += 32;
                    continue;
                }
            }
            r.push(msg[i] as u64);
            i += 1;
        }
        r
    }
    pub fn describe(&self, msg: &[u8]) -> String {
        let mut parts: Vec<String> = vec![];
        let mut raw: Vec<u8> = vec![];
        let mut i = 0;
        let flush = |raw: &mut Vec<u8>, parts: &mut Vec<String>| {
            if !raw.is_empty() {
                let h: String = raw.iter().map(|b| format!("{:02x}", b)).collect();
                parts.push(format!("[\"raw\",\"{}\"]", h));
                raw.clear();
            }
        };
        while i < msg.len() {
            if i + 32 <= msg.len() {
                let c = &msg[i..i + 32];
                let id = u32::from_le_bytes([c[8], c[9], c[10], c[11]]);
                if c[..8] == MAGIC_P && (id as usize) < self.points.len() {
                    flush(&mut raw, &mut parts);
                    parts.push(format!("[\"pt\",{}]", id));
                    i += 32;
                    continue;
                }
                if c[..8] == MAGIC_S && (id as usize) < self.fps.len() {
                    flush(&mut raw, &mut parts);
                    parts.push(format!("[\"sc\",{}]", id));
                    i += 32;
                    continue;
                }
            }
            raw.push(msg[i]);
            i += 1;
        }
        flush(&mut raw, &mut parts);
        format!("[{}]", parts.join(","))
    }
}

pub const fn tag32(magic: &[u8; 8], id: u32) -> [u8; 32] {
    let mut b = [0u8; 32];
    let d = id.to_le_bytes();
    let mut i = 0;
    while i < 32 {
        // position-dependent filler so that a truncated or shifted copy is not mistaken for the whole
        b[i] = if i < 8 {
            magic[i]
        } else if i < 12 {
            d[i - 8]
        } else {
            (i as u8).wrapping_mul(37) ^ d[0] ^ 0x5a
        };
        i += 1;
    }
    b
}
pub fn untag32(magic: &[u8; 8], b: &[u8]) -> Option<u32> {
    if b.len() != 32 || b[..8] != magic[..] {
        return None;
    }
    let id = u32::from_le_bytes([b[8], b[9], b[10], b[11]]);
    if tag32(magic, id)[..] == b[..] { Some(id) } else { None }
}

/// Output of a source of uniform bytes (transcript or rng): each byte carries the draw's id and its position.
pub fn fill_source(magic: &[u8; 8], id: u32, dest: &mut [u8]) {
    let n = dest.len();
    let idb = id.to_le_bytes();
    if n < 16 {
        // short draws (machine words): a mark and the draw's number, 8 or 4 bytes
        let w = if n >= 8 {
            [0xa7 ^ magic[4], 0x5c, idb[0], idb[1], idb[2], n as u8, 0xd3, 0x91]
        } else {
            [0xa7 ^ magic[4], idb[0], idb[1], 0x5c, 0, 0, 0, 0]
        };
        for i in 0..n {
            dest[i] = if i < 8 { w[i] } else { 0x77 };
        }
        return;
    }
    for i in 0..n {
        dest[i] = match i % 16 {
            k if k < 8 => magic[k],
            8 => idb[0],
            9 => idb[1],
            10 => idb[2],
            11 => idb[3],
            12 => (n & 0xff) as u8,
            13 => (n >> 8) as u8,
            14 => (i / 16) as u8,
            _ => 0xff, // a mask of the last byte shows
        };
    }
}
/// How many leading bits of `b` are the untouched output of one draw; the rest must be zero.
pub fn read_source(magic: &[u8; 8], b: &[u8]) -> Option<(u32, usize)> {
    if b.len() < 4 {
        return None;
    }
    if b.len() < 16 || b[..8] != magic[..] {
        // short draws
        if b[0] != 0xa7 ^ magic[4] {
            return None;
        }
        let (id, n) = if b.len() >= 8 && b[1] == 0x5c && b[6] == 0xd3 && b[7] == 0x91 {
            (u32::from_le_bytes([b[2], b[3], b[4], 0]), b[5] as usize)
        } else if b[3] == 0x5c {
            (u32::from_le_bytes([b[1], b[2], 0, 0]), 4)
        } else {
            return None;
        };
        if n > b.len() || n >= 16 {
            return None;
        }
        let mut w = [0u8; 16];
        fill_source(magic, id, &mut w[..n]);
        if w[..n] != b[..n] || b[n..].iter().any(|x| *x != 0) {
            return None;
        }
        return Some((id, 8 * n));
    }
    let id = u32::from_le_bytes([b[8], b[9], b[10], b[11]]);
    let n = b[12] as usize | ((b[13] as usize) << 8);
    let mut e = vec![0u8; n.min(b.len())];
    // regenerate with the length that was drawn
    let mut full = vec![0u8; n];
    fill_source(magic, id, &mut full);
    let m = e.len();
    e.copy_from_slice(&full[..m]);
    let mut k = 0;
    while k < m && e[k] == b[k] {
        k += 1;
    }
    if k < 13 || k < m && b[k + 1..].iter().any(|x| *x != 0) {
        return None;
    }
    if k == m {
        return if b[k..].iter().all(|x| *x == 0) { Some((id, 8 * k)) } else { None };
    }
    // the last byte may be cut to its low bits
    (0..8).rev().find(|j| b[k] == e[k] & ((1u32 << j) - 1) as u8).map(|j| (id, 8 * k + j as usize))
}

// ---------------------------------------------------------------- sources of values

/// A draw from the random number generator.  Symbolic: a fresh variable.  Concrete: the assigned value.
pub fn rng_fill(dest: &mut [u8]) {
    // one draw for several scalars
    let l = dest.len();
    if l > 64 && l % 32 == 0 {
        let w = if l % 64 == 0 { 64 } else { 32 };
        return dest.chunks_mut(w).for_each(rng_fill);
    }
    with(|e| {
        let k = e.nrnd;
        e.nrnd += 1;
        if e.sym {
            let node = match e.rnd_script.get(&k) {
                Some(n) => *n,
                None => {
                    let nm = format!("{}r{}", e.pre, k);
                    e.var(&nm)
                }
            };
            e.rnds.push(node);
            let l = dest.len();
            e.log.push(format!("[\"rnd\",{},{},{}]", k, node, l));
            fill_source(&MAGIC_R, k as u32, dest);
        } else {
            let nm = format!("{}r{}", e.pre, k);
            let v = real_value(e, &nm);
            for b in dest.iter_mut() {
                *b = 0;
            }
            let l = dest.len().min(32);
            dest[..l].copy_from_slice(&v[..l]);
        }
    })
}

/// Are these bytes output of the system generator?  (Replay: taken to be if they are a drawn value.)
pub fn from_system(b: &[u8]) -> bool {
    if with(|e| e.sym) {
        return read_source(&MAGIC_R, b).is_some();
    }
    with(|e| {
        let n = e.nrnd;
        (0..n).any(|k| {
            let v = real_value(e, &format!("r{}", k));
            let l = b.len().min(32);
            v[..l] == b[..l]
        })
    })
}

pub fn real_value(e: &mut Engine, name: &str) -> [u8; 32] {
    if let Some(v) = e.assign.get(name) {
        return *v;
    }
    let mut v = [0u8; 32];
    for k in 0..4 {
        let h = hash64(name.as_bytes(), 1000 + k + e.seed * 16);
        v[(k as usize) * 8..(k as usize) * 8 + 8].copy_from_slice(&h.to_le_bytes());
    }
    v[31] &= 0x0f; // below the group order
    e.assign.insert(name.to_string(), v);
    v
}

#[derive(Clone)]
pub struct Hist {
    pub canon: Vec<u64>,
    pub id: u32,
}

/// Challenge extraction: a function of the history (random oracle).  Same history => same variable.
pub fn challenge(hist: &mut Vec<u64>, tid: u32, label: &[u8], dest: &mut [u8]) {
    with(|e| {
        hist.push(u64::MAX - 2);
        hist.push(dest.len() as u64);
        for b in label {
            hist.push(*b as u64);
        }
        let lab: String = String::from_utf8_lossy(label).to_string();
        let key = hist.clone();
        let ord = match e.chal_hist.get(&key) {
            Some(o) => *o,
            None => {
                let o = e.chals.len() as u32;
                let name = format!("{}c{}_{}", e.pre, o, lab);
                let node = if e.sym {
                    match e.chal_script.get(&name).or_else(|| e.chal_script.get(&format!("c{}", o))) {
                        Some(n) => *n,
                        None => e.var(&name),
                    }
                } else {
                    0
                };
                e.chals.push((name, node));
                e.chal_hist.insert(key, o);
                o
            }
        };
        let (name, node) = e.chals[ord as usize].clone();
        let l = dest.len();
        e.log.push(format!("[\"chal\",{},{},\"{}\",{},{}]", tid, ord, name, node, l));
        if e.sym {
            fill_source(&MAGIC_C, ord, dest);
        } else {
            let v = real_value(e, &name);
            for b in dest.iter_mut() {
                *b = 0;
            }
            let l = dest.len().min(32);
            dest[..l].copy_from_slice(&v[..l]);
        }
    })
}

pub fn append(hist: &mut Vec<u64>, tid: u32, label: &[u8], msg: &[u8]) {
    with(|e| {
        hist.push(u64::MAX - 1);
        hist.push(label.len() as u64);
        for b in label {
            hist.push(*b as u64);
        }
        if e.sym {
            let m = e.plain(msg);
            let c = e.canon(&m);
            hist.extend(c);
            let d = e.describe(&m);
            let lab: String = String::from_utf8_lossy(label).to_string();
            e.log.push(format!("[\"app\",{},\"{}\",{}]", tid, lab, d));
        } else {
            hist.push(msg.len() as u64);
            for b in msg {
                hist.push(*b as u64);
            }
        }
    })
}
pub fn new_tid() -> u32 {
    with(|e| {
        e.bytes_seq += 1;
        e.bytes_seq
    })
}

/// A scalar from a machine word.
pub fn scalar_from_word(b: &[u8], v: i128) -> u32 {
    let src = read_source(&MAGIC_R, b).map(|x| (0, x)).or_else(|| read_source(&MAGIC_C, b).map(|x| (1, x)));
    with(|e| match src {
        Some((0, (id, n))) if (id as usize) < e.rnds.len() => {
            e.log.push(format!("[\"useR\",{},{},{}]", id, n, b.len()));
            e.rnds[id as usize]
        }
        Some((1, (id, n))) if (id as usize) < e.chals.len() => {
            e.log.push(format!("[\"useC\",{},{},{}]", id, n, b.len()));
            e.chals[id as usize].1
        }
        _ => e.konst(v),
    })
}

/// order of the group, little-endian
pub const ORDER: [u8; 32] = [
    0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0x10,
];
pub fn below_order(a: &[u8; 32]) -> bool {
    a.iter().rev().lt(ORDER.iter().rev())
}
pub fn sub_le(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    let mut r = [0u8; 32];
    let mut borrow = 0i32;
    for i in 0..32 {
        let d = a[i] as i32 - b[i] as i32 - borrow;
        borrow = (d < 0) as i32;
        r[i] = (d & 255) as u8;
    }
    r
}
/// is some part of this a tag standing for a symbolic value?
pub fn tagged(b: &[u8]) -> bool {
    b.windows(8).any(|w| [MAGIC_C, MAGIC_R, MAGIC_S, MAGIC_P].iter().any(|m| m[..] == w[..]))
}
/// The encoding of a scalar: a literal has its true bytes, everything else a tag.
pub fn scalar_bytes(id: u32) -> [u8; 32] {
    with(|e| match &e.nodes[id as usize] {
        Node::Const(c) => {
            let mut b = [0u8; 32];
            b[..16].copy_from_slice(&c.unsigned_abs().to_le_bytes());
            if *c < 0 { sub_le(&ORDER, &b) } else { b }
        }
        Node::Big(b) => *b,
        _ => tag32(&MAGIC_S, id),
    })
}

/// A scalar from 32 or 64 bytes reduced modulo the group order.
pub fn scalar_from_bytes(b: &[u8]) -> u32 {
    with(|e| {
        if b.len() == 32 {
            if let Some(i) = untag32(&MAGIC_S, b) {
                return i;
            }
        }
        if b.len() == 64 && b[32..].iter().all(|x| *x == 0) {
            if let Some(i) = untag32(&MAGIC_S, &b[..32]) {
                return i;
            }
        }
        if let Some((id, n)) = read_source(&MAGIC_C, b) {
            let node = e.chals[id as usize].1;
            e.log.push(format!("[\"useC\",{},{},{}]", id, n, b.len()));
            return node;
        }
        if let Some((id, n)) = read_source(&MAGIC_R, b) {
            let node = e.rnds[id as usize];
            e.log.push(format!("[\"useR\",{},{},{}]", id, n, b.len()));
            return node;
        }
        if tagged(b) {
            // part of a tagged value in an unexpected place: an opaque value of its own
            let name = format!("opaque_{:x}", hash64(b, 5));
            let n = e.var(&name);
            e.log.push(format!("[\"opaque\",{}]", n));
            return n;
        }
        // concrete bytes
        let hi = b.iter().rposition(|x| *x != 0).map(|x| x + 1).unwrap_or(0);
        if hi <= 15 {
            let mut v = 0i128;
            for x in b[..hi].iter().rev() {
                v = v * 256 + *x as i128;
            }
            return e.konst(v);
        }
        let mut a = [0u8; 32];
        a.copy_from_slice(&b[..32]);
        let wide = b.len() == 64 && b[32..].iter().any(|x| *x != 0);
        if !wide {
            while !below_order(&a) {
                a = sub_le(&a, &ORDER);
            }
        }
        for (neg, v) in [(false, a), (true, sub_le(&ORDER, &a))] {
            if !wide && v[15..].iter().all(|x| *x == 0) {
                let c = v[..15].iter().rev().fold(0i128, |acc, x| acc * 256 + *x as i128);
                return e.konst(if neg { -c } else { c });
            }
        }
        let lo = e.mk(Node::Big(a));
        if wide {
            let mut c = [0u8; 32];
            c.copy_from_slice(&b[32..]);
            let hi = e.mk(Node::Big(c));
            let mut m = [0u8; 32];
            m[31] = 128;
            let half = e.mk(Node::Big(m));
            let two = e.konst(2);
            let sh = e.mul(half, two);
            let t = e.mul(hi, sh);
            return e.add(lo, t);
        }
        lo
    })
}
