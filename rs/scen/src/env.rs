//! Values of a scenario: unknowns in symbolic mode, assigned values in replay mode.
use curve25519_dalek::ristretto::{CompressedRistretto, RistrettoPoint};
use curve25519_dalek::scalar::Scalar;
use qesa::vp::{LeafRef, Leaves, VecOps, Visitor};
use std::collections::{BTreeMap, HashMap};

#[derive(Default, Clone)]
pub struct Cfg {
    pub par: HashMap<String, String>,
    /// named expressions given by the caller (scripted challenges, draws, values)
    pub val: HashMap<String, String>,
    pub suffix: HashMap<String, String>,
}
impl Cfg {
    pub fn u(&self, k: &str) -> usize {
        self.par.get(k).unwrap_or_else(|| panic!("no parameter {}", k)).parse().unwrap()
    }
    pub fn u_or(&self, k: &str, d: usize) -> usize {
        self.par.get(k).map(|x| x.parse().unwrap()).unwrap_or(d)
    }
    pub fn s(&self, k: &str) -> &str {
        self.par.get(k).map(|x| x.as_str()).unwrap_or("")
    }
}

thread_local! {
    pub static OUT: std::cell::RefCell<Vec<String>> = Default::default();
    pub static CFG: std::cell::RefCell<Cfg> = Default::default();
}
pub fn val_override(name: &str) -> Option<String> {
    CFG.with(|c| c.borrow().val.get(name).cloned())
}

/// An unknown scalar of that name (or the value the run's script gives it).
pub fn s(name: &str) -> Scalar {
    if let Some(v) = val_override(name) {
        return expr(&v);
    }
    raw_s(name)
}
#[cfg(feature = "sym")]
pub fn raw_s(name: &str) -> Scalar {
    Scalar::from_node(vpcore::with(|e| {
        let n = format!("{}{}", e.pre, name);
        e.var(&n)
    }))
}
#[cfg(feature = "real")]
pub fn raw_s(name: &str) -> Scalar {
    Scalar::from_bytes_mod_order(vpcore::with(|e| {
        let n = format!("{}{}", e.pre, name);
        vpcore::real_value(e, &n)
    }))
}
/// A group element of unknown discrete logarithm.
#[cfg(feature = "sym")]
pub fn p(name: &str) -> RistrettoPoint {
    RistrettoPoint::from_id(vpcore::with(|e| e.basis_point(name)))
}
#[cfg(feature = "real")]
pub fn p(name: &str) -> RistrettoPoint {
    // replays of linear functionals choose the discrete logarithms
    if let Some(v) = assigned(&format!("P:{}", name)) {
        return v * curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT;
    }
    RistrettoPoint::hash_from_bytes::<sha3::Sha3_512>(format!("vp/{}", name).as_bytes())
}
/// Prefix-notation expressions: integers, variable names, (+ a b), (* a b), (- a b).
pub fn expr(t: &str) -> Scalar {
    let toks: Vec<String> = t.replace('(', " ( ").replace(')', " ) ").split_whitespace().map(|x| x.to_string()).collect();
    let mut i = 0;
    fn go(t: &[String], i: &mut usize) -> Scalar {
        let x = t[*i].clone();
        *i += 1;
        if x == "(" {
            let op = t[*i].clone();
            *i += 1;
            let mut acc = go(t, i);
            while t[*i] != ")" {
                let y = go(t, i);
                acc = match op.as_str() {
                    "+" => acc + y,
                    "*" => acc * y,
                    "-" => acc - y,
                    _ => panic!("op"),
                };
            }
            *i += 1;
            return acc;
        }
        if let Ok(v) = x.parse::<i64>() {
            let m = Scalar::from(v.unsigned_abs());
            return if v < 0 { -m } else { m };
        }
        raw_s(&x)
    }
    go(&toks, &mut i)
}
fn push(l: String) {
    OUT.with(|o| o.borrow_mut().push(l))
}
#[cfg(feature = "sym")]
pub fn out_s(name: &str, v: &Scalar) {
    push(format!("[\"s\",\"{}\",{}]", name, v.node()))
}
#[cfg(feature = "sym")]
pub fn out_p(name: &str, v: &RistrettoPoint) {
    push(format!("[\"p\",\"{}\",{}]", name, v.id()))
}
#[cfg(feature = "sym")]
pub fn out_c(name: &str, v: &CompressedRistretto) {
    out_p(name, &v.decompress().unwrap_or_default())
}
#[cfg(feature = "real")]
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
#[cfg(feature = "real")]
fn assigned(name: &str) -> Option<Scalar> {
    vpcore::with(|e| e.assign.get(name).copied()).map(Scalar::from_bytes_mod_order)
}
#[cfg(feature = "real")]
thread_local! {
    static FUN: std::cell::RefCell<RistrettoPoint> = Default::default();
}
/// sum of the outputs times their assigned weights
#[cfg(feature = "real")]
fn weigh(name: &str, v: impl FnOnce() -> RistrettoPoint) {
    if let Some(l) = assigned(&format!("lam:{}", name)) {
        FUN.with(|f| *f.borrow_mut() += l * v());
    }
}
#[cfg(feature = "real")]
pub fn functional() {
    if assigned("lam").is_some() {
        let f = FUN.with(|f| std::mem::take(&mut *f.borrow_mut()));
        push(format!("[\"p\",\"functional\",\"{}\"]", hex(f.compress().as_bytes())));
    }
}
#[cfg(feature = "sym")]
pub fn functional() {}
#[cfg(feature = "real")]
pub fn out_s(name: &str, v: &Scalar) {
    weigh(name, || v * curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT);
    push(format!("[\"s\",\"{}\",\"{}\"]", name, hex(v.as_bytes())))
}
#[cfg(feature = "real")]
pub fn out_p(name: &str, v: &RistrettoPoint) {
    weigh(name, || *v);
    push(format!("[\"p\",\"{}\",\"{}\"]", name, hex(v.compress().as_bytes())))
}
#[cfg(feature = "real")]
pub fn out_c(name: &str, v: &CompressedRistretto) {
    weigh(name, || v.decompress().unwrap_or_default());
    push(format!("[\"p\",\"{}\",\"{}\"]", name, hex(v.as_bytes())))
}
pub fn out_b(name: &str, v: bool) {
    push(format!("[\"b\",\"{}\",{}]", name, v))
}
pub fn out_n(name: &str, v: usize) {
    push(format!("[\"n\",\"{}\",{}]", name, v))
}
pub fn mark(m: &str) {
    vpcore::with(|e| e.log.push(format!("[\"mark\",\"{}\"]", m)))
}
/// Forget which challenges were drawn so far: the next draw is number 0 again.
pub fn reset_chals() {
    vpcore::with(|e| {
        e.chal_hist.clear();
        e.chals.clear();
    })
}
pub fn invalid_point() -> CompressedRistretto {
    #[cfg(feature = "sym")]
    {
        CompressedRistretto::invalid()
    }
    #[cfg(feature = "real")]
    {
        CompressedRistretto([0xffu8; 32])
    }
}
/// catch a panic of the code under test
pub fn guard<R>(name: &str, f: impl FnOnce() -> R) -> Option<R> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => {
            push(format!("[\"ret\",\"{}\",\"ok\"]", name));
            Some(r)
        }
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string()))
                .unwrap_or_default();
            let m: String = m.chars().filter(|c| *c != '"' && *c != '\\' && !c.is_control()).take(200).collect();
            push(format!("[\"ret\",\"{}\",\"panic\",\"{}\"]", name, m));
            mark(&format!("panic:{}", name));
            None
        }
    }
}

// ------------------------------------------------------------------ visitors
pub struct Dump<'a>(pub &'a str);
impl<'a> Visitor for Dump<'a> {
    fn leaf(&mut self, path: &str, l: LeafRef) {
        let n = format!("{}:{}", self.0, path);
        match l {
            LeafRef::S(x) => out_s(&n, x),
            LeafRef::P(x) => out_p(&n, x),
            LeafRef::C(x) => out_c(&n, x),
        }
    }
    fn vec(&mut self, _p: &str, _v: &mut dyn VecOps) {}
}
/// Replace every leaf by an arbitrary value.  Points: `agm` = sum of unknown multiples of the given basis points
/// (the algebraic adversary), otherwise a basis symbol of their own.
pub struct Fill<'a> {
    pub agm: Option<&'a [(String, RistrettoPoint)]>,
    pub tag: &'a str,
}
pub fn agm_point(name: &str, basis: &[(String, RistrettoPoint)]) -> RistrettoPoint {
    let mut acc = RistrettoPoint::default();
    for (b, pt) in basis {
        acc = acc + s(&format!("{}@{}", name, b)) * pt;
    }
    acc
}
pub fn suffix(path: &str) -> String {
    CFG.with(|c| c.borrow().suffix.get(path).cloned()).unwrap_or_default()
}
impl<'a> Visitor for Fill<'a> {
    fn leaf(&mut self, path: &str, l: LeafRef) {
        let n = format!("{}:{}{}", self.tag, path, suffix(path));
        let mk = |nm: &str| match self.agm {
            Some(b) => agm_point(nm, b),
            None => p(nm),
        };
        match l {
            LeafRef::S(x) => *x = s(&n),
            LeafRef::P(x) => *x = mk(&n),
            LeafRef::C(x) => *x = mk(&n).compress(),
        }
    }
    fn vec(&mut self, _p: &str, _v: &mut dyn VecOps) {}
}
/// Add an unknown nonzero difference to one leaf.
pub struct Tamper<'a> {
    pub path: &'a str,
    pub hit: bool,
}
impl<'a> Visitor for Tamper<'a> {
    fn leaf(&mut self, path: &str, l: LeafRef) {
        if path != self.path {
            return;
        }
        self.hit = true;
        let d = s("delta");
        match l {
            LeafRef::S(x) => *x = *x + d,
            LeafRef::P(x) => *x = *x + d * p("T"),
            LeafRef::C(x) => *x = (x.decompress().unwrap() + d * p("T")).compress(),
        }
    }
    fn vec(&mut self, _p: &str, _v: &mut dyn VecOps) {}
}
/// Damage the shape: what = cut / dup / half / twice / more64 / to64 / to32 / invalid / empty / zero.  Several places: a+b, each with its own damage: a=cut+b=dup
pub struct Shape<'a> {
    pub path: &'a str,
    pub what: &'a str,
    pub hit: usize,
}
impl<'a> Shape<'a> {
    fn at(&self, path: &str) -> Option<&'a str> {
        for x in self.path.split('+') {
            let mut it = x.splitn(2, '=');
            if it.next() == Some(path) {
                return Some(it.next().unwrap_or(self.what));
            }
        }
        None
    }
    pub fn all_hit(&self) -> bool {
        self.hit == self.path.split('+').count()
    }
}
impl<'a> Visitor for Shape<'a> {
    fn leaf(&mut self, path: &str, l: LeafRef) {
        match (self.at(path), l) {
            (Some("invalid"), LeafRef::C(x)) => *x = invalid_point(),
            // a difference like any other: minus the element itself
            (Some("zero"), LeafRef::C(x)) => {
                let old = x.decompress().unwrap();
                out_p("old", &old);
                *x = RistrettoPoint::default().compress()
            }
            (Some("zero"), LeafRef::P(x)) => {
                out_p("old", x);
                *x = RistrettoPoint::default()
            }
            (Some("zero"), LeafRef::S(x)) => {
                out_s("old", x);
                *x = Scalar::zero()
            }
            _ => return,
        }
        self.hit += 1;
    }
    fn vec(&mut self, path: &str, v: &mut dyn VecOps) {
        let n = v.n();
        match self.at(path) {
            Some("cut") if n > 0 => v.cut(n - 1),
            Some("empty") if n > 1 => v.cut(0),
            Some("dup") => v.dup(),
            Some("half") if n > 3 => v.cut(n / 2),
            Some("twice") if n > 1 => (0..n).for_each(|_| v.dup()),
            Some("more64") => (0..64).for_each(|_| v.dup()),
            Some("to64") if n > 0 && n < 64 => (n..64).for_each(|_| v.dup()),
            Some("to32") if n > 0 && n < 32 => (n..32).for_each(|_| v.dup()),
            _ => return,
        }
        self.hit += 1;
    }
}
/// The elements that go, or come a second time, when a vector is damaged.
pub struct Ends<'a> {
    pub shape: &'a Shape<'a>,
    pub vecs: &'a [(String, usize)],
}
impl<'a> Visitor for Ends<'a> {
    fn leaf(&mut self, path: &str, l: LeafRef) {
        for (p, n) in self.vecs {
            let pre = match self.shape.at(p) {
                Some("cut") | Some("dup") => format!("{}.{}", p, n.saturating_sub(1)),
                Some(_) => p.clone(),
                None => continue,
            };
            if path == pre || path.starts_with(&format!("{}.", pre)) {
                match l {
                    LeafRef::S(x) => out_s("old", x),
                    LeafRef::P(x) => out_p("old", x),
                    LeafRef::C(x) => out_c("old", x),
                }
                return;
            }
        }
    }
    fn vec(&mut self, _p: &str, _v: &mut dyn VecOps) {}
}
/// What leaves and vectors there are.
#[derive(Default)]
pub struct Paths {
    pub leaves: Vec<(String, char)>,
    pub vecs: Vec<(String, usize)>,
}
impl Visitor for Paths {
    fn leaf(&mut self, path: &str, l: LeafRef) {
        let k = match l {
            LeafRef::S(_) => 's',
            LeafRef::P(_) => 'p',
            LeafRef::C(_) => 'c',
        };
        self.leaves.push((path.to_string(), k));
    }
    fn vec(&mut self, p: &str, v: &mut dyn VecOps) {
        self.vecs.push((p.to_string(), v.n()))
    }
}
pub fn ip(a: &[Scalar], b: &[Scalar]) -> Scalar {
    assert_eq!(a.len(), b.len());
    let mut r = Scalar::zero();
    for i in 0..a.len() {
        r = r + a[i] * b[i];
    }
    r
}
pub fn svec(name: &str, n: usize) -> Vec<Scalar> {
    (0..n).map(|i| s(&format!("{}{}", name, i))).collect()
}
pub fn pvec(name: &str, n: usize) -> Vec<RistrettoPoint> {
    (0..n).map(|i| p(&format!("{}{}", name, i))).collect()
}
pub fn plin(sv: &[Scalar], pv: &[RistrettoPoint]) -> RistrettoPoint {
    let mut r = RistrettoPoint::default();
    for i in 0..sv.len() {
        r = r + sv[i] * pv[i];
    }
    r
}
pub type Paths2 = BTreeMap<String, char>;
pub fn visit<L: Leaves>(x: &mut L, v: &mut dyn Visitor) {
    x.visit("pi", v)
}
