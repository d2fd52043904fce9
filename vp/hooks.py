"""Generates the contents of the cfg(qesa_verif) hook modules from the structs as they are in /repo now."""
import os, re

ROOT_RS = r'''
// Generated. Access to private proof fields for the verification harnesses.
use curve25519_dalek::ristretto::{CompressedRistretto, RistrettoPoint};
use curve25519_dalek::scalar::Scalar;

pub enum LeafRef<'a> {
    S(&'a mut Scalar),
    P(&'a mut RistrettoPoint),
    C(&'a mut CompressedRistretto),
}
pub trait VecOps {
    fn n(&self) -> usize;
    fn cut(&mut self, k: usize);
    fn dup(&mut self);
}
impl<T: LeafClone> VecOps for Vec<T> {
    fn n(&self) -> usize { self.len() }
    fn cut(&mut self, k: usize) { self.truncate(k) }
    fn dup(&mut self) { let x = match self.last() { Some(x) => x.lclone(), None => T::ldef() }; self.push(x) }
}
pub trait LeafClone { fn lclone(&self) -> Self; fn ldef() -> Self; }
macro_rules! leafcopy { ($($t:ty),*) => { $(impl LeafClone for $t { fn lclone(&self) -> Self { *self } fn ldef() -> Self { Default::default() } })* } }
leafcopy!(Scalar, RistrettoPoint, CompressedRistretto);
impl<T: LeafClone> LeafClone for Vec<T> { fn lclone(&self) -> Self { self.iter().map(|x| x.lclone()).collect() } fn ldef() -> Self { Vec::new() } }
impl<T: LeafClone> LeafClone for Option<T> { fn lclone(&self) -> Self { self.as_ref().map(|x| x.lclone()) } fn ldef() -> Self { None } }
impl<T: LeafClone> LeafClone for Box<T> { fn lclone(&self) -> Self { Box::new((**self).lclone()) } fn ldef() -> Self { Box::new(T::ldef()) } }
impl<A: LeafClone, B: LeafClone> LeafClone for (A, B) { fn lclone(&self) -> Self { (self.0.lclone(), self.1.lclone()) } fn ldef() -> Self { (A::ldef(), B::ldef()) } }
impl<T: LeafClone, const N: usize> LeafClone for [T; N] {
    fn lclone(&self) -> Self { std::array::from_fn(|i| self[i].lclone()) }
    fn ldef() -> Self { std::array::from_fn(|_| T::ldef()) }
}
pub trait Visitor {
    fn leaf(&mut self, path: &str, l: LeafRef);
    fn vec(&mut self, path: &str, v: &mut dyn VecOps);
}
pub trait Leaves {
    fn visit(&mut self, path: &str, v: &mut dyn Visitor);
}
impl Leaves for Scalar { fn visit(&mut self, p: &str, v: &mut dyn Visitor) { v.leaf(p, LeafRef::S(self)) } }
impl Leaves for RistrettoPoint { fn visit(&mut self, p: &str, v: &mut dyn Visitor) { v.leaf(p, LeafRef::P(self)) } }
impl Leaves for CompressedRistretto { fn visit(&mut self, p: &str, v: &mut dyn Visitor) { v.leaf(p, LeafRef::C(self)) } }
impl<T: Leaves + LeafClone> Leaves for Vec<T> {
    fn visit(&mut self, p: &str, v: &mut dyn Visitor) {
        v.vec(p, self);
        for (i, x) in self.iter_mut().enumerate() { x.visit(&format!("{}.{}", p, i), v) }
    }
}
impl<A: Leaves, B: Leaves> Leaves for (A, B) {
    fn visit(&mut self, p: &str, v: &mut dyn Visitor) {
        self.0.visit(&format!("{}.0", p), v);
        self.1.visit(&format!("{}.1", p), v);
    }
}
impl<T: Leaves> Leaves for Option<T> {
    fn visit(&mut self, p: &str, v: &mut dyn Visitor) { if let Some(x) = self { x.visit(p, v) } }
}
impl<T: Leaves> Leaves for Box<T> {
    fn visit(&mut self, p: &str, v: &mut dyn Visitor) { (**self).visit(p, v) }
}
impl<T: Leaves, const N: usize> Leaves for [T; N] {
    fn visit(&mut self, p: &str, v: &mut dyn Visitor) {
        for (i, x) in self.iter_mut().enumerate() { x.visit(&format!("{}.{}", p, i), v) }
    }
}
impl<T> Leaves for std::marker::PhantomData<T> { fn visit(&mut self, _p: &str, _v: &mut dyn Visitor) {} }
impl<T> LeafClone for std::marker::PhantomData<T> { fn lclone(&self) -> Self { std::marker::PhantomData } fn ldef() -> Self { std::marker::PhantomData } }
macro_rules! noleaf { ($($t:ty),*) => { $(impl Leaves for $t { fn visit(&mut self, _p: &str, _v: &mut dyn Visitor) {} } leafcopy!($t);)* } }
noleaf!(usize, u64, u32, u16, u8, bool);

// call adapters: arguments by value or by reference, as the callee wants them
pub trait Ad<U> { fn ad(self) -> U; }
pub fn ad<T: Ad<U>, U>(t: T) -> U { t.ad() }
impl<'a, T: Clone> Ad<Vec<T>> for &'a Vec<T> { fn ad(self) -> Vec<T> { self.clone() } }
impl<'a, T> Ad<&'a Vec<T>> for &'a Vec<T> { fn ad(self) -> &'a Vec<T> { self } }
impl<'a, T> Ad<&'a [T]> for &'a Vec<T> { fn ad(self) -> &'a [T] { &self[..] } }
impl<'a> Ad<Scalar> for &'a Scalar { fn ad(self) -> Scalar { *self } }
impl<'a> Ad<&'a Scalar> for &'a Scalar { fn ad(self) -> &'a Scalar { self } }
impl<'a> Ad<RistrettoPoint> for &'a RistrettoPoint { fn ad(self) -> RistrettoPoint { *self } }
impl<'a> Ad<&'a RistrettoPoint> for &'a RistrettoPoint { fn ad(self) -> &'a RistrettoPoint { self } }
impl<'a> Ad<CompressedRistretto> for &'a RistrettoPoint { fn ad(self) -> CompressedRistretto { self.compress() } }
impl<'a> Ad<crate::matrix::BlockMatrix> for &'a crate::matrix::BlockMatrix { fn ad(self) -> crate::matrix::BlockMatrix { let mut b = crate::matrix::BlockMatrix::new(); for m in self.block.iter() { b.push(m.clone()) } b } }
impl<'a> Ad<&'a crate::matrix::BlockMatrix> for &'a crate::matrix::BlockMatrix { fn ad(self) -> &'a crate::matrix::BlockMatrix { self } }
impl Ad<usize> for usize { fn ad(self) -> usize { self } }
impl Ad<u16> for usize { fn ad(self) -> u16 { self as u16 } }
pub trait Acc { fn acc(self) -> bool; }
impl Acc for bool { fn acc(self) -> bool { self } }
impl<E> Acc for Result<(), E> { fn acc(self) -> bool { self.is_ok() } }
impl<E> Acc for Result<bool, E> { fn acc(self) -> bool { matches!(self, Ok(true)) } }

pub mod ipa_no_zk { pub use crate::ipa::no_zk::*; }
pub mod alm_zk { pub use crate::ipa::alm_zk::*; }
pub mod qesa_inner { pub use crate::ipa::qesa_inner::*; }
pub mod gramschmidt { pub use crate::ipa::gramschmidt::*; }
pub mod math_utils { pub use crate::math_utils::*; }
pub mod copy_ { pub use crate::copy::vp::c::*; }
pub mod mapping { pub use crate::copy::vp::m::*; }
'''

def strip(src):
    src = re.sub(r'//[^\n]*', '', src)
    return re.sub(r'/\*.*?\*/', '', src, flags=re.S)

def structs(path):
    """[(name, [(field, type)])] of the non-test structs with named fields in the file"""
    try:
        s = open(path).read()
    except OSError:
        return []
    s = strip(s)
    cut = re.search(r'#\[cfg\(test\)\]\s*mod\b', s)
    if cut:
        s = s[:cut.start()]
    out = []
    for m in re.finditer(r'\bstruct\s+(\w+)\s*([{(])', s):
        i = m.end(); d = 1; j = i
        while d and j < len(s):
            d += {'{': 1, '}': -1, '(': 1, ')': -1}.get(s[j], 0); j += 1
        named = m.group(2) == '{'
        body = s[i:j-1]
        fields = []
        depth = 0; cur = ''
        for c in body + ',':
            if c in '<([{': depth += 1
            if c in '>)]}': depth -= 1
            if c == ',' and depth == 0:
                t = cur.strip(); cur = ''
                t = re.sub(r'#\[[^\]]*\]', '', t).strip()
                mm = re.match(r'(?:pub(?:\([^)]*\))?\s+)?(\w+)\s*:\s*(.*)$', t, flags=re.S)
                if not named:
                    t = re.sub(r'^pub(?:\([^)]*\))?\s+', '', t)
                    if t: fields.append((str(len(fields)), ' '.join(t.split())))
                elif mm: fields.append((mm.group(1), ' '.join(mm.group(2).split())))
            else:
                cur += c
        out.append((m.group(1), fields))
    return out

# proof types; other structs only when these contain them
ROOTS = ('Copy', 'NoZK', 'AlmZK', 'Inner', 'Zk', 'lmpa_noZK', 'SimpleZK', 'SimpleZK_general')

def leaves_impl(path):
    r = '// Generated.\n#[allow(unused_imports)]\nuse crate::vp::{Leaves, Visitor, LeafClone};\n'
    st = dict(structs(path))
    todo = [x for x in ROOTS if x in st]
    reach = []
    while todo:
        x = todo.pop()
        if x in reach: continue
        reach.append(x)
        todo += [y for y in st if any(re.search(r'\b%s\b' % y, t) for _, t in st[x])]
    for name, fields in st.items():
        if name not in reach: continue
        b = ''.join('        self.%s.visit(&format!("{}.%s", p), v);\n' % (f, f) for f, _ in fields)
        r += 'impl Leaves for super::%s {\n    fn visit(&mut self, p: &str, v: &mut dyn Visitor) {\n%s    }\n}\n' % (name, b)
        c = ', '.join('%s: self.%s.lclone()' % (f, f) for f, _ in fields)
        e = ', '.join('%s: LeafClone::ldef()' % f for f, _ in fields)
        r += 'impl LeafClone for super::%s { fn lclone(&self) -> Self { super::%s { %s } } fn ldef() -> Self { super::%s { %s } } }\n' % (name, name, c, name, e)
    return r

def pick(fields, *tests):
    for t in tests:
        for f, ty in fields:
            if t(f, ty): return f
    return None

def mapping_rs(path):
    st = dict(structs(path))
    mp = st.get('Mapping'); mm = None
    for n, f in st.items():
        if n != 'Mapping' and (mm is None or (mp and any(re.search(r'\b%s\b' % n, t) for _, t in mp))): mm = (n, f)
    if mp is None or mm is None:
        return 'compile_error!("mapping structs not found");'
    msgs = pick(mp, lambda f, t: t.startswith('Vec') and mm[0] in t, lambda f, t: mm[0] in t)
    uniq = pick(mp, lambda f, t: 'Set' in t, lambda f, t: 'unique' in f or 'indices' in f)
    num = pick(mp, lambda f, t: t == 'usize')
    last = pick(mp, lambda f, t: 'last' in f, lambda f, t: t == 'u16')
    f = mm[1]
    ident = pick(f, lambda x, t: x in ('msg_id', 'id'), lambda x, t: t == 'usize')
    pos = pick(f, lambda x, t: 'position' in x, lambda x, t: 'pos' in x)
    ci = pick(f, lambda x, t: x == 'commitment_index', lambda x, t: 'index' in x and x != pos)
    crs = pick(f, lambda x, t: 'crs' in x, lambda x, t: t == 'u16' and x not in (pos, ci))
    return '''// Generated.
pub struct Msg { pub id: usize, pub index: usize, pub crs: usize, pub pos: usize }
pub fn num(m: &super::Mapping) -> usize { m.%s as usize }
pub fn last(m: &super::Mapping) -> usize { m.%s as usize }
pub fn uniq(m: &super::Mapping) -> Vec<usize> { m.%s.iter().map(|x| *x as usize).collect() }
pub fn msgs(m: &super::Mapping) -> Vec<Msg> {
    m.%s.iter().map(|x| Msg { id: x.%s as usize, index: x.%s as usize, crs: x.%s as usize, pos: x.%s as usize }).collect()
}
impl<'a> crate::vp::Ad<super::Mapping> for &'a super::Mapping { fn ad(self) -> super::Mapping { self.clone() } }
impl<'a> crate::vp::Ad<&'a super::Mapping> for &'a super::Mapping { fn ad(self) -> &'a super::Mapping { self } }
impl<'a> crate::vp::Ad<&'a [std::collections::BTreeSet<u16>]> for &'a std::collections::BTreeSet<u16> { fn ad(self) -> &'a [std::collections::BTreeSet<u16>] { std::slice::from_ref(self) } }
impl<'a> crate::vp::Ad<&'a std::collections::BTreeSet<u16>> for &'a std::collections::BTreeSet<u16> { fn ad(self) -> &'a std::collections::BTreeSet<u16> { self } }
''' % (num, last, uniq, msgs, ident, ci, crs, pos)

def generate(repo, out):
    os.makedirs(out, exist_ok=True)
    src = os.path.join(repo, 'src')
    def w(name, text):
        p = os.path.join(out, name + '.rs')
        old = None
        try: old = open(p).read()
        except OSError: pass
        if old != text:
            open(p, 'w').write(text)
    w('root', ROOT_RS)
    w('copy_mod', 'pub mod c { pub use super::super::copy::*; }\npub mod m { pub use super::super::mapping::*; }\n')
    w('copy', leaves_impl(os.path.join(src, 'copy/copy.rs')) + '''
use crate::vp::{ad, Acc};
use curve25519_dalek::ristretto::RistrettoPoint;
pub fn verify(p: &super::Copy, tr: &mut merlin::Transcript, g: &Vec<RistrettoPoint>, h: &Vec<RistrettoPoint>, q: &RistrettoPoint,
    gamma: &crate::matrix::BlockMatrix, map: &crate::copy::mapping::Mapping, comms: &Vec<RistrettoPoint>) -> bool {
    p.verify(tr, ad(g), ad(h), ad(q), ad(gamma), ad(map), ad(comms)).acc()
}
''')
    w('mapping', mapping_rs(os.path.join(src, 'copy/mapping.rs')))
    w('ipa_no_zk', leaves_impl(os.path.join(src, 'ipa/no_zk.rs')))
    w('alm_zk', leaves_impl(os.path.join(src, 'ipa/alm_zk.rs')))
    w('qesa_inner', leaves_impl(os.path.join(src, 'ipa/qesa_inner.rs')))
    w('qesa_zk', leaves_impl(os.path.join(src, 'qesa_zk.rs')))
    w('lmpa_no_zk', leaves_impl(os.path.join(src, 'lmpa/no_zk.rs')))
    w('simple_zk', leaves_impl(os.path.join(src, 'lmpa/simple_zk.rs')))
    w('gramschmidt', '''
use curve25519_dalek::scalar::Scalar;
pub fn once(a: &Vec<Scalar>) -> Vec<Scalar> { super::sample_gram_schmidt(crate::vp::ad(a)) }
''')

if __name__ == '__main__':
    import sys
    generate(sys.argv[1], sys.argv[2])
