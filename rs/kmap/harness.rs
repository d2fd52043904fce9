//! Generated bounds: see vp/kmap.py.
use crate::copy::vp::m::{compute_mapping, Mapping};
use crate::vp::{mapping::vp, ad};
use crate::vpcoll::BTreeSet;

pub const SETS: usize = @SETS@;
pub const PER: usize = @PER@;
pub const WIDTH: usize = @WIDTH@;

fn any_set(len: usize) -> BTreeSet<u16> {
    let mut s = BTreeSet::new();
    let mut i = 0;
    while i < len {
        let v: u16 = kani::any();
        if i > 0 {
            if let Some(p) = s.a[i - 1] { kani::assume(p < v) }
        }
        s.a[i] = Some(v);
        i += 1;
    }
    s.len = len;
    s
}
/// what a valid request is, by the property's text
fn valid(n: usize, ws: usize, sets: &[BTreeSet<u16>]) -> bool {
    if n > 65535 || n < 2 || ws > n - 2 { return false }
    let mut total = 0;
    let mut reserved = 0; // distinct indices at or after ws
    let mut i = 0;
    while i < sets.len() {
        let mut j = 0;
        while j < sets[i].len {
            let v = sets[i].a[j].unwrap() as usize;
            if v == 0 || v >= n - 2 { return false }
            if v >= ws {
                let mut new = true;
                let mut k = 0;
                while k < i { if sets[k].contains(&(v as u16)) { new = false } k += 1; }
                if new { reserved += 1 }
            }
            total += 1;
            j += 1;
        }
        i += 1;
    }
    total <= n - 2 - ws - reserved
}
fn request(lens: &[usize]) -> (usize, usize, [BTreeSet<u16>; SETS]) {
    let n: usize = kani::any();
    let ws: usize = kani::any();
    let mut sets = [BTreeSet::new(); SETS];
    let mut i = 0;
    while i < lens.len() { sets[i] = any_set(lens[i]); i += 1; }
    (n, ws, sets)
}
fn holds(lens: &[usize]) {
    let (n, ws, sets) = request(lens);
    let sets = &sets[..lens.len()];
    kani::assume(valid(n, ws, sets));
    kani::assume(n - 2 - ws <= WIDTH);
    let m = compute_mapping(n, ad(ws), sets);
    post(&m, n, ws, sets);
    kani::cover!(true, "VP_REACHED");
}
fn post(m: &Mapping, n: usize, ws: usize, sets: &[BTreeSet<u16>]) {
    let ms = vp::msgs(m);
    let mut total = 0;
    let mut i = 0;
    while i < sets.len() { total += sets[i].len; i += 1; }
    assert!(ms.len() == total, "VP one record per message");
    assert!(vp::num(m) == sets.len(), "VP number of commitments");
    let mut k = 0;
    let mut i = 0;
    while i < sets.len() {
        let mut j = 0;
        while j < sets[i].len {
            let r = &ms[k];
            assert!(r.crs == i, "VP message belongs to its commitment");
            assert!(r.index == sets[i].a[j].unwrap() as usize, "VP message has its generator index");
            assert!(r.id == k, "VP message number");
            assert!(r.pos >= ws, "VP position after the user witness");
            assert!(r.pos < n - 2, "VP position before the blinding positions");
            let mut l = 0;
            while l < sets.len() { assert!(!sets[l].contains(&(r.pos as u16)), "VP position is not a commitment index"); l += 1; }
            let mut l = 0;
            while l < k { assert!(ms[l].pos != r.pos, "VP positions distinct"); l += 1; }
            k += 1;
            j += 1;
        }
        i += 1;
    }
    assert!(total == 0 || vp::last(m) == ms[total - 1].pos, "VP last position");
    let u = vp::uniq(m);
    let mut i = 0;
    while i < u.len() {
        let mut found = false;
        let mut l = 0;
        while l < sets.len() { if sets[l].contains(&(u[i] as u16)) { found = true } l += 1; }
        assert!(found, "VP only commitment indices in the union");
        if i > 0 { assert!(u[i - 1] < u[i], "VP union is a set in order"); }
        i += 1;
    }
    let mut l = 0;
    while l < sets.len() {
        let mut j = 0;
        while j < sets[l].len {
            let v = sets[l].a[j].unwrap() as usize;
            let mut found = false;
            let mut i = 0;
            while i < u.len() { if u[i] == v { found = true } i += 1; }
            assert!(found, "VP every commitment index in the union");
            j += 1;
        }
        l += 1;
    }
}
fn refused(lens: &[usize]) {
    let (n, ws, sets) = request(lens);
    let sets = &sets[..lens.len()];
    kani::assume(!valid(n, ws, sets));
    // the loop over positions stays within the bound, also with 16-bit arithmetic
    let (e, p) = ((n as u16).wrapping_sub(2), ws as u16);
    kani::assume(e <= p || (e - p) as usize <= WIDTH);
    let _m = compute_mapping(n, ad(ws), sets);
    assert!(false, "VP_ACCEPTED");
}
