//! Scenarios for the parts that are not proof systems.
use crate::env::*;
use crate::protos::*;
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use qesa::vp::{self, ad};

fn mapping(c: &Cfg) {
    let sets = parse_sets(c.s("sets"));
    let (n, ws) = (c.u("n"), c.u("ws"));
    let m = guard("prove", || vp::mapping::compute_mapping(ad(n), ad(ws), ad_sets(&sets)));
    if let Some(m) = m {
        let ms = vp_msgs(&m);
        for (i, x) in ms.iter().enumerate() {
            out_n(&format!("m{}:id", i), x.id);
            out_n(&format!("m{}:index", i), x.index);
            out_n(&format!("m{}:crs", i), x.crs);
            out_n(&format!("m{}:pos", i), x.pos);
        }
        out_n("count", ms.len());
        out_n("num", vp::mapping::vp::num(&m));
        out_n("last", vp::mapping::vp::last(&m));
        let u = vp::mapping::vp::uniq(&m);
        for (i, x) in u.iter().enumerate() {
            out_n(&format!("u{}", i), *x);
        }
        out_n("ucount", u.len());
    }
}

type Sv = Vec<Scalar>;
type Pv = Vec<RistrettoPoint>;

/// the code's result and what it should be: `got` and `want` (symbolic) or their comparison (replay)
fn eqs(name: &str, got: &Scalar, want: &Scalar) {
    #[cfg(feature = "sym")]
    {
        out_s(&format!("got:{}", name), got);
        out_s(&format!("want:{}", name), want);
    }
    #[cfg(feature = "real")]
    out_b(&format!("goal:{}", name), got == want);
}
fn eqp(name: &str, got: &RistrettoPoint, want: &RistrettoPoint) {
    #[cfg(feature = "sym")]
    {
        out_p(&format!("got:{}", name), got);
        out_p(&format!("want:{}", name), want);
    }
    #[cfg(feature = "real")]
    out_b(&format!("goal:{}", name), got == want);
}
fn same_len(name: &str, a: usize, b: usize) -> bool {
    out_b(&format!("goal:len:{}", name), a == b);
    a == b
}
fn eqsv(name: &str, got: &[Scalar], want: &[Scalar]) {
    if same_len(name, got.len(), want.len()) {
        for i in 0..got.len() {
            eqs(&format!("{}.{}", name, i), &got[i], &want[i]);
        }
    }
}
fn eqpv(name: &str, got: &[RistrettoPoint], want: &[RistrettoPoint]) {
    if same_len(name, got.len(), want.len()) {
        for i in 0..got.len() {
            eqp(&format!("{}.{}", name, i), &got[i], &want[i]);
        }
    }
}
fn eqsm(name: &str, got: &Vec<Sv>, want: &Vec<Sv>) {
    if same_len(name, got.len(), want.len()) {
        for i in 0..got.len() {
            eqsv(&format!("{}.{}", name, i), &got[i], &want[i]);
        }
    }
}
fn eqpm(name: &str, got: &Vec<Pv>, want: &Vec<Pv>) {
    if same_len(name, got.len(), want.len()) {
        for i in 0..got.len() {
            eqpv(&format!("{}.{}", name, i), &got[i], &want[i]);
        }
    }
}
/// one operation under test; a panic is recorded
fn op(name: &str, f: impl FnOnce()) {
    guard(name, f);
}
/// an operation that has to be refused (by a panic)
fn refuse<R>(name: &str, f: impl FnOnce() -> R) {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err();
    out_b(&format!("goal:refused:{}", name), r);
}
fn smat(t: &str, m: usize, n: usize) -> Vec<Sv> {
    (0..m).map(|i| svec(&format!("{}{}_", t, i), n)).collect()
}
fn pmat(t: &str, m: usize, n: usize) -> Vec<Pv> {
    (0..m).map(|i| pvec(&format!("{}{}_", t, i), n)).collect()
}
fn pw(x: &Scalar, k: usize) -> Scalar {
    let mut r = Scalar::one();
    for _ in 0..k {
        r = r * x;
    }
    r
}

fn matrix(c: &Cfg) {
    use qesa::matrix::*;
    let (m, n, k) = (c.u("m"), c.u("n"), c.u_or("k", 1));
    let x = s("x");
    let (a, b) = (smat("a", m, n), smat("b", m, n));
    let (pa, pb) = (pmat("A", m, n), pmat("B", m, n));
    let v = svec("v", n);
    let tab = |f: &dyn Fn(usize, usize) -> Scalar| -> Vec<Sv> { (0..m).map(|i| (0..n).map(|j| f(i, j)).collect()).collect() };
    let tabp = |f: &dyn Fn(usize, usize) -> RistrettoPoint| -> Vec<Pv> { (0..m).map(|i| (0..n).map(|j| f(i, j)).collect()).collect() };
    op("matrix_scalar_mul", || eqsm("matrix_scalar_mul", &matrix_scalar_mul(ad(&a), ad(&x)), &tab(&|i, j| a[i][j] * x)));
    op("matrix_scalar_mul_general", || eqsm("matrix_scalar_mul_general", &matrix_scalar_mul_general(&a, &x), &tab(&|i, j| a[i][j] * x)));
    op("matrix_vector_mul", || eqsv("matrix_vector_mul", &matrix_vector_mul(ad(&a), ad(&v)), &(0..m).map(|i| ip(&a[i], &v)).collect::<Sv>()));
    op("matrix_vector_mul_general", || {
        eqsv("matrix_vector_mul_general", &matrix_vector_mul_general(&a, &v, Scalar::zero()), &(0..m).map(|i| ip(&a[i], &v)).collect::<Sv>())
    });
    op("vector_scalar_mul_general", || eqsv("vector_scalar_mul_general", &vector_scalar_mul_general(&v, &x), &v.iter().map(|y| y * x).collect::<Sv>()));
    op("row_row_add", || eqsv("row_row_add", &row_row_add(ad(&a[0]), ad(&b[0])), &(0..n).map(|j| a[0][j] + b[0][j]).collect::<Sv>()));
    op("row_row_sub", || eqsv("row_row_sub", &row_row_sub(ad(&a[0]), ad(&b[0])), &(0..n).map(|j| a[0][j] - b[0][j]).collect::<Sv>()));
    op("row_row_add_general", || eqsv("row_row_add_general", &row_row_add_general(&a[0], &b[0]), &(0..n).map(|j| a[0][j] + b[0][j]).collect::<Sv>()));
    op("matrix_matrix_add", || eqsm("matrix_matrix_add", &matrix_matrix_add(ad(&a), ad(&b)), &tab(&|i, j| a[i][j] + b[i][j])));
    op("matrix_matrix_add_general", || eqsm("matrix_matrix_add_general", &matrix_matrix_add_general(&a, &b), &tab(&|i, j| a[i][j] + b[i][j])));
    op("matrix_transpose", || eqsm("matrix_transpose", &matrix_transpose(ad(&a)), &(0..n).map(|j| (0..m).map(|i| a[i][j]).collect()).collect()));
    // group elements
    op("matrixpoint_scalar_mul", || eqpm("matrixpoint_scalar_mul", &matrixpoint_scalar_mul(&pa, &x), &tabp(&|i, j| x * pa[i][j])));
    op("matrixpoint_vector_mul", || eqpv("matrixpoint_vector_mul", &matrixpoint_vector_mul(&pa, ad(&v)), &(0..m).map(|i| plin(&v, &pa[i])).collect::<Pv>()));
    op("vectorpoint_scalar_mul", || eqpv("vectorpoint_scalar_mul", &vectorpoint_scalar_mul(&pa[0], &x), &(0..n).map(|j| x * pa[0][j]).collect::<Pv>()));
    op("rowpoint_rowpoint_add", || eqpv("rowpoint_rowpoint_add", &rowpoint_rowpoint_add(&pa[0], &pb[0]), &(0..n).map(|j| pa[0][j] + pb[0][j]).collect::<Pv>()));
    op("row_row_add_general(points)", || eqpv("row_row_add_general(points)", &row_row_add_general(&pa[0], &pb[0]), &(0..n).map(|j| pa[0][j] + pb[0][j]).collect::<Pv>()));
    op("matrixpoint_matrix_add", || eqpm("matrixpoint_matrix_add", &matrixpoint_matrix_add(&pa, &pb), &tabp(&|i, j| pa[i][j] + pb[i][j])));
    op("matrix_matrix_add_general(points)", || eqpm("matrix_matrix_add_general(points)", &matrix_matrix_add_general(&pa, &pb), &tabp(&|i, j| pa[i][j] + pb[i][j])));
    op("matrixpoint_transpose", || eqpm("matrixpoint_transpose", &matrixpoint_transpose(&pa), &(0..n).map(|j| (0..m).map(|i| pa[i][j]).collect()).collect()));
    // split in column blocks
    for w in 1..=n {
        if n % w == 0 {
            op("matrix_split", || {
                let sp = matrix_split(&a, w);
                if same_len("matrix_split", sp.len(), n / w) {
                    for q in 0..n / w {
                        eqsm(&format!("matrix_split({}).{}", w, q), &sp[q], &(0..m).map(|i| a[i][q * w..(q + 1) * w].to_vec()).collect());
                    }
                }
            });
            op("matrix_split(points)", || {
                let sp = matrix_split(&pa, w);
                if same_len("matrix_split(points)", sp.len(), n / w) {
                    for q in 0..n / w {
                        eqpm(&format!("matrix_split(points,{}).{}", w, q), &sp[q], &(0..m).map(|i| pa[i][q * w..(q + 1) * w].to_vec()).collect());
                    }
                }
            });
        } else {
            refuse(&format!("matrix_split({})", w), || matrix_split(&a, w));
        }
    }
    // powers
    op("vandemonde_vector", || eqsv("vandemonde_vector", &vandemonde_vector(x, n), &(0..n).map(|i| pw(&x, i)).collect::<Sv>()));
    op("vandemonde_vector_general", || eqsv("vandemonde_vector_general", &vandemonde_vector_general(x, n, Scalar::one()), &(0..n).map(|i| pw(&x, i)).collect::<Sv>()));
    op("vandemonde_matrix", || {
        let vm = vandemonde_matrix(m, n);
        same_len("vandemonde_matrix", vm.len(), m);
        for (i, r) in vm.iter().enumerate() {
            if same_len("vandemonde_matrix", r.len(), n) && n > 1 {
                let y = r[1];
                eqsv(&format!("vandemonde_matrix.{}", i), r, &(0..n).map(|i| pw(&y, i)).collect::<Sv>());
                out_s(&format!("draw:vandemonde_matrix.{}", i), &y);
            }
        }
    });
    op("rand_matrix", || {
        let rm = rand_matrix(m, n);
        same_len("rand_matrix", rm.len(), m);
        for (i, r) in rm.iter().enumerate() {
            same_len("rand_matrix", r.len(), n);
            for (j, y) in r.iter().enumerate() {
                out_p(&format!("draw:rand_matrix.{}.{}", i, j), y);
            }
        }
    });
    op("vandemonde_challenge", || eqsv("vandemonde_challenge", &vp::math_utils::vandemonde_challenge(ad(&x), n), &(0..n).map(|i| pw(&x, i + 1)).collect::<Sv>()));
    op("inner_product", || eqs("inner_product", &vp::math_utils::inner_product(ad(&a[0]), ad(&b[0])), &ip(&a[0], &b[0])));
    // batching
    op("block_matrix_batch", || {
        let blocks: Vec<Vec<Sv>> = (0..k).map(|q| smat(&format!("blk{}_", q), m, n)).collect();
        let ch = svec("ch", k);
        let mut bm = BlockMatrix::with(blocks[0].clone());
        for q in 1..k {
            bm.push(blocks[q].clone());
        }
        same_len("BlockMatrix", bm.block.len(), k);
        let want = tab(&|i, j| {
            let mut t = Scalar::zero();
            for q in 0..k {
                t = t + ch[q] * blocks[q][i][j];
            }
            t
        });
        eqsm("block_matrix_batch", &bm.block_matrix_batch(ad(&ch)), &want);
        let mut b2 = BlockMatrix::new();
        for q in 0..k {
            b2.push(blocks[q].clone());
        }
        eqsm("block_matrix_batch(new)", &b2.block_matrix_batch(ad(&ch)), &want);
    });
    // different sizes: one element less at the end, one row less
    let short = svec("y", n - 1);
    let long = svec("z", n + 1);
    let (pshort, plong) = (pvec("Y", n - 1), pvec("Z", n + 1));
    for (t, o, po) in [("shorter", &short, &pshort), ("longer", &long, &plong)].iter() {
        refuse(&format!("row_row_add({})", t), || row_row_add(ad(&a[0]), ad(*o)));
        refuse(&format!("row_row_sub({})", t), || row_row_sub(ad(&a[0]), ad(*o)));
        refuse(&format!("row_row_add_general({})", t), || row_row_add_general(&a[0], o));
        refuse(&format!("rowpoint_rowpoint_add({})", t), || rowpoint_rowpoint_add(&pa[0], po));
        let mut b2 = b.clone();
        b2[m - 1] = (*o).clone();
        let mut pb2 = pb.clone();
        pb2[m - 1] = (*po).clone();
        refuse(&format!("matrix_matrix_add(last row {})", t), || matrix_matrix_add(ad(&a), ad(&b2)));
        refuse(&format!("matrix_matrix_add_general(last row {})", t), || matrix_matrix_add_general(&a, &b2));
        refuse(&format!("matrixpoint_matrix_add(last row {})", t), || matrixpoint_matrix_add(&pa, &pb2));
    }
    for d in [m - 1, m + 1].iter() {
        let (b2, pb2) = (smat("b", *d, n), pmat("B", *d, n));
        refuse(&format!("matrix_matrix_add({} rows)", d), || matrix_matrix_add(ad(&a), ad(&b2)));
        refuse(&format!("matrix_matrix_add_general({} rows)", d), || matrix_matrix_add_general(&a, &b2));
        refuse(&format!("matrixpoint_matrix_add({} rows)", d), || matrixpoint_matrix_add(&pa, &pb2));
    }
}

fn commit(c: &Cfg) {
    let n = c.u("n");
    let sets = parse_sets(c.s("sets"));
    let g = pvec("G", n);
    let mut prods = vec![];
    for (i, st) in sets.iter().enumerate() {
        let (m, r) = (svec(&format!("m{}_", i), st.len()), s(&format!("cr{}", i)));
        op("commit", || {
            let mut want = r * g[n - 1];
            for (x, j) in m.iter().zip(st.iter()) {
                want = want + x * g[*j as usize];
            }
            let got = vp::mapping::commit(ad(&g), st, ad(&m), ad(&r));
            eqp(&format!("commit.{}", i), &got, &want);
            prods.push((m.clone(), r, got, st.clone()));
        });
        if !m.is_empty() {
            refuse(&format!("commit({} messages less)", i), || vp::mapping::commit(ad(&g), st, &m[..m.len() - 1], ad(&r)));
        }
        let mut l = m.clone();
        l.push(s("extra"));
        refuse(&format!("commit({} messages more)", i), || vp::mapping::commit(ad(&g), st, &l[..], ad(&r)));
        refuse(&format!("commit({} generators less)", i), || {
            let mx = *st.iter().last().unwrap() as usize;
            vp::mapping::commit(&g[..mx], st, ad(&m), ad(&r))
        });
    }
    // commitments over the same indices add up
    for i in 1..prods.len() {
        if prods[i].3 == prods[0].3 {
            let sum: Sv = prods[0].0.iter().zip(prods[i].0.iter()).map(|(x, y)| x + y).collect();
            let got = vp::mapping::commit(ad(&g), &prods[0].3, ad(&sum), ad(&(prods[0].1 + prods[i].1)));
            eqp(&format!("commit sum 0+{}", i), &(prods[0].2 + prods[i].2), &got);
        }
    }
    // all generators
    use qesa::lmpa::simple_zk::pedersen_commit;
    let h = p("H0");
    let (m, r, m2, r2, u) = (svec("pm", n), s("pr"), svec("pn", n), s("ps"), s("u"));
    op("pedersen_commit", || {
        let got = pedersen_commit(&h, &g, &m, &r);
        eqp("pedersen_commit", &got, &(plin(&m, &g) + r * h));
        let k = pedersen_commit(&h, &g, &m2, &r2);
        let sum: Sv = m.iter().zip(m2.iter()).map(|(x, y)| x + u * y).collect();
        eqp("pedersen_commit is linear", &pedersen_commit(&h, &g, &sum, &(r + u * r2)), &(got + u * k));
    });
    refuse("pedersen_commit(message less)", || pedersen_commit(&h, &g, &m[..n - 1], &r));
    refuse("pedersen_commit(generator less)", || pedersen_commit(&h, &g[..n - 1], &m, &r));
}

/// masks: `calls` masks for one vector and `calls` for two
fn masks(c: &Cfg) {
    let n = c.u("n");
    let (a, b) = (svec("a", n), svec("b", n));
    let calls = c.u_or("calls", 1);
    let two = c.u_or("two", 0) == 1;
    vpcore::with(|e| {
        e.ndec = 0;
        e.forced = c.s("forced").chars().map(|x| x == '1').collect();
    });
    mark("prove");
    for k in 0..calls {
        op("mask", || {
            let r: Sv = if two { vp::gramschmidt::sample_gram_schmidt_twice(ad(&a), ad(&b)) } else { vp::gramschmidt::sample_gram_schmidt(ad(&a)) };
            if same_len("mask", r.len(), n) {
                for i in 0..n {
                    out_s(&format!("mask{}.{}", k, i), &r[i]);
                }
                eqs(&format!("mask{} orthogonal to first vector", k), &ip(&r, &a), &Scalar::zero());
                if two {
                    eqs(&format!("mask{} orthogonal to second vector", k), &ip(&r, &b), &Scalar::zero());
                }
            }
        });
    }
    mark("proved");
    if two {
        return;
    }
    op("orth", || {
        let r: Sv = vp::gramschmidt::orth(ad(&a), ad(&b));
        eqs("orth", &ip(&r, &a), &Scalar::zero());
        // the difference is along the first vector
        for i in 1..n {
            eqs(&format!("orth along {}", i), &((b[i] - r[i]) * a[0]), &((b[0] - r[0]) * a[i]));
        }
    });
}

pub fn run(x: &str, c: &Cfg) {
    match x {
        "mapping" => mapping(c),
        "matrix" => matrix(c),
        "commit" => commit(c),
        "masks" => masks(c),
        _ => panic!("unknown scenario {}", x),
    }
}
