#![allow(non_snake_case, unused)]
mod env;
mod misc;
mod protos;
use env::*;
use merlin::Transcript;
use protos::*;
use qesa::vp::{LeafClone, Leaves};
use std::io::Write;

/// The caller's transcript.  `bind`: the caller has absorbed the statement, as the callers in /repo's tests do for P.
fn tr<P: Proto>(c: &Cfg, st: &mut P) -> Transcript {
    let mut t = Transcript::new(b"vp");
    if c.u_or("bind", 1) == 1 {
        struct B<'a>(&'a mut Transcript);
        impl<'a> qesa::vp::Visitor for B<'a> {
            fn leaf(&mut self, _p: &str, l: qesa::vp::LeafRef) {
                match l {
                    qesa::vp::LeafRef::S(x) => self.0.append_message(b"st", x.as_bytes()),
                    qesa::vp::LeafRef::P(x) => self.0.append_message(b"st", x.compress().as_bytes()),
                    qesa::vp::LeafRef::C(x) => self.0.append_message(b"st", x.as_bytes()),
                }
            }
            fn vec(&mut self, _p: &str, _v: &mut dyn qesa::vp::VecOps) {}
        }
        st.claims(&mut B(&mut t));
    }
    t
}

fn c_st<P: Proto>(c: &Cfg) -> P {
    P::new(c)
}
fn drive<P: Proto>(c: &Cfg) {
    let mode = c.s("mode").to_string();
    let mut st = P::new(c);
    let mut t1 = tr(c, &mut st);
    mark("prove");
    let mut proof = match guard("prove", || st.prove(&mut t1)) {
        Some(p) => p,
        None => return,
    };
    mark("proved");
    if c.u_or("pre", 0) == 1 {
        // the honest proof is verified first: whatever the code remembers of it must not help what comes after
        let mut t = tr(c, &mut st);
        mark("pre");
        guard("pre", || st.verify(&proof, &mut t));
    }
    if !c.s("bad").is_empty() {
        // as above with altered proofs: they must not spoil what comes after
        for path in c.s("bad").split('+') {
            let mut q = proof.lclone();
            let mut v = Tamper { path, hit: false };
            visit(&mut q, &mut v);
            out_b("hit", v.hit);
            let mut t = tr(c, &mut st);
            mark("pre");
            guard("pre", || st.verify(&q, &mut t));
        }
        vpcore::with(|e| {
            e.ndec = 0;
            e.forced.clear();
        });
    }
    match mode.as_str() {
        "honest" => {
            st.notes();
            visit(&mut proof, &mut Dump("proof"));
            if c.u_or("again", 0) == 1 {
                // a second proof of the same thing
                if let Some(mut p2) = guard("prove", || st.prove(&mut tr(c, &mut c_st::<P>(c)))) {
                    visit(&mut p2, &mut Dump("proof:again"));
                }
                return;
            }
            if c.u_or("ctx", 0) == 1 {
                // the same proof under a transcript with a different past
                let mut t2 = tr(c, &mut st);
                t2.append_message(b"context", b"other");
                mark("verify");
                if let Some(ok) = guard("verify", || st.verify(&proof, &mut t2)) {
                    out_b("accept", ok)
                }
                return;
            }
            let mut t2 = tr(c, &mut st);
            mark("verify");
            if let Some(ok) = guard("verify", || st.verify(&proof, &mut t2)) {
                out_b("accept", ok)
            }
        }
        "paths" => {
            let mut ps = Paths::default();
            visit(&mut proof, &mut ps);
            for (p, k) in ps.leaves.iter() {
                out_n(&format!("leaf:{}:{}", k, p), 0);
            }
            for (p, n) in ps.vecs.iter() {
                out_n(&format!("vec:{}", p), *n);
            }
            let mut ps = Paths::default();
            st.publics(&mut ps);
            for (p, k) in ps.leaves.iter() {
                out_n(&format!("pub:{}:{}", k, p), 0);
            }
            for (p, n) in ps.vecs.iter() {
                out_n(&format!("pubvec:{}", p), *n);
            }
        }
        "arb" => {
            let b = st.basis();
            let agm = if c.s("leaf") == "agm" { Some(&b[..]) } else { None };
            if c.u_or("keepclaims", 0) == 0 {
                st.claims(&mut Fill { agm, tag: "st" });
            }
            visit(&mut proof, &mut Fill { agm, tag: "L" });
            visit(&mut proof, &mut Dump("proof"));
            st.notes();
            reset_chals();
            vpcore::with(|e| {
                e.ndec = 0;
                e.forced = c.s("forced").chars().map(|x| x == '1').collect();
            });
            let mut t2 = tr(c, &mut st);
            mark("verify");
            if let Some(ok) = guard("verify", || st.verify(&proof, &mut t2)) {
                out_b("accept", ok)
            }
        }
        "tamper" | "shape" => {
            let path = c.s("path").to_string();
            let hit;
            if mode == "tamper" {
                let mut v = Tamper { path: &path, hit: false };
                if let Some(x) = path.strip_prefix("pub/") {
                    v.path = x;
                    st.publics(&mut v);
                } else {
                    visit(&mut proof, &mut v);
                }
                hit = v.hit;
            } else {
                // pub/: the statement instead of the proof
                let (pb, pf): (Vec<&str>, Vec<&str>) = path.split('+').partition(|x| x.starts_with("pub/"));
                let pb = pb.iter().map(|x| &x[4..]).collect::<Vec<_>>().join("+");
                let pf = pf.join("+");
                let mut v = Shape { path: &pf, what: c.s("what"), hit: 0 };
                let mut u = Shape { path: &pb, what: c.s("what"), hit: 0 };
                if !pf.is_empty() {
                    visit(&mut proof, &mut v);
                }
                if !pb.is_empty() {
                    let mut ps = Paths::default();
                    st.publics(&mut ps);
                    st.publics(&mut Ends { shape: &u, vecs: &ps.vecs });
                    st.publics(&mut u);
                }
                hit = (pf.is_empty() || v.all_hit()) && (pb.is_empty() || u.all_hit());
            }
            out_b("hit", hit);
            vpcore::with(|e| {
                e.ndec = 0;
                e.forced = c.s("forced").chars().map(|x| x == '1').collect();
            });
            let mut t2 = tr(c, &mut st);
            mark("verify");
            if let Some(ok) = guard("verify", || st.verify(&proof, &mut t2)) {
                out_b("accept", ok)
            }
        }
        m => panic!("mode {}", m),
    }
}

fn run(c: &Cfg) {
    match c.s("proto") {
        "ipa" => drive::<Ipa>(c),
        "alm" => drive::<Alm>(c),
        "qesa" => drive::<Qesa>(c),
        "zk" => drive::<Zk>(c),
        "copy" => drive::<Cp>(c),
        "lmpa" => drive::<Lmpa>(c),
        "klmpa" => drive::<Klmpa>(c),
        "szk" => drive::<Szk>(c),
        "gzk" => drive::<Gzk>(c),
        x => misc::run(x, c),
    }
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(code: i32) -> !;
}
/// The same scenario with other values, in the same process, before the one that counts.
fn warm(c: &Cfg) {
    let mut w = c.clone();
    w.val.clear();
    w.suffix.clear();
    for k in ["warm", "forced", "ctx", "again", "pre", "bad", "path", "what"] {
        w.par.remove(k);
    }
    if w.par.contains_key("mode") {
        w.par.insert("mode".into(), "honest".into());
    }
    CFG.with(|x| *x.borrow_mut() = w.clone());
    vpcore::with(|e| e.pre = "w~".into());
    guard("warm", move || run(&w));
    OUT.with(|o| o.borrow_mut().clear());
    vpcore::with(|e| {
        e.pre.clear();
        e.log.clear();
        e.chal_hist.clear();
        e.chals.clear();
        e.rnds.clear();
        e.nrnd = 0;
        e.ndec = 0;
        e.forced.clear();
    });
    CFG.with(|x| *x.borrow_mut() = c.clone());
}

/// h_x JOBS OUT: JOBS holds one job per line-block; a trace is written per job.
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let jobs = std::fs::read_to_string(&a[1]).unwrap();
    std::fs::File::create(&a[2]).unwrap();
    let mut out = std::io::BufWriter::new(std::fs::OpenOptions::new().append(true).open(&a[2]).unwrap());
    std::panic::set_hook(Box::new(|_| {}));
    for job in jobs.split("\n\n").filter(|j| !j.trim().is_empty()) {
        // a process of its own for every job: nothing the code keeps is left over from another job
        let pid = unsafe { fork() };
        assert!(pid >= 0, "fork");
        if pid > 0 {
            let mut st = 0;
            while unsafe { waitpid(pid, &mut st, 0) } != pid {}
            if st != 0 {
                eprintln!("job failed ({}): {}", st, job);
                std::process::exit(3);
            }
            continue;
        }
        let mut c = Cfg::default();
        vpcore::with(|e| {
            *e = vpcore::Engine::new();
            e.sym = cfg!(feature = "sym");
        });
        OUT.with(|o| o.borrow_mut().clear());
        for l in job.lines() {
            let mut it = l.splitn(3, '\t');
            let (k, n, v) = (it.next().unwrap(), it.next().unwrap_or(""), it.next().unwrap_or(""));
            match k {
                "par" => {
                    c.par.insert(n.into(), v.into());
                }
                "val" => {
                    c.val.insert(n.into(), v.into());
                }
                "suffix" => {
                    c.suffix.insert(n.into(), v.into());
                }
                "assign" => {
                    let mut b = [0u8; 32];
                    for i in 0..32 {
                        b[i] = u8::from_str_radix(&v[2 * i..2 * i + 2], 16).unwrap();
                    }
                    vpcore::with(|e| e.assign.insert(n.into(), b));
                }
                "" => {}
                x => panic!("job line {}", x),
            }
        }
        CFG.with(|x| *x.borrow_mut() = c.clone());
        vpcore::with(|e| e.seed = c.u_or("seed", 1) as u64);
        #[cfg(feature = "sym")]
        for (k, v) in c.val.iter() {
            if let Some(ch) = k.strip_prefix("chal:") {
                let n = expr(v).node();
                vpcore::with(|e| e.chal_script.insert(ch.to_string(), n));
            }
        }
        if c.u_or("warm", 0) == 1 {
            warm(&c);
        }
        let cc = c.clone();
        guard("run", move || run(&cc));
        functional();
        write_trace(&mut out);
        out.flush().unwrap();
        unsafe { _exit(0) }
    }
}
fn write_trace(out: &mut dyn Write) {
    vpcore::with(|e| {
        write!(out, "{{").unwrap();
        #[cfg(feature = "sym")]
        {
            let ns: Vec<String> = e
                .nodes
                .iter()
                .map(|n| match n {
                    vpcore::Node::Const(c) => format!("[\"c\",\"{}\"]", c),
                    vpcore::Node::Big(b) => format!("[\"c\",\"{}\"]", bigdec(b)),
                    vpcore::Node::Var(s) => format!("[\"v\",\"{}\"]", s),
                    vpcore::Node::Add(a, b) => format!("[\"+\",{},{}]", a, b),
                    vpcore::Node::Mul(a, b) => format!("[\"*\",{},{}]", a, b),
                    vpcore::Node::Neg(a) => format!("[\"-\",{}]", a),
                    vpcore::Node::Inv(a) => format!("[\"i\",{}]", a),
                })
                .collect();
            write!(out, "\"nodes\":[{}],", ns.join(",")).unwrap();
            let z: Vec<String> = (0..e.nodes.len()).filter(|i| e.is_zero_fp(*i as u32)).map(|i| i.to_string()).collect();
            write!(out, "\"zero\":[{}],", z.join(",")).unwrap();
            let f: Vec<String> = e.fps.iter().map(|x| format!("\"{:x}.{:x}\"", x[0], x[1])).collect();
            write!(out, "\"fp\":[{}],", f.join(",")).unwrap();
            let ps: Vec<String> = e
                .points
                .iter()
                .map(|p| format!("[{}]", p.iter().map(|(b, c)| format!("[{},{}]", b, c)).collect::<Vec<_>>().join(",")))
                .collect();
            write!(out, "\"points\":[{}],", ps.join(",")).unwrap();
            let bs: Vec<String> = e.basis.iter().map(|b| format!("\"{}\"", b)).collect();
            write!(out, "\"basis\":[{}],", bs.join(",")).unwrap();
        }
        write!(out, "\"log\":[{}],", e.log.join(",")).unwrap();
        OUT.with(|o| write!(out, "\"out\":[{}]", o.borrow().join(",")).unwrap());
        writeln!(out, "}}").unwrap();
    })
}
#[cfg(feature = "sym")]
fn bigdec(b: &[u8; 32]) -> String {
    // 0x... is fine for the reader
    format!("0x{}", b.iter().rev().map(|x| format!("{:02x}", x)).collect::<String>())
}
