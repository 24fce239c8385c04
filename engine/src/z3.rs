//! Minimal Z3 C API binding and translation of the expression DAG.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_get_numeral_binary_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_substitute(c: P, a: P, n: c_uint, from: *const P, to: *const P) -> P;
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
}
extern "C" fn on_err(c: P, e: c_int) {
    unsafe {
        let m = CStr::from_ptr(Z3_get_error_msg(c, e));
        eprintln!("z3 error: {:?}", m);
    }
    std::process::exit(3);
}

pub enum Res {
    Sat(HashMap<u32, Val>),
    Unsat,
    Unknown,
}

pub struct Z3 {
    c: P,
    logic: P,
    bv: HashMap<E, P>,
    bo: HashMap<E, P>,
    params: P,
    quick: P,
    timeout_ms: u32,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub secs: f64,
    pub max_secs: f64,
    pub dump: Option<String>,
}

impl Z3 {
    pub fn new(timeout_ms: u32, seed: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let l = CString::new("QF_BV").unwrap();
            let logic = Z3_mk_string_symbol(c, l.as_ptr());
            let params = Z3_mk_params(c);
            Z3_params_inc_ref(c, params);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, params, Z3_mk_string_symbol(c, t.as_ptr()), timeout_ms);
            let t = CString::new("random_seed").unwrap();
            Z3_params_set_uint(c, params, Z3_mk_string_symbol(c, t.as_ptr()), seed);
            let quick = Z3_mk_params(c);
            Z3_params_inc_ref(c, quick);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, quick, Z3_mk_string_symbol(c, t.as_ptr()), 4000);
            let t = CString::new("random_seed").unwrap();
            Z3_params_set_uint(c, quick, Z3_mk_string_symbol(c, t.as_ptr()), seed);
            Z3 {
                c, logic, params, quick, timeout_ms,
                bv: HashMap::new(),
                bo: HashMap::new(),
                queries: 0, sat: 0, unsat: 0, unknown: 0, secs: 0.0, max_secs: 0.0,
                dump: None,
            }
        }
    }
    fn kids(n: &Node) -> Vec<E> {
        match n.op {
            Op::Const | Op::Var => vec![],
            Op::Not | Op::Extract | Op::SExt => vec![n.a],
            Op::Ite => vec![n.a, n.b, n.c],
            _ => vec![n.a, n.b],
        }
    }
    fn prepare(&mut self, cx: &Ctx, e: E) {
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if self.bv.contains_key(&x) || self.bo.contains_key(&x) {
                st.pop();
                continue;
            }
            let n = cx.n(x);
            let mut ready = true;
            for k in Self::kids(&n) {
                if !self.bv.contains_key(&k) && !self.bo.contains_key(&k) {
                    st.push(k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            self.tr1(cx, x, n);
            st.pop();
        }
    }
    fn getbv(&mut self, e: E) -> P {
        if let Some(p) = self.bv.get(&e) {
            return *p;
        }
        unsafe {
            let b = self.bo[&e];
            let s = Z3_mk_bv_sort(self.c, 1);
            let r = Z3_mk_ite(self.c, b, Z3_mk_unsigned_int64(self.c, 1, s), Z3_mk_unsigned_int64(self.c, 0, s));
            self.bv.insert(e, r);
            r
        }
    }
    fn getbo(&mut self, e: E) -> P {
        if let Some(p) = self.bo.get(&e) {
            return *p;
        }
        unsafe {
            let b = self.bv[&e];
            let s = Z3_mk_bv_sort(self.c, 1);
            let r = Z3_mk_eq(self.c, b, Z3_mk_unsigned_int64(self.c, 1, s));
            self.bo.insert(e, r);
            r
        }
    }
    fn mkconst(&mut self, w: u32, v: &Val) -> P {
        unsafe {
            match v {
                Val::S(x) => Z3_mk_unsigned_int64(self.c, *x, Z3_mk_bv_sort(self.c, w)),
                Val::B(b) => {
                    let mut acc: Option<P> = None;
                    let mut rem = w;
                    let mut parts = vec![];
                    for i in 0..b.len() {
                        let pw = rem.min(64);
                        parts.push(Z3_mk_unsigned_int64(self.c, b[i], Z3_mk_bv_sort(self.c, pw)));
                        rem -= pw;
                        if rem == 0 {
                            break;
                        }
                    }
                    for p in parts.into_iter().rev() {
                        acc = Some(match acc {
                            None => p,
                            Some(a) => Z3_mk_concat(self.c, a, p),
                        });
                    }
                    acc.unwrap()
                }
            }
        }
    }
    fn tr1(&mut self, cx: &Ctx, x: E, n: Node) {
        unsafe {
            let c = self.c;
            if n.w == 1 {
                // boolean
                let b = match n.op {
                    Op::Const => if n.k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                    Op::Not => Z3_mk_not(c, self.getbo(n.a)),
                    Op::And => {
                        let v = [self.getbo(n.a), self.getbo(n.b)];
                        Z3_mk_and(c, 2, v.as_ptr())
                    }
                    Op::Or => {
                        let v = [self.getbo(n.a), self.getbo(n.b)];
                        Z3_mk_or(c, 2, v.as_ptr())
                    }
                    Op::Xor => Z3_mk_xor(c, self.getbo(n.a), self.getbo(n.b)),
                    Op::Ite => Z3_mk_ite(c, self.getbo(n.a), self.getbo(n.b), self.getbo(n.c)),
                    Op::Eq if cx.w(n.a) == 1 => Z3_mk_eq(c, self.getbo(n.a), self.getbo(n.b)),
                    Op::Eq => Z3_mk_eq(c, self.getbv(n.a), self.getbv(n.b)),
                    Op::Ult => Z3_mk_bvult(c, self.getbv(n.a), self.getbv(n.b)),
                    Op::Ule => Z3_mk_bvule(c, self.getbv(n.a), self.getbv(n.b)),
                    Op::Slt => Z3_mk_bvslt(c, self.getbv(n.a), self.getbv(n.b)),
                    Op::Sle => Z3_mk_bvsle(c, self.getbv(n.a), self.getbv(n.b)),
                    Op::Extract => {
                        let a = self.getbv(n.a);
                        let t = Z3_mk_extract(c, n.k as u32, n.k as u32, a);
                        self.bv.insert(x, t);
                        return;
                    }
                    Op::Var => {
                        let nm = CString::new(format!("v{}", n.k)).unwrap();
                        let t = Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), Z3_mk_bv_sort(c, 1));
                        self.bv.insert(x, t);
                        return;
                    }
                    o => {
                        let (a, b) = (self.getbv(n.a), self.getbv(n.b));
                        let t = self.binbv(o, a, b);
                        self.bv.insert(x, t);
                        return;
                    }
                };
                self.bo.insert(x, b);
                return;
            }
            let t = match n.op {
                Op::Const => self.mkconst(n.w, &cx.cv(x).unwrap()),
                Op::Var => {
                    let nm = CString::new(format!("v{}", n.k)).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), Z3_mk_bv_sort(c, n.w))
                }
                Op::Not => Z3_mk_bvnot(c, self.getbv(n.a)),
                Op::Extract => Z3_mk_extract(c, n.k as u32 + n.w - 1, n.k as u32, self.getbv(n.a)),
                Op::SExt => Z3_mk_sign_ext(c, n.w - cx.w(n.a), self.getbv(n.a)),
                Op::Ite => Z3_mk_ite(c, self.getbo(n.a), self.getbv(n.b), self.getbv(n.c)),
                o => {
                    let (a, b) = (self.getbv(n.a), self.getbv(n.b));
                    self.binbv(o, a, b)
                }
            };
            self.bv.insert(x, t);
        }
    }
    unsafe fn binbv(&self, o: Op, a: P, b: P) -> P {
        let c = self.c;
        match o {
            Op::And => Z3_mk_bvand(c, a, b),
            Op::Or => Z3_mk_bvor(c, a, b),
            Op::Xor => Z3_mk_bvxor(c, a, b),
            Op::Add => Z3_mk_bvadd(c, a, b),
            Op::Sub => Z3_mk_bvsub(c, a, b),
            Op::Mul => Z3_mk_bvmul(c, a, b),
            Op::UDiv => Z3_mk_bvudiv(c, a, b),
            Op::URem => Z3_mk_bvurem(c, a, b),
            Op::SDiv => Z3_mk_bvsdiv(c, a, b),
            Op::SRem => Z3_mk_bvsrem(c, a, b),
            Op::Shl => Z3_mk_bvshl(c, a, b),
            Op::LShr => Z3_mk_bvlshr(c, a, b),
            Op::AShr => Z3_mk_bvashr(c, a, b),
            Op::Concat => Z3_mk_concat(c, a, b),
            _ => unreachable!("{:?}", o),
        }
    }

    /// Whether the conjunction is unsatisfiable already when each product of two non-constants is an arbitrary value (the
    /// same one for the same product): products are what makes queries hard, and often none of their properties matter.
    fn unsat_without_products(&mut self, cx: &Ctx, cs: &[E]) -> bool {
        let mut seen = std::collections::HashSet::new();
        let mut st: Vec<E> = cs.to_vec();
        let mut products = vec![];
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            let n = cx.n(x);
            if n.op == Op::Mul && n.w >= 8 && cx.n(n.a).op != Op::Const && cx.n(n.b).op != Op::Const {
                products.push((x, n.w));
            } else {
                st.extend(Self::kids(&n));
            }
        }
        if products.is_empty() || self.timeout_ms < 4000 {
            return false;
        }
        unsafe {
            let (mut from, mut to) = (vec![], vec![]);
            for (i, (x, w)) in products.iter().enumerate() {
                from.push(self.getbv(*x));
                let nm = CString::new(format!("product{}", i)).unwrap();
                to.push(Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, nm.as_ptr()), Z3_mk_bv_sort(self.c, *w)));
            }
            let s = Z3_mk_solver_for_logic(self.c, self.logic);
            Z3_solver_inc_ref(self.c, s);
            Z3_solver_set_params(self.c, s, self.quick);
            for e in cs {
                let b = self.getbo(*e);
                Z3_solver_assert(self.c, s, Z3_substitute(self.c, b, from.len() as c_uint, from.as_ptr(), to.as_ptr()));
            }
            let r = Z3_solver_check(self.c, s);
            Z3_solver_dec_ref(self.c, s);
            r == -1
        }
    }

    /// Satisfiability of the conjunction; model over the variables that occur.
    pub fn check(&mut self, cx: &mut Ctx, cs: &[E]) -> Res {
        let t0 = std::time::Instant::now();
        self.queries += 1;
        unsafe {
            let s = Z3_mk_solver_for_logic(self.c, self.logic);
            Z3_solver_inc_ref(self.c, s);
            Z3_solver_set_params(self.c, s, self.params);
            let mut vars: Vec<u32> = vec![];
            for e in cs {
                self.prepare(cx, *e);
                let b = self.getbo(*e);
                Z3_solver_assert(self.c, s, b);
                vars.extend(cx.varset(*e).iter());
            }
            vars.sort_unstable();
            vars.dedup();
            if let Some(d) = &self.dump {
                let st = CStr::from_ptr(Z3_solver_to_string(self.c, s)).to_string_lossy().to_string();
                let _ = std::fs::write(format!("{}/q{}.smt2", d, self.queries), format!("{}(check-sat)\n", st));
            }
            let r = if self.unsat_without_products(cx, cs) { -1 } else { Z3_solver_check(self.c, s) };
            let res = if r == 1 {
                self.sat += 1;
                let m = Z3_solver_get_model(self.c, s);
                Z3_model_inc_ref(self.c, m);
                let mut vals = HashMap::new();
                for v in vars {
                    let w = cx.vars[v as usize].1;
                    let e = self.var_expr(cx, v, w);
                    let mut out: P = std::ptr::null_mut();
                    if !Z3_model_eval(self.c, m, e, true, &mut out) {
                        eprintln!("z3: model eval failed");
                        std::process::exit(3);
                    }
                    let val = if w <= 64 {
                        let mut u = 0u64;
                        if !Z3_get_numeral_uint64(self.c, out, &mut u) {
                            eprintln!("z3: numeral");
                            std::process::exit(3);
                        }
                        Val::S(u)
                    } else {
                        let b = CStr::from_ptr(Z3_get_numeral_binary_string(self.c, out)).to_bytes().to_vec();
                        let mut l = vec![0u64; ((w + 63) / 64) as usize];
                        for (i, ch) in b.iter().rev().enumerate() {
                            if *ch == b'1' {
                                l[i / 64] |= 1 << (i % 64);
                            }
                        }
                        from_limbs(l, w)
                    };
                    vals.insert(v, val);
                }
                Z3_model_dec_ref(self.c, m);
                Res::Sat(vals)
            } else if r == -1 {
                self.unsat += 1;
                Res::Unsat
            } else {
                self.unknown += 1;
                Res::Unknown
            };
            Z3_solver_dec_ref(self.c, s);
            let dt = t0.elapsed().as_secs_f64();
            self.secs += dt;
            if dt > self.max_secs {
                self.max_secs = dt;
            }
            if std::env::var("SYMIR_SLOW").is_ok() && dt > 1.0 {
                eprintln!("slow query #{}: {:.2}s, {} constraints", self.queries, dt, cs.len());
            }
            res
        }
    }
    unsafe fn var_expr(&mut self, _cx: &Ctx, v: u32, w: u32) -> P {
        let nm = CString::new(format!("v{}", v)).unwrap();
        Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, nm.as_ptr()), Z3_mk_bv_sort(self.c, w))
    }
}
