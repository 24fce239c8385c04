//! Hash-consed bit-vector expression DAG with aggressive local simplification.
//! Width-1 expressions are the booleans.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Var, Not, And, Or, Xor, Add, Sub, Mul, UDiv, URem, SDiv, SRem, Shl, LShr, AShr,
    Concat, Extract, SExt, Ite, Eq, Ult, Ule, Slt, Sle,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: E,
    pub b: E,
    pub c: E,
    /// Const: value (w<=64) or index into `bigs`; Var: id; Extract: low bit.
    pub k: u64,
}

/// A concrete value: S for widths <= 64, B (little-endian limbs, normalised) above.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Val {
    S(u64),
    B(Vec<u64>),
}

pub fn mask(w: u32) -> u64 {
    if w >= 64 { !0 } else { (1u64 << w) - 1 }
}
fn limbs(w: u32) -> usize {
    ((w as usize) + 63) / 64
}
pub fn to_limbs(v: &Val, w: u32) -> Vec<u64> {
    match v {
        Val::S(x) => {
            let mut r = vec![0; limbs(w).max(1)];
            r[0] = *x;
            r
        }
        Val::B(b) => b.clone(),
    }
}
pub fn from_limbs(mut l: Vec<u64>, w: u32) -> Val {
    if w <= 64 {
        Val::S(l.first().copied().unwrap_or(0) & mask(w))
    } else {
        l.resize(limbs(w), 0);
        let top = w % 64;
        if top != 0 {
            let n = l.len();
            l[n - 1] &= mask(top);
        }
        Val::B(l)
    }
}
pub fn val_is_zero(v: &Val) -> bool {
    match v {
        Val::S(x) => *x == 0,
        Val::B(b) => b.iter().all(|x| *x == 0),
    }
}
fn big_cmp(a: &[u64], b: &[u64]) -> std::cmp::Ordering {
    for i in (0..a.len()).rev() {
        if a[i] != b[i] {
            return a[i].cmp(&b[i]);
        }
    }
    std::cmp::Ordering::Equal
}
fn big_add(a: &[u64], b: &[u64]) -> Vec<u64> {
    let mut c = 0u128;
    let mut r = Vec::with_capacity(a.len());
    for i in 0..a.len() {
        let s = a[i] as u128 + b[i] as u128 + c;
        r.push(s as u64);
        c = s >> 64;
    }
    r
}
fn big_not(a: &[u64]) -> Vec<u64> {
    a.iter().map(|x| !x).collect()
}
fn big_mul(a: &[u64], b: &[u64]) -> Vec<u64> {
    let n = a.len();
    let mut r = vec![0u64; n];
    for i in 0..n {
        let mut c = 0u128;
        for j in 0..n - i {
            let t = a[i] as u128 * b[j] as u128 + r[i + j] as u128 + c;
            r[i + j] = t as u64;
            c = t >> 64;
        }
    }
    r
}
fn big_shl(a: &[u64], s: usize) -> Vec<u64> {
    let n = a.len();
    let mut r = vec![0; n];
    let (w, b) = (s / 64, s % 64);
    for i in (w..n).rev() {
        let mut v = a[i - w] << b;
        if b > 0 && i > w {
            v |= a[i - w - 1] >> (64 - b);
        }
        r[i] = v;
    }
    r
}
fn big_shr(a: &[u64], s: usize) -> Vec<u64> {
    let n = a.len();
    let mut r = vec![0; n];
    let (w, b) = (s / 64, s % 64);
    for i in 0..n.saturating_sub(w) {
        let mut v = a[i + w] >> b;
        if b > 0 && i + w + 1 < n {
            v |= a[i + w + 1] << (64 - b);
        }
        r[i] = v;
    }
    r
}
fn big_divrem(a: &[u64], b: &[u64], w: u32) -> (Vec<u64>, Vec<u64>) {
    let n = a.len();
    let mut q = vec![0; n];
    let mut r = vec![0; n];
    for i in (0..w as usize).rev() {
        r = big_shl(&r, 1);
        r[0] |= (a[i / 64] >> (i % 64)) & 1;
        if big_cmp(&r, b) != std::cmp::Ordering::Less {
            let nb = big_add(&big_not(b), &{
                let mut o = vec![0; n];
                o[0] = 1;
                o
            });
            r = big_add(&r, &nb);
            q[i / 64] |= 1 << (i % 64);
        }
    }
    (q, r)
}
pub fn sx(v: u64, w: u32) -> i64 {
    if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) }
}
fn bit(v: &Val, i: u32) -> bool {
    match v {
        Val::S(x) => (x >> i) & 1 == 1,
        Val::B(b) => (b[(i / 64) as usize] >> (i % 64)) & 1 == 1,
    }
}
pub fn v_extract(v: &Val, lo: u32, w: u32) -> Val {
    match v {
        Val::S(x) => Val::S((x >> lo) & mask(w)),
        Val::B(b) => from_limbs(big_shr(b, lo as usize), w),
    }
}
pub fn v_concat(a: &Val, aw: u32, b: &Val, bw: u32) -> Val {
    let w = aw + bw;
    if w <= 64 {
        if let (Val::S(x), Val::S(y)) = (a, b) {
            return Val::S(if bw >= 64 { *y } else { (x << bw) | y });
        }
    }
    let mut al = to_limbs(a, aw);
    al.resize(limbs(w), 0);
    let mut bl = to_limbs(b, bw);
    bl.resize(limbs(w), 0);
    let s = big_shl(&al, bw as usize);
    from_limbs(s.iter().zip(bl.iter()).map(|(x, y)| x | y).collect(), w)
}

/// Concrete semantics (SMT-LIB) of a binary operator on width-w operands.
pub fn apply(op: Op, w: u32, a: &Val, b: &Val) -> Val {
    use Op::*;
    if w <= 64 {
        if let (Val::S(x), Val::S(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = mask(w);
            let bo = |c: bool| Val::S(c as u64);
            return match op {
                And => Val::S(x & y),
                Or => Val::S(x | y),
                Xor => Val::S(x ^ y),
                Add => Val::S(x.wrapping_add(y) & m),
                Sub => Val::S(x.wrapping_sub(y) & m),
                Mul => Val::S(x.wrapping_mul(y) & m),
                UDiv => Val::S(if y == 0 { m } else { x / y }),
                URem => Val::S(if y == 0 { x } else { x % y }),
                SDiv => {
                    let (p, q) = (sx(x, w), sx(y, w));
                    Val::S(if q == 0 { if p >= 0 { m } else { 1 } } else { p.wrapping_div(q) as u64 & m })
                }
                SRem => {
                    let (p, q) = (sx(x, w), sx(y, w));
                    Val::S(if q == 0 { x } else { p.wrapping_rem(q) as u64 & m })
                }
                Shl => Val::S(if y >= w as u64 { 0 } else { (x << y) & m }),
                LShr => Val::S(if y >= w as u64 { 0 } else { x >> y }),
                AShr => {
                    let p = sx(x, w);
                    Val::S((p >> y.min(63)) as u64 & m)
                }
                Eq => bo(x == y),
                Ult => bo(x < y),
                Ule => bo(x <= y),
                Slt => bo(sx(x, w) < sx(y, w)),
                Sle => bo(sx(x, w) <= sx(y, w)),
                _ => unreachable!(),
            };
        }
    }
    let al = to_limbs(a, w);
    let bl = to_limbs(b, w);
    let one = {
        let mut o = vec![0; al.len()];
        o[0] = 1;
        o
    };
    let sa = bit(a, w - 1);
    let sb = bit(b, w - 1);
    let neg = |x: &[u64]| -> Vec<u64> { to_limbs(&from_limbs(big_add(&big_not(x), &one), w), w) };
    let shamt = || -> usize {
        if bl[1..].iter().any(|x| *x != 0) || bl[0] >= w as u64 { w as usize } else { bl[0] as usize }
    };
    use std::cmp::Ordering::*;
    let bo = |c: bool| Val::S(c as u64);
    match op {
        And => from_limbs(al.iter().zip(&bl).map(|(x, y)| x & y).collect(), w),
        Or => from_limbs(al.iter().zip(&bl).map(|(x, y)| x | y).collect(), w),
        Xor => from_limbs(al.iter().zip(&bl).map(|(x, y)| x ^ y).collect(), w),
        Add => from_limbs(big_add(&al, &bl), w),
        Sub => from_limbs(big_add(&al, &neg(&bl)), w),
        Mul => from_limbs(big_mul(&al, &bl), w),
        UDiv => {
            if val_is_zero(b) { from_limbs(vec![!0; al.len()], w) } else { from_limbs(big_divrem(&al, &bl, w).0, w) }
        }
        URem => {
            if val_is_zero(b) { a.clone() } else { from_limbs(big_divrem(&al, &bl, w).1, w) }
        }
        SDiv | SRem => {
            let ua = if sa { neg(&al) } else { al.clone() };
            let ub = if sb { neg(&bl) } else { bl.clone() };
            if val_is_zero(b) {
                return if op == SRem {
                    a.clone()
                } else if sa {
                    from_limbs(one, w)
                } else {
                    from_limbs(vec![!0; al.len()], w)
                };
            }
            let (q, r) = big_divrem(&ua, &ub, w);
            if op == SDiv {
                from_limbs(if sa != sb { neg(&q) } else { q }, w)
            } else {
                from_limbs(if sa { neg(&r) } else { r }, w)
            }
        }
        Shl => {
            let s = shamt();
            if s >= w as usize { from_limbs(vec![0; al.len()], w) } else { from_limbs(big_shl(&al, s), w) }
        }
        LShr => {
            let s = shamt();
            if s >= w as usize { from_limbs(vec![0; al.len()], w) } else { from_limbs(big_shr(&al, s), w) }
        }
        AShr => {
            let s = shamt().min(w as usize - 1);
            let mut r = to_limbs(&from_limbs(big_shr(&al, s), w), w);
            if sa {
                let ones = vec![!0u64; r.len()];
                let hi = big_shl(&ones, w as usize - s);
                if s > 0 {
                    for i in 0..r.len() {
                        r[i] |= hi[i];
                    }
                }
            }
            from_limbs(r, w)
        }
        Eq => bo(al == bl),
        Ult => bo(big_cmp(&al, &bl) == Less),
        Ule => bo(big_cmp(&al, &bl) != Greater),
        Slt => bo(if sa != sb { sa } else { big_cmp(&al, &bl) == Less }),
        Sle => bo(if sa != sb { sa } else { big_cmp(&al, &bl) != Greater }),
        _ => unreachable!(),
    }
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    map: HashMap<Node, E>,
    pub bigs: Vec<Vec<u64>>,
    bigmap: HashMap<Vec<u64>, u32>,
    pub vars: Vec<(String, u32)>,
    varsets: HashMap<E, std::rc::Rc<Vec<u32>>>,
    pub tru: E,
    pub fls: E,
}

type Seg = (u32, E); // (width, expr), most significant first

impl Ctx {
    pub fn new() -> Self {
        let mut c = Ctx {
            nodes: vec![],
            map: HashMap::new(),
            bigs: vec![],
            bigmap: HashMap::new(),
            vars: vec![],
            varsets: HashMap::new(),
            tru: 0,
            fls: 0,
        };
        c.fls = c.k(1, 0);
        c.tru = c.k(1, 1);
        c
    }
    fn mk(&mut self, n: Node) -> E {
        if let Some(e) = self.map.get(&n) {
            return *e;
        }
        let e = self.nodes.len() as E;
        self.nodes.push(n);
        self.map.insert(n, e);
        e
    }
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w
    }
    pub fn k(&mut self, w: u32, v: u64) -> E {
        if w > 64 {
            return self.kv(w, &from_limbs(vec![v], w));
        }
        self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v & mask(w) })
    }
    pub fn kv(&mut self, w: u32, v: &Val) -> E {
        match v {
            Val::S(x) if w <= 64 => self.k(w, *x),
            _ => {
                let l = to_limbs(v, w);
                let i = match self.bigmap.get(&l) {
                    Some(i) => *i,
                    None => {
                        let i = self.bigs.len() as u32;
                        self.bigs.push(l.clone());
                        self.bigmap.insert(l, i);
                        i
                    }
                };
                self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: i as u64 })
            }
        }
    }
    pub fn cv(&self, e: E) -> Option<Val> {
        let n = self.n(e);
        if n.op != Op::Const {
            return None;
        }
        Some(if n.w <= 64 { Val::S(n.k) } else { Val::B(self.bigs[n.k as usize].clone()) })
    }
    pub fn c64(&self, e: E) -> Option<u64> {
        let n = self.n(e);
        if n.op != Op::Const {
            return None;
        }
        if n.w <= 64 {
            Some(n.k)
        } else {
            let b = &self.bigs[n.k as usize];
            if b[1..].iter().all(|x| *x == 0) { Some(b[0]) } else { None }
        }
    }
    pub fn is_c(&self, e: E) -> bool {
        self.n(e).op == Op::Const
    }
    fn is_zero(&self, e: E) -> bool {
        self.c64(e) == Some(0)
    }
    fn is_ones(&self, e: E) -> bool {
        let n = self.n(e);
        n.op == Op::Const
            && match self.cv(e).unwrap() {
                Val::S(x) => x == mask(n.w),
                Val::B(b) => from_limbs(vec![!0; b.len()], n.w) == Val::B(b),
            }
    }
    pub fn var(&mut self, name: &str, w: u32) -> E {
        let id = self.vars.len() as u64;
        self.vars.push((name.to_string(), w));
        self.mk(Node { op: Op::Var, w, a: 0, b: 0, c: 0, k: id })
    }

    pub fn not(&mut self, a: E) -> E {
        let n = self.n(a);
        if let Some(v) = self.cv(a) {
            let l = to_limbs(&v, n.w);
            return self.kv(n.w, &from_limbs(big_not(&l), n.w));
        }
        match n.op {
            Op::Not => return n.a,
            Op::Ult => return self.bin(Op::Ule, n.b, n.a),
            Op::Ule => return self.bin(Op::Ult, n.b, n.a),
            Op::Slt => return self.bin(Op::Sle, n.b, n.a),
            Op::Sle => return self.bin(Op::Slt, n.b, n.a),
            Op::Ite if self.is_c(n.b) || self.is_c(n.c) => {
                let x = self.not(n.b);
                let y = self.not(n.c);
                return self.ite(n.a, x, y);
            }
            Op::Concat => {
                let x = self.not(n.a);
                let y = self.not(n.b);
                return self.concat(x, y);
            }
            _ => {}
        }
        self.mk(Node { op: Op::Not, w: n.w, a, b: 0, c: 0, k: 0 })
    }

    pub fn segs(&self, e: E, out: &mut Vec<Seg>) {
        let mut e = e;
        loop {
            let n = self.n(e);
            if n.op == Op::Concat {
                self.segs(n.a, out);
                e = n.b;
            } else {
                out.push((n.w, e));
                return;
            }
        }
    }
    /// Align two segment lists; calls f on equal-width pieces from the most significant end.
    fn align(&mut self, a: E, b: E) -> Vec<(E, E)> {
        let mut sa = vec![];
        let mut sb = vec![];
        self.segs(a, &mut sa);
        self.segs(b, &mut sb);
        sa.reverse();
        sb.reverse();
        let mut r = vec![];
        while let (Some((wa, ea)), Some((wb, eb))) = (sa.pop(), sb.pop()) {
            if wa == wb {
                r.push((ea, eb));
            } else if wa > wb {
                let hi = self.extract(ea, wa - wb, wb);
                let lo = self.extract(ea, 0, wa - wb);
                r.push((hi, eb));
                let mut t = vec![];
                self.segs(lo, &mut t);
                t.reverse();
                sa.extend(t);
            } else {
                let hi = self.extract(eb, wb - wa, wa);
                let lo = self.extract(eb, 0, wb - wa);
                r.push((ea, hi));
                let mut t = vec![];
                self.segs(lo, &mut t);
                t.reverse();
                sb.extend(t);
            }
        }
        // split pieces may themselves have become concats; that is fine
        r
    }
    fn bitwise_by_segs(&mut self, op: Op, a: E, b: E) -> E {
        let prs = self.align(a, b);
        let mut acc: Option<E> = None;
        for (x, y) in prs {
            let z = self.bin_noseg(op, x, y);
            acc = Some(match acc {
                None => z,
                Some(p) => self.concat(p, z),
            });
        }
        acc.unwrap()
    }

    /// number of known-zero top bits
    fn lz(&self, e: E) -> u32 {
        let n = self.n(e);
        match n.op {
            Op::Const => match self.cv(e).unwrap() {
                Val::S(x) => x.leading_zeros() - (64 - n.w),
                Val::B(b) => {
                    let mut z = 0;
                    for i in (0..b.len()).rev() {
                        if b[i] == 0 {
                            z += 64;
                        } else {
                            z += b[i].leading_zeros();
                            break;
                        }
                    }
                    z.saturating_sub(limbs(n.w) as u32 * 64 - n.w).min(n.w)
                }
            },
            Op::Concat => {
                let wa = self.w(n.a);
                let l = self.lz(n.a);
                if l == wa { wa + self.lz(n.b) } else { l }
            }
            Op::Ite => self.lz(n.b).min(self.lz(n.c)),
            Op::URem => self.lz(n.b).max(self.lz(n.a)),
            Op::UDiv => self.lz(n.a),
            Op::And => self.lz(n.a).max(self.lz(n.b)),
            Op::Add => {
                let m = self.lz(n.a).min(self.lz(n.b));
                m.saturating_sub(1)
            }
            Op::Mul => {
                let t = (n.w - self.lz(n.a)) + (n.w - self.lz(n.b));
                n.w.saturating_sub(t)
            }
            _ => 0,
        }
    }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        match op {
            Op::And | Op::Or | Op::Xor => {
                let (na, nb) = (self.n(a), self.n(b));
                if !(na.op == Op::Const && nb.op == Op::Const)
                    && na.w > 1
                    && ((na.op == Op::Concat && (nb.op == Op::Concat || nb.op == Op::Const))
                        || (nb.op == Op::Concat && na.op == Op::Const))
                {
                    return self.bitwise_by_segs(op, a, b);
                }
                // mask with a constant: split into runs
                if na.w > 1 && op == Op::And && (na.op == Op::Const) != (nb.op == Op::Const) {
                    let (kc, x) = if na.op == Op::Const { (a, b) } else { (b, a) };
                    return self.and_mask(x, kc);
                }
                self.bin_noseg(op, a, b)
            }
            _ => self.bin_noseg(op, a, b),
        }
    }
    fn and_mask(&mut self, x: E, kc: E) -> E {
        let w = self.w(x);
        let kv = self.cv(kc).unwrap();
        let mut runs = 1;
        for i in 1..w {
            if bit(&kv, i) != bit(&kv, i - 1) {
                runs += 1;
            }
        }
        if runs > 9 {
            return self.bin_noseg(Op::And, x, kc);
        }
        // runs of equal bits from the top
        let mut acc: Option<E> = None;
        let mut i = w as i64 - 1;
        while i >= 0 {
            let bv = bit(&kv, i as u32);
            let mut j = i;
            while j >= 0 && bit(&kv, j as u32) == bv {
                j -= 1;
            }
            let wid = (i - j) as u32;
            let piece = if bv { self.extract(x, (j + 1) as u32, wid) } else { self.k(wid, 0) };
            acc = Some(match acc {
                None => piece,
                Some(p) => self.concat(p, piece),
            });
            i = j;
        }
        acc.unwrap()
    }

    fn lin_parts(&self, e: E, neg: bool, t: &mut Vec<(E, i64)>, k: &mut u64) -> bool {
        let n = self.n(e);
        match n.op {
            Op::Add => self.lin_parts(n.a, neg, t, k) && self.lin_parts(n.b, neg, t, k),
            Op::Sub => self.lin_parts(n.a, neg, t, k) && self.lin_parts(n.b, !neg, t, k),
            Op::Const => {
                let v = self.c64(e).unwrap();
                *k = if neg { k.wrapping_sub(v) } else { k.wrapping_add(v) };
                true
            }
            _ => {
                let d = if neg { -1 } else { 1 };
                match t.iter_mut().find(|x| x.0 == e) {
                    Some(x) => x.1 += d,
                    None => t.push((e, d)),
                }
                t.len() <= 24
            }
        }
    }
    /// Canonical form of a 64-bit sum or difference: terms in order of their numbers, additions before subtractions,
    /// constant last. None when it is not worth it (or already is that form).
    fn linear(&mut self, a: E, b: E, neg: bool) -> Option<E> {
        if self.w(a) != 64 {
            return None;
        }
        let (mut t, mut k) = (vec![], 0u64);
        if !self.lin_parts(a, false, &mut t, &mut k) || !self.lin_parts(b, neg, &mut t, &mut k) {
            return None;
        }
        t.retain(|x| x.1 != 0);
        if t.iter().any(|x| x.1.abs() > 4) {
            return None;
        }
        t.sort();
        let mut acc: Option<E> = None;
        for &(e, n) in t.iter().filter(|x| x.1 > 0) {
            for _ in 0..n {
                acc = Some(match acc {
                    None => e,
                    Some(p) => self.mk(Node { op: Op::Add, w: 64, a: p, b: e, c: 0, k: 0 }),
                });
            }
        }
        let none = acc.is_none();
        let mut acc = acc.unwrap_or_else(|| self.k(64, k));
        for &(e, n) in t.iter().filter(|x| x.1 < 0) {
            for _ in 0..-n {
                acc = self.mk(Node { op: Op::Sub, w: 64, a: acc, b: e, c: 0, k: 0 });
            }
        }
        let kk = self.k(64, k);
        if t.is_empty() {
            return Some(kk);
        }
        if k == 0 || none {
            return Some(acc);
        }
        Some(self.mk(Node { op: Op::Add, w: 64, a: acc, b: kk, c: 0, k: 0 }))
    }

    fn bin_noseg(&mut self, op: Op, mut a: E, mut b: E) -> E {
        use Op::*;
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "width mismatch {:?}", op);
        let ca = self.is_c(a);
        let cb = self.is_c(b);
        let rw = match op {
            Eq | Ult | Ule | Slt | Sle => 1,
            _ => w,
        };
        if ca && cb {
            let v = apply(op, w, &self.cv(a).unwrap(), &self.cv(b).unwrap());
            return self.kv(rw, &v);
        }
        // canonical order for commutative operators: constant on the right
        match op {
            And | Or | Xor | Add | Mul | Eq => {
                if ca || (!cb && a > b) {
                    std::mem::swap(&mut a, &mut b);
                }
            }
            _ => {}
        }
        let na = self.n(a);
        let nb = self.n(b);
        let cb = nb.op == Const;
        match op {
            And => {
                if a == b || self.is_ones(b) { return a; }
                if self.is_zero(b) { return b; }
                if na.op == Not && na.a == b || nb.op == Not && nb.a == a { return self.k(w, 0); }
                if w == 1 {
                    // absorption
                    if nb.op == And && (nb.a == a || nb.b == a) { return b; }
                    if na.op == And && (na.a == b || na.b == b) { return a; }
                }
            }
            Or => {
                if a == b || self.is_zero(b) { return a; }
                if self.is_ones(b) { return b; }
                if na.op == Not && na.a == b || nb.op == Not && nb.a == a {
                    return self.kv(w, &from_limbs(vec![!0; limbs(w)], w));
                }
            }
            Xor => {
                if a == b { return self.k(w, 0); }
                if self.is_zero(b) { return a; }
                if self.is_ones(b) { return self.not(a); }
            }
            Add => {
                if self.is_zero(b) { return a; }
                if w == 1 { return self.bin(Xor, a, b); }
                if cb && na.op == Add && self.is_c(na.b) {
                    let k = self.bin_noseg(Add, na.b, b);
                    return self.bin_noseg(Add, na.a, k);
                }
                if cb && na.op == Ite && self.is_c(na.b) && self.is_c(na.c) {
                    let x = self.bin_noseg(Add, na.b, b);
                    let y = self.bin_noseg(Add, na.c, b);
                    return self.ite(na.a, x, y);
                }
                if !cb && na.op == Add && self.is_c(na.b) {
                    let s = self.bin_noseg(Add, na.a, b);
                    return self.bin_noseg(Add, s, na.b);
                }
                if !cb && nb.op == Add && self.is_c(nb.b) {
                    let s = self.bin_noseg(Add, a, nb.a);
                    return self.bin_noseg(Add, s, nb.b);
                }
                if nb.op == Sub && nb.b == a { return nb.a; }
                if na.op == Sub && na.b == b { return na.a; }
                if let Some(x) = self.linear(a, b, false) { return x; }
            }
            Sub => {
                if a == b { return self.k(w, 0); }
                if w == 1 { return self.bin(Xor, a, b); }
                if cb {
                    let z = self.k(w, 0);
                    let k = self.bin_noseg(Sub, z, b);
                    return self.bin_noseg(Add, a, k);
                }
                if na.op == Add {
                    if na.a == b { return na.b; }
                    if na.b == b { return na.a; }
                    if self.is_c(na.b) {
                        let s = self.bin_noseg(Sub, na.a, b);
                        return self.bin_noseg(Add, s, na.b);
                    }
                }
                if nb.op == Add {
                    if nb.a == a {
                        let z = self.k(w, 0);
                        return self.bin_noseg(Sub, z, nb.b);
                    }
                    if self.is_c(nb.b) {
                        let s = self.bin_noseg(Sub, a, nb.a);
                        let z = self.k(w, 0);
                        let k = self.bin_noseg(Sub, z, nb.b);
                        return self.bin_noseg(Add, s, k);
                    }
                }
                if let Some(x) = self.linear(a, b, true) { return x; }
            }
            Mul => {
                if w == 1 { return self.bin(And, a, b); }
                if let (true, Some(k)) = (cb, self.c64(b)) {
                    if k == 0 { return b; }
                    if k == 1 { return a; }
                    if k.is_power_of_two() {
                        let s = self.k(w, k.trailing_zeros() as u64);
                        return self.bin_noseg(Shl, a, s);
                    }
                    if na.op == Ite && self.is_c(na.b) && self.is_c(na.c) {
                        let x = self.bin_noseg(Mul, na.b, b);
                        let y = self.bin_noseg(Mul, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
                // narrow when the top bits of both operands are zero
                let la = self.lz(a);
                let lb = self.lz(b);
                let need = (w - la) + (w - lb);
                if need < w && need > 0 {
                    let x = self.extract(a, 0, need);
                    let y = self.extract(b, 0, need);
                    let m = self.mk(Node { op: Mul, w: need, a: x, b: y, c: 0, k: 0 });
                    let z = self.k(w - need, 0);
                    return self.concat(z, m);
                }
            }
            UDiv | URem => {
                if let (true, Some(k)) = (cb, self.c64(b)) {
                    if k == 1 { return if op == UDiv { a } else { self.k(w, 0) }; }
                    if k != 0 && k.is_power_of_two() {
                        let s = k.trailing_zeros();
                        if op == UDiv {
                            let sh = self.k(w, s as u64);
                            return self.bin_noseg(LShr, a, sh);
                        }
                        return self.zext_low(a, s);
                    }
                }
                // narrow by leading zeros
                let l = self.lz(a).min(self.lz(b));
                if l > 0 && l < w && !self.is_zero(b) {
                    let x = self.extract(a, 0, w - l);
                    let y = self.extract(b, 0, w - l);
                    // division by zero differs in width only for UDiv (all ones); keep exact
                    if op == URem || cb {
                        let m = self.bin_noseg(op, x, y);
                        let z = self.k(l, 0);
                        return self.concat(z, m);
                    }
                }
            }
            Shl | LShr | AShr => {
                if let (true, Some(s)) = (cb, self.c64(b)) {
                    if s == 0 { return a; }
                    if s >= w as u64 {
                        if op != AShr { return self.k(w, 0); }
                        let t = self.extract(a, w - 1, 1);
                        return self.sext(t, w);
                    }
                    let s = s as u32;
                    match op {
                        Shl => {
                            let x = self.extract(a, 0, w - s);
                            let z = self.k(s, 0);
                            return self.concat(x, z);
                        }
                        LShr => {
                            let x = self.extract(a, s, w - s);
                            let z = self.k(s, 0);
                            return self.concat(z, x);
                        }
                        _ => {
                            let x = self.extract(a, s, w - s);
                            return self.sext(x, w);
                        }
                    }
                }
                if cb { return self.k(w, 0); }
            }
            Eq => {
                if a == b { return self.tru; }
                if w == 1 {
                    if cb { return if self.is_zero(b) { self.not(a) } else { a }; }
                    if na.op == Not && na.a == b || nb.op == Not && nb.a == a { return self.fls; }
                }
                if w == 64 && (matches!(na.op, Add | Sub) || matches!(nb.op, Add | Sub)) {
                    let (mut ta, mut tb, mut k, mut z) = (vec![], vec![], 0u64, 0u64);
                    if self.lin_parts(a, false, &mut ta, &mut k) && self.lin_parts(b, false, &mut tb, &mut z) {
                        let common = ta.iter().any(|x| tb.iter().any(|y| x.0 == y.0 && (x.1 > 0) == (y.1 > 0) && x.1 != 0 && y.1 != 0));
                        if common {
                            if let Some(d) = self.linear(a, b, true) {
                                let n = self.n(d);
                                if n.op == Const {
                                    return if self.is_zero(d) { self.tru } else { self.fls };
                                }
                                let zero = self.k(64, 0);
                                // x - y = 0, x + k = 0
                                let (x, y) = match n.op {
                                    Sub => (n.a, n.b),
                                    Add if self.is_c(n.b) => {
                                        let m = self.bin_noseg(Sub, zero, n.b);
                                        let q = self.n(n.a);
                                        if q.op == Sub {
                                            let r = self.linear(q.b, m, false).unwrap_or(zero);
                                            if r == zero { (n.a, m) } else { (q.a, r) }
                                        } else {
                                            (n.a, m)
                                        }
                                    }
                                    _ => (d, zero),
                                };
                                if x != a && x != b {
                                    return self.bin_noseg(Eq, x, y);
                                }
                            }
                        }
                    }
                }
                if na.op == Concat || nb.op == Concat {
                    let prs = self.align(a, b);
                    if prs.len() > 1 {
                        // group consecutive non-trivial pieces
                        let mut groups: Vec<(E, E)> = vec![];
                        let mut open = false;
                        for (x, y) in prs {
                            if x == y { open = false; continue; }
                            let (cx, cy) = (self.is_c(x), self.is_c(y));
                            if cx && cy { return self.fls; }
                            // keep runs of (expr,const) apart from runs of (expr,expr)
                            if open {
                                let (p, q) = *groups.last().unwrap();
                                let (cp, cq) = (self.is_c(p), self.is_c(q));
                                if cp == cx && cq == cy {
                                    let x2 = self.concat(p, x);
                                    let y2 = self.concat(q, y);
                                    let (o1, o2) = (self.n(x2).op == Concat, self.n(y2).op == Concat);
                                    // only merge if both became atomic again
                                    if !o1 && !o2 {
                                        *groups.last_mut().unwrap() = (x2, y2);
                                        continue;
                                    }
                                }
                            }
                            groups.push((x, y));
                            open = true;
                        }
                        let mut acc = self.tru;
                        for (x, y) in groups {
                            let e = self.bin_noseg(Eq, x, y);
                            if e == self.fls { return e; }
                            acc = self.bin_noseg(And, acc, e);
                        }
                        return acc;
                    }
                }
                if cb {
                    if na.op == Add && self.is_c(na.b) {
                        let k = self.bin_noseg(Sub, b, na.b);
                        return self.bin_noseg(Eq, na.a, k);
                    }
                    if na.op == Xor && self.is_c(na.b) {
                        let k = self.bin_noseg(Xor, b, na.b);
                        return self.bin_noseg(Eq, na.a, k);
                    }
                    if na.op == Not {
                        let k = self.not(b);
                        return self.bin_noseg(Eq, na.a, k);
                    }
                    if na.op == Ite && (self.is_c(na.b) || self.is_c(na.c)) {
                        let x = self.bin_noseg(Eq, na.b, b);
                        let y = self.bin_noseg(Eq, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                    if na.op == Sub && self.is_zero(b) { return self.bin_noseg(Eq, na.a, na.b); }
                    if na.op == Xor && self.is_zero(b) { return self.bin_noseg(Eq, na.a, na.b); }
                    if na.op == Or && self.is_zero(b) {
                        let x = self.bin_noseg(Eq, na.a, b);
                        let y = self.bin_noseg(Eq, na.b, b);
                        return self.bin_noseg(And, x, y);
                    }
                    if na.op == SExt {
                        let inner = self.w(na.a);
                        let lo = self.extract(b, 0, inner);
                        let back = self.sext(lo, w);
                        return if back == b { self.bin_noseg(Eq, na.a, lo) } else { self.fls };
                    }
                }
                if na.op == Add && nb.op == Add {
                    if na.a == nb.a { return self.bin_noseg(Eq, na.b, nb.b); }
                    if na.b == nb.b { return self.bin_noseg(Eq, na.a, nb.a); }
                    if na.a == nb.b { return self.bin_noseg(Eq, na.b, nb.a); }
                    if na.b == nb.a { return self.bin_noseg(Eq, na.a, nb.b); }
                }
                if na.op == Add && (na.a == b || na.b == b) {
                    let o = if na.a == b { na.b } else { na.a };
                    let z = self.k(w, 0);
                    return self.bin_noseg(Eq, o, z);
                }
            }
            Ult => {
                if a == b { return self.fls; }
                if self.is_zero(b) { return self.fls; }
                if ca && self.is_ones(a) { return self.fls; }
                if w == 1 {
                    let x = self.not(a);
                    return self.bin(And, x, b);
                }
                if self.c64(b) == Some(1) {
                    let z = self.k(w, 0);
                    return self.bin_noseg(Eq, a, z);
                }
                if ca && self.is_zero(a) {
                    let z = self.k(w, 0);
                    let e = self.bin_noseg(Eq, b, z);
                    return self.not(e);
                }
                if let Some(r) = self.cmp_narrow(op, a, b) { return r; }
            }
            Ule => {
                if a == b { return self.tru; }
                if ca && self.is_zero(a) { return self.tru; }
                if cb && self.is_ones(b) { return self.tru; }
                if w == 1 {
                    let x = self.not(a);
                    return self.bin(Or, x, b);
                }
                if cb && self.is_zero(b) { return self.bin_noseg(Eq, a, b); }
                if let Some(r) = self.cmp_narrow(op, a, b) { return r; }
            }
            Slt | Sle => {
                if a == b { return if op == Slt { self.fls } else { self.tru }; }
                if self.lz(a) > 0 && self.lz(b) > 0 {
                    return self.bin_noseg(if op == Slt { Ult } else { Ule }, a, b);
                }
                // sign test of something known non-negative / constants
                if cb && self.is_zero(b) && op == Slt {
                    return self.extract(a, w - 1, 1);
                }
                if cb && self.is_ones(b) && op == Sle {
                    return self.extract(a, w - 1, 1);
                }
                if ca && self.is_ones(a) && op == Slt {
                    let t = self.extract(b, w - 1, 1);
                    return self.not(t);
                }
                if ca && self.is_zero(a) && op == Sle {
                    let t = self.extract(b, w - 1, 1);
                    return self.not(t);
                }
                if na.op == Ite && cb && self.is_c(na.b) && self.is_c(na.c) {
                    let x = self.bin_noseg(op, na.b, b);
                    let y = self.bin_noseg(op, na.c, b);
                    return self.ite(na.a, x, y);
                }
            }
            _ => {}
        }
        if (op == Ult || op == Ule) && cb && na.op == Ite && self.is_c(na.b) && self.is_c(na.c) {
            let x = self.bin_noseg(op, na.b, b);
            let y = self.bin_noseg(op, na.c, b);
            return self.ite(na.a, x, y);
        }
        if (op == Ult || op == Ule) && ca && nb.op == Ite && self.is_c(nb.b) && self.is_c(nb.c) {
            let x = self.bin_noseg(op, a, nb.b);
            let y = self.bin_noseg(op, a, nb.c);
            return self.ite(nb.a, x, y);
        }
        self.mk(Node { op, w: rw, a, b, c: 0, k: 0 })
    }
    fn cmp_narrow(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        let (la, lb) = (self.lz(a), self.lz(b));
        let l = la.min(lb);
        // constant beyond the range of the other side
        if self.is_c(b) && lb < la {
            return Some(self.tru); // a < 2^(w-la) <= b
        }
        if self.is_c(a) && la < lb {
            return Some(self.fls);
        }
        if l > 0 && l < w {
            let x = self.extract(a, 0, w - l);
            let y = self.extract(b, 0, w - l);
            return Some(self.bin_noseg(op, x, y));
        }
        None
    }
    fn zext_low(&mut self, a: E, bits: u32) -> E {
        let w = self.w(a);
        if bits == 0 {
            return self.k(w, 0);
        }
        let x = self.extract(a, 0, bits);
        let z = self.k(w - bits, 0);
        self.concat(z, x)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        let z = self.k(w - wa, 0);
        self.concat(z, a)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        if let Some(v) = self.cv(a) {
            let neg = bit(&v, n.w - 1);
            let hi = w - n.w;
            let h = if neg { from_limbs(vec![!0; limbs(hi)], hi) } else { from_limbs(vec![0], hi) };
            let r = v_concat(&h, hi, &v, n.w);
            return self.kv(w, &r);
        }
        if self.lz(a) > 0 {
            return self.zext(a, w);
        }
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        if n.op == Op::Ite && (self.is_c(n.b) || self.is_c(n.c)) {
            let x = self.sext(n.b, w);
            let y = self.sext(n.c, w);
            return self.ite(n.a, x, y);
        }
        if n.w == 1 {
            let h = self.kv(w, &from_limbs(vec![!0; limbs(w)], w));
            let z = self.k(w, 0);
            return self.ite(a, h, z);
        }
        self.mk(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn concat(&mut self, a: E, b: E) -> E {
        let na = self.n(a);
        if na.op == Op::Concat {
            let t = self.concat(na.b, b);
            return self.concat(na.a, t);
        }
        let nb = self.n(b);
        if nb.op == Op::Concat {
            if let Some(m) = self.cat_merge(a, nb.a) {
                return self.concat(m, nb.b);
            }
        } else if let Some(m) = self.cat_merge(a, b) {
            return m;
        }
        self.mk(Node { op: Op::Concat, w: na.w + nb.w, a, b, c: 0, k: 0 })
    }
    fn cat_merge(&mut self, a: E, b: E) -> Option<E> {
        let na = self.n(a);
        let nb = self.n(b);
        if na.op == Op::Const && nb.op == Op::Const {
            let v = v_concat(&self.cv(a).unwrap(), na.w, &self.cv(b).unwrap(), nb.w);
            return Some(self.kv(na.w + nb.w, &v));
        }
        if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.k == nb.k + nb.w as u64 {
            return Some(self.extract(na.a, nb.k as u32, na.w + nb.w));
        }
        // extract(x, hi part) ++ x-low where x itself is the low operand is not expressible
        if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a {
            let x = self.concat(na.b, nb.b);
            let y = self.concat(na.c, nb.c);
            return Some(self.ite(na.a, x, y));
        }
        None
    }
    pub fn extract(&mut self, e: E, lo: u32, w: u32) -> E {
        let n = self.n(e);
        debug_assert!(lo + w <= n.w);
        if lo == 0 && w == n.w {
            return e;
        }
        match n.op {
            Op::Const => {
                let v = v_extract(&self.cv(e).unwrap(), lo, w);
                return self.kv(w, &v);
            }
            Op::Extract => return self.extract(n.a, lo + n.k as u32, w),
            Op::Concat => {
                let wb = self.w(n.b);
                if lo >= wb {
                    return self.extract(n.a, lo - wb, w);
                }
                if lo + w <= wb {
                    return self.extract(n.b, lo, w);
                }
                let lowp = self.extract(n.b, lo, wb - lo);
                let hip = self.extract(n.a, 0, lo + w - wb);
                return self.concat(hip, lowp);
            }
            Op::SExt => {
                let wi = self.w(n.a);
                if lo + w <= wi {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
                if lo >= wi {
                    let s = self.extract(n.a, wi - 1, 1);
                    return self.sext(s, w);
                }
            }
            Op::Ite if self.is_c(n.b) || self.is_c(n.c) => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                return self.ite(n.a, x, y);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Not => {
                let x = self.extract(n.a, lo, w);
                return self.not(x);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            _ => {}
        }
        self.mk(Node { op: Op::Extract, w, a: e, b: 0, c: 0, k: lo as u64 })
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if c == self.tru || a == b {
            return a;
        }
        if c == self.fls {
            return b;
        }
        let nc = self.n(c);
        if nc.op == Op::Not {
            return self.ite(nc.a, b, a);
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        if na.w == 1 {
            if a == self.tru {
                return self.bin(Op::Or, c, b);
            }
            if a == self.fls {
                let n = self.not(c);
                return self.bin(Op::And, n, b);
            }
            if b == self.tru {
                let n = self.not(c);
                return self.bin(Op::Or, n, a);
            }
            if b == self.fls {
                return self.bin(Op::And, c, a);
            }
        }
        self.mk(Node { op: Op::Ite, w: na.w, a: c, b: a, c: b, k: 0 })
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        self.bin(Op::Eq, a, b)
    }

    /// variables occurring in e (sorted)
    pub fn varset(&mut self, e: E) -> std::rc::Rc<Vec<u32>> {
        if let Some(r) = self.varsets.get(&e) {
            return r.clone();
        }
        // iterative post-order
        let mut st = vec![(e, false)];
        while let Some((x, done)) = st.pop() {
            if self.varsets.contains_key(&x) {
                continue;
            }
            let n = self.n(x);
            let kids: &[E] = match n.op {
                Op::Const => &[],
                Op::Var => &[],
                Op::Not | Op::Extract | Op::SExt => &[n.a],
                Op::Ite => &[n.a, n.b, n.c],
                _ => &[n.a, n.b],
            };
            if !done && !kids.is_empty() {
                st.push((x, true));
                for k in kids {
                    if !self.varsets.contains_key(k) {
                        st.push((*k, false));
                    }
                }
                continue;
            }
            let r = match n.op {
                Op::Const => std::rc::Rc::new(vec![]),
                Op::Var => std::rc::Rc::new(vec![n.k as u32]),
                _ => {
                    let mut best: std::rc::Rc<Vec<u32>> = self.varsets[&kids[0]].clone();
                    for k in &kids[1..] {
                        let o = self.varsets[k].clone();
                        if o.is_empty() || std::rc::Rc::ptr_eq(&o, &best) || *o == *best {
                            continue;
                        }
                        let mut m: Vec<u32> = best.iter().chain(o.iter()).copied().collect();
                        m.sort_unstable();
                        m.dedup();
                        if m.len() == o.len() {
                            best = o;
                        } else if m.len() != best.len() {
                            best = std::rc::Rc::new(m);
                        }
                    }
                    best
                }
            };
            self.varsets.insert(x, r);
        }
        self.varsets[&e].clone()
    }
}

/// Evaluation of expressions under an assignment (unassigned variables are zero).
pub struct Model {
    pub vals: HashMap<u32, Val>,
    cache: std::cell::RefCell<HashMap<E, Val>>,
}
impl Model {
    pub fn new(vals: HashMap<u32, Val>) -> Self {
        Model { vals, cache: Default::default() }
    }
    pub fn eval(&self, c: &Ctx, e: E) -> Val {
        {
            let n = c.n(e);
            if n.op == Op::Const {
                return c.cv(e).unwrap();
            }
        }
        let mut cache = self.cache.borrow_mut();
        if let Some(v) = cache.get(&e) {
            return v.clone();
        }
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if cache.contains_key(&x) {
                st.pop();
                continue;
            }
            let n = c.n(x);
            let kids: &[E] = match n.op {
                Op::Const | Op::Var => &[],
                Op::Not | Op::Extract | Op::SExt => &[n.a],
                Op::Ite => &[n.a, n.b, n.c],
                _ => &[n.a, n.b],
            };
            let mut ready = true;
            for k in kids {
                if !cache.contains_key(k) {
                    st.push(*k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let v = match n.op {
                Op::Const => c.cv(x).unwrap(),
                Op::Var => self.vals.get(&(n.k as u32)).cloned().unwrap_or_else(|| from_limbs(vec![0], n.w)),
                Op::Not => from_limbs(big_not(&to_limbs(&cache[&n.a], n.w)), n.w),
                Op::Extract => v_extract(&cache[&n.a], n.k as u32, n.w),
                Op::SExt => {
                    let wa = c.w(n.a);
                    let v = &cache[&n.a];
                    let hi = n.w - wa;
                    let h = if bit(v, wa - 1) { from_limbs(vec![!0; limbs(hi)], hi) } else { from_limbs(vec![0], hi) };
                    v_concat(&h, hi, v, wa)
                }
                Op::Ite => {
                    if val_is_zero(&cache[&n.a]) { cache[&n.c].clone() } else { cache[&n.b].clone() }
                }
                Op::Concat => v_concat(&cache[&n.a], c.w(n.a), &cache[&n.b], c.w(n.b)),
                op => apply(op, c.w(n.a), &cache[&n.a], &cache[&n.b]),
            };
            cache.insert(x, v);
            st.pop();
        }
        cache[&e].clone()
    }
    pub fn is_true(&self, c: &Ctx, e: E) -> bool {
        !val_is_zero(&self.eval(c, e))
    }
}
