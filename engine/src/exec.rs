//! Path-exploring symbolic interpreter for LLVM IR.
use crate::crypto;
use crate::expr::*;
use crate::ir::*;
use crate::z3::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj {
    pub base: u64,
    pub size: u64,
    pub data: Rc<Vec<u32>>,
    pub kind: u8, // 0 const global, 1 mutable global, 2 stack, 3 heap
}

#[derive(Clone)]
struct Frame {
    f: Rc<Func>,
    blk: u32,
    ip: usize,
    prev: u32,
    regs: Vec<V>,
    allocas: Vec<u64>,
    dst: Option<u32>,
    normal: Option<u32>,
}

#[derive(Clone)]
pub struct UfApp {
    kind: u64,
    input: E,
    inlen: u32,
    out: E,
    outlen: u32,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    mem: BTreeMap<u64, Obj>,
    pub pc: Vec<E>,
    implied: Vec<E>,
    pub model: Rc<Model>,
    stack_top: u64,
    heap_top: u64,
    policy: u64,
    pub inputs: Vec<(String, u32, Vec<E>)>,
    pub obs: Vec<(String, V)>,
    ufs: Vec<UfApp>,
    steps: u64,
    covers: Vec<u32>,
    last_input_len: usize,
    dec: u64,
    ndec: u32,
}

/// How many choices decide which part of a divided run a path belongs to.
const SPLIT_DEPTH: u32 = 5;
/// Time for the samples of a run, and for one sample.
const SAMPLE_SECS: f64 = 12.0;
#[derive(Debug, Clone, PartialEq)]
pub enum End {
    Done,
    Assumed,
    Abort(String),
    Violation(String),
    Unsupported(String),
    Limit(String),
    /// explored by another part of a divided run
    Elsewhere,
}

pub struct Violation {
    pub id: String,
    pub detail: String,
    pub inputs: Vec<(String, Vec<u8>)>,
    pub trace: Vec<String>,
    pub real: bool,
}

pub struct Sample {
    pub inputs: Vec<(String, Vec<u8>)>,
    pub obs: Vec<(String, u64)>,
    pub end: String,
    pub real: bool,
}

pub struct Cfg {
    pub max_paths: u64,
    pub max_steps: u64,
    pub deadline: std::time::Instant,
    pub max_violations: usize,
    pub samples: usize,
    pub seed: u64,
    pub trace: bool,
    pub split: (u64, u64),
    /// The assertions whose violation settles the answer ("x*": by prefix, "!x": all but), those that are known findings,
    /// and for how many seconds to go on after the first such violation.
    pub own: Vec<String>,
    pub known: Vec<String>,
    pub settle: f64,
}
impl Cfg {
    fn settles(&self, id: &str) -> bool {
        let id = id.split(':').next().unwrap_or("");
        if self.known.iter().any(|k| k == id) {
            return false;
        }
        let like = |p: &str| p == id || p.strip_suffix('*').map_or(false, |p| id.starts_with(p));
        if self.own.iter().any(|p| p.starts_with('!')) {
            return !self.own.iter().any(|p| p.strip_prefix('!').map_or(false, like));
        }
        self.own.is_empty() || self.own.iter().any(|p| like(p))
    }
}

pub struct Exec {
    pub m: Rc<Module>,
    pub cx: Ctx,
    pub z3: Z3,
    pub cfg: Cfg,
    funcs: HashMap<u32, Rc<Func>>,
    glob_cache: HashMap<u32, Obj>,
    work: Vec<State>,
    qcache: HashMap<Vec<E>, Option<Rc<HashMap<u32, Val>>>>,
    pub paths: BTreeMap<String, u64>,
    pub covers: BTreeMap<String, u64>,
    cover_ids: HashMap<String, u32>,
    cover_names: Vec<String>,
    pub asserts: BTreeMap<String, (u64, u64)>, // id -> (checked, discharged by solver)
    pub violations: Vec<Violation>,
    pub errors: Vec<String>,
    pub samples: Vec<Sample>,
    sample_seen: u64,
    sample_secs: f64,
    pub dbg_seen: HashSet<u32>,
    pub abort_kinds: BTreeMap<String, u64>,
    pub steps: u64,
    pub forks: u64,
    pub fork_sites: BTreeMap<String, u64>,
    pub qcache_hits: u64,
    rng: u64,
    vio_ids: HashMap<String, usize>,
    pub uf_apps: u64,
}

type Rs<T> = Result<T, End>;

fn unsup<T>(s: impl Into<String>) -> Rs<T> {
    Err(End::Unsupported(s.into()))
}

const STACK_BASE: u64 = 0x2_0000_0000;
const HEAP_BASE: u64 = 0x4_0000_0000;

impl Exec {
    pub fn new(m: Rc<Module>, cfg: Cfg, z3: Z3) -> Self {
        let rng = cfg.seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
        Exec {
            m, cx: Ctx::new(), z3, cfg,
            funcs: HashMap::new(),
            glob_cache: HashMap::new(),
            work: vec![],
            qcache: HashMap::new(),
            paths: BTreeMap::new(),
            covers: BTreeMap::new(),
            cover_ids: HashMap::new(),
            cover_names: vec![],
            asserts: BTreeMap::new(),
            violations: vec![],
            errors: vec![],
            samples: vec![],
            sample_seen: 0,
            sample_secs: 0.0,
            dbg_seen: HashSet::new(),
            abort_kinds: BTreeMap::new(),
            steps: 0,
            forks: 0,
            fork_sites: BTreeMap::new(),
            qcache_hits: 0,
            rng,
            vio_ids: HashMap::new(),
            uf_apps: 0,
        }
    }
    fn rand(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }

    pub fn func(&mut self, id: u32) -> Rs<Rc<Func>> {
        if let Some(f) = self.funcs.get(&id) {
            return Ok(f.clone());
        }
        let m = self.m.clone();
        match m.parse_fn(&mut self.cx, id) {
            Ok(f) => {
                let f = Rc::new(f);
                self.funcs.insert(id, f.clone());
                Ok(f)
            }
            Err(e) => unsup(format!("parse {}: {}", m.fns[id as usize].name, e)),
        }
    }

    // ---------- solver layer ----------
    fn slice(&mut self, pc: &[E], goal: E) -> Vec<E> {
        let mut vars: HashSet<u32> = self.cx.varset(goal).iter().copied().collect();
        let sets: Vec<Rc<Vec<u32>>> = pc.iter().map(|e| self.cx.varset(*e)).collect();
        let mut taken = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for i in 0..pc.len() {
                if !taken[i] && sets[i].iter().any(|v| vars.contains(v)) {
                    taken[i] = true;
                    ch = true;
                    vars.extend(sets[i].iter());
                }
            }
            if !ch {
                break;
            }
        }
        let mut r: Vec<E> = (0..pc.len()).filter(|i| taken[*i]).map(|i| pc[i]).collect();
        r.push(goal);
        r.sort_unstable();
        r.dedup();
        r
    }
    /// Is pc ∧ goal satisfiable? On success returns the model (merged with the state's model).
    fn query(&mut self, st: &State, goal: E) -> Rs<Option<Rc<Model>>> {
        if goal == self.cx.fls {
            return Ok(None);
        }
        if goal == self.cx.tru {
            return Ok(Some(st.model.clone()));
        }
        if std::time::Instant::now() > self.cfg.deadline {
            return Err(End::Limit("time".into()));
        }
        let key = self.slice(&st.pc, goal);
        let r = if let Some(r) = self.qcache.get(&key) {
            self.qcache_hits += 1;
            r.clone()
        } else {
            let r = match self.z3.check(&mut self.cx, &key) {
                Res::Sat(m) => Some(Rc::new(m)),
                Res::Unsat => None,
                Res::Unknown => return Err(End::Limit("solver returned unknown".into())),
            };
            self.qcache.insert(key, r.clone());
            r
        };
        Ok(r.map(|m| {
            let mut v = st.model.vals.clone();
            for (k, x) in m.iter() {
                v.insert(*k, x.clone());
            }
            Rc::new(Model::new(v))
        }))
    }
    fn add_pc(&mut self, st: &mut State, e: E) {
        let n = self.cx.n(e);
        if n.op == Op::And && n.w == 1 {
            self.add_pc(st, n.a);
            self.add_pc(st, n.b);
            return;
        }
        if e != self.cx.tru && !st.pc.contains(&e) {
            st.pc.push(e);
        }
    }
    /// Decide a condition on this path, forking when both sides are possible.
    fn branch(&mut self, st: &mut State, c: E) -> Rs<bool> {
        if c == self.cx.tru {
            return Ok(true);
        }
        if c == self.cx.fls {
            return Ok(false);
        }
        let nc = self.cx.not(c);
        for e in st.pc.iter().rev().chain(st.implied.iter().rev()) {
            if *e == c {
                return Ok(true);
            }
            if *e == nc {
                return Ok(false);
            }
        }
        let v = st.model.is_true(&self.cx, c);
        let (here, other) = if v { (c, nc) } else { (nc, c) };
        match self.query(st, other)? {
            None => {
                st.implied.push(here);
                Ok(v)
            }
            Some(m) => {
                let mut o = st.clone();
                o.model = m;
                self.add_pc(&mut o, other);
                self.add_pc(st, here);
                self.forks += 1;
                let site = self.trace_of(st).into_iter().take(3).collect::<Vec<_>>().join(" <- ");
                *self.fork_sites.entry(site).or_insert(0) += 1;
                self.work.push(o);
                Ok(v)
            }
        }
    }
    fn assume(&mut self, st: &mut State, c: E) -> Rs<()> {
        if c == self.cx.tru {
            return Ok(());
        }
        if c == self.cx.fls {
            return Err(End::Assumed);
        }
        if !st.model.is_true(&self.cx, c) {
            match self.query(st, c)? {
                None => return Err(End::Assumed),
                Some(m) => st.model = m,
            }
        }
        self.add_pc(st, c);
        Ok(())
    }
    /// Make an expression concrete on this path, forking over its other values.
    fn concretize(&mut self, st: &mut State, e: E) -> Rs<Val> {
        if let Some(v) = self.cx.cv(e) {
            return Ok(v);
        }
        let v = st.model.eval(&self.cx, e);
        let w = self.cx.w(e);
        let k = self.cx.kv(w, &v);
        let c = self.cx.eq(e, k);
        // keep the current value on this path
        let b = self.branch(st, c)?;
        debug_assert!(b);
        let _ = b;
        Ok(v)
    }
    fn conc64(&mut self, st: &mut State, v: &V) -> Rs<u64> {
        match v {
            V::C(x) => Ok(*x),
            V::X(e) => match self.concretize(st, *e)? {
                Val::S(x) => Ok(x),
                Val::B(b) => Ok(b[0]),
            },
            V::A(_) => unsup("aggregate where scalar expected"),
        }
    }

    // ---------- values ----------
    pub fn ex(&mut self, v: &V, w: u32) -> E {
        match v {
            V::C(x) => self.cx.k(w, *x),
            V::X(e) => *e,
            V::A(l) => {
                // vector: element 0 is least significant
                let n = l.len() as u32;
                let ew = w / n;
                let mut acc: Option<E> = None;
                for x in l.iter() {
                    let e = self.ex(x, ew);
                    acc = Some(match acc {
                        None => e,
                        Some(a) => self.cx.concat(e, a),
                    });
                }
                acc.unwrap()
            }
        }
    }
    fn mkv(&self, e: E) -> V {
        let n = self.cx.n(e);
        if n.op == Op::Const && n.w <= 64 { V::C(n.k) } else { V::X(e) }
    }

    // ---------- memory ----------
    fn find_obj(&mut self, st: &mut State, a: u64, n: u64) -> Rs<u64> {
        if let Some((b, o)) = st.mem.range(..=a).next_back() {
            if a + n <= o.base + o.size {
                return Ok(*b);
            }
        }
        if let Some(g) = self.m.global_at(a) {
            let o = self.glob_obj(g)?;
            if a + n <= o.base + o.size {
                let b = o.base;
                if !st.mem.contains_key(&b) {
                    st.mem.insert(b, o);
                    return Ok(b);
                }
            }
        }
        Err(End::Violation(format!("memory-fault@{:#x}+{}", a, n)))
    }
    fn glob_obj(&mut self, g: u32) -> Rs<Obj> {
        if let Some(o) = self.glob_cache.get(&g) {
            return Ok(o.clone());
        }
        let m = self.m.clone();
        let gl = &m.globals[g as usize];
        let mut data = vec![0u32; gl.size as usize];
        match m.global_init(&mut self.cx, g) {
            Ok(Some(v)) => self.enc(&mut data, 0, &gl.ty, &v)?,
            Ok(None) => {}
            Err(e) => return unsup(format!("global {}: {}", gl.name, e)),
        }
        let o = Obj { base: gl.addr, size: gl.size, data: Rc::new(data), kind: if gl.constant { 0 } else { 1 } };
        self.glob_cache.insert(g, o.clone());
        Ok(o)
    }
    fn enc(&mut self, out: &mut [u32], off: usize, ty: &Ty, v: &V) -> Rs<()> {
        match ty {
            Ty::Arr(..) | Ty::Struct(..) => {
                if let V::A(l) = v {
                    for (i, x) in l.iter().enumerate() {
                        let t = ty.elem(i);
                        self.enc(out, off + ty.field_off(i) as usize, &t, x)?;
                    }
                    Ok(())
                } else {
                    unsup("enc aggregate")
                }
            }
            Ty::Vec(n, t) if t.bits() % 8 == 0 => {
                if let V::A(l) = v {
                    for i in 0..*n as usize {
                        self.enc(out, off + i * (t.bits() / 8) as usize, t, &l[i])?;
                    }
                    Ok(())
                } else {
                    unsup("enc vec")
                }
            }
            _ => {
                let w = ty.bits();
                let n = ((w + 7) / 8) as usize;
                match v {
                    V::C(x) => {
                        for i in 0..n {
                            out[off + i] = if i < 8 { ((x >> (8 * i)) & 0xff) as u32 } else { 0 };
                        }
                    }
                    _ => {
                        let e0 = self.ex(v, w);
                        let e = self.cx.zext(e0, n as u32 * 8);
                        for i in 0..n {
                            let b = self.cx.extract(e, i as u32 * 8, 8);
                            out[off + i] = match self.cx.c64(b) {
                                Some(c) => c as u32,
                                None => b + 256,
                            };
                        }
                    }
                }
                Ok(())
            }
        }
    }
    fn bytes_to_e(&mut self, b: &[u32]) -> E {
        // little endian
        let mut acc: Option<E> = None;
        let mut i = b.len();
        while i > 0 {
            i -= 1;
            let e = if b[i] < 256 {
                // batch constants
                let mut j = i;
                while j > 0 && b[j - 1] < 256 && i - j < 7 {
                    j -= 1;
                }
                let mut x = 0u64;
                for q in (j..=i).rev() {
                    x = (x << 8) | b[q] as u64;
                }
                let w = (i - j + 1) as u32 * 8;
                i = j;
                self.cx.k(w, x)
            } else {
                b[i] - 256
            };
            acc = Some(match acc {
                None => e,
                Some(a) => self.cx.concat(a, e),
            });
        }
        acc.unwrap()
    }
    fn dec(&mut self, b: &[u32], ty: &Ty) -> Rs<V> {
        match ty {
            Ty::Arr(..) | Ty::Struct(..) => {
                let mut r = vec![];
                for i in 0..ty.count() {
                    let t = ty.elem(i);
                    let o = ty.field_off(i) as usize;
                    r.push(self.dec(&b[o..o + t.size() as usize], &t)?);
                }
                Ok(V::A(Rc::new(r)))
            }
            Ty::Vec(n, t) => {
                let s = (t.bits() / 8) as usize;
                let mut r = vec![];
                if s == 0 {
                    return unsup("bit vector load");
                }
                for i in 0..*n as usize {
                    r.push(self.dec(&b[i * s..(i + 1) * s], t)?);
                }
                Ok(V::A(Rc::new(r)))
            }
            _ => {
                let w = ty.bits();
                let n = ((w + 7) / 8) as usize;
                if n <= 8 && b[..n].iter().all(|x| *x < 256) {
                    let mut x = 0u64;
                    for i in (0..n).rev() {
                        x = (x << 8) | b[i] as u64;
                    }
                    return Ok(V::C(x & mask(w)));
                }
                let e = self.bytes_to_e(&b[..n]);
                let e = self.cx.extract(e, 0, w);
                Ok(self.mkv(e))
            }
        }
    }
    fn store_size(ty: &Ty) -> u64 {
        match ty {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            _ => ty.size(),
        }
    }
    fn load(&mut self, st: &mut State, ty: &Ty, p: &V) -> Rs<V> {
        let n = Self::store_size(ty);
        if n == 0 {
            return Ok(zero_of(&mut self.cx, ty));
        }
        let a = match p {
            V::C(a) => *a,
            V::X(e) => {
                if let Some(v) = self.table_load(st, ty, *e, n)? {
                    return Ok(v);
                }
                self.conc64(st, p)?
            }
            _ => return unsup("vector load address"),
        };
        let b = self.find_obj(st, a, n)?;
        let data = st.mem[&b].data.clone();
        let o = (a - b) as usize;
        self.dec(&data[o..o + n as usize], ty)
    }
    /// Load through a symbolic address that provably stays inside one small constant object.
    fn table_load(&mut self, st: &mut State, ty: &Ty, e: E, n: u64) -> Rs<Option<V>> {
        if !matches!(ty, Ty::Int(_)) {
            return Ok(None);
        }
        let a0 = match st.model.eval(&self.cx, e) {
            Val::S(x) => x,
            _ => return Ok(None),
        };
        let b = match self.find_obj(st, a0, n) {
            Ok(b) => b,
            Err(_) => return Ok(None),
        };
        let o = st.mem[&b].clone();
        if o.kind != 0 || o.size > 1024 {
            return Ok(None);
        }
        let kb = self.cx.k(64, o.base);
        let d = self.cx.bin(Op::Sub, e, kb);
        let lim = self.cx.k(64, o.size - n);
        let inb = self.cx.bin(Op::Ule, d, lim);
        let out = self.cx.not(inb);
        if self.query(st, out)?.is_some() {
            return Ok(None);
        }
        let mut acc: Option<E> = None;
        let w = ty.bits();
        for i in (0..=(o.size - n)).rev() {
            let v = self.dec(&o.data[i as usize..(i + n) as usize], ty)?;
            let ve = self.ex(&v, w);
            let ki = self.cx.k(64, i);
            let c = self.cx.eq(d, ki);
            acc = Some(match acc {
                None => ve,
                Some(x) => self.cx.ite(c, ve, x),
            });
        }
        Ok(Some(self.mkv(acc.unwrap())))
    }
    fn store(&mut self, st: &mut State, ty: &Ty, v: &V, p: &V) -> Rs<()> {
        let n = Self::store_size(ty);
        if n == 0 {
            return Ok(());
        }
        let a = self.conc64(st, p)?;
        let b = self.find_obj(st, a, n)?;
        let mut tmp = [0u32; 64];
        let mut big;
        let buf: &mut [u32] = if n <= 64 {
            &mut tmp[..n as usize]
        } else {
            big = vec![0u32; n as usize];
            &mut big
        };
        self.enc(buf, 0, ty, v)?;
        let o = st.mem.get_mut(&b).unwrap();
        if o.kind == 0 {
            return Err(End::Violation("write to constant memory".into()));
        }
        let off = (a - b) as usize;
        Rc::make_mut(&mut o.data)[off..off + n as usize].copy_from_slice(buf);
        Ok(())
    }
    fn rd(&mut self, st: &mut State, a: u64, n: u64) -> Rs<Vec<u32>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let b = self.find_obj(st, a, n)?;
        let o = (a - b) as usize;
        Ok(st.mem[&b].data[o..o + n as usize].to_vec())
    }
    fn wr(&mut self, st: &mut State, a: u64, d: &[u32]) -> Rs<()> {
        if d.is_empty() {
            return Ok(());
        }
        let b = self.find_obj(st, a, d.len() as u64)?;
        let o = st.mem.get_mut(&b).unwrap();
        if o.kind == 0 {
            return Err(End::Violation("write to constant memory".into()));
        }
        let off = (a - b) as usize;
        Rc::make_mut(&mut o.data)[off..off + d.len()].copy_from_slice(d);
        Ok(())
    }
    fn rd_str(&mut self, st: &mut State, a: u64, n: u64) -> Rs<String> {
        let d = self.rd(st, a, n)?;
        Ok(d.iter().map(|x| if *x < 256 { *x as u8 as char } else { '?' }).collect())
    }
    fn malloc(&mut self, st: &mut State, size: u64, al: u64) -> Rs<u64> {
        if size > 1 << 28 {
            return Err(End::Abort("allocation too large".into()));
        }
        let al = al.max(16);
        let base = (st.heap_top + al - 1) / al * al;
        st.heap_top = base + size + 32;
        st.mem.insert(base, Obj { base, size, data: Rc::new(vec![0u32; size as usize]), kind: 3 });
        Ok(base)
    }
    fn free(&mut self, st: &mut State, a: u64) -> Rs<()> {
        if a == 0 {
            return Ok(());
        }
        match st.mem.get(&a) {
            Some(o) if o.kind == 3 => {
                st.mem.remove(&a);
                Ok(())
            }
            _ => Err(End::Violation(format!("memory-fault: invalid free {:#x}", a))),
        }
    }

    // ---------- exploration ----------
    /// A run divided into parts: a path belongs to the part its first choices select.
    fn mine(&self, dec: u64, ndec: u32) -> bool {
        let (i, n) = self.cfg.split;
        if n == 1 || ndec != SPLIT_DEPTH {
            return true;
        }
        let mut z = dec.wrapping_add(0x9E3779B97F4A7C15);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        (z ^ (z >> 31)) % n == i
    }
    pub fn run(&mut self, entry: &str) -> Result<(), String> {
        let id = self.m.resolve_fn(entry).ok_or(format!("no entry {}", entry))?;
        let f = self.func(id).map_err(|e| format!("{:?}", e))?;
        let mut st = State {
            frames: vec![],
            mem: BTreeMap::new(),
            pc: vec![],
            implied: vec![],
            model: Rc::new(Model::new(HashMap::new())),
            stack_top: STACK_BASE,
            heap_top: HEAP_BASE,
            policy: 1,
            inputs: vec![],
            obs: vec![],
            ufs: vec![],
            steps: 0,
            covers: vec![],
            last_input_len: 0,
            dec: 0,
            ndec: 0,
        };
        let mut fr = Frame { f: f.clone(), blk: 0, ip: 0, prev: 0, regs: vec![V::C(0); f.nregs as usize], allocas: vec![], dst: None, normal: None };
        fr.regs.iter_mut().for_each(|r| *r = V::C(0));
        st.frames.push(fr);
        self.work.push(st);
        let mut npaths = 0u64;
        while let Some(mut st) = self.work.pop() {
            if npaths >= self.cfg.max_paths {
                self.errors.push(format!("path limit {} reached with {} states pending", self.cfg.max_paths, self.work.len() + 1));
                break;
            }
            if std::time::Instant::now() > self.cfg.deadline {
                self.errors.push(format!("time limit reached with {} states pending", self.work.len() + 1));
                break;
            }
            let end = self.run_state(&mut st);
            npaths += 1;
            self.steps += st.steps;
            self.finish(&mut st, end);
            if self.violations.len() >= self.cfg.max_violations || self.errors.len() > 20 {
                break;
            }
        }
        Ok(())
    }

    fn trace_of(&self, st: &State) -> Vec<String> {
        st.frames
            .iter()
            .rev()
            .map(|f| {
                let b = &f.f.blocks[f.blk as usize];
                let d = b.dbg.get(f.ip.min(b.dbg.len().saturating_sub(1))).copied().unwrap_or(0);
                format!("{} {}", crate::demangle(&f.f.name), self.loc(d))
            })
            .collect()
    }
    pub fn md_str(&self, n: u32) -> &str {
        match self.m.md.get(&n) {
            Some((a, b)) => &self.m.src[*a..*b],
            None => "",
        }
    }
    fn md_field(s: &str, k: &str) -> Option<u32> {
        let p = s.find(k)?;
        let r = &s[p + k.len()..];
        let r = r.strip_prefix('!').unwrap_or(r);
        let e = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len());
        r[..e].parse().ok()
    }
    /// (function name, file, line) for a DILocation
    pub fn dbg_fn(&self, d: u32) -> Option<(String, String, u32)> {
        let s = self.md_str(d);
        let line = Self::md_field(s, "line: ")?;
        let mut sc = Self::md_field(s, "scope: ")?;
        for _ in 0..64 {
            let t = self.md_str(sc);
            if t.contains("!DISubprogram(") {
                let name = t.split("name: \"").nth(1).and_then(|x| x.split('"').next()).unwrap_or("?").to_string();
                let link = t.split("linkageName: \"").nth(1).and_then(|x| x.split('"').next()).unwrap_or("");
                let f = Self::md_field(t, "file: ").map(|f| self.md_str(f).to_string()).unwrap_or_default();
                let fname = f.split("filename: \"").nth(1).and_then(|x| x.split('"').next()).unwrap_or("").to_string();
                let dir = f.split("directory: \"").nth(1).and_then(|x| x.split('"').next()).unwrap_or("").to_string();
                let full = if fname.starts_with('/') { fname } else { format!("{}/{}", dir, fname) };
                let nm = if link.is_empty() { name } else { crate::demangle(link) };
                return Some((nm, full, line));
            }
            sc = Self::md_field(t, "scope: ")?;
        }
        None
    }
    fn loc(&self, d: u32) -> String {
        match self.dbg_fn(d) {
            Some((n, f, l)) => format!("[{} {}:{}]", n, f, l),
            None => String::new(),
        }
    }
    fn model_inputs(&mut self, st: &State, m: &Model) -> Vec<(String, Vec<u8>)> {
        st.inputs
            .iter()
            .map(|(t, n, es)| {
                let mut v = vec![];
                for e in es {
                    let w = self.cx.w(*e);
                    let l = to_limbs(&m.eval(&self.cx, *e), w);
                    for i in 0..(w / 8) as usize {
                        v.push((l[i / 8] >> (8 * (i % 8))) as u8);
                    }
                }
                v.truncate(*n as usize);
                (t.clone(), v)
            })
            .collect()
    }
    /// Turn a model into one under which every uninterpreted function takes its real value, when the solver finds one.
    fn realize(&mut self, st: &State, m: &Rc<Model>, extra: Option<E>, until: Option<std::time::Instant>) -> (Rc<Model>, bool) {
        let mut base = st.clone();
        base.model = m.clone();
        if let Some(e) = extra {
            self.add_pc(&mut base, e);
        }
        let apps = st.ufs.clone();
        // inputs met so far and what the real functions make of them
        let mut facts: Vec<E> = vec![];
        for _attempt in 0..12 {
            let mut s = base.clone();
            if !facts.is_empty() {
                let mut all = facts[0];
                for f in &facts[1..] {
                    all = self.cx.bin(Op::And, all, *f);
                }
                match self.query(&s, all) {
                    Ok(Some(m2)) => {
                        s.model = m2;
                        self.add_pc(&mut s, all);
                    }
                    _ => return (m.clone(), false),
                }
            }
            let mut stuck = false;
            'round: for _ in 0..(4 * apps.len() + 12) {
                if until.map(|t| std::time::Instant::now() > t).unwrap_or(false) {
                    return (m.clone(), false);
                }
                for a in &apps {
                    let iv = s.model.eval(&self.cx, a.input);
                    let ov = s.model.eval(&self.cx, a.out);
                    let l = to_limbs(&iv, a.inlen.max(1) * 8);
                    let inp: Vec<u8> = (0..a.inlen as usize).map(|i| (l[i / 8] >> (8 * (i % 8))) as u8).collect();
                    let real = crypto::uf_native(a.kind, &inp, a.outlen as usize);
                    let outw = a.outlen * 8;
                    let mut rl = vec![0u64; ((outw + 63) / 64) as usize];
                    for (i, b) in real.iter().enumerate() {
                        rl[i / 8] |= (*b as u64) << (8 * (i % 8));
                    }
                    let rv = from_limbs(rl, outw);
                    if rv == ov {
                        continue;
                    }
                    let ki = self.cx.kv(a.inlen.max(1) * 8, &iv);
                    let ko = self.cx.kv(outw, &rv);
                    let ci = self.cx.eq(a.input, ki);
                    let co = self.cx.eq(a.out, ko);
                    let n = self.cx.not(ci);
                    let lemma = self.cx.bin(Op::Or, n, co);
                    facts.push(lemma);
                    let both = self.cx.bin(Op::And, ci, co);
                    match self.query(&s, both) {
                        Ok(Some(m2)) => {
                            s.model = m2;
                            self.add_pc(&mut s, both);
                            continue 'round;
                        }
                        Ok(None) => match self.query(&s, lemma) {
                            // no execution of this path has this input: rule it out for the search
                            Ok(Some(m2)) => {
                                s.model = m2;
                                self.add_pc(&mut s, lemma);
                                continue 'round;
                            }
                            Ok(None) => {
                                // an input pinned earlier rules it out: start over, knowing more
                                stuck = true;
                                break 'round;
                            }
                            Err(_) => return (m.clone(), false),
                        },
                        Err(_) => return (m.clone(), false),
                    }
                }
                return (s.model, true);
            }
            if !stuck {
                return (m.clone(), false);
            }
        }
        (m.clone(), false)
    }
    fn report(&mut self, st: &State, m: &Rc<Model>, id: &str, detail: &str, extra: Option<E>) {
        let c = self.vio_ids.entry(id.to_string()).or_insert(0);
        *c += 1;
        if *c > 3 {
            return;
        }
        if self.violations.iter().filter(|v| v.id == id && v.real).count() >= 2 {
            return;
        }
        let (m, real) = self.realize(st, m, extra, None);
        let inputs = self.model_inputs(st, &m);
        let trace = self.trace_of(st);
        if real && self.cfg.settle < 1e6 && self.cfg.settles(id) {
            let end = std::time::Instant::now() + std::time::Duration::from_secs_f64(self.cfg.settle);
            self.cfg.deadline = self.cfg.deadline.min(end);
        }
        self.violations.push(Violation { id: id.to_string(), detail: detail.to_string(), inputs, trace, real });
    }
    fn finish(&mut self, st: &mut State, end: End) {
        if matches!(end, End::Elsewhere) || (st.ndec < SPLIT_DEPTH && self.cfg.split.0 != 0 && matches!(end, End::Done | End::Assumed)) {
            return;
        }
        if self.cfg.trace {
            eprintln!("path end {:?} steps {} pc {} pending {} queries {}", end, st.steps, st.pc.len(), self.work.len(), self.z3.queries);
        }
        let kind = match &end {
            End::Done => "completed",
            End::Assumed => "assumed_away",
            End::Abort(_) => "aborted",
            End::Violation(_) => "violation",
            End::Unsupported(_) => "unsupported",
            End::Limit(_) => "limit",
            End::Elsewhere => "elsewhere",
        };
        *self.paths.entry(kind.to_string()).or_insert(0) += 1;
        match &end {
            End::Abort(k) => {
                *self.abort_kinds.entry(k.clone()).or_insert(0) += 1;
                if st.policy != 0 {
                    let m = st.model.clone();
                    self.report(st, &m, "unexpected-panic", k, None);
                }
            }
            End::Violation(d) => {
                let m = st.model.clone();
                let id = d.split('@').next().unwrap().to_string();
                self.report(st, &m, &id, d, None);
            }
            End::Unsupported(d) | End::Limit(d) => {
                let t = self.trace_of(st);
                self.errors.push(format!("{}: {} at {}", kind, d, t.iter().take(6).cloned().collect::<Vec<_>>().join(" <- ")));
            }
            _ => {}
        }
        if matches!(end, End::Done | End::Abort(_)) {
            for c in &st.covers {
                let n = self.cover_names[*c as usize].clone();
                *self.covers.entry(n).or_insert(0) += 1;
            }
            // reservoir sample of paths for native replay
            self.sample_seen += 1;
            let k = self.cfg.samples as u64;
            let slot = if self.sample_seen <= k { Some(self.sample_seen - 1) } else {
                let r = self.rand() % self.sample_seen;
                if r < k { Some(r) } else { None }
            };
            // finding real hash values for a sample must not cost more than the exploration itself
            if let (Some(s), true) = (slot, self.sample_secs < SAMPLE_SECS) {
                let m = st.model.clone();
                let t0 = std::time::Instant::now();
                let (m, real) = self.realize(st, &m, None, Some(t0 + std::time::Duration::from_secs(SAMPLE_SECS as u64)));
                self.sample_secs += t0.elapsed().as_secs_f64();
                let inputs = self.model_inputs(st, &m);
                let obs = st
                    .obs
                    .iter()
                    .map(|(t, v)| {
                        (t.clone(), match v {
                            V::C(x) => *x,
                            V::X(e) => match m.eval(&self.cx, *e) {
                                Val::S(x) => x,
                                Val::B(b) => b[0],
                            },
                            _ => 0,
                        })
                    })
                    .collect();
                let smp = Sample { inputs, obs, end: kind.to_string(), real };
                if (s as usize) < self.samples.len() {
                    self.samples[s as usize] = smp;
                } else {
                    self.samples.push(smp);
                }
            }
        }
    }

    fn run_state(&mut self, st: &mut State) -> End {
        loop {
            match self.step_block(st) {
                Ok(()) => {}
                Err(e) => return e,
            }
        }
    }

    fn get(&self, fr: &Frame, o: &Opd) -> V {
        match o {
            Opd::R(r) => fr.regs[*r as usize].clone(),
            Opd::K(v) => v.clone(),
        }
    }
    fn enter(&mut self, st: &mut State, from: u32, to: u32) {
        let fr = st.frames.last_mut().unwrap();
        fr.prev = from;
        fr.blk = to;
        fr.ip = 0;
        let f = fr.f.clone();
        let phis = &f.blocks[to as usize].phis;
        if !phis.is_empty() {
            let mut vals = Vec::with_capacity(phis.len());
            for (d, inc) in phis {
                let o = inc.iter().find(|x| x.0 == from).map(|x| &x.1);
                let v = match o {
                    Some(Opd::R(r)) => fr.regs[*r as usize].clone(),
                    Some(Opd::K(v)) => v.clone(),
                    None => V::C(0),
                };
                vals.push((*d, v));
            }
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
    }

    /// Execute instructions of the current frame until control leaves the straight line.
    fn step_block(&mut self, st: &mut State) -> Rs<()> {
        let f = st.frames.last().unwrap().f.clone();
        let blk = st.frames.last().unwrap().blk;
        let b = &f.blocks[blk as usize];
        loop {
            let fi = st.frames.len() - 1;
            let ip = st.frames[fi].ip;
            st.steps += 1;
            if st.steps > self.cfg.max_steps {
                return Err(End::Limit("instruction limit".into()));
            }
            if st.steps & 0xffff == 0 && std::time::Instant::now() > self.cfg.deadline {
                return Err(End::Limit("time".into()));
            }
            let d = b.dbg[ip];
            if d != 0 {
                self.dbg_seen.insert(d);
            }
            let ins = &b.ins[ip];
            macro_rules! g { ($o:expr) => { self.get(&st.frames[fi], $o) } }
            macro_rules! set { ($d:expr, $v:expr) => {{ let v = $v; st.frames[fi].regs[$d as usize] = v; }} }
            match ins {
                Ins::Bin(d, op, ty, a, c) => {
                    let (x, y) = (g!(a), g!(c));
                    let v = self.binop(*op, ty, &x, &y)?;
                    set!(*d, v);
                }
                Ins::ICmp(d, p, ty, a, c) => {
                    let (x, y) = (g!(a), g!(c));
                    let v = self.icmp(p, ty, &x, &y)?;
                    set!(*d, v);
                }
                Ins::FBin(d, op, ty, a, c) => {
                    let (x, y) = (g!(a), g!(c));
                    let v = self.fbin(op, ty, &x, &y)?;
                    set!(*d, v);
                }
                Ins::FCmp(d, p, ty, a, c) => {
                    let (x, y) = (g!(a), g!(c));
                    let (x, y) = (self.fl(ty, &x)?, self.fl(ty, &y)?);
                    let un = x.is_nan() || y.is_nan();
                    let r = match &**p {
                        "oeq" => x == y,
                        "one" => !un && x != y,
                        "olt" => x < y,
                        "ole" => x <= y,
                        "ogt" => x > y,
                        "oge" => x >= y,
                        "ord" => !un,
                        "uno" => un,
                        "ueq" => un || x == y,
                        "une" => x != y || un,
                        "ult" => un || x < y,
                        "ule" => un || x <= y,
                        "ugt" => un || x > y,
                        "uge" => un || x >= y,
                        _ => return unsup(format!("fcmp {}", p)),
                    };
                    set!(*d, V::C(r as u64));
                }
                Ins::Cast(d, k, from, a, to) => {
                    let x = g!(a);
                    let v = self.cast(*k, from, &x, to)?;
                    set!(*d, v);
                }
                Ins::Select(d, cty, c, ty, a, e) => {
                    let (cv, x, y) = (g!(c), g!(a), g!(e));
                    let v = self.select(st, cty, &cv, ty, &x, &y)?;
                    set!(*d, v);
                }
                Ins::Load(d, ty, p) => {
                    let pv = g!(p);
                    let v = self.load(st, ty, &pv)?;
                    set!(*d, v);
                }
                Ins::Store(ty, v, p) => {
                    let (vv, pv) = (g!(v), g!(p));
                    self.store(st, ty, &vv, &pv)?;
                }
                Ins::Gep(d, base, off, idx) => {
                    let bv = g!(base);
                    let mut acc = self.binop(Op::Add, &Ty::Int(64), &bv, &V::C(*off as u64))?;
                    for (o, w, stride) in idx {
                        let iv = g!(o);
                        let i64v = if *w < 64 { self.cast(Cast::SExt, &Ty::Int(*w), &iv, &Ty::Int(64))? } else { iv };
                        let sc = if *stride == 1 { i64v } else { self.binop(Op::Mul, &Ty::Int(64), &i64v, &V::C(*stride))? };
                        acc = self.binop(Op::Add, &Ty::Int(64), &acc, &sc)?;
                    }
                    set!(*d, acc);
                }
                Ins::Alloca(d, size, n, al) => {
                    let nv = g!(n);
                    let cnt = self.conc64(st, &nv)?;
                    let sz = size * cnt;
                    let base = (st.stack_top + al - 1) / al * al;
                    st.stack_top = base + sz + 32;
                    st.mem.insert(base, Obj { base, size: sz, data: Rc::new(vec![0u32; sz as usize]), kind: 2 });
                    st.frames[fi].allocas.push(base);
                    set!(*d, V::C(base));
                }
                Ins::Br(t) => {
                    self.enter(st, blk, *t);
                    return Ok(());
                }
                Ins::CondBr(c, t, e) => {
                    let cv = g!(c);
                    let b = match cv {
                        V::C(x) => x & 1 == 1,
                        V::X(x) => self.branch(st, x)?,
                        _ => return unsup("cond"),
                    };
                    self.enter(st, blk, if b { *t } else { *e });
                    return Ok(());
                }
                Ins::Switch(ty, v, def, cases) => {
                    let x = g!(v);
                    let w = ty.bits();
                    let mut target = *def;
                    match x {
                        V::C(c) => {
                            for (k, t) in cases {
                                if *k == Val::S(c) {
                                    target = *t;
                                    break;
                                }
                            }
                        }
                        _ => {
                            let e = self.ex(&x, w);
                            // decide which target the current model takes, fork on target sets
                            let cur = st.model.eval(&self.cx, e);
                            let tgt = cases.iter().find(|(k, _)| *k == cur).map(|x| x.1).unwrap_or(*def);
                            let mut cond = if tgt == *def { self.cx.tru } else { self.cx.fls };
                            for (k, t) in cases {
                                let ke = self.cx.kv(w, k);
                                let q = self.cx.eq(e, ke);
                                if tgt == *def {
                                    if *t != *def {
                                        let nq = self.cx.not(q);
                                        cond = self.cx.bin(Op::And, cond, nq);
                                    }
                                } else if *t == tgt {
                                    cond = self.cx.bin(Op::Or, cond, q);
                                }
                            }
                            if !self.branch(st, cond)? {
                                return unsup("switch decision");
                            }
                            target = tgt;
                        }
                    }
                    self.enter(st, blk, target);
                    return Ok(());
                }
                Ins::Ret(v) => {
                    let rv = v.as_ref().map(|(_, o)| g!(o));
                    let fr = st.frames.pop().unwrap();
                    for a in fr.allocas.iter() {
                        st.mem.remove(a);
                    }
                    if let Some(a) = fr.allocas.first() {
                        st.stack_top = *a;
                    }
                    match st.frames.last_mut() {
                        None => return Err(End::Done),
                        Some(p) => {
                            if let (Some(d), Some(v)) = (fr.dst, rv) {
                                p.regs[d as usize] = v;
                            }
                            match fr.normal {
                                Some(n) => {
                                    let from = p.blk;
                                    self.enter(st, from, n);
                                }
                                None => p.ip += 1,
                            }
                        }
                    }
                    return Ok(());
                }
                Ins::Unreachable => return Err(End::Violation("reached-unreachable".into())),
                Ins::ExtractValue(d, a, ix) => {
                    let mut v = g!(a);
                    for i in ix {
                        v = match &v {
                            V::A(l) => l[*i].clone(),
                            _ => return unsup("extractvalue"),
                        };
                    }
                    set!(*d, v);
                }
                Ins::InsertValue(d, ty, a, e, ix) => {
                    let v = g!(a);
                    let x = g!(e);
                    let r = self.insval(ty, &v, &x, ix)?;
                    set!(*d, r);
                }
                Ins::ExtractElem(d, a, i) => {
                    let v = g!(a);
                    let iv = g!(i);
                    let i = self.conc64(st, &iv)?;
                    match v {
                        V::A(l) => set!(*d, l[i as usize].clone()),
                        _ => return unsup("extractelement"),
                    }
                }
                Ins::InsertElem(d, a, e, i) => {
                    let v = g!(a);
                    let x = g!(e);
                    let iv = g!(i);
                    let i = self.conc64(st, &iv)?;
                    match v {
                        V::A(l) => {
                            let mut l = (*l).clone();
                            l[i as usize] = x;
                            set!(*d, V::A(Rc::new(l)));
                        }
                        _ => return unsup("insertelement"),
                    }
                }
                Ins::Shuffle(d, _, a, c, m) => {
                    let (x, y) = (g!(a), g!(c));
                    match (x, y) {
                        (V::A(x), V::A(y)) => {
                            let r = m
                                .iter()
                                .map(|i| {
                                    let i = *i as usize;
                                    if i < x.len() { x[i].clone() } else { y[(i - x.len()) % y.len()].clone() }
                                })
                                .collect();
                            set!(*d, V::A(Rc::new(r)));
                        }
                        _ => return unsup("shuffle"),
                    }
                }
                Ins::AtomicRmw(d, op, ty, p, v) => {
                    let pv = g!(p);
                    let x = g!(v);
                    let old = self.load(st, ty, &pv)?;
                    let w = ty.bits();
                    let new = match &**op {
                        "xchg" => x,
                        "add" => self.binop(Op::Add, ty, &old, &x)?,
                        "sub" => self.binop(Op::Sub, ty, &old, &x)?,
                        "and" => self.binop(Op::And, ty, &old, &x)?,
                        "or" => self.binop(Op::Or, ty, &old, &x)?,
                        "xor" => self.binop(Op::Xor, ty, &old, &x)?,
                        "umax" | "umin" | "max" | "min" => {
                            let (a, c) = (self.ex(&old, w), self.ex(&x, w));
                            let lt = self.cx.bin(if op.starts_with('u') { Op::Ult } else { Op::Slt }, a, c);
                            let e = if op.ends_with("max") { self.cx.ite(lt, c, a) } else { self.cx.ite(lt, a, c) };
                            self.mkv(e)
                        }
                        _ => return unsup(format!("atomicrmw {}", op)),
                    };
                    self.store(st, ty, &new, &pv)?;
                    set!(*d, old);
                }
                Ins::CmpXchg(d, ty, p, c, n) => {
                    let pv = g!(p);
                    let (cv, nv) = (g!(c), g!(n));
                    let old = self.load(st, ty, &pv)?;
                    let eq = self.icmp("eq", ty, &old, &cv)?;
                    let b = match eq {
                        V::C(x) => x == 1,
                        V::X(e) => self.branch(st, e)?,
                        _ => false,
                    };
                    if b {
                        self.store(st, ty, &nv, &pv)?;
                    }
                    set!(*d, V::A(Rc::new(vec![old, V::C(b as u64)])));
                }
                Ins::Freeze(d, a) => {
                    let v = g!(a);
                    set!(*d, v);
                }
                Ins::Nop => {}
                Ins::Bad(s) => return unsup(s.to_string()),
                Ins::Call { dst, rty, callee, args, normal } => {
                    let mut av = Vec::with_capacity(args.len());
                    for (t, o, bv) in args {
                        let mut v = g!(o);
                        if *bv > 0 {
                            // byval: copy into the callee's frame
                            let src = self.conc64(st, &v)?;
                            let data = self.rd(st, src, *bv)?;
                            let base = (st.stack_top + 15) / 16 * 16;
                            st.stack_top = base + bv + 32;
                            st.mem.insert(base, Obj { base, size: *bv, data: Rc::new(data), kind: 2 });
                            st.frames[fi].allocas.push(base);
                            v = V::C(base);
                        }
                        let _ = t;
                        av.push(v);
                    }
                    let fid = match callee {
                        Callee::Fn(f) => Some(*f),
                        Callee::Name(_) => None,
                        Callee::Ind(o) => {
                            let pv = g!(o);
                            let a = self.conc64(st, &pv)?;
                            match self.m.fn_by_addr.get(&a) {
                                Some(f) => Some(*f),
                                None => return Err(End::Violation(format!("memory-fault: call to {:#x}", a))),
                            }
                        }
                        Callee::Asm => {
                            // optimisation barriers (black_box, spin hints)
                            if let Some(d) = dst {
                                set!(*d, zero_of(&mut self.cx, rty));
                            }
                            st.frames[fi].ip += 1;
                            continue;
                        }
                    };
                    let name: Rc<str> = match (fid, callee) {
                        (Some(f), _) => self.m.fns[f as usize].name.clone(),
                        (None, Callee::Name(n)) => n.clone(),
                        _ => unreachable!(),
                    };
                    let tys: Vec<&Ty> = args.iter().map(|x| &x.0).collect();
                    match self.builtin(st, &name, &tys, &av, rty)? {
                        Some(v) => {
                            if let Some(d) = dst {
                                set!(*d, v);
                            }
                            match normal {
                                Some(n) => {
                                    self.enter(st, blk, *n);
                                    return Ok(());
                                }
                                None => {
                                    st.frames[fi].ip += 1;
                                    continue;
                                }
                            }
                        }
                        None => {}
                    }
                    let fid = match fid {
                        Some(f) if self.m.fns[f as usize].body.is_some() => f,
                        _ => return unsup(format!("external function {}", name)),
                    };
                    let fun = self.func(fid)?;
                    if st.frames.len() > 400 {
                        return Err(End::Limit("call depth".into()));
                    }
                    let mut regs = vec![V::C(0); fun.nregs as usize];
                    for (i, p) in fun.params.iter().enumerate() {
                        if i < av.len() {
                            regs[*p as usize] = av[i].clone();
                        }
                    }
                    st.frames.push(Frame { f: fun, blk: 0, ip: 0, prev: 0, regs, allocas: vec![], dst: *dst, normal: *normal });
                    return Ok(());
                }
            }
            st.frames[fi].ip += 1;
        }
    }

    fn insval(&mut self, ty: &Ty, v: &V, x: &V, ix: &[usize]) -> Rs<V> {
        if ix.is_empty() {
            return Ok(x.clone());
        }
        match v {
            V::A(l) => {
                let mut l = (**l).clone();
                let t = ty.elem(ix[0]);
                l[ix[0]] = self.insval(&t, &l[ix[0]].clone(), x, &ix[1..])?;
                Ok(V::A(Rc::new(l)))
            }
            _ => unsup("insertvalue"),
        }
    }

    fn binop(&mut self, op: Op, ty: &Ty, a: &V, b: &V) -> Rs<V> {
        if let Ty::Vec(_, t) = ty {
            if let (V::A(x), V::A(y)) = (a, b) {
                let mut r = vec![];
                for (p, q) in x.iter().zip(y.iter()) {
                    r.push(self.binop(op, t, p, q)?);
                }
                return Ok(V::A(Rc::new(r)));
            }
        }
        let w = ty.bits();
        if let (V::C(x), V::C(y)) = (a, b) {
            if w <= 64 {
                if let Val::S(r) = apply(op, w, &Val::S(*x), &Val::S(*y)) {
                    return Ok(V::C(r));
                }
            }
        }
        if matches!(a, V::A(_)) || matches!(b, V::A(_)) {
            return unsup("binop on aggregate");
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let e = self.cx.bin(op, x, y);
        Ok(self.mkv(e))
    }
    fn icmp(&mut self, p: &str, ty: &Ty, a: &V, b: &V) -> Rs<V> {
        if let Ty::Vec(_, t) = ty {
            if let (V::A(x), V::A(y)) = (a, b) {
                let mut r = vec![];
                for (p1, q1) in x.iter().zip(y.iter()) {
                    r.push(self.icmp(p, t, p1, q1)?);
                }
                return Ok(V::A(Rc::new(r)));
            }
        }
        let w = ty.bits();
        if let (V::C(x), V::C(y)) = (a, b) {
            if w <= 64 {
                let (x, y) = (*x, *y);
                let (s, t) = (sx(x, w), sx(y, w));
                let r = match p {
                    "eq" => x == y,
                    "ne" => x != y,
                    "ult" => x < y,
                    "ule" => x <= y,
                    "ugt" => x > y,
                    "uge" => x >= y,
                    "slt" => s < t,
                    "sle" => s <= t,
                    "sgt" => s > t,
                    "sge" => s >= t,
                    _ => return unsup("icmp"),
                };
                return Ok(V::C(r as u64));
            }
        }
        if matches!(a, V::A(_)) || matches!(b, V::A(_)) {
            return unsup("icmp on aggregate");
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let e = match p {
            "eq" => self.cx.eq(x, y),
            "ne" => {
                let t = self.cx.eq(x, y);
                self.cx.not(t)
            }
            "ult" => self.cx.bin(Op::Ult, x, y),
            "ule" => self.cx.bin(Op::Ule, x, y),
            "ugt" => self.cx.bin(Op::Ult, y, x),
            "uge" => self.cx.bin(Op::Ule, y, x),
            "slt" => self.cx.bin(Op::Slt, x, y),
            "sle" => self.cx.bin(Op::Sle, x, y),
            "sgt" => self.cx.bin(Op::Slt, y, x),
            "sge" => self.cx.bin(Op::Sle, y, x),
            _ => return unsup("icmp"),
        };
        Ok(self.mkv(e))
    }
    fn fl(&self, ty: &Ty, v: &V) -> Rs<f64> {
        match v {
            V::C(x) => Ok(if *ty == Ty::F32 { f32::from_bits(*x as u32) as f64 } else { f64::from_bits(*x) }),
            _ => unsup("symbolic float"),
        }
    }
    fn fv(ty: &Ty, x: f64) -> V {
        V::C(if *ty == Ty::F32 { (x as f32).to_bits() as u64 } else { x.to_bits() })
    }
    fn fbin(&mut self, op: &FOp, ty: &Ty, a: &V, b: &V) -> Rs<V> {
        if let Ty::Vec(_, t) = ty {
            if let (V::A(x), V::A(y)) = (a, b) {
                let mut r = vec![];
                for (p, q) in x.iter().zip(y.iter()) {
                    r.push(self.fbin(op, t, p, q)?);
                }
                return Ok(V::A(Rc::new(r)));
            }
        }
        let (x, y) = (self.fl(ty, a)?, self.fl(ty, b)?);
        let r = match op {
            FOp::Add => x + y,
            FOp::Sub => x - y,
            FOp::Mul => x * y,
            FOp::Div => x / y,
            FOp::Rem => x % y,
            FOp::Neg => -x,
        };
        Ok(Self::fv(ty, r))
    }
    fn cast(&mut self, k: Cast, from: &Ty, a: &V, to: &Ty) -> Rs<V> {
        if k == Cast::Bit {
            return self.bitcast(from, a, to);
        }
        if let (Ty::Vec(_, f), Ty::Vec(_, t), V::A(l)) = (from, to, a) {
            let mut r = vec![];
            for x in l.iter() {
                r.push(self.cast(k, f, x, t)?);
            }
            return Ok(V::A(Rc::new(r)));
        }
        let (wf, wt) = (from.bits(), to.bits());
        match k {
            Cast::UiToFp => {
                return match a {
                    V::C(x) => Ok(Self::fv(to, *x as f64)),
                    V::X(e) => match self.cx.cv(*e) {
                        Some(Val::B(b)) => Ok(Self::fv(to, b[0] as f64 + b[1] as f64 * 18446744073709551616.0)),
                        _ => unsup("symbolic float"),
                    },
                    _ => unsup("symbolic float"),
                }
            }
            Cast::SiToFp => {
                return match a {
                    V::C(x) => Ok(Self::fv(to, sx(*x, wf) as f64)),
                    _ => unsup("symbolic float"),
                }
            }
            Cast::FpToUi => return Ok(V::C(self.fl(from, a)? as u64 & mask(wt))),
            Cast::FpToSi => return Ok(V::C(self.fl(from, a)? as i64 as u64 & mask(wt))),
            Cast::FpExt | Cast::FpTrunc => {
                let x = self.fl(from, a)?;
                return Ok(Self::fv(to, x));
            }
            _ => {}
        }
        let k = if k == Cast::PtrInt { if wt < wf { Cast::Trunc } else { Cast::ZExt } } else { k };
        if let V::C(x) = a {
            if wt <= 64 && wf <= 64 {
                return Ok(V::C(match k {
                    Cast::Trunc | Cast::ZExt => x & mask(wt),
                    _ => sx(*x, wf) as u64 & mask(wt),
                }));
            }
        }
        let e = self.ex(a, wf);
        let r = match k {
            Cast::Trunc => self.cx.extract(e, 0, wt),
            Cast::ZExt => self.cx.zext(e, wt),
            _ => self.cx.sext(e, wt),
        };
        Ok(self.mkv(r))
    }
    fn bitcast(&mut self, from: &Ty, a: &V, to: &Ty) -> Rs<V> {
        let w = from.bits();
        if !matches!(from, Ty::Vec(..)) && !matches!(to, Ty::Vec(..)) {
            return Ok(a.clone());
        }
        let e = self.ex(a, w);
        match to {
            Ty::Vec(n, t) => {
                let ew = t.bits();
                let mut r = vec![];
                for i in 0..*n {
                    let x = self.cx.extract(e, i as u32 * ew, ew);
                    r.push(self.mkv(x));
                }
                Ok(V::A(Rc::new(r)))
            }
            _ => Ok(self.mkv(e)),
        }
    }
    fn select(&mut self, st: &mut State, cty: &Ty, c: &V, ty: &Ty, a: &V, b: &V) -> Rs<V> {
        if let (Ty::Vec(..), V::A(cs), V::A(x), V::A(y)) = (cty, c, a, b) {
            let mut r = vec![];
            let t = ty.elem(0);
            for i in 0..cs.len() {
                r.push(self.select(st, &Ty::Int(1), &cs[i], &t, &x[i], &y[i])?);
            }
            return Ok(V::A(Rc::new(r)));
        }
        match c {
            V::C(x) => Ok(if x & 1 == 1 { a.clone() } else { b.clone() }),
            V::X(e) => self.ite_v(*e, ty, a, b),
            _ => unsup("select"),
        }
    }
    fn ite_v(&mut self, c: E, ty: &Ty, a: &V, b: &V) -> Rs<V> {
        if let (V::A(x), V::A(y)) = (a, b) {
            let mut r = vec![];
            for i in 0..x.len() {
                let t = ty.elem(i);
                r.push(self.ite_v(c, &t, &x[i], &y[i])?);
            }
            return Ok(V::A(Rc::new(r)));
        }
        if let (V::C(x), V::C(y)) = (a, b) {
            if x == y {
                return Ok(V::C(*x));
            }
        }
        let w = ty.bits();
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let e = self.cx.ite(c, x, y);
        Ok(self.mkv(e))
    }

    fn memcmp_e(&mut self, st: &mut State, a: u64, b: u64, n: u64) -> Rs<(Vec<u32>, Vec<u32>)> {
        let x = self.rd(st, a, n)?;
        let y = self.rd(st, b, n)?;
        Ok((x, y))
    }

    fn uf(&mut self, st: &mut State, kind: u64, input: &[u32], outlen: u32) -> Rs<Vec<u32>> {
        self.uf_apps += 1;
        let to_codes = |v: &[u8]| -> Vec<u32> { v.iter().map(|x| *x as u32).collect() };
        let inlen = input.len() as u32;
        let ie = if input.is_empty() { self.cx.k(8, 0) } else { self.bytes_to_e(input) };
        for a in &st.ufs {
            if a.kind == kind && a.input == ie && a.inlen == inlen && a.outlen == outlen {
                let out = a.out;
                let mut r = vec![];
                for i in 0..outlen {
                    let b = self.cx.extract(out, i * 8, 8);
                    r.push(match self.cx.c64(b) {
                        Some(c) => c as u32,
                        None => b + 256,
                    });
                }
                return Ok(r);
            }
        }
        let concrete = input.iter().all(|x| *x < 256);
        let outw = outlen * 8;
        let out;
        let mut codes = vec![];
        let bytes_under = |v: &Val| -> Vec<u8> {
            let l = to_limbs(v, inlen.max(1) * 8);
            (0..inlen as usize).map(|i| (l[i / 8] >> (8 * (i % 8))) as u8).collect()
        };
        if concrete {
            let v = crypto::uf_native(kind, &input.iter().map(|x| *x as u8).collect::<Vec<_>>(), outlen as usize);
            codes = to_codes(&v);
            out = self.bytes_to_e(&codes);
        } else {
            let iv = st.model.eval(&self.cx, ie);
            let real = crypto::uf_native(kind, &bytes_under(&iv), outlen as usize);
            out = self.cx.var(&format!("uf{}", kind), outw);
            let id = self.cx.n(out).k as u32;
            let mut l = vec![0u64; ((outw + 63) / 64) as usize];
            for (i, b) in real.iter().enumerate() {
                l[i / 8] |= (*b as u64) << (8 * (i % 8));
            }
            let mut vals = st.model.vals.clone();
            vals.insert(id, from_limbs(l, outw));
            st.model = Rc::new(Model::new(vals));
            for i in 0..outlen {
                codes.push(self.cx.extract(out, i * 8, 8) + 256);
            }
        }
        // functional consistency and (for hash-like kinds) injectivity against earlier applications
        let inj = kind < 100;
        let prev = st.ufs.clone();
        let mut cons = vec![];
        for a in &prev {
            if a.kind != kind || a.outlen != outlen {
                continue;
            }
            let oeq = self.cx.eq(a.out, out);
            if a.inlen != inlen {
                if inj {
                    cons.push(self.cx.not(oeq));
                }
                continue;
            }
            let ieq = self.cx.eq(a.input, ie);
            if inj {
                let x = self.cx.eq(ieq, oeq);
                cons.push(x);
            } else {
                let n = self.cx.not(ieq);
                let x = self.cx.bin(Op::Or, n, oeq);
                cons.push(x);
            }
        }
        st.ufs.push(UfApp { kind, input: ie, inlen, out, outlen });
        for c in cons {
            self.assume(st, c)?;
        }
        Ok(codes)
    }

    /// Intrinsics, C library functions and harness primitives. None: not a builtin.
    fn builtin(&mut self, st: &mut State, name: &str, tys: &[&Ty], a: &[V], rty: &Ty) -> Rs<Option<V>> {
        let unit = Ok(Some(V::C(0)));
        if let Some(n) = name.strip_prefix("llvm.") {
            return self.llvm(st, n, tys, a, rty).map(Some);
        }
        if name.starts_with("_ZN") || name.starts_with("_R") {
            // Formatting is given an empty body: nothing is written, success is returned.
            if name.starts_with("_ZN4core3fmt5write17h") || name.contains("3fmt9Formatter") || name.starts_with("_ZN3std2io5stdio6_print") || name.starts_with("_ZN3std2io5stdio7_eprint") {
                return Ok(Some(zero_of(&mut self.cx, rty)));
            }
            if name.contains("4core3fmt3num") || (name.contains("4core3fmt") && name.contains("GT$3fmt17h")) {
                return Ok(Some(zero_of(&mut self.cx, rty)));
            }
            if name.contains("4core9panicking") || name.contains("3std9panicking") || name.contains("3std7process5abort") {
                let msg = self.panic_msg(st, name, a);
                return Err(End::Abort(msg));
            }
            if name.contains("18handle_alloc_error") || name.contains("rust_alloc_error_handler") {
                return Err(End::Abort("alloc error".into()));
            }
            // what the process does on its way out
            if name.contains("3std2rt7cleanup") || name.contains("18unique_thread_exit") {
                return unit;
            }
            if name.contains("no_alloc_shim_is_unstable") {
                return unit;
            }
            return Ok(None);
        }
        macro_rules! c { ($i:expr) => { self.conc64(st, &a[$i])? } }
        let r = match name {
            "malloc" => {
                let n = c!(0);
                V::C(self.malloc(st, n, 16)?)
            }
            "calloc" => {
                let (n, s) = (c!(0), c!(1));
                V::C(self.malloc(st, n * s, 16)?)
            }
            "aligned_alloc" | "memalign" => {
                let (al, n) = (c!(0), c!(1));
                V::C(self.malloc(st, n, al)?)
            }
            "posix_memalign" => {
                let (p, al, n) = (c!(0), c!(1), c!(2));
                let q = self.malloc(st, n, al)?;
                self.store(st, &Ty::Ptr, &V::C(q), &V::C(p))?;
                V::C(0)
            }
            "realloc" => {
                let (p, n) = (c!(0), c!(1));
                let q = self.malloc(st, n, 16)?;
                if p != 0 {
                    let old = match st.mem.get(&p) {
                        Some(o) => o.clone(),
                        None => return Err(End::Violation(format!("memory-fault: invalid realloc {:#x}", p))),
                    };
                    let k = old.size.min(n) as usize;
                    let d = old.data[..k].to_vec();
                    self.wr(st, q, &d)?;
                    self.free(st, p)?;
                }
                V::C(q)
            }
            "free" => {
                let p = c!(0);
                self.free(st, p)?;
                V::C(0)
            }
            "memcpy" | "memmove" => {
                let (d, s, n) = (c!(0), c!(1), c!(2));
                let b = self.rd(st, s, n)?;
                self.wr(st, d, &b)?;
                V::C(d)
            }
            "memset" => {
                let (d, n) = (c!(0), c!(2));
                self.memset(st, d, &a[1], n)?;
                V::C(d)
            }
            "bcmp" | "memcmp" => {
                let (p, q, n) = (c!(0), c!(1), c!(2));
                if n == 0 {
                    return Ok(Some(V::C(0)));
                }
                let (x, y) = self.memcmp_e(st, p, q, n)?;
                let (ex, ey) = (self.bytes_to_e(&x), self.bytes_to_e(&y));
                let eq = self.cx.eq(ex, ey);
                let z = self.cx.k(32, 0);
                let e = if name == "bcmp" {
                    let one = self.cx.k(32, 1);
                    self.cx.ite(eq, z, one)
                } else {
                    let (mut rx, mut ry) = (x.clone(), y.clone());
                    rx.reverse();
                    ry.reverse();
                    let (bx, by) = (self.bytes_to_e(&rx), self.bytes_to_e(&ry));
                    let lt = self.cx.bin(Op::Ult, bx, by);
                    let m1 = self.cx.k(32, 0xffff_ffff);
                    let p1 = self.cx.k(32, 1);
                    let ne = self.cx.ite(lt, m1, p1);
                    self.cx.ite(eq, z, ne)
                };
                self.mkv(e)
            }
            "strlen" => {
                let p = c!(0);
                let mut n = 0;
                loop {
                    let b = self.rd(st, p + n, 1)?;
                    let v = if b[0] < 256 { b[0] as u64 } else { self.conc64(st, &V::X(b[0] - 256))? };
                    if v == 0 {
                        break;
                    }
                    n += 1;
                }
                V::C(n)
            }
            "abort" | "rust_begin_unwind" | "sym_abort" => return Err(End::Abort(name.into())),
            "symir_no_text" => V::C(0),
            "write" => V::C(c!(2)),
            "writev" => V::C(0),
            "getenv" | "secure_getenv" => V::C(0),
            "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific" | "sigaction" => V::C(0),
            // ---- harness primitives ----
            "sym_bytes" => {
                let (p, n, t, tl) = (c!(0), c!(1), c!(2), c!(3));
                let tag = self.rd_str(st, t, tl)?;
                let mut es = vec![];
                let mut codes = vec![];
                let mut left = n as u32;
                while left > 0 {
                    let k = left.min(64);
                    let e = self.fresh(st, &tag, k * 8);
                    for i in 0..k {
                        codes.push(self.cx.extract(e, i * 8, 8) + 256);
                    }
                    es.push(e);
                    left -= k;
                }
                st.inputs.push((tag, n as u32, es));
                self.wr(st, p, &codes)?;
                V::C(0)
            }
            "sym_u64" => {
                let (t, tl) = (c!(0), c!(1));
                let tag = self.rd_str(st, t, tl)?;
                let e = self.fresh(st, &tag, 64);
                st.inputs.push((tag, 8, vec![e]));
                V::X(e)
            }
            // sym_range(lo, hi, tag): fresh value in [lo, hi], made concrete by forking
            "sym_choose" => {
                let (n, t, tl) = (c!(0), c!(1), c!(2));
                let tag = self.rd_str(st, t, tl)?;
                let e = self.fresh(st, &tag, 64);
                st.inputs.push((tag, 8, vec![e]));
                let k = self.cx.k(64, n);
                let cnd = self.cx.bin(Op::Ult, e, k);
                self.assume(st, cnd)?;
                // fork eagerly: one state per value
                let base = st.clone();
                let mut first = true;
                let mut mine = 0;
                for i in 0..n {
                    let ki = self.cx.k(64, i);
                    let q = self.cx.eq(e, ki);
                    let id = self.cx.n(e).k as u32;
                    let mut vals = base.model.vals.clone();
                    vals.insert(id, Val::S(i));
                    let m = Rc::new(Model::new(vals));
                    let (dec, ndec) = (base.dec.wrapping_mul(1_000_003).wrapping_add(i + 1), base.ndec + 1);
                    if !self.mine(dec, ndec) {
                        continue;
                    }
                    if first {
                        st.dec = dec;
                        st.ndec = ndec;
                        st.model = m;
                        st.pc.push(q);
                        mine = i;
                        first = false;
                    } else {
                        let mut o = base.clone();
                        o.dec = dec;
                        o.ndec = ndec;
                        o.model = m;
                        o.pc.push(q);
                        // resume after the call with result i
                        let fr = o.frames.last_mut().unwrap();
                        let b = &fr.f.clone().blocks[fr.blk as usize];
                        if let Ins::Call { dst, normal, .. } = &b.ins[fr.ip] {
                            if let Some(d) = dst {
                                fr.regs[*d as usize] = V::C(i);
                            }
                            match normal {
                                Some(nb) => {
                                    let from = fr.blk;
                                    let nb = *nb;
                                    self.enter(&mut o, from, nb);
                                }
                                None => fr.ip += 1,
                            }
                        }
                        self.forks += 1;
                        self.work.push(o);
                    }
                }
                if first {
                    return Err(if n == 0 { End::Assumed } else { End::Elsewhere });
                }
                V::C(mine)
            }
            "sym_concretize" => {
                let v = c!(0);
                V::C(v)
            }
            "sym_is_const" => V::C(matches!(a[0], V::C(_)) as u64),
            "sym_assume" => {
                let e = self.ex_bool(&a[0], tys[0]);
                self.assume(st, e)?;
                V::C(0)
            }
            "sym_assert" => {
                let (t, tl) = (c!(1), c!(2));
                let id = self.rd_str(st, t, tl)?;
                let e = self.ex_bool(&a[0], tys[0]);
                let ent = self.asserts.entry(id.clone()).or_insert((0, 0));
                ent.0 += 1;
                if e == self.cx.fls {
                    let m = st.model.clone();
                    self.report(st, &m, &id, "assertion fails on every input of this path", None);
                } else if e != self.cx.tru {
                    self.asserts.get_mut(&id).unwrap().1 += 1;
                    let ne = self.cx.not(e);
                    if let Some(m) = self.query(st, ne)? {
                        // the path goes on for both outcomes: later assertions are not masked by this one
                        self.report(st, &m, &id, "assertion violated", Some(ne));
                    } else {
                        st.implied.push(e);
                    }
                }
                V::C(0)
            }
            "sym_cover" => {
                let (t, tl) = (c!(0), c!(1));
                let id = self.rd_str(st, t, tl)?;
                let n = match self.cover_ids.get(&id) {
                    Some(n) => *n,
                    None => {
                        let n = self.cover_names.len() as u32;
                        self.cover_names.push(id.clone());
                        self.cover_ids.insert(id, n);
                        n
                    }
                };
                if !st.covers.contains(&n) {
                    st.covers.push(n);
                }
                V::C(0)
            }
            "sym_policy" => {
                let old = st.policy;
                st.policy = c!(0);
                V::C(old)
            }
            "sym_end" => return Err(End::Done),
            "sym_observe" => {
                let (t, tl) = (c!(0), c!(1));
                let id = self.rd_str(st, t, tl)?;
                st.obs.push((id, a[2].clone()));
                V::C(0)
            }
            "sym_debug" => {
                let (t, tl) = (c!(0), c!(1));
                let id = self.rd_str(st, t, tl)?;
                if std::env::var("SYMIR_DEBUG").is_ok() {
                    let v = match &a[2] {
                        V::C(x) => format!("{:#x}", x),
                        V::X(e) => format!("sym({:?})", st.model.eval(&self.cx, *e)),
                        _ => "agg".into(),
                    };
                    eprintln!("debug {} = {}", id, v);
                }
                V::C(0)
            }
            "sym_uf" => {
                let (kind, ip, il, op, ol) = (c!(0), c!(1), c!(2), c!(3), c!(4));
                let input = self.rd(st, ip, il)?;
                let out = self.uf(st, kind, &input, ol as u32)?;
                self.wr(st, op, &out)?;
                V::C(0)
            }
            // sym_select(cond, a, b, out, n): out = cond ? a : b without forking
            "sym_select" => {
                let e = self.ex_bool(&a[0], tys[0]);
                let (p, q, o, n) = (c!(1), c!(2), c!(3), c!(4));
                let (x, y) = self.memcmp_e(st, p, q, n)?;
                if n > 0 {
                    let (ex, ey) = (self.bytes_to_e(&x), self.bytes_to_e(&y));
                    let r = self.cx.ite(e, ex, ey);
                    let mut codes = vec![];
                    for i in 0..n as u32 {
                        let b = self.cx.extract(r, i * 8, 8);
                        codes.push(match self.cx.c64(b) {
                            Some(c) => c as u32,
                            None => b + 256,
                        });
                    }
                    self.wr(st, o, &codes)?;
                }
                V::C(0)
            }
            // sym_mem_eq(a, b, n) -> u64 without forking
            "sym_mem_eq" => {
                let (p, q, n) = (c!(0), c!(1), c!(2));
                if n == 0 {
                    return Ok(Some(V::C(1)));
                }
                let (x, y) = self.memcmp_e(st, p, q, n)?;
                let (ex, ey) = (self.bytes_to_e(&x), self.bytes_to_e(&y));
                let e = self.cx.eq(ex, ey);
                let e = self.cx.zext(e, 64);
                self.mkv(e)
            }
            _ => return Ok(None),
        };
        Ok(Some(r))
    }
    fn fresh(&mut self, _st: &mut State, tag: &str, w: u32) -> E {
        // The k-th input of a path always maps to a fresh variable; sibling paths share none.
        self.cx.var(tag, w)
    }
    fn ex_bool(&mut self, v: &V, ty: &Ty) -> E {
        let w = ty.bits();
        let e = self.ex(v, w);
        if w == 1 {
            return e;
        }
        let z = self.cx.k(w, 0);
        let q = self.cx.eq(e, z);
        self.cx.not(q)
    }
    fn panic_msg(&mut self, st: &mut State, name: &str, a: &[V]) -> String {
        let nm = crate::demangle(name);
        let mut s = nm;
        // last pointer argument is usually the &Location { file: &str, line, col }
        for v in a.iter().rev() {
            if let V::C(p) = v {
                if let Ok(d) = self.rd(st, *p, 24) {
                    if d.iter().all(|x| *x < 256) {
                        let q = |o: usize, n: usize| -> u64 { (0..n).rev().fold(0u64, |x, i| (x << 8) | d[o + i] as u64) };
                        let (fp, fl, ln) = (q(0, 8), q(8, 8), q(16, 4));
                        if fl > 0 && fl < 300 {
                            if let Ok(f) = self.rd_str(st, fp, fl) {
                                if f.contains(".rs") {
                                    s = format!("{} {}:{}", s, f.trim_end_matches('\0'), ln);
                                    break;
                                }
                            }
                        }
                    }
                }
            }
        }
        s
    }
    fn memset(&mut self, st: &mut State, d: u64, v: &V, n: u64) -> Rs<()> {
        let code = match v {
            V::C(x) => (*x & 0xff) as u32,
            V::X(e) => {
                let b = self.cx.extract(*e, 0, 8);
                match self.cx.c64(b) {
                    Some(c) => c as u32,
                    None => b + 256,
                }
            }
            _ => return unsup("memset"),
        };
        let buf = vec![code; n as usize];
        self.wr(st, d, &buf)
    }
    fn lanes1(&mut self, ty: &Ty, a: &V, f: &mut dyn FnMut(&mut Self, u32, E) -> E) -> V {
        if let (Ty::Vec(_, t), V::A(l)) = (ty, a) {
            let r = l.iter().map(|x| self.lanes1(t, x, f)).collect();
            return V::A(Rc::new(r));
        }
        let w = ty.bits();
        let e = self.ex(a, w);
        let r = f(self, w, e);
        self.mkv(r)
    }
    fn lanes2(&mut self, ty: &Ty, a: &V, b: &V, f: &mut dyn FnMut(&mut Self, u32, E, E) -> E) -> V {
        if let (Ty::Vec(_, t), V::A(l), V::A(k)) = (ty, a, b) {
            let r = l.iter().zip(k.iter()).map(|(x, y)| self.lanes2(t, x, y, f)).collect();
            return V::A(Rc::new(r));
        }
        let w = ty.bits();
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let r = f(self, w, x, y);
        self.mkv(r)
    }
    fn llvm(&mut self, st: &mut State, n: &str, tys: &[&Ty], a: &[V], rty: &Ty) -> Rs<V> {
        let base: &str = n;
        let pre = |p: &str| base.starts_with(p);
        if pre("lifetime.") || pre("dbg.") || pre("experimental.noalias") || pre("assume") || pre("donothing") || pre("prefetch") || pre("x86.sse2.pause") || pre("invariant.") {
            return Ok(V::C(0));
        }
        if pre("memcpy.") || pre("memmove.") {
            let nn = self.conc64(st, &a[2])?;
            if nn == 0 {
                return Ok(V::C(0));
            }
            let (d, s) = (self.conc64(st, &a[0])?, self.conc64(st, &a[1])?);
            let b = self.rd(st, s, nn)?;
            self.wr(st, d, &b)?;
            return Ok(V::C(0));
        }
        if pre("memset.") {
            let nn = self.conc64(st, &a[2])?;
            if nn == 0 {
                return Ok(V::C(0));
            }
            let d = self.conc64(st, &a[0])?;
            self.memset(st, d, &a[1], nn)?;
            return Ok(V::C(0));
        }
        if pre("trap") || pre("ubsantrap") {
            return Err(End::Abort("trap".into()));
        }
        if pre("expect") || pre("ssa.copy") || pre("launder.invariant") || pre("strip.invariant") {
            return Ok(a[0].clone());
        }
        if pre("is.constant") {
            return Ok(V::C(0));
        }
        if pre("threadlocal.address") {
            return Ok(a[0].clone());
        }
        if pre("umax") || pre("umin") || pre("smax") || pre("smin") {
            let signed = base.starts_with('s');
            let max = &base[1..4] == "max";
            return Ok(self.lanes2(tys[0], &a[0], &a[1], &mut |s, _, x, y| {
                let lt = s.cx.bin(if signed { Op::Slt } else { Op::Ult }, x, y);
                if max { s.cx.ite(lt, y, x) } else { s.cx.ite(lt, x, y) }
            }));
        }
        if pre("abs.") {
            return Ok(self.lanes1(tys[0], &a[0], &mut |s, w, x| {
                let z = s.cx.k(w, 0);
                let neg = s.cx.bin(Op::Slt, x, z);
                let m = s.cx.bin(Op::Sub, z, x);
                s.cx.ite(neg, m, x)
            }));
        }
        if pre("uadd.sat") || pre("usub.sat") || pre("sadd.sat") || pre("ssub.sat") {
            let k = base[..4].to_string();
            return Ok(self.lanes2(tys[0], &a[0], &a[1], &mut |s, w, x, y| {
                let zero = s.cx.k(w, 0);
                match &k[..] {
                    "uadd" => {
                        let r = s.cx.bin(Op::Add, x, y);
                        let ov = s.cx.bin(Op::Ult, r, x);
                        let ones = s.cx.not(zero);
                        s.cx.ite(ov, ones, r)
                    }
                    "usub" => {
                        let r = s.cx.bin(Op::Sub, x, y);
                        let ov = s.cx.bin(Op::Ult, x, y);
                        s.cx.ite(ov, zero, r)
                    }
                    _ => {
                        let (xe, ye) = (s.cx.sext(x, w + 1), s.cx.sext(y, w + 1));
                        let r = s.cx.bin(if k == "sadd" { Op::Add } else { Op::Sub }, xe, ye);
                        let top = s.cx.extract(r, w, 1);
                        let nxt = s.cx.extract(r, w - 1, 1);
                        let ov = s.cx.bin(Op::Xor, top, nxt);
                        let lo = s.cx.extract(r, 0, w);
                        let minv = {
                            let o = s.cx.k(1, 1);
                            let z = s.cx.k(w - 1, 0);
                            s.cx.concat(o, z)
                        };
                        let maxv = s.cx.not(minv);
                        let satv = s.cx.ite(top, minv, maxv);
                        s.cx.ite(ov, satv, lo)
                    }
                }
            }));
        }
        if base.contains(".with.overflow") {
            let w = tys[0].bits();
            let (x, y) = (self.ex(&a[0], w), self.ex(&a[1], w));
            let signed = base.starts_with('s');
            let op = match &base[1..4] {
                "add" => Op::Add,
                "sub" => Op::Sub,
                _ => Op::Mul,
            };
            let r = self.cx.bin(op, x, y);
            let ov = if !signed && op == Op::Add {
                self.cx.bin(Op::Ult, r, x)
            } else if !signed && op == Op::Sub {
                self.cx.bin(Op::Ult, x, y)
            } else {
                let ww = if op == Op::Mul { 2 * w } else { w + 1 };
                let (xe, ye) = if signed {
                    (self.cx.sext(x, ww), self.cx.sext(y, ww))
                } else {
                    (self.cx.zext(x, ww), self.cx.zext(y, ww))
                };
                let full = self.cx.bin(op, xe, ye);
                let back = if signed { self.cx.sext(r, ww) } else { self.cx.zext(r, ww) };
                let eq = self.cx.eq(full, back);
                self.cx.not(eq)
            };
            return Ok(V::A(Rc::new(vec![self.mkv(r), self.mkv(ov)])));
        }
        if pre("ctlz") || pre("cttz") || pre("ctpop") {
            let k = base[..4].to_string();
            return Ok(self.lanes1(tys[0], &a[0], &mut |s, w, x| {
                match &k[..] {
                    "ctpo" => {
                        let mut acc = s.cx.k(w, 0);
                        for i in 0..w {
                            let b = s.cx.extract(x, i, 1);
                            let b = s.cx.zext(b, w);
                            acc = s.cx.bin(Op::Add, acc, b);
                        }
                        acc
                    }
                    "ctlz" => {
                        let mut acc = s.cx.k(w, w as u64);
                        for i in 0..w {
                            let b = s.cx.extract(x, i, 1);
                            let v = s.cx.k(w, (w - 1 - i) as u64);
                            acc = s.cx.ite(b, v, acc);
                        }
                        acc
                    }
                    _ => {
                        let mut acc = s.cx.k(w, w as u64);
                        for i in (0..w).rev() {
                            let b = s.cx.extract(x, i, 1);
                            let v = s.cx.k(w, i as u64);
                            acc = s.cx.ite(b, v, acc);
                        }
                        acc
                    }
                }
            }));
        }
        if pre("bswap") {
            return Ok(self.lanes1(tys[0], &a[0], &mut |s, w, x| {
                let mut acc = s.cx.extract(x, 0, 8);
                for i in 1..w / 8 {
                    let b = s.cx.extract(x, i * 8, 8);
                    acc = s.cx.concat(acc, b);
                }
                acc
            }));
        }
        if pre("bitreverse") {
            return Ok(self.lanes1(tys[0], &a[0], &mut |s, w, x| {
                let mut acc = s.cx.extract(x, 0, 1);
                for i in 1..w {
                    let b = s.cx.extract(x, i, 1);
                    acc = s.cx.concat(acc, b);
                }
                acc
            }));
        }
        if pre("fshl") || pre("fshr") {
            if let (Ty::Vec(_, t), V::A(p), V::A(q), V::A(k)) = (tys[0], &a[0], &a[1], &a[2]) {
                let mut r = vec![];
                for i in 0..p.len() {
                    r.push(self.llvm(st, n, &[&**t; 3], &[p[i].clone(), q[i].clone(), k[i].clone()], t)?);
                }
                return Ok(V::A(Rc::new(r)));
            }
            let w = tys[0].bits();
            let (x, y, s) = (self.ex(&a[0], w), self.ex(&a[1], w), self.ex(&a[2], w));
            let kw = self.cx.k(w, w as u64);
            let sh = self.cx.bin(Op::URem, s, kw);
            let cc = self.cx.concat(x, y);
            let sh2 = self.cx.zext(sh, 2 * w);
            let r = if pre("fshl") {
                let t = self.cx.bin(Op::Shl, cc, sh2);
                self.cx.extract(t, w, w)
            } else {
                let t = self.cx.bin(Op::LShr, cc, sh2);
                self.cx.extract(t, 0, w)
            };
            return Ok(self.mkv(r));
        }
        if pre("ucmp") || pre("scmp") {
            let w = tys[0].bits();
            let rw = rty.bits();
            let (x, y) = (self.ex(&a[0], w), self.ex(&a[1], w));
            let lt = self.cx.bin(if pre("u") { Op::Ult } else { Op::Slt }, x, y);
            let eq = self.cx.eq(x, y);
            let m1 = {
                let z = self.cx.k(rw, 0);
                self.cx.not(z)
            };
            let z = self.cx.k(rw, 0);
            let p1 = self.cx.k(rw, 1);
            let t = self.cx.ite(eq, z, p1);
            let r = self.cx.ite(lt, m1, t);
            return Ok(self.mkv(r));
        }
        if pre("fptoui.sat") {
            let x = self.fl(tys[0], &a[0])?;
            let w = rty.bits();
            let v = x as u64;
            return Ok(V::C(if w < 64 && v > mask(w) { mask(w) } else { v }));
        }
        if pre("fptosi.sat") {
            let x = self.fl(tys[0], &a[0])?;
            return Ok(V::C(x as i64 as u64 & mask(rty.bits())));
        }
        if pre("fabs") {
            let x = self.fl(tys[0], &a[0])?;
            return Ok(Self::fv(tys[0], x.abs()));
        }
        if pre("floor.") || pre("ceil.") || pre("trunc.") || pre("sqrt.") || pre("rint.") || pre("round.") {
            let x = self.fl(tys[0], &a[0])?;
            let r = if pre("floor") { x.floor() } else if pre("ceil") { x.ceil() } else if pre("trunc") { x.trunc() } else if pre("sqrt") { x.sqrt() } else { x.round() };
            return Ok(Self::fv(tys[0], r));
        }
        if pre("roundeven") || pre("nearbyint") || pre("canonicalize") || pre("exp.") || pre("exp2.") || pre("log.") || pre("log2.") || pre("log10.") {
            let x = self.fl(tys[0], &a[0])?;
            let k = base.split('.').next().unwrap();
            let r = match k {
                "canonicalize" => x,
                "exp" => x.exp(),
                "exp2" => x.exp2(),
                "log" => x.ln(),
                "log2" => x.log2(),
                "log10" => x.log10(),
                _ => x.round_ties_even(),
            };
            return Ok(Self::fv(tys[0], r));
        }
        if pre("minnum") || pre("maxnum") || pre("minimum") || pre("maximum") || pre("copysign") || pre("pow.") {
            let (x, y) = (self.fl(tys[0], &a[0])?, self.fl(tys[0], &a[1])?);
            let nan = (pre("minimum.") || pre("maximum.")) && (x.is_nan() || y.is_nan());
            let r = if nan {
                f64::NAN
            } else if pre("min") {
                x.min(y)
            } else if pre("max") {
                x.max(y)
            } else if pre("pow.") {
                x.powf(y)
            } else {
                x.copysign(y)
            };
            return Ok(Self::fv(tys[0], r));
        }
        if pre("powi") {
            let x = self.fl(tys[0], &a[0])?;
            if let V::C(n) = a[1] {
                return Ok(Self::fv(tys[0], x.powi(n as i32)));
            }
        }
        if pre("fma") || pre("fmuladd") {
            let (x, y, z) = (self.fl(tys[0], &a[0])?, self.fl(tys[0], &a[1])?, self.fl(tys[0], &a[2])?);
            return Ok(Self::fv(tys[0], x.mul_add(y, z)));
        }
        if pre("load.relative") {
            let p = self.conc64(st, &a[0])?;
            let o = self.conc64(st, &a[1])?;
            let v = self.load(st, &Ty::Int(32), &V::C(p.wrapping_add(o)))?;
            let v = self.conc64(st, &v)?;
            return Ok(V::C(p.wrapping_add(sx(v, 32) as u64)));
        }
        if pre("vector.reduce.") {
            let op = base["vector.reduce.".len()..].split('.').next().unwrap();
            if let (Ty::Vec(_, t), V::A(l)) = (tys[0], &a[0]) {
                let mut acc = l[0].clone();
                for x in &l[1..] {
                    let o = match op {
                        "add" => Op::Add,
                        "mul" => Op::Mul,
                        "and" => Op::And,
                        "or" => Op::Or,
                        "xor" => Op::Xor,
                        "umin" | "umax" | "smin" | "smax" => {
                            let w = t.bits();
                            let (p, q) = (self.ex(&acc, w), self.ex(x, w));
                            let lt = self.cx.bin(if op.starts_with('u') { Op::Ult } else { Op::Slt }, p, q);
                            let r = if op.ends_with("min") { self.cx.ite(lt, p, q) } else { self.cx.ite(lt, q, p) };
                            acc = self.mkv(r);
                            continue;
                        }
                        _ => return unsup(format!("reduce {}", op)),
                    };
                    acc = self.binop(o, t, &acc, x)?;
                }
                return Ok(acc);
            }
        }
        if pre("ptrmask") {
            return self.binop(Op::And, &Ty::Int(64), &a[0], &a[1]);
        }
        if pre("objectsize") {
            return Ok(V::C(!0));
        }
        unsup(format!("intrinsic llvm.{}", n))
    }
    pub fn repo_functions(&self) -> BTreeSet<(String, String)> {
        let mut r = BTreeSet::new();
        for d in &self.dbg_seen {
            if let Some((n, f, _)) = self.dbg_fn(*d) {
                r.insert((f, n));
            }
        }
        r
    }
    pub fn repo_lines(&self) -> BTreeSet<(String, u32)> {
        let mut r = BTreeSet::new();
        for d in &self.dbg_seen {
            if let Some((_, f, l)) = self.dbg_fn(*d) {
                r.insert((f, l));
            }
        }
        r
    }
}
