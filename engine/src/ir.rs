//! Parser for the textual LLVM IR that rustc emits. Function bodies are parsed on first use.
use crate::expr::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}
fn align_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two().min(64),
            Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    /// allocation size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => align_up(((*w as u64) + 7) / 8, self.align()),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => (n * t.bits() as u64 + 7) / 8,
            Ty::Struct(f, p) => {
                let mut o = 0;
                for t in f.iter() {
                    if !p {
                        o = align_up(o, t.align());
                    }
                    o += t.size();
                }
                if *p { o } else { align_up(o, self.align()) }
            }
            _ => 0,
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::Vec(n, t) => *n as u32 * t.bits(),
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, p) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !p {
                        o = align_up(o, t.align());
                    }
                    if j == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => i as u64 * t.size(),
            _ => 0,
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => Ty::Other,
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
}

/// Register value. C: width <= 64 concrete. X: expression (symbolic, or wide constant). A: aggregate / vector.
#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    X(E),
    A(Rc<Vec<V>>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(V),
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Name(Rc<str>),
    Ind(Opd),
    Asm,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, ZExt, SExt, PtrInt, Bit, UiToFp, SiToFp, FpToUi, FpToSi, FpExt, FpTrunc }

#[derive(Clone, Debug)]
pub enum FOp { Add, Sub, Mul, Div, Rem, Neg }

#[derive(Clone, Debug)]
pub enum Ins {
    Bin(u32, Op, Ty, Opd, Opd),
    ICmp(u32, Rc<str>, Ty, Opd, Opd),
    FBin(u32, FOp, Ty, Opd, Opd),
    FCmp(u32, Rc<str>, Ty, Opd, Opd),
    Cast(u32, Cast, Ty, Opd, Ty),
    Select(u32, Ty, Opd, Ty, Opd, Opd),
    Load(u32, Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(u32, Opd, i64, Vec<(Opd, u32, u64)>),
    Alloca(u32, u64, Opd, u64),
    Call { dst: Option<u32>, rty: Ty, callee: Callee, args: Vec<(Ty, Opd, u64)>, normal: Option<u32> },
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Ty, Opd, u32, Vec<(Val, u32)>),
    Ret(Option<(Ty, Opd)>),
    Unreachable,
    ExtractValue(u32, Opd, Vec<usize>),
    InsertValue(u32, Ty, Opd, Opd, Vec<usize>),
    ExtractElem(u32, Opd, Opd),
    InsertElem(u32, Opd, Opd, Opd),
    Shuffle(u32, Ty, Opd, Opd, Vec<i64>),
    AtomicRmw(u32, Rc<str>, Ty, Opd, Opd),
    CmpXchg(u32, Ty, Opd, Opd, Opd),
    Freeze(u32, Opd),
    Nop,
    Bad(Rc<str>),
}

pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub ins: Vec<Ins>,
    pub dbg: Vec<u32>,
}
pub struct Func {
    pub id: u32,
    pub name: Rc<str>,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
}
pub struct FnDecl {
    pub name: Rc<str>,
    pub body: Option<(usize, usize, usize)>, // header start, body start, end (byte offsets)
    pub addr: u64,
}
pub struct Global {
    pub name: Rc<str>,
    pub ty: Ty,
    pub init: Option<(usize, usize)>,
    pub constant: bool,
    pub addr: u64,
    pub size: u64,
}

#[derive(Clone, Debug, PartialEq)]
enum T<'a> {
    W(&'a str),
    N(&'a str),
    L(&'a str),
    G(&'a str),
    M(&'a str),
    S(Vec<u8>),
    P(u8),
}
fn lex(s: &str) -> Vec<T<'_>> {
    let b = s.as_bytes();
    let mut r = vec![];
    let mut i = 0;
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                let st;
                let en;
                if i + 1 < b.len() && b[i + 1] == b'"' {
                    st = i + 2;
                    let mut j = st;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    en = j;
                    i = j + 1;
                } else {
                    st = i + 1;
                    let mut j = st;
                    while j < b.len() && idc(b[j]) {
                        j += 1;
                    }
                    en = j;
                    i = j;
                }
                r.push(if c == b'%' { T::L(&s[st..en]) } else { T::G(&s[st..en]) });
            }
            b'!' => {
                let st = i;
                i += 1;
                while i < b.len() && idc(b[i]) {
                    i += 1;
                }
                r.push(T::M(&s[st..i]));
            }
            b'#' => {
                let st = i;
                i += 1;
                while i < b.len() && idc(b[i]) {
                    i += 1;
                }
                r.push(T::M(&s[st..i]));
            }
            b'"' => {
                let (v, j) = qstr(b, i + 1);
                i = j;
                r.push(T::S(v));
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let (v, j) = qstr(b, i + 2);
                i = j;
                r.push(T::S(v));
            }
            b'0'..=b'9' => {
                let st = i;
                while i < b.len() && (idc(b[i]) || b[i] == b'+') {
                    i += 1;
                }
                r.push(T::N(&s[st..i]));
            }
            b'-' => {
                let st = i;
                i += 1;
                while i < b.len() && (idc(b[i]) || b[i] == b'+') {
                    i += 1;
                }
                r.push(T::N(&s[st..i]));
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => {
                let st = i;
                while i < b.len() && idc(b[i]) {
                    i += 1;
                }
                r.push(T::W(&s[st..i]));
            }
            _ => {
                r.push(T::P(c));
                i += 1;
            }
        }
    }
    r
}
fn qstr(b: &[u8], mut i: usize) -> (Vec<u8>, usize) {
    let hx = |c: u8| (c as char).to_digit(16).unwrap() as u8;
    let mut v = vec![];
    while b[i] != b'"' {
        if b[i] == b'\\' && i + 2 < b.len() {
            if b[i + 1] == b'\\' {
                v.push(b'\\');
                i += 2;
            } else {
                v.push(hx(b[i + 1]) * 16 + hx(b[i + 2]));
                i += 3;
            }
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    (v, i + 1)
}

pub struct Module {
    text: bool, // addresses are written out in text
    pub src: Rc<str>,
    pub fns: Vec<FnDecl>,
    pub fn_by_name: HashMap<Rc<str>, u32>,
    pub fn_by_addr: HashMap<u64, u32>,
    pub globals: Vec<Global>,
    pub glob_by_name: HashMap<Rc<str>, u32>,
    pub types: HashMap<String, Ty>,
    aliases: HashMap<Rc<str>, Rc<str>>,
    pub md: HashMap<u32, (usize, usize)>,
    pub glob_order: Vec<(u64, u32)>, // sorted by address
}

struct Ps<'a, 'm> {
    t: Vec<T<'a>>,
    i: usize,
    m: &'m Module,
    cx: &'m mut Ctx,
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
}

type R<X> = Result<X, String>;

pub const GLOBAL_BASE: u64 = 0x1000_0000;
pub const FN_BASE: u64 = 0x0800_0000;

impl Module {
    pub fn load(path: &str, text: bool) -> R<Module> {
        let src: Rc<str> = Rc::from(std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?);
        let mut m = Module {
            text,
            src: src.clone(),
            fns: vec![],
            fn_by_name: HashMap::new(),
            fn_by_addr: HashMap::new(),
            globals: vec![],
            glob_by_name: HashMap::new(),
            types: HashMap::new(),
            aliases: HashMap::new(),
            md: HashMap::new(),
            glob_order: vec![],
        };
        let mut off = 0;
        let mut gl: Vec<(usize, usize)> = vec![];
        let mut cur: Option<(usize, usize)> = None;
        let mut tylines = vec![];
        for line in src.split_inclusive('\n') {
            let st = off;
            off += line.len();
            let l = line.trim_end();
            if let Some((h, bs)) = cur {
                if l == "}" {
                    let hdr = &src[h..bs];
                    let name = Self::fname(hdr);
                    m.add_fn(&name, Some((h, bs, st)));
                    cur = None;
                }
                continue;
            }
            if l.starts_with("define ") {
                cur = Some((st, off));
            } else if l.starts_with("declare ") {
                let name = Self::fname(l);
                m.add_fn(&name, None);
            } else if l.starts_with('@') {
                gl.push((st, st + l.len()));
            } else if l.starts_with('%') {
                tylines.push((st, st + l.len()));
            } else if l.starts_with('!') {
                if let Some(p) = l.find(" = ") {
                    if let Ok(n) = l[1..p].parse::<u32>() {
                        m.md.insert(n, (st + p + 3, st + l.len()));
                    }
                }
            }
        }
        // named types may refer to later ones: resolve until nothing changes
        let mut pending = tylines;
        loop {
            let before = pending.len();
            let mut rest = vec![];
            for (a, b) in pending {
                let t = lex(&src[a..b]);
                if let T::L(n) = &t[0] {
                    let mut dummy = Ctx::new();
                    let name = n.to_string();
                    let ty = {
                        let mut p = Ps { t: t.clone(), i: 3, m: &m, cx: &mut dummy, regs: HashMap::new(), labels: HashMap::new() };
                        p.ty()
                    };
                    match ty {
                        Ok(t) => {
                            m.types.insert(name, t);
                        }
                        Err(_) => rest.push((a, b)),
                    }
                }
            }
            pending = rest;
            if pending.is_empty() || pending.len() == before {
                break;
            }
        }
        let mut addr = GLOBAL_BASE;
        for (a, b) in gl {
            let l = &src[a..b];
            let t = lex(l);
            let name: Rc<str> = match &t[0] {
                T::G(n) => Rc::from(*n),
                _ => return Err(format!("global: {}", l)),
            };
            let mut i = 2;
            let mut ext = false;
            let mut kind = "";
            let mut depth = 0;
            while i < t.len() {
                match &t[i] {
                    T::P(b'(') => depth += 1,
                    T::P(b')') => depth -= 1,
                    T::W(w) if depth == 0 => {
                        if *w == "external" || *w == "extern_weak" {
                            ext = true;
                        }
                        if *w == "constant" || *w == "global" || *w == "alias" || *w == "ifunc" {
                            kind = w;
                            i += 1;
                            break;
                        }
                    }
                    _ => {}
                }
                i += 1;
            }
            if kind == "alias" {
                for x in &t[i..] {
                    if let T::G(n) = x {
                        m.aliases.insert(name.clone(), Rc::from(*n));
                        break;
                    }
                }
                continue;
            }
            let mut dummy = Ctx::new();
            let ty = {
                let mut p = Ps { t: t.clone(), i, m: &m, cx: &mut dummy, regs: HashMap::new(), labels: HashMap::new() };
                p.ty()?
            };
            // explicit alignment
            let mut al = ty.align().max(16);
            for j in 0..t.len() {
                if t[j] == T::W("align") {
                    if let Some(T::N(n)) = t.get(j + 1) {
                        al = al.max(n.parse().unwrap_or(1));
                    }
                }
            }
            let size = ty.size();
            addr = align_up(addr, al);
            let id = m.globals.len() as u32;
            m.globals.push(Global {
                name: name.clone(),
                ty,
                init: if ext { None } else { Some((a, b)) },
                constant: kind == "constant",
                addr,
                size,
            });
            m.glob_order.push((addr, id));
            m.glob_by_name.insert(name, id);
            addr += size + 32;
        }
        Ok(m)
    }
    fn fname(h: &str) -> String {
        // first @name( in the header
        let b = h.as_bytes();
        let mut i = 0;
        while b[i] != b'@' {
            i += 1;
        }
        if b[i + 1] == b'"' {
            let j = h[i + 2..].find('"').unwrap();
            h[i + 2..i + 2 + j].to_string()
        } else {
            let j = h[i + 1..].find('(').unwrap();
            h[i + 1..i + 1 + j].to_string()
        }
    }
    fn add_fn(&mut self, n: &str, body: Option<(usize, usize, usize)>) {
        let name: Rc<str> = Rc::from(n);
        let id = self.fns.len() as u32;
        let addr = FN_BASE + id as u64 * 16;
        // formatting of addresses in log text is not executed (base58 of symbolic bytes); it writes nothing
        let quiet = !self.text && n.contains("core..fmt..Display$GT$3fmt") && (n.contains("solana_address..Address$u20$as") || n.contains("solana_pubkey..Pubkey$u20$as"));
        let called: Rc<str> = if quiet { Rc::from("symir_no_text") } else { name.clone() };
        self.fns.push(FnDecl { name: called, body, addr });
        self.fn_by_name.insert(name, id);
        self.fn_by_addr.insert(addr, id);
    }
    pub fn sym_addr(&self, n: &str) -> Option<u64> {
        if let Some(i) = self.glob_by_name.get(n) {
            return Some(self.globals[*i as usize].addr);
        }
        if let Some(i) = self.fn_by_name.get(n) {
            return Some(self.fns[*i as usize].addr);
        }
        if let Some(a) = self.aliases.get(n) {
            return self.sym_addr(&a.clone());
        }
        None
    }
    pub fn resolve_fn(&self, n: &str) -> Option<u32> {
        if let Some(i) = self.fn_by_name.get(n) {
            return Some(*i);
        }
        self.aliases.get(n).and_then(|a| self.resolve_fn(a))
    }
    pub fn global_at(&self, a: u64) -> Option<u32> {
        let i = self.glob_order.partition_point(|x| x.0 <= a);
        if i == 0 {
            return None;
        }
        let g = self.glob_order[i - 1].1;
        let gl = &self.globals[g as usize];
        if a < gl.addr + gl.size.max(1) { Some(g) } else { None }
    }
    /// Parse the initializer of a global into a typed value
    pub fn global_init(&self, cx: &mut Ctx, g: u32) -> R<Option<V>> {
        let gl = &self.globals[g as usize];
        let (a, b) = match gl.init {
            None => return Ok(None),
            Some(x) => x,
        };
        let src = self.src.clone();
        let t = lex(&src[a..b]);
        let mut i = 2;
        let mut depth = 0;
        while i < t.len() {
            match &t[i] {
                T::P(b'(') => depth += 1,
                T::P(b')') => depth -= 1,
                T::W(w) if depth == 0 && (*w == "constant" || *w == "global") => {
                    i += 1;
                    break;
                }
                _ => {}
            }
            i += 1;
        }
        let mut p = Ps { t, i, m: self, cx, regs: HashMap::new(), labels: HashMap::new() };
        let ty = p.ty()?;
        Ok(Some(p.konst(&ty)?))
    }

    pub fn parse_fn(&self, cx: &mut Ctx, id: u32) -> R<Func> {
        let d = &self.fns[id as usize];
        let (h, bs, en) = d.body.ok_or("no body")?;
        let src = self.src.clone();
        let hdr = lex(&src[h..bs]);
        let mut p = Ps { t: hdr, i: 0, m: self, cx, regs: HashMap::new(), labels: HashMap::new() };
        // parameters
        while !matches!(p.t[p.i], T::G(_)) {
            p.i += 1;
        }
        p.i += 1;
        p.exp(b'(')?;
        let mut params = vec![];
        let mut unnamed = 0u32;
        while p.t[p.i] != T::P(b')') {
            if p.t[p.i] == T::W("...") {
                p.i += 1;
                continue;
            }
            let _ = p.ty()?;
            p.skip_attrs_until_value();
            let name = match p.t[p.i].clone() {
                T::L(n) => {
                    p.i += 1;
                    n.to_string()
                }
                _ => {
                    let n = unnamed.to_string();
                    n
                }
            };
            if name.parse::<u32>().is_ok() {
                unnamed = name.parse::<u32>().unwrap() + 1;
            }
            let r = p.reg(&name);
            params.push(r);
            if p.t[p.i] == T::P(b',') {
                p.i += 1;
            }
        }
        let mut regs = std::mem::take(&mut p.regs);
        drop(p);
        // split body into logical lines
        let body = &src[bs..en];
        let mut lines: Vec<String> = vec![];
        let mut pend: Option<String> = None;
        for l in body.lines() {
            let tl = l.trim();
            if tl.is_empty() || tl.starts_with(';') || tl.starts_with("#dbg_") {
                continue;
            }
            if let Some(mut s) = pend.take() {
                s.push(' ');
                s.push_str(tl);
                if tl.starts_with(']') { lines.push(s) } else { pend = Some(s) }
                continue;
            }
            if tl.starts_with("switch ") && tl.ends_with('[') {
                pend = Some(tl.to_string());
                continue;
            }
            if tl.starts_with("catch ") || tl == "cleanup" || tl.starts_with("filter ") {
                continue;
            }
            if tl.starts_with("to label ") {
                // second line of an invoke
                if let Some(x) = lines.last_mut() {
                    x.push(' ');
                    x.push_str(tl);
                }
                continue;
            }
            lines.push(tl.to_string());
        }
        // labels
        let mut labels: HashMap<String, u32> = HashMap::new();
        let mut nb = 0u32;
        let is_label = |l: &str| -> Option<String> {
            let l2 = l.split(';').next().unwrap().trim_end();
            if !l2.ends_with(':') {
                return None;
            }
            let n = &l2[..l2.len() - 1];
            if n.starts_with('"') {
                return Some(n.trim_matches('"').to_string());
            }
            if !n.is_empty() && n.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-') {
                Some(n.to_string())
            } else {
                None
            }
        };
        if lines.is_empty() {
            return Err("empty body".into());
        }
        if is_label(&lines[0]).is_none() {
            labels.insert(unnamed.to_string(), 0);
            nb = 1;
        }
        for l in &lines {
            if let Some(n) = is_label(l) {
                labels.insert(n, nb);
                nb += 1;
            }
        }
        let mut blocks: Vec<Block> = vec![];
        let mut first = true;
        for l in &lines {
            if is_label(l).is_some() {
                blocks.push(Block { phis: vec![], ins: vec![], dbg: vec![] });
                first = false;
                continue;
            }
            if first {
                blocks.push(Block { phis: vec![], ins: vec![], dbg: vec![] });
                first = false;
            }
            let dbg = l.rfind("!dbg !").map(|p| {
                let s = &l[p + 6..];
                let e = s.find(|c: char| !c.is_ascii_digit()).unwrap_or(s.len());
                s[..e].parse::<u32>().unwrap_or(0)
            });
            let t = lex(l);
            let mut p = Ps { t, i: 0, m: self, cx, regs, labels };
            let blk = blocks.last_mut().unwrap();
            match p.instr(blk) {
                Ok(Some(ins)) => {
                    blk.ins.push(ins);
                    blk.dbg.push(dbg.unwrap_or(0));
                }
                Ok(None) => {}
                Err(e) => {
                    blk.ins.push(Ins::Bad(Rc::from(format!("{}: {}", e, l))));
                    blk.dbg.push(dbg.unwrap_or(0));
                }
            }
            regs = p.regs;
            labels = p.labels;
        }
        Ok(Func { id, name: d.name.clone(), params, nregs: regs.len() as u32, blocks })
    }
}

pub fn zero_of(cx: &mut Ctx, t: &Ty) -> V {
    match t {
        Ty::Int(w) if *w > 64 => V::X(cx.k(*w, 0)),
        Ty::Arr(n, e) | Ty::Vec(n, e) => {
            let z = zero_of(cx, e);
            V::A(Rc::new(vec![z; *n as usize]))
        }
        Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(|x| zero_of(cx, x)).collect())),
        _ => V::C(0),
    }
}

fn parse_int(s: &str, w: u32) -> R<Val> {
    let (neg, d) = if let Some(r) = s.strip_prefix('-') { (true, r) } else { (false, s) };
    let n = (w as usize + 63) / 64;
    let mut l = vec![0u64; n.max(1)];
    for c in d.bytes() {
        if !c.is_ascii_digit() {
            return Err(format!("int {}", s));
        }
        let mut carry = (c - b'0') as u128;
        for x in l.iter_mut() {
            let t = *x as u128 * 10 + carry;
            *x = t as u64;
            carry = t >> 64;
        }
    }
    if neg {
        let mut c = 1u128;
        for x in l.iter_mut() {
            let t = (!*x) as u128 + c;
            *x = t as u64;
            c = t >> 64;
        }
    }
    Ok(from_limbs(l, w))
}

impl<'a, 'm> Ps<'a, 'm> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn pk(&self) -> &T<'a> {
        static END: T<'static> = T::P(0);
        self.t.get(self.i).unwrap_or(unsafe { std::mem::transmute::<&T<'static>, &T<'a>>(&END) })
    }
    fn exp(&mut self, c: u8) -> R<()> {
        if *self.pk() == T::P(c) {
            self.i += 1;
            Ok(())
        } else {
            Err(format!("expected '{}' at {:?}", c as char, self.pk()))
        }
    }
    fn acc(&mut self, c: u8) -> bool {
        if *self.pk() == T::P(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn accw(&mut self, w: &str) -> bool {
        if *self.pk() == T::W(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn num(&mut self) -> R<u64> {
        match self.pk().clone() {
            T::N(n) => {
                self.i += 1;
                n.parse().map_err(|_| format!("num {}", n))
            }
            x => Err(format!("num {:?}", x)),
        }
    }
    fn skip_parens(&mut self) {
        let mut d = 0;
        loop {
            match self.pk() {
                T::P(b'(') => d += 1,
                T::P(b')') => d -= 1,
                T::P(0) => return,
                _ => {}
            }
            self.i += 1;
            if d == 0 {
                return;
            }
        }
    }
    fn type_start(&self) -> bool {
        match self.pk() {
            T::W(w) => {
                (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()))
                    || matches!(*w, "ptr" | "void" | "float" | "double" | "half" | "fp128" | "bfloat" | "metadata" | "token" | "label" | "x86_fp80" | "opaque")
            }
            T::P(b'{') | T::P(b'[') | T::P(b'<') => true,
            T::L(_) => true,
            _ => false,
        }
    }
    fn skip_attrs(&mut self) {
        while !self.type_start() {
            match self.pk() {
                T::W(w) => {
                    let w = *w;
                    self.i += 1;
                    if *self.pk() == T::P(b'(') {
                        self.skip_parens();
                    } else if w == "align" || w == "cc" {
                        self.i += 1;
                    }
                }
                T::S(_) | T::N(_) => self.i += 1,
                _ => return,
            }
        }
    }
    /// attributes between a parameter's type and its value; returns the byval size if any
    fn skip_attrs_until_value(&mut self) -> u64 {
        let mut byval = 0;
        loop {
            match self.pk().clone() {
                T::W(w) => {
                    if matches!(w, "null" | "undef" | "poison" | "zeroinitializer" | "true" | "false" | "none" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "sub" | "add" | "splat" | "asm" | "addrspacecast" | "blockaddress" | "dso_local_equivalent" | "no_cfi") {
                        return byval;
                    }
                    self.i += 1;
                    if *self.pk() == T::P(b'(') {
                        if w == "byval" {
                            let save = self.i;
                            self.i += 1;
                            if let Ok(t) = self.ty() {
                                byval = t.size();
                            }
                            self.i = save;
                        }
                        self.skip_parens();
                    } else if w == "align" {
                        self.i += 1;
                    }
                }
                T::S(_) => self.i += 1,
                _ => return byval,
            }
        }
    }
    fn ty(&mut self) -> R<Ty> {
        let mut t = match self.pk().clone() {
            T::W(w) => {
                self.i += 1;
                if w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) {
                    Ty::Int(w[1..].parse().unwrap())
                } else {
                    match w {
                        "ptr" => {
                            if *self.pk() == T::W("addrspace") {
                                self.i += 1;
                                self.skip_parens();
                            }
                            Ty::Ptr
                        }
                        "void" => Ty::Void,
                        "float" => Ty::F32,
                        "double" => Ty::F64,
                        "opaque" | "metadata" | "token" | "label" => Ty::Other,
                        _ => return Err(format!("type {}", w)),
                    }
                }
            }
            T::L(n) => {
                self.i += 1;
                self.m.types.get(n).cloned().ok_or(format!("type %{}", n))?
            }
            T::P(b'[') => {
                self.i += 1;
                let n = self.num()?;
                if !self.accw("x") {
                    return Err("array x".into());
                }
                let t = self.ty()?;
                self.exp(b']')?;
                Ty::Arr(n, Rc::new(t))
            }
            T::P(b'<') => {
                self.i += 1;
                if *self.pk() == T::P(b'{') {
                    let t = self.ty()?;
                    self.exp(b'>')?;
                    match t {
                        Ty::Struct(f, _) => Ty::Struct(f, true),
                        _ => return Err("packed".into()),
                    }
                } else {
                    let n = self.num()?;
                    if !self.accw("x") {
                        return Err("vec x".into());
                    }
                    let t = self.ty()?;
                    self.exp(b'>')?;
                    Ty::Vec(n, Rc::new(t))
                }
            }
            T::P(b'{') => {
                self.i += 1;
                let mut f = vec![];
                while !self.acc(b'}') {
                    f.push(self.ty()?);
                    self.acc(b',');
                }
                Ty::Struct(Rc::new(f), false)
            }
            x => return Err(format!("type at {:?}", x)),
        };
        // function types (callee prototypes)
        if *self.pk() == T::P(b'(') && matches!(t, Ty::Void | Ty::Int(_) | Ty::Ptr | Ty::Struct(..) | Ty::F64 | Ty::F32) {
            // only valid before a callee
            let save = self.i;
            self.skip_parens();
            if !matches!(self.pk(), T::G(_) | T::L(_)) {
                self.i = save;
            }
        }
        if let Ty::Other = t {
            t = Ty::Other;
        }
        Ok(t)
    }
    fn cint(&mut self, w: u32, v: &Val) -> V {
        match v {
            Val::S(x) if w <= 64 => V::C(*x),
            _ => V::X(self.cx.kv(w, v)),
        }
    }
    fn konst(&mut self, ty: &Ty) -> R<V> {
        let tk = self.pk().clone();
        match tk {
            T::N(n) => {
                self.i += 1;
                match ty {
                    Ty::Int(w) => {
                        let v = parse_int(n, *w)?;
                        Ok(self.cint(*w, &v))
                    }
                    Ty::F64 | Ty::F32 => {
                        let bits = if let Some(h) = n.strip_prefix("0x") {
                            u64::from_str_radix(h, 16).map_err(|_| format!("float {}", n))?
                        } else {
                            n.parse::<f64>().map_err(|_| format!("float {}", n))?.to_bits()
                        };
                        Ok(V::C(if *ty == Ty::F32 { (f64::from_bits(bits) as f32).to_bits() as u64 } else { bits }))
                    }
                    _ => Err(format!("number {} for {:?}", n, ty)),
                }
            }
            T::G(n) => {
                self.i += 1;
                let a = self.m.sym_addr(n).ok_or(format!("symbol @{}", n))?;
                Ok(V::C(a))
            }
            T::S(b) => {
                self.i += 1;
                Ok(V::A(Rc::new(b.iter().map(|x| V::C(*x as u64)).collect())))
            }
            T::W(w) => {
                self.i += 1;
                match w {
                    "true" => Ok(V::C(1)),
                    "false" | "null" | "none" => Ok(V::C(0)),
                    "undef" | "poison" | "zeroinitializer" => Ok(zero_of(self.cx, ty)),
                    "splat" => {
                        self.exp(b'(')?;
                        let et = self.ty()?;
                        let v = self.konst(&et)?;
                        self.exp(b')')?;
                        Ok(V::A(Rc::new(vec![v; ty.count()])))
                    }
                    "getelementptr" => {
                        while let T::W(x) = self.pk().clone() {
                            if matches!(x, "inbounds" | "nuw" | "nusw" | "inrange") {
                                self.i += 1;
                                if *self.pk() == T::P(b'(') && x == "inrange" {
                                    self.skip_parens();
                                }
                            } else {
                                break;
                            }
                        }
                        self.exp(b'(')?;
                        let bt = self.ty()?;
                        self.exp(b',')?;
                        let pt = self.ty()?;
                        let base = self.konst(&pt)?;
                        let mut off = match base {
                            V::C(x) => x,
                            _ => return Err("gep base".into()),
                        };
                        let mut cur = bt;
                        let mut first = true;
                        while self.acc(b',') {
                            let it = self.ty()?;
                            let iv = match self.konst(&it)? {
                                V::C(x) => sx(x, it.bits()),
                                _ => return Err("gep idx".into()),
                            };
                            if first {
                                off = off.wrapping_add((cur.size() as i64 * iv) as u64);
                                first = false;
                            } else {
                                off = off.wrapping_add(match &cur {
                                    Ty::Struct(..) => cur.field_off(iv as usize),
                                    _ => (cur.elem(0).size() as i64 * iv) as u64,
                                });
                                cur = cur.elem(if let Ty::Struct(..) = cur { iv as usize } else { 0 });
                            }
                        }
                        self.exp(b')')?;
                        Ok(V::C(off))
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "addrspacecast" => {
                        self.exp(b'(')?;
                        let ft = self.ty()?;
                        let v = self.konst(&ft)?;
                        if !self.accw("to") {
                            return Err("cast to".into());
                        }
                        let tt = self.ty()?;
                        self.exp(b')')?;
                        match v {
                            V::C(x) => Ok(V::C(x & mask(tt.bits().min(64)))),
                            _ => Err("const cast".into()),
                        }
                    }
                    "sub" | "add" | "mul" | "xor" => {
                        while let T::W(_) = self.pk() {
                            self.i += 1;
                        }
                        self.exp(b'(')?;
                        let t1 = self.ty()?;
                        let a = self.konst(&t1)?;
                        self.exp(b',')?;
                        let t2 = self.ty()?;
                        let b = self.konst(&t2)?;
                        self.exp(b')')?;
                        match (a, b) {
                            (V::C(x), V::C(y)) => {
                                let r = match w {
                                    "sub" => x.wrapping_sub(y),
                                    "add" => x.wrapping_add(y),
                                    "mul" => x.wrapping_mul(y),
                                    _ => x ^ y,
                                };
                                Ok(V::C(r & mask(t1.bits().min(64))))
                            }
                            _ => Err("const expr".into()),
                        }
                    }
                    _ => Err(format!("constant {}", w)),
                }
            }
            T::P(b'<') | T::P(b'{') | T::P(b'[') => {
                let mut close = vec![];
                let c0 = tk.clone();
                self.i += 1;
                if c0 == T::P(b'<') && *self.pk() == T::P(b'{') {
                    self.i += 1;
                    close.push(b'}');
                    close.push(b'>');
                } else {
                    close.push(match c0 {
                        T::P(b'<') => b'>',
                        T::P(b'{') => b'}',
                        _ => b']',
                    });
                }
                let mut v = vec![];
                while *self.pk() != T::P(close[0]) {
                    let et = self.ty()?;
                    v.push(self.konst(&et)?);
                    self.acc(b',');
                }
                for c in close {
                    self.exp(c)?;
                }
                Ok(V::A(Rc::new(v)))
            }
            x => Err(format!("constant at {:?}", x)),
        }
    }
    fn val(&mut self, ty: &Ty) -> R<Opd> {
        if let T::L(n) = self.pk().clone() {
            self.i += 1;
            let r = self.reg(n);
            return Ok(Opd::R(r));
        }
        if *self.pk() == T::W("asm") {
            return Err("asm".into());
        }
        if let (T::M(_), Ty::Other) = (self.pk().clone(), ty) {
            self.i += 1;
            if *self.pk() == T::P(b'(') {
                self.skip_parens();
            }
            return Ok(Opd::K(V::C(0)));
        }
        if let (T::W(w), Ty::Other) = (self.pk().clone(), ty) {
            // token none, metadata value etc.
            let _ = w;
            self.i += 1;
            return Ok(Opd::K(V::C(0)));
        }
        Ok(Opd::K(self.konst(ty)?))
    }
    fn tyval(&mut self) -> R<(Ty, Opd)> {
        let t = self.ty()?;
        self.skip_attrs_until_value();
        let v = self.val(&t)?;
        Ok((t, v))
    }
    fn label(&mut self) -> R<u32> {
        if !self.accw("label") {
            return Err("label".into());
        }
        match self.pk().clone() {
            T::L(n) => {
                self.i += 1;
                self.labels.get(n).copied().ok_or(format!("label {}", n))
            }
            x => Err(format!("label {:?}", x)),
        }
    }
    fn flags(&mut self) {
        while let T::W(w) = self.pk() {
            if matches!(*w, "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "atomic" | "weak" | "tail" | "musttail" | "notail" | "inrange") {
                self.i += 1;
            } else {
                break;
            }
        }
    }
    fn instr(&mut self, blk: &mut Block) -> R<Option<Ins>> {
        let mut dst = None;
        if let (T::L(n), Some(T::P(b'='))) = (self.pk().clone(), self.t.get(self.i + 1).cloned()) {
            dst = Some(self.reg(n));
            self.i += 2;
        }
        let op = match self.pk().clone() {
            T::W(w) => w,
            x => return Err(format!("opcode {:?}", x)),
        };
        self.i += 1;
        self.flags();
        let d = dst.unwrap_or(0);
        let bop = |o: &str| -> Option<Op> {
            Some(match o {
                "add" => Op::Add,
                "sub" => Op::Sub,
                "mul" => Op::Mul,
                "udiv" => Op::UDiv,
                "urem" => Op::URem,
                "sdiv" => Op::SDiv,
                "srem" => Op::SRem,
                "shl" => Op::Shl,
                "lshr" => Op::LShr,
                "ashr" => Op::AShr,
                "and" => Op::And,
                "or" => Op::Or,
                "xor" => Op::Xor,
                _ => return None,
            })
        };
        if let Some(o) = bop(op) {
            let (t, a) = self.tyval()?;
            self.exp(b',')?;
            let b = self.val(&t)?;
            return Ok(Some(Ins::Bin(d, o, t, a, b)));
        }
        let ins = match op {
            "icmp" | "fcmp" => {
                let p = match self.pk().clone() {
                    T::W(w) => w,
                    _ => return Err("pred".into()),
                };
                self.i += 1;
                let (t, a) = self.tyval()?;
                self.exp(b',')?;
                let b = self.val(&t)?;
                if op == "icmp" { Ins::ICmp(d, Rc::from(p), t, a, b) } else { Ins::FCmp(d, Rc::from(p), t, a, b) }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                let (t, a) = self.tyval()?;
                self.exp(b',')?;
                let b = self.val(&t)?;
                let f = match op {
                    "fadd" => FOp::Add,
                    "fsub" => FOp::Sub,
                    "fmul" => FOp::Mul,
                    "fdiv" => FOp::Div,
                    _ => FOp::Rem,
                };
                Ins::FBin(d, f, t, a, b)
            }
            "fneg" => {
                let (t, a) = self.tyval()?;
                Ins::FBin(d, FOp::Neg, t, a.clone(), a)
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" | "ptrtoaddr" | "addrspacecast" => {
                let (t, a) = self.tyval()?;
                if !self.accw("to") {
                    return Err("to".into());
                }
                let tt = self.ty()?;
                let c = match op {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "bitcast" => Cast::Bit,
                    "uitofp" => Cast::UiToFp,
                    "sitofp" => Cast::SiToFp,
                    "fptoui" => Cast::FpToUi,
                    "fptosi" => Cast::FpToSi,
                    "fpext" => Cast::FpExt,
                    "fptrunc" => Cast::FpTrunc,
                    _ => Cast::PtrInt,
                };
                Ins::Cast(d, c, t, a, tt)
            }
            "select" => {
                let (ct, c) = self.tyval()?;
                self.exp(b',')?;
                let (t, a) = self.tyval()?;
                self.exp(b',')?;
                let (_, b) = self.tyval()?;
                Ins::Select(d, ct, c, t, a, b)
            }
            "load" => {
                let t = self.ty()?;
                self.exp(b',')?;
                let (_, p) = self.tyval()?;
                Ins::Load(d, t, p)
            }
            "store" => {
                let (t, v) = self.tyval()?;
                self.exp(b',')?;
                let (_, p) = self.tyval()?;
                Ins::Store(t, v, p)
            }
            "getelementptr" => {
                let bt = self.ty()?;
                self.exp(b',')?;
                let (pt, base) = self.tyval()?;
                if let Ty::Vec(..) = pt {
                    return Err("vector gep".into());
                }
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = bt;
                let mut first = true;
                while self.acc(b',') {
                    if let T::M(_) = self.pk() {
                        break;
                    }
                    let (it, iv) = self.tyval()?;
                    let stride;
                    if first {
                        stride = cur.size();
                        first = false;
                    } else {
                        if let Ty::Struct(..) = cur {
                            if let Opd::K(V::C(k)) = iv {
                                off += cur.field_off(k as usize) as i64;
                                cur = cur.elem(k as usize);
                                continue;
                            }
                            return Err("gep struct".into());
                        }
                        stride = cur.elem(0).size();
                        cur = cur.elem(0);
                    }
                    match iv {
                        Opd::K(V::C(k)) => off = off.wrapping_add((stride as i64).wrapping_mul(sx(k, it.bits()))),
                        o => idx.push((o, it.bits(), stride)),
                    }
                }
                Ins::Gep(d, base, off, idx)
            }
            "alloca" => {
                let t = self.ty()?;
                let mut n = Opd::K(V::C(1));
                let mut al = 16;
                while self.acc(b',') {
                    if self.accw("align") {
                        al = self.num()?.max(16);
                    } else if let T::M(_) = self.pk() {
                        break;
                    } else if *self.pk() == T::W("addrspace") {
                        self.i += 1;
                        self.skip_parens();
                    } else {
                        n = self.tyval()?.1;
                    }
                }
                Ins::Alloca(d, t.size(), n, al)
            }
            "br" => {
                if *self.pk() == T::W("label") {
                    Ins::Br(self.label()?)
                } else {
                    let (_, c) = self.tyval()?;
                    self.exp(b',')?;
                    let a = self.label()?;
                    self.exp(b',')?;
                    let b = self.label()?;
                    Ins::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.tyval()?;
                self.exp(b',')?;
                let def = self.label()?;
                self.exp(b'[')?;
                let mut cs = vec![];
                while !self.acc(b']') {
                    let ct = self.ty()?;
                    let k = match self.pk().clone() {
                        T::N(n) => {
                            self.i += 1;
                            parse_int(n, ct.bits())?
                        }
                        T::W("true") => {
                            self.i += 1;
                            Val::S(1)
                        }
                        T::W("false") => {
                            self.i += 1;
                            Val::S(0)
                        }
                        x => return Err(format!("case {:?}", x)),
                    };
                    self.exp(b',')?;
                    cs.push((k, self.label()?));
                }
                Ins::Switch(t, v, def, cs)
            }
            "ret" => {
                if self.accw("void") {
                    Ins::Ret(None)
                } else {
                    Ins::Ret(Some(self.tyval()?))
                }
            }
            "unreachable" => Ins::Unreachable,
            "phi" => {
                let t = self.ty()?;
                let mut inc = vec![];
                loop {
                    self.exp(b'[')?;
                    let v = self.val(&t)?;
                    self.exp(b',')?;
                    let l = match self.pk().clone() {
                        T::L(n) => *self.labels.get(n).ok_or(format!("label {}", n))?,
                        _ => return Err("phi label".into()),
                    };
                    self.i += 1;
                    self.exp(b']')?;
                    inc.push((l, v));
                    if *self.pk() == T::P(b',') && self.t.get(self.i + 1) == Some(&T::P(b'[')) {
                        self.i += 1;
                    } else {
                        break;
                    }
                }
                blk.phis.push((d, inc));
                return Ok(None);
            }
            "call" | "invoke" | "tail" | "musttail" | "notail" => {
                if op == "tail" || op == "musttail" || op == "notail" {
                    self.accw("call");
                    self.flags();
                }
                self.skip_attrs();
                let rty = self.ty()?;
                let mut callee = match self.pk().clone() {
                    T::G(n) => {
                        self.i += 1;
                        match self.m.resolve_fn(n) {
                            Some(f) => Callee::Fn(f),
                            None => Callee::Name(Rc::from(n)),
                        }
                    }
                    T::L(n) => {
                        self.i += 1;
                        let r = self.reg(n);
                        Callee::Ind(Opd::R(r))
                    }
                    T::W("asm") => {
                        while *self.pk() != T::P(b'(') {
                            self.i += 1;
                        }
                        Callee::Asm
                    }
                    x => return Err(format!("callee {:?}", x)),
                };
                if let Callee::Fn(f) = &callee {
                    let d = &self.m.fns[*f as usize];
                    if d.body.is_none() {
                        callee = Callee::Name(d.name.clone());
                    }
                }
                self.exp(b'(')?;
                let is_dbg = matches!(&callee, Callee::Name(n) if n.starts_with("llvm.dbg.") || n.starts_with("llvm.experimental.noalias"));
                let mut args = vec![];
                if is_dbg {
                    return Ok(Some(Ins::Nop));
                }
                while *self.pk() != T::P(b')') {
                    let t = self.ty()?;
                    let bv = self.skip_attrs_until_value();
                    let v = self.val(&t)?;
                    args.push((t, v, bv));
                    self.acc(b',');
                }
                self.exp(b')')?;
                let mut normal = None;
                if op == "invoke" {
                    while *self.pk() != T::W("to") {
                        if *self.pk() == T::P(0) {
                            return Err("invoke to".into());
                        }
                        self.i += 1;
                    }
                    self.i += 1;
                    normal = Some(self.label()?);
                }
                Ins::Call { dst: if rty == Ty::Void { None } else { dst }, rty, callee, args, normal }
            }
            "extractvalue" => {
                let (_, a) = self.tyval()?;
                let mut ix = vec![];
                while self.acc(b',') {
                    if let T::N(_) = self.pk() {
                        ix.push(self.num()? as usize);
                    } else {
                        break;
                    }
                }
                Ins::ExtractValue(d, a, ix)
            }
            "insertvalue" => {
                let (t, a) = self.tyval()?;
                self.exp(b',')?;
                let (_, v) = self.tyval()?;
                let mut ix = vec![];
                while self.acc(b',') {
                    if let T::N(_) = self.pk() {
                        ix.push(self.num()? as usize);
                    } else {
                        break;
                    }
                }
                Ins::InsertValue(d, t, a, v, ix)
            }
            "extractelement" => {
                let (_, a) = self.tyval()?;
                self.exp(b',')?;
                let (_, i) = self.tyval()?;
                Ins::ExtractElem(d, a, i)
            }
            "insertelement" => {
                let (_, a) = self.tyval()?;
                self.exp(b',')?;
                let (_, v) = self.tyval()?;
                self.exp(b',')?;
                let (_, i) = self.tyval()?;
                Ins::InsertElem(d, a, v, i)
            }
            "shufflevector" => {
                let (t, a) = self.tyval()?;
                self.exp(b',')?;
                let (_, b) = self.tyval()?;
                self.exp(b',')?;
                let mt = self.ty()?;
                let m = match self.konst(&mt)? {
                    V::A(v) => v.iter().map(|x| if let V::C(c) = x { *c as i64 } else { 0 }).collect(),
                    _ => return Err("mask".into()),
                };
                Ins::Shuffle(d, t, a, b, m)
            }
            "atomicrmw" => {
                let o = match self.pk().clone() {
                    T::W(w) => w,
                    _ => return Err("rmw".into()),
                };
                self.i += 1;
                let (_, p) = self.tyval()?;
                self.exp(b',')?;
                let (t, v) = self.tyval()?;
                Ins::AtomicRmw(d, Rc::from(o), t, p, v)
            }
            "cmpxchg" => {
                let (_, p) = self.tyval()?;
                self.exp(b',')?;
                let (t, c) = self.tyval()?;
                self.exp(b',')?;
                let (_, n) = self.tyval()?;
                Ins::CmpXchg(d, t, p, c, n)
            }
            "fence" => Ins::Nop,
            "freeze" => {
                let (_, a) = self.tyval()?;
                Ins::Freeze(d, a)
            }
            _ => return Err(format!("unsupported opcode {}", op)),
        };
        Ok(Some(ins))
    }
}
