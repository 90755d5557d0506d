//! Parser for the textual LLVM IR emitted by rustc (lazy: functions are parsed on first call).

use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Vec(u64, Rc<Ty>),
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

impl Ty {
    pub fn bits(&self) -> u64 {
        match self {
            Ty::Int(w) => *w as u64,
            Ty::Ptr => 64,
            Ty::Float(w) => *w as u64,
            Ty::Vec(n, t) => n * t.bits(),
            _ => self.size() * 8,
        }
    }
    /// allocation size in bytes (including tail padding to alignment)
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => {
                let s = (*w as u64 + 7) / 8;
                let a = self.align();
                (s + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Vec(n, t) => {
                let s = (n * t.bits() + 7) / 8;
                let a = self.align();
                (s + a - 1) / a * a
            }
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(ts, packed) => {
                let mut off = 0;
                for t in ts.iter() {
                    if !*packed {
                        let a = t.align();
                        off = (off + a - 1) / a * a;
                    }
                    off += t.size();
                }
                if !*packed {
                    let a = self.align();
                    off = (off + a - 1) / a * a;
                }
                off
            }
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Vec(n, t) => (n * t.bits() + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let mut a = 1;
                while a * 8 < *w as u64 && a < 16 {
                    a *= 2;
                }
                a
            }
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Vec(n, t) => {
                let s = (n * t.bits() + 7) / 8;
                s.next_power_of_two()
            }
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(ts, packed) => {
                if *packed {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn field(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Arr(_, t) => (i * t.size(), (**t).clone()),
            Ty::Vec(_, t) => (i * t.bits() / 8, (**t).clone()),
            Ty::Struct(ts, packed) => {
                let mut off = 0;
                for (k, t) in ts.iter().enumerate() {
                    if !*packed {
                        let a = t.align();
                        off = (off + a - 1) / a * a;
                    }
                    if k as u64 == i {
                        return (off, t.clone());
                    }
                    off += t.size();
                }
                panic!("field index")
            }
            _ => panic!("field of {:?}", self),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Local(String),
    Global(String),
    Word(String),
    Num(String),
    Str(Vec<u8>),
    CStr(Vec<u8>),
    P(char),
    Meta(String),
    AttrRef(String),
}

pub fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    let quoted = |i: &mut usize| -> Vec<u8> {
        // at opening quote
        let mut v = vec![];
        *i += 1;
        while b[*i] != b'"' {
            if b[*i] == b'\\' && *i + 2 < b.len() {
                let h = std::str::from_utf8(&b[*i + 1..*i + 3]).unwrap_or("");
                if let Ok(x) = u8::from_str_radix(h, 16) {
                    v.push(x);
                    *i += 3;
                    continue;
                }
                if b[*i + 1] == b'\\' {
                    v.push(b'\\');
                    *i += 2;
                    continue;
                }
            }
            v.push(b[*i]);
            *i += 1;
        }
        *i += 1;
        v
    };
    while i < b.len() {
        let c = b[i];
        if c.is_ascii_whitespace() {
            i += 1;
            continue;
        }
        if c == b';' {
            // comment to end of line
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
            continue;
        }
        if c == b'%' || c == b'@' {
            i += 1;
            let name = if i < b.len() && b[i] == b'"' {
                String::from_utf8_lossy(&quoted(&mut i)).to_string()
            } else {
                let st = i;
                while i < b.len() && idc(b[i]) {
                    i += 1;
                }
                s[st..i].to_string()
            };
            out.push(if c == b'%' { Tok::Local(name) } else { Tok::Global(name) });
            continue;
        }
        if c == b'#' {
            let st = i + 1;
            i += 1;
            while i < b.len() && idc(b[i]) {
                i += 1;
            }
            out.push(Tok::AttrRef(s[st..i].to_string()));
            continue;
        }
        if c == b'!' {
            i += 1;
            let st = i;
            while i < b.len() && idc(b[i]) {
                i += 1;
            }
            out.push(Tok::Meta(s[st..i].to_string()));
            continue;
        }
        if c == b'"' {
            let v = quoted(&mut i);
            out.push(Tok::Str(v));
            continue;
        }
        if c == b'c' && i + 1 < b.len() && b[i + 1] == b'"' {
            i += 1;
            let v = quoted(&mut i);
            out.push(Tok::CStr(v));
            continue;
        }
        if c.is_ascii_digit()
            || (c == b'-' && i + 1 < b.len() && b[i + 1].is_ascii_digit())
        {
            let st = i;
            i += 1;
            while i < b.len() && (idc(b[i]) || b[i] == b'+') {
                i += 1;
            }
            out.push(Tok::Num(s[st..i].to_string()));
            continue;
        }
        if c.is_ascii_alphabetic() || c == b'_' || c == b'$' || c == b'.' {
            let st = i;
            while i < b.len() && idc(b[i]) {
                i += 1;
            }
            out.push(Tok::Word(s[st..i].to_string()));
            continue;
        }
        out.push(Tok::P(c as char));
        i += 1;
    }
    out
}

#[derive(Clone, Debug)]
pub enum K {
    Int(u128, u32),
    Null,
    Undef,
    Zero,
    Global(String),
    Agg(Vec<(Ty, K)>),
    Bytes(Vec<u8>),
    Splat(Box<(Ty, K)>),
    /// op, operands, result type, extra (gep element type)
    Expr(String, Vec<(Ty, K)>, Ty),
    Float(String),
    Reg(u32),
}

#[derive(Clone, Debug)]
pub enum Callee {
    Name(String),
    Op(K),
    Asm(String),
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(String, Ty, K, K),
    ICmp(String, Ty, K, K),
    Cast(String, Ty, K, Ty),
    Load(Ty, K, u64),
    Store(Ty, K, K, u64),
    Gep(Ty, K, Ty, Vec<(Ty, K)>),
    Alloca(u64, u64),
    Select(Ty, K, Ty, K, K),
    Call(Ty, Callee, Vec<(Ty, K)>, Option<u32>),
    ExtractValue(Ty, K, Vec<u64>),
    InsertValue(Ty, K, Ty, K, Vec<u64>),
    ExtractElement(Ty, K, K),
    InsertElement(Ty, K, K, K),
    Shuffle(Ty, K, K, Ty, K),
    Freeze(Ty, K),
    AtomicRmw(String, K, Ty, K),
    CmpXchg(K, Ty, K, K),
    Nop,
    Br(u32),
    CondBr(K, u32, u32),
    Switch(Ty, K, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, K)>),
    Unreachable,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub struct Inst {
    pub dst: Option<u32>,
    pub i: I,
    /// debug location metadata id (0: none)
    pub dbg: u32,
}

pub struct Block {
    pub name: String,
    pub phis: Vec<(u32, Ty, Vec<(u32, K)>)>,
    pub insts: Vec<Inst>,
}

pub struct Func {
    pub name: String,
    pub params: Vec<(u32, Ty, Option<Ty>)>,
    pub ret: Ty,
    pub blocks: Vec<Block>,
    pub nregs: usize,
    /// immediate post-dominator per block; usize::MAX is the function exit, blocks that only
    /// reach `unreachable` are ignored
    pub ipdom: Vec<u32>,
}

pub struct Module {
    pub lines: Vec<String>,
    pub defs: HashMap<String, (usize, usize)>,
    pub decls: HashMap<String, usize>,
    pub globals: HashMap<String, usize>,
    pub global_order: Vec<String>,
    pub attrs: HashMap<String, String>,
    pub named: HashMap<String, Ty>,
    pub aliases: HashMap<String, String>,
    /// line index of each numbered metadata node
    pub meta: HashMap<u32, usize>,
}

pub struct P<'a> {
    pub t: &'a [Tok],
    pub i: usize,
    m: &'a Module,
    regs: Option<&'a mut HashMap<String, u32>>,
}

type R<X> = Result<X, String>;

impl<'a> P<'a> {
    pub fn new(t: &'a [Tok], m: &'a Module, regs: Option<&'a mut HashMap<String, u32>>) -> P<'a> {
        P { t, i: 0, m, regs }
    }
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> R<Tok> {
        let x = self.t.get(self.i).cloned().ok_or("eol".to_string())?;
        self.i += 1;
        Ok(x)
    }
    fn is_p(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn eat_p(&mut self, c: char) -> R<()> {
        if self.is_p(c) {
            self.i += 1;
            Ok(())
        } else {
            Err(format!("expected {} got {:?} at {}", c, self.peek(), self.i))
        }
    }
    fn is_w(&self, s: &str) -> bool {
        matches!(self.peek(), Some(Tok::Word(w)) if w == s)
    }
    fn eat_w(&mut self, s: &str) -> bool {
        if self.is_w(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        let r = self.regs.as_mut().unwrap();
        let k = r.len() as u32;
        *r.entry(n.to_string()).or_insert(k)
    }
    fn skip_balanced(&mut self) {
        // at '('
        let mut d = 0;
        while let Some(t) = self.peek() {
            match t {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }

    pub fn ty(&mut self) -> R<Ty> {
        let t = match self.next()? {
            Tok::Word(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.eat_w("addrspace") {
                        self.skip_balanced();
                    }
                    Ty::Ptr
                }
                "float" => Ty::Float(32),
                "double" => Ty::Float(64),
                "half" | "bfloat" => Ty::Float(16),
                "fp128" => Ty::Float(128),
                "x86_fp80" => Ty::Float(80),
                "label" | "metadata" | "token" | "opaque" => Ty::Other,
                _ => {
                    if let Some(n) = w.strip_prefix('i') {
                        if let Ok(n) = n.parse::<u32>() {
                            return Ok(Ty::Int(n));
                        }
                    }
                    return Err(format!("type? {}", w));
                }
            },
            Tok::P('[') => {
                let n = self.num()? as u64;
                self.next()?; // x
                let t = self.ty()?;
                self.eat_p(']')?;
                Ty::Arr(n, Rc::new(t))
            }
            Tok::P('<') => {
                if self.is_p('{') {
                    self.i += 1;
                    let v = self.ty_list('}')?;
                    self.eat_p('>')?;
                    Ty::Struct(Rc::new(v), true)
                } else {
                    let n = self.num()? as u64;
                    self.next()?;
                    let t = self.ty()?;
                    self.eat_p('>')?;
                    Ty::Vec(n, Rc::new(t))
                }
            }
            Tok::P('{') => {
                let v = self.ty_list('}')?;
                Ty::Struct(Rc::new(v), false)
            }
            Tok::Local(n) => {
                self.m.named.get(&n).cloned().ok_or(format!("named type {}", n))?
            }
            x => return Err(format!("type? {:?}", x)),
        };
        Ok(t)
    }
    fn ty_list(&mut self, end: char) -> R<Vec<Ty>> {
        let mut v = vec![];
        if self.is_p(end) {
            self.i += 1;
            return Ok(v);
        }
        loop {
            v.push(self.ty()?);
            if self.is_p(',') {
                self.i += 1;
                continue;
            }
            self.eat_p(end)?;
            return Ok(v);
        }
    }
    fn num(&mut self) -> R<u128> {
        match self.next()? {
            Tok::Num(s) => parse_int(&s).ok_or(format!("num {}", s)),
            x => Err(format!("num? {:?}", x)),
        }
    }
    fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::Word(w)) => {
                    if is_value_word(w) {
                        return;
                    }
                    let al = w == "align";
                    self.i += 1;
                    if self.is_p('(') {
                        self.skip_balanced();
                    } else if al {
                        if let Some(Tok::Num(_)) = self.peek() {
                            self.i += 1;
                        }
                    }
                }
                Some(Tok::Str(_)) => {
                    self.i += 1;
                    if self.is_p('=') {
                        self.i += 2;
                    }
                }
                _ => return,
            }
        }
    }

    pub fn value(&mut self, ty: &Ty) -> R<K> {
        match self.next()? {
            Tok::Local(n) => Ok(K::Reg(self.reg(&n))),
            Tok::Global(n) => Ok(K::Global(n)),
            Tok::Num(s) => match ty {
                Ty::Int(w) => {
                    let v = parse_int(&s).ok_or(format!("int {}", s))?;
                    Ok(K::Int(v, *w))
                }
                _ => Ok(K::Float(s)),
            },
            Tok::CStr(b) => Ok(K::Bytes(b)),
            Tok::P('[') => Ok(K::Agg(self.agg(']')?)),
            Tok::P('{') => Ok(K::Agg(self.agg('}')?)),
            Tok::P('<') => {
                if self.is_p('{') {
                    self.i += 1;
                    let v = self.agg('}')?;
                    self.eat_p('>')?;
                    Ok(K::Agg(v))
                } else {
                    Ok(K::Agg(self.agg('>')?))
                }
            }
            Tok::Word(w) => match w.as_str() {
                "true" => Ok(K::Int(1, 1)),
                "false" => Ok(K::Int(0, 1)),
                "null" => Ok(K::Null),
                "undef" | "poison" => Ok(K::Undef),
                "zeroinitializer" => Ok(K::Zero),
                "none" => Ok(K::Null),
                "splat" => {
                    self.eat_p('(')?;
                    let t = self.ty()?;
                    let v = self.value(&t)?;
                    self.eat_p(')')?;
                    Ok(K::Splat(Box::new((t, v))))
                }
                "getelementptr" => {
                    while !self.is_p('(') {
                        self.i += 1;
                        if let Some(Tok::Word(w)) = self.t.get(self.i - 1) {
                            if w == "inrange" && self.is_p('(') {
                                self.skip_balanced();
                            }
                        }
                    }
                    self.eat_p('(')?;
                    let ety = self.ty()?;
                    let mut ops = vec![(ety, K::Null)];
                    while self.is_p(',') {
                        self.i += 1;
                        let t = self.ty()?;
                        self.skip_attrs();
                        let v = self.value(&t)?;
                        ops.push((t, v));
                    }
                    self.eat_p(')')?;
                    Ok(K::Expr("getelementptr".into(), ops, Ty::Ptr))
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "addrspacecast" | "ptrtoaddr" => {
                    while !self.is_p('(') {
                        self.i += 1;
                    }
                    self.eat_p('(')?;
                    let t = self.ty()?;
                    let v = self.value(&t)?;
                    if !self.eat_w("to") {
                        return Err("to".into());
                    }
                    let t2 = self.ty()?;
                    self.eat_p(')')?;
                    Ok(K::Expr(w, vec![(t, v)], t2))
                }
                "add" | "sub" | "xor" | "mul" | "and" | "or" | "shl" | "lshr" => {
                    while !self.is_p('(') {
                        self.i += 1;
                    }
                    self.eat_p('(')?;
                    let t = self.ty()?;
                    let v = self.value(&t)?;
                    self.eat_p(',')?;
                    let t2 = self.ty()?;
                    let v2 = self.value(&t2)?;
                    self.eat_p(')')?;
                    Ok(K::Expr(w, vec![(t.clone(), v), (t2, v2)], t))
                }
                "blockaddress" | "dso_local_equivalent" | "no_cfi" => Ok(K::Undef),
                _ => Err(format!("value? {}", w)),
            },
            Tok::Meta(_) => Ok(K::Undef),
            x => Err(format!("value? {:?}", x)),
        }
    }
    fn agg(&mut self, end: char) -> R<Vec<(Ty, K)>> {
        let mut v = vec![];
        if self.is_p(end) {
            self.i += 1;
            return Ok(v);
        }
        loop {
            let t = self.ty()?;
            let x = self.value(&t)?;
            v.push((t, x));
            if self.is_p(',') {
                self.i += 1;
                continue;
            }
            self.eat_p(end)?;
            return Ok(v);
        }
    }
    fn tv(&mut self) -> R<(Ty, K)> {
        let t = self.ty()?;
        self.skip_attrs();
        let v = self.value(&t)?;
        Ok((t, v))
    }
    fn label(&mut self) -> R<String> {
        if !self.eat_w("label") {
            return Err(format!("label? {:?}", self.peek()));
        }
        match self.next()? {
            Tok::Local(n) => Ok(n),
            x => Err(format!("label {:?}", x)),
        }
    }
    fn align_suffix(&mut self) -> u64 {
        // scan for ", align N"
        let mut j = self.i;
        while j + 1 < self.t.len() {
            if let (Tok::Word(w), Tok::Num(n)) = (&self.t[j], &self.t[j + 1]) {
                if w == "align" {
                    return n.parse().unwrap_or(1);
                }
            }
            j += 1;
        }
        1
    }
}

fn is_value_word(w: &str) -> bool {
    matches!(
        w,
        "true"
            | "false"
            | "null"
            | "undef"
            | "poison"
            | "zeroinitializer"
            | "none"
            | "splat"
            | "getelementptr"
            | "inttoptr"
            | "ptrtoint"
            | "bitcast"
            | "trunc"
            | "addrspacecast"
            | "ptrtoaddr"
            | "add"
            | "sub"
            | "xor"
            | "mul"
            | "asm"
            | "blockaddress"
    )
}

fn parse_int(s: &str) -> Option<u128> {
    if let Some(r) = s.strip_prefix('-') {
        return r.parse::<u128>().ok().map(|v| v.wrapping_neg());
    }
    s.parse::<u128>().ok()
}

impl Module {
    pub fn load(path: &str) -> R<Module> {
        let text = std::fs::read(path).map_err(|e| format!("{}: {}", path, e))?;
        let text = String::from_utf8_lossy(&text).to_string();
        let lines: Vec<String> = text.lines().map(|s| s.to_string()).collect();
        let mut m = Module {
            lines,
            defs: HashMap::new(),
            decls: HashMap::new(),
            globals: HashMap::new(),
            global_order: vec![],
            attrs: HashMap::new(),
            named: HashMap::new(),
            aliases: HashMap::new(),
            meta: HashMap::new(),
        };
        let mut i = 0;
        let mut named_lines = vec![];
        while i < m.lines.len() {
            let l = &m.lines[i];
            if l.starts_with("define ") {
                let name = fn_name(l).ok_or(format!("define name: {}", l))?;
                let st = i;
                while m.lines[i] != "}" {
                    i += 1;
                }
                m.defs.insert(name, (st, i));
            } else if l.starts_with("declare ") {
                if let Some(n) = fn_name(l) {
                    m.decls.insert(n, i);
                }
            } else if l.starts_with('@') {
                let n = global_name(l);
                if l.contains(" alias ") && !l.contains(" constant ") && !l.contains(" global ") {
                    let toks = lex(l);
                    let tgt = toks
                        .iter()
                        .skip(1)
                        .find_map(|t| if let Tok::Global(g) = t { Some(g.clone()) } else { None });
                    if let Some(t) = tgt {
                        m.aliases.insert(n, t);
                    }
                } else {
                    m.globals.insert(n.clone(), i);
                    m.global_order.push(n);
                }
            } else if l.starts_with("attributes #") {
                let r = &l["attributes #".len()..];
                let sp = r.find(' ').unwrap_or(r.len());
                m.attrs.insert(r[..sp].to_string(), r[sp..].to_string());
            } else if l.starts_with('!') {
                let r = &l[1..];
                if let Some(e) = r.find(' ') {
                    if let Ok(n) = r[..e].parse::<u32>() {
                        m.meta.insert(n, i);
                    }
                }
            } else if l.starts_with('%') && l.contains(" = type ") {
                named_lines.push(i);
            }
            i += 1;
        }
        for i in named_lines {
            let toks = lex(&m.lines[i].clone());
            if let Tok::Local(n) = &toks[0] {
                let mut p = P::new(&toks[3..], &m, None);
                if let Ok(t) = p.ty() {
                    m.named.insert(n.clone(), t);
                }
            }
        }
        Ok(m)
    }

    fn meta_field(&self, id: u32, key: &str) -> Option<String> {
        let l = &self.lines[*self.meta.get(&id)?];
        let pat = format!("{}: ", key);
        let mut from = 0;
        loop {
            let i = l[from..].find(&pat)? + from;
            let ok = i == 0 || matches!(l.as_bytes()[i - 1], b' ' | b'(');
            if ok {
                let r = &l[i + pat.len()..];
                if let Some(q) = r.strip_prefix('"') {
                    return Some(q[..q.find('"')?].to_string());
                }
                let e = r.find(|c| c == ',' || c == ')').unwrap_or(r.len());
                return Some(r[..e].to_string());
            }
            from = i + pat.len();
        }
    }
    fn meta_ref(&self, id: u32, key: &str) -> Option<u32> {
        self.meta_field(id, key)?.strip_prefix('!')?.parse().ok()
    }
    /// inlined call chain of a debug location, innermost first: (function, file, line)
    pub fn dbg_chain(&self, id: u32) -> Vec<(String, String, u32)> {
        let mut out = vec![];
        let mut cur = Some(id);
        while let Some(c) = cur {
            if c == 0 || out.len() > 40 {
                break;
            }
            let line = self.meta_field(c, "line").and_then(|x| x.parse().ok()).unwrap_or(0);
            let mut sc = self.meta_ref(c, "scope");
            let mut guard = 0;
            let mut name = String::new();
            let mut file = String::new();
            while let Some(s) = sc {
                guard += 1;
                if guard > 30 {
                    break;
                }
                let li = match self.meta.get(&s) {
                    Some(l) => *l,
                    None => break,
                };
                if self.lines[li].contains("DISubprogram(") {
                    let mut parts = vec![self.meta_field(s, "name").unwrap_or_default()];
                    file = self
                        .meta_ref(s, "file")
                        .and_then(|f| self.meta_field(f, "filename"))
                        .unwrap_or_default();
                    let mut ns = self.meta_ref(s, "scope");
                    let mut g2 = 0;
                    while let Some(n) = ns {
                        g2 += 1;
                        if g2 > 12 {
                            break;
                        }
                        if let Some(nm) = self.meta_field(n, "name") {
                            parts.push(nm);
                        }
                        ns = self.meta_ref(n, "scope");
                    }
                    parts.reverse();
                    name = parts.join("::");
                    break;
                }
                sc = self.meta_ref(s, "scope");
            }
            out.push((name, file, line));
            cur = self.meta_ref(c, "inlinedAt");
        }
        out
    }

    pub fn fn_attr_text(&self, name: &str) -> String {
        let li = match self.defs.get(name).map(|x| x.0).or(self.decls.get(name).copied()) {
            Some(l) => l,
            None => return String::new(),
        };
        let l = &self.lines[li];
        // inline keywords plus attribute groups
        let mut s = String::new();
        for t in lex(l) {
            match t {
                Tok::AttrRef(g) => {
                    if let Some(a) = self.attrs.get(&g) {
                        s.push_str(a);
                        s.push(' ');
                    }
                }
                Tok::Word(w) if w == "noreturn" => s.push_str(" noreturn "),
                _ => {}
            }
        }
        s
    }

    /// (type, initializer, is_constant, align)
    pub fn global_init(&self, name: &str) -> R<(Ty, Option<K>, bool, u64)> {
        let li = *self.globals.get(name).ok_or(format!("global {}", name))?;
        let toks = lex(&self.lines[li]);
        // find "global" or "constant"
        let mut i = 0;
        let mut konst = false;
        let mut ext = false;
        while i < toks.len() {
            if let Tok::Word(w) = &toks[i] {
                if w == "external" || w == "extern_weak" {
                    ext = true;
                }
                if w == "global" {
                    break;
                }
                if w == "constant" {
                    konst = true;
                    break;
                }
            }
            i += 1;
        }
        let mut p = P::new(&toks[i + 1..], self, None);
        let ty = p.ty()?;
        let init = if ext { None } else { Some(p.value(&ty)?) };
        let al = p.align_suffix();
        Ok((ty, init, konst, al.max(1)))
    }

    pub fn parse_func(&self, name: &str) -> R<Func> {
        let mut name = name;
        while let Some(a) = self.aliases.get(name) {
            name = a;
        }
        let (st, en) = *self.defs.get(name).ok_or(format!("no body: {}", name))?;
        let mut regs: HashMap<String, u32> = HashMap::new();
        // header
        let htoks = lex(&self.lines[st]);
        let gi = htoks
            .iter()
            .position(|t| matches!(t, Tok::Global(_)))
            .ok_or("header".to_string())?;
        // return type: last parseable type before the name
        let mut ret = Ty::Void;
        {
            let mut j = 1;
            while j < gi {
                let mut p = P::new(&htoks[j..gi], self, None);
                match &htoks[j] {
                    Tok::Word(w)
                        if w == "void"
                            || w == "ptr"
                            || w == "float"
                            || w == "double"
                            || (w.starts_with('i')
                                && w.len() > 1
                                && w[1..].chars().all(|c| c.is_ascii_digit())) =>
                    {
                        ret = p.ty()?;
                        break;
                    }
                    Tok::P('{') | Tok::P('[') | Tok::P('<') => {
                        ret = p.ty()?;
                        break;
                    }
                    Tok::P('(') => {
                        // attribute argument
                        let mut p2 = P::new(&htoks[j..], self, None);
                        p2.skip_balanced();
                        j += p2.i;
                        continue;
                    }
                    _ => {}
                }
                j += 1;
            }
        }
        let mut params = vec![];
        let mut nextnum = 0u32;
        {
            let mut p = P::new(&htoks, self, Some(&mut regs));
            p.i = gi + 1;
            p.eat_p('(')?;
            while !p.is_p(')') {
                if p.is_p('.') {
                    p.i += 1;
                    continue;
                }
                if let Some(Tok::Word(w)) = p.peek() {
                    if w.starts_with("...") {
                        p.i += 1;
                        continue;
                    }
                }
                let t = p.ty()?;
                let mut byval = None;
                // detect byval/sret attr types
                let save = p.i;
                p.skip_attrs();
                let end = p.i;
                let mut k = save;
                while k < end {
                    if let Tok::Word(w) = &p.t[k] {
                        if w == "byval" {
                            let mut q = P::new(&p.t[k + 2..], self, None);
                            byval = Some(q.ty()?);
                        }
                    }
                    k += 1;
                }
                let r = match p.peek() {
                    Some(Tok::Local(n)) => {
                        let n = n.clone();
                        p.i += 1;
                        if n.parse::<u32>().is_ok() {
                            nextnum = n.parse::<u32>().unwrap() + 1;
                        }
                        p.reg(&n)
                    }
                    _ => {
                        let n = nextnum.to_string();
                        nextnum += 1;
                        p.reg(&n)
                    }
                };
                params.push((r, t, byval));
                if p.is_p(',') {
                    p.i += 1;
                }
            }
        }
        // logical lines
        let mut blocks: Vec<(String, Vec<Vec<Tok>>)> = vec![];
        let mut i = st + 1;
        while i < en {
            let l = &self.lines[i];
            if l.trim().is_empty() || l.trim_start().starts_with(';') {
                i += 1;
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let t = lex(l);
                let n = match &t[0] {
                    Tok::Word(w) => w.clone(),
                    Tok::Num(w) => w.clone(),
                    Tok::Str(s) => String::from_utf8_lossy(s).to_string(),
                    x => return Err(format!("label {:?}", x)),
                };
                blocks.push((n, vec![]));
                i += 1;
                continue;
            }
            if blocks.is_empty() {
                blocks.push((nextnum.to_string(), vec![]));
            }
            if l.trim_start().starts_with("#dbg_") {
                i += 1;
                continue;
            }
            let mut t = lex(l);
            // continuation lines are indented deeper than two spaces
            let is_switch = matches!(t.first(), Some(Tok::Word(w)) if w == "switch");
            let mut j = i + 1;
            while j < en {
                let n = &self.lines[j];
                if is_switch {
                    if t.last() == Some(&Tok::P(']')) || n.trim().is_empty() {
                        break;
                    }
                    // stop once the case list has been closed
                    let open = t.iter().filter(|x| **x == Tok::P('[')).count();
                    let close = t.iter().filter(|x| **x == Tok::P(']')).count();
                    if open > 0 && open == close {
                        break;
                    }
                    t.extend(lex(n));
                    j += 1;
                    continue;
                }
                if n.starts_with("    ") {
                    t.extend(lex(n));
                    j += 1;
                } else {
                    break;
                }
            }
            blocks.last_mut().unwrap().1.push(t);
            i = j;
        }
        let bidx: HashMap<String, u32> =
            blocks.iter().enumerate().map(|(i, b)| (b.0.clone(), i as u32)).collect();
        let mut out = vec![];
        for (bn, ls) in &blocks {
            let mut b = Block { name: bn.clone(), phis: vec![], insts: vec![] };
            for t in ls {
                self.parse_inst(t, &mut regs, &bidx, &mut b)
                    .map_err(|e| format!("{}: {} in {:?}", name, e, &t[..t.len().min(40)]))?;
            }
            out.push(b);
        }
        let ipdom = compute_ipdom(self, &out);
        Ok(Func { name: name.to_string(), params, ret, blocks: out, nregs: regs.len(), ipdom })
    }

    fn parse_inst(
        &self,
        t: &[Tok],
        regs: &mut HashMap<String, u32>,
        bidx: &HashMap<String, u32>,
        b: &mut Block,
    ) -> R<()> {
        let mut p = P::new(t, self, Some(regs));
        let lab = |n: String| bidx.get(&n).copied().ok_or(format!("no block {}", n));
        let mut dst = None;
        if let (Some(Tok::Local(n)), Some(Tok::P('='))) = (t.first(), t.get(1)) {
            dst = Some(p.reg(n));
            p.i = 2;
        }
        let mut op = match p.next()? {
            Tok::Word(w) => w,
            x => return Err(format!("opcode {:?}", x)),
        };
        if matches!(op.as_str(), "tail" | "musttail" | "notail") {
            op = match p.next()? {
                Tok::Word(w) => w,
                x => return Err(format!("opcode {:?}", x)),
            };
        }
        let i = match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor"
            | "shl" | "lshr" | "ashr" => {
                while matches!(p.peek(), Some(Tok::Word(w)) if matches!(w.as_str(), "nuw"|"nsw"|"exact"|"disjoint"))
                {
                    p.i += 1;
                }
                let ty = p.ty()?;
                let a = p.value(&ty)?;
                p.eat_p(',')?;
                let c = p.value(&ty)?;
                I::Bin(op, ty, a, c)
            }
            "icmp" => {
                p.eat_w("samesign");
                let pred = match p.next()? {
                    Tok::Word(w) => w,
                    _ => return Err("pred".into()),
                };
                let ty = p.ty()?;
                let a = p.value(&ty)?;
                p.eat_p(',')?;
                let c = p.value(&ty)?;
                I::ICmp(pred, ty, a, c)
            }
            "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "addrspacecast"
            | "ptrtoaddr" => {
                while matches!(p.peek(), Some(Tok::Word(w)) if matches!(w.as_str(), "nuw"|"nsw"|"nneg"))
                {
                    p.i += 1;
                }
                let ty = p.ty()?;
                let a = p.value(&ty)?;
                if !p.eat_w("to") {
                    return Err("to".into());
                }
                let t2 = p.ty()?;
                I::Cast(op, ty, a, t2)
            }
            "load" => {
                p.eat_w("atomic");
                p.eat_w("volatile");
                let ty = p.ty()?;
                p.eat_p(',')?;
                let (_, a) = p.tv()?;
                let al = p.align_suffix();
                I::Load(ty, a, al)
            }
            "store" => {
                p.eat_w("atomic");
                p.eat_w("volatile");
                let (ty, v) = p.tv()?;
                p.eat_p(',')?;
                let (_, a) = p.tv()?;
                let al = p.align_suffix();
                I::Store(ty, v, a, al)
            }
            "getelementptr" => {
                while matches!(p.peek(), Some(Tok::Word(w)) if matches!(w.as_str(), "inbounds"|"nuw"|"nusw"))
                {
                    p.i += 1;
                }
                let ety = p.ty()?;
                p.eat_p(',')?;
                let (bty, base) = p.tv()?;
                let mut idx = vec![];
                while p.is_p(',') {
                    if let Some(Tok::Meta(_)) = p.t.get(p.i + 1) {
                        break;
                    }
                    p.i += 1;
                    idx.push(p.tv()?);
                }
                I::Gep(bty, base, ety, idx)
            }
            "alloca" => {
                p.eat_w("inalloca");
                let ty = p.ty()?;
                let al = p.align_suffix();
                I::Alloca(ty.size(), al)
            }
            "select" => {
                while matches!(p.peek(), Some(Tok::Word(w)) if matches!(w.as_str(), "fast"|"nnan"|"ninf"|"nsz"|"arcp"|"contract"|"afn"|"reassoc"))
                {
                    p.i += 1;
                }
                let (cty, c) = p.tv()?;
                p.eat_p(',')?;
                let (ty, x) = p.tv()?;
                p.eat_p(',')?;
                let (_, y) = p.tv()?;
                I::Select(cty, c, ty, x, y)
            }
            "freeze" => {
                let (ty, v) = p.tv()?;
                I::Freeze(ty, v)
            }
            "extractvalue" => {
                let (ty, v) = p.tv()?;
                let mut ix = vec![];
                while p.is_p(',') {
                    p.i += 1;
                    if let Some(Tok::Num(_)) = p.peek() {
                        ix.push(p.num()? as u64);
                    } else {
                        break;
                    }
                }
                I::ExtractValue(ty, v, ix)
            }
            "insertvalue" => {
                let (ty, v) = p.tv()?;
                p.eat_p(',')?;
                let (t2, v2) = p.tv()?;
                let mut ix = vec![];
                while p.is_p(',') {
                    p.i += 1;
                    if let Some(Tok::Num(_)) = p.peek() {
                        ix.push(p.num()? as u64);
                    } else {
                        break;
                    }
                }
                I::InsertValue(ty, v, t2, v2, ix)
            }
            "extractelement" => {
                let (ty, v) = p.tv()?;
                p.eat_p(',')?;
                let (_, x) = p.tv()?;
                I::ExtractElement(ty, v, x)
            }
            "insertelement" => {
                let (ty, v) = p.tv()?;
                p.eat_p(',')?;
                let (_, e) = p.tv()?;
                p.eat_p(',')?;
                let (_, x) = p.tv()?;
                I::InsertElement(ty, v, e, x)
            }
            "shufflevector" => {
                let (ty, v) = p.tv()?;
                p.eat_p(',')?;
                let (_, v2) = p.tv()?;
                p.eat_p(',')?;
                let (mt, mk) = p.tv()?;
                I::Shuffle(ty, v, v2, mt, mk)
            }
            "phi" => {
                let ty = p.ty()?;
                let mut inc = vec![];
                loop {
                    p.eat_p('[')?;
                    let v = p.value(&ty)?;
                    p.eat_p(',')?;
                    let l = match p.next()? {
                        Tok::Local(n) => n,
                        _ => return Err("phi".into()),
                    };
                    p.eat_p(']')?;
                    inc.push((lab(l)?, v));
                    if p.is_p(',') {
                        if let Some(Tok::P('[')) = p.t.get(p.i + 1) {
                            p.i += 1;
                            continue;
                        }
                    }
                    break;
                }
                b.phis.push((dst.unwrap(), ty, inc));
                return Ok(());
            }
            "call" | "invoke" => {
                // calling convention, return attributes
                loop {
                    match p.peek() {
                        Some(Tok::Word(w)) => {
                            let w = w.clone();
                            let tyw = w == "void"
                                || w == "ptr"
                                || w == "float"
                                || w == "double"
                                || (w.starts_with('i')
                                    && w.len() > 1
                                    && w[1..].chars().all(|c| c.is_ascii_digit()));
                            if tyw {
                                break;
                            }
                            p.i += 1;
                            if p.is_p('(') {
                                p.skip_balanced();
                            } else if w == "align" {
                                if let Some(Tok::Num(_)) = p.peek() {
                                    p.i += 1;
                                }
                            }
                        }
                        Some(Tok::Str(_)) => {
                            p.i += 1;
                            if p.is_p('=') {
                                p.i += 2;
                            }
                        }
                        _ => break,
                    }
                }
                let rty = p.ty()?;
                // optional function type
                if p.is_p('(') {
                    p.skip_balanced();
                }
                let callee = if p.eat_w("asm") {
                    let mut txt = String::new();
                    while !p.is_p('(') {
                        if let Some(Tok::Str(s)) = p.peek() {
                            txt.push_str(&String::from_utf8_lossy(s));
                            txt.push('|');
                        }
                        p.i += 1;
                    }
                    Callee::Asm(txt)
                } else {
                    match p.value(&Ty::Ptr)? {
                        K::Global(n) => Callee::Name(n),
                        k => Callee::Op(k),
                    }
                };
                p.eat_p('(')?;
                let mut args = vec![];
                while !p.is_p(')') {
                    if p.is_w("metadata") {
                        // metadata operand: skip to , or )
                        let mut d = 0;
                        loop {
                            match p.peek() {
                                Some(Tok::P(',')) if d == 0 => break,
                                Some(Tok::P(')')) if d == 0 => break,
                                Some(Tok::P('(')) | Some(Tok::P('{')) => d += 1,
                                Some(Tok::P(')')) | Some(Tok::P('}')) => d -= 1,
                                None => break,
                                _ => {}
                            }
                            p.i += 1;
                        }
                        args.push((Ty::Other, K::Undef));
                    } else {
                        args.push(p.tv()?);
                    }
                    if p.is_p(',') {
                        p.i += 1;
                    }
                }
                p.eat_p(')')?;
                let mut normal = None;
                if op == "invoke" {
                    while !p.is_w("to") {
                        p.i += 1;
                        if p.i >= p.t.len() {
                            return Err("invoke".into());
                        }
                    }
                    p.i += 1;
                    normal = Some(lab(p.label()?)?);
                }
                I::Call(rty, callee, args, normal)
            }
            "br" => {
                if p.is_w("label") {
                    I::Br(lab(p.label()?)?)
                } else {
                    let (_, c) = p.tv()?;
                    p.eat_p(',')?;
                    let x = lab(p.label()?)?;
                    p.eat_p(',')?;
                    let y = lab(p.label()?)?;
                    I::CondBr(c, x, y)
                }
            }
            "switch" => {
                let (ty, v) = p.tv()?;
                p.eat_p(',')?;
                let d = lab(p.label()?)?;
                p.eat_p('[')?;
                let mut cs = vec![];
                while !p.is_p(']') {
                    let t = p.ty()?;
                    let k = match p.value(&t)? {
                        K::Int(v, w) => v & crate::term::mask(w),
                        x => return Err(format!("case {:?}", x)),
                    };
                    p.eat_p(',')?;
                    cs.push((k, lab(p.label()?)?));
                }
                I::Switch(ty, v, d, cs)
            }
            "ret" => {
                if p.is_w("void") {
                    I::Ret(None)
                } else {
                    I::Ret(Some(p.tv()?))
                }
            }
            "unreachable" => I::Unreachable,
            "fence" => I::Nop,
            "atomicrmw" => {
                p.eat_w("volatile");
                let k = match p.next()? {
                    Tok::Word(w) => w,
                    _ => return Err("rmw".into()),
                };
                let (_, a) = p.tv()?;
                p.eat_p(',')?;
                let (ty, v) = p.tv()?;
                I::AtomicRmw(k, a, ty, v)
            }
            "cmpxchg" => {
                p.eat_w("weak");
                p.eat_w("volatile");
                let (_, a) = p.tv()?;
                p.eat_p(',')?;
                let (ty, c) = p.tv()?;
                p.eat_p(',')?;
                let (_, n) = p.tv()?;
                I::CmpXchg(a, ty, c, n)
            }
            _ => I::Unsupported(op.clone()),
        };
        let mut dbg = 0;
        for k in 0..t.len().saturating_sub(1) {
            if let (Tok::Meta(a), Tok::Meta(n)) = (&t[k], &t[k + 1]) {
                if a == "dbg" {
                    dbg = n.parse().unwrap_or(0);
                }
            }
        }
        b.insts.push(Inst { dst, i, dbg });
        Ok(())
    }
}

fn fn_name(l: &str) -> Option<String> {
    let i = l.find('@')?;
    let r = &l[i..];
    lex_first_global(r)
}
fn lex_first_global(r: &str) -> Option<String> {
    if r.starts_with("@\"") {
        let e = r[2..].find('"')?;
        return Some(r[2..2 + e].to_string());
    }
    let e = r[1..]
        .find(|c: char| !(c.is_ascii_alphanumeric() || c == '_' || c == '.' || c == '$' || c == '-'))
        .unwrap_or(r.len() - 1);
    Some(r[1..1 + e].to_string())
}
fn global_name(l: &str) -> String {
    lex_first_global(l).unwrap_or_default()
}

pub const EXIT: u32 = u32::MAX;

fn succs(b: &Block) -> Vec<u32> {
    match b.insts.last().map(|x| &x.i) {
        Some(I::Br(x)) => vec![*x],
        Some(I::CondBr(_, x, y)) => vec![*x, *y],
        Some(I::Switch(_, _, d, cs)) => {
            let mut v = vec![*d];
            v.extend(cs.iter().map(|c| c.1));
            v
        }
        Some(I::Call(_, _, _, Some(n))) => vec![*n],
        Some(I::Ret(_)) => vec![EXIT],
        _ => vec![],
    }
}

fn compute_ipdom(_m: &Module, bs: &[Block]) -> Vec<u32> {
    let n = bs.len();
    // node n is the exit
    let ex = n;
    let mut sc: Vec<Vec<usize>> = vec![vec![]; n + 1];
    let mut pr: Vec<Vec<usize>> = vec![vec![]; n + 1];
    for i in 0..n {
        for s in succs(&bs[i]) {
            let s = if s == EXIT { ex } else { s as usize };
            sc[i].push(s);
            pr[s].push(i);
        }
    }
    // reverse post order on the reverse graph from exit
    let mut order = vec![];
    let mut seen = vec![false; n + 1];
    let mut st = vec![(ex, 0usize)];
    seen[ex] = true;
    while let Some((v, k)) = st.pop() {
        if k < pr[v].len() {
            st.push((v, k + 1));
            let u = pr[v][k];
            if !seen[u] {
                seen[u] = true;
                st.push((u, 0));
            }
        } else {
            order.push(v);
        }
    }
    order.reverse();
    let mut num = vec![usize::MAX; n + 1];
    for (i, v) in order.iter().enumerate() {
        num[*v] = i;
    }
    let mut id = vec![usize::MAX; n + 1];
    id[ex] = ex;
    let mut ch = true;
    while ch {
        ch = false;
        for &v in &order {
            if v == ex {
                continue;
            }
            let mut d = usize::MAX;
            for &s in &sc[v] {
                // successors that cannot reach the exit (panics) are ignored
                if num[s] == usize::MAX || id[s] == usize::MAX {
                    continue;
                }
                if d == usize::MAX {
                    d = s;
                } else {
                    let (mut a, mut b) = (d, s);
                    while a != b {
                        while num[a] > num[b] {
                            a = id[a];
                        }
                        while num[b] > num[a] {
                            b = id[b];
                        }
                    }
                    d = a;
                }
            }
            if d != usize::MAX && id[v] != d {
                id[v] = d;
                ch = true;
            }
        }
    }
    (0..n).map(|i| if id[i] == usize::MAX || id[i] == ex { EXIT } else { id[i] as u32 }).collect()
}
