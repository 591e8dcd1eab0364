//! Parser for textual LLVM IR (opaque pointers), as printed by llvm-dis.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Meta,
    Label,
    Func,
}

pub fn align_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two().max(1).min(16),
            Ty::Struct(ts, packed) => {
                if *packed {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// store size in bytes
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.alloc_size(),
            Ty::Vec(n, t) => {
                if let Ty::Int(w) = **t {
                    (n * w as u64 + 7) / 8
                } else {
                    n * t.size()
                }
            }
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for t in ts.iter() {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    o += t.alloc_size();
                }
                if *packed {
                    o
                } else {
                    align_up(o, self.align())
                }
            }
            _ => 0,
        }
    }
    pub fn alloc_size(&self) -> u64 {
        match self {
            Ty::Struct(_, true) => self.size(),
            Ty::Void | Ty::Meta | Ty::Label | Ty::Func => 0,
            _ => align_up(self.size(), self.align()),
        }
    }
    pub fn field_off(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for (k, t) in ts.iter().enumerate() {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    if k as u64 == i {
                        return (o, t.clone());
                    }
                    o += t.alloc_size();
                }
                panic!("field_off {:?} {}", self, i)
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => (i * t.alloc_size(), (**t).clone()),
            _ => panic!("field_off on {:?}", self),
        }
    }
    pub fn width(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => panic!("width of {:?}", self),
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64)
    }
}

#[derive(Clone, Debug)]
pub enum Cst {
    Int(u128),
    F(u64), // bits at the width of the type
    Null,
    Undef,
    Zero,
    Global(String, i64),
    Agg(Vec<(Ty, Cst)>),
    Str(Vec<u8>),
    Splat(Box<(Ty, Cst)>),
    Expr(String, Box<(Ty, Cst)>), // ptrtoint / inttoptr / trunc ... of constant
    Gep(Ty, Box<Cst>, Vec<(Ty, Cst)>),
    Bin(String, Ty, Box<Cst>, Box<Cst>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    C(Cst),
}

#[derive(Clone, Debug)]
pub struct CallI {
    pub ret: Ty,
    pub callee: Callee,
    pub args: Vec<(Ty, Opd)>,
    pub normal: Option<u32>, // invoke: normal dest block
}

#[derive(Clone, Debug)]
pub enum Callee {
    Name(String),
    Ptr(Opd),
    Asm(String),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(String, Ty, Opd, Opd),
    Icmp(String, Ty, Opd, Opd),
    Fcmp(String, Ty, Opd, Opd),
    Fneg(Ty, Opd),
    Cast(String, Ty, Opd, Ty),
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    Alloca(Ty, Opd, Ty), // elem ty, count
    Gep(Ty, Opd, Vec<(Ty, Opd)>),
    Select(Ty, Opd, Ty, Opd, Opd),
    Extract(Ty, Opd, Vec<u64>),
    Insert(Ty, Opd, Ty, Opd, Vec<u64>),
    ExtElem(Ty, Opd, Ty, Opd),
    InsElem(Ty, Opd, Opd, Ty, Opd),
    Shuffle(Ty, Opd, Opd, Vec<i64>, u64),
    Freeze(Ty, Opd),
    Call(CallI),
    Rmw(String, Ty, Opd, Opd),
    CmpXchg(Ty, Opd, Opd, Opd),
    Fence,
    LandingPad,
    Phi(Ty, Vec<(Opd, u32)>),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Ty, Opd, u32, Vec<(u128, u32)>),
    Ret(Ty, Option<Opd>),
    Unreachable,
    Resume,
}

pub struct Block {
    pub insts: Vec<(Option<u32>, Inst)>,
}

pub struct Func {
    pub name: String,
    pub params: Vec<(Ty, u32)>,
    pub ret: Ty,
    pub nregs: usize,
    pub blocks: Vec<Block>,
}

pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<Cst>,
    pub constant: bool,
    pub weak: bool,
}

pub struct Module {
    pub types: HashMap<String, Ty>,
    pub globals: Vec<Global>,
    pub funcs: Vec<Func>,
    pub decls: Vec<(String, bool)>,
    pub aliases: Vec<(String, Cst)>,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Id(String),     // keyword
    Local(String),  // %x
    Global(String), // @x
    Meta(String),   // !x
    Attr(String),   // #n
    Str(Vec<u8>),
    CStr(Vec<u8>),
    Num(String),
    P(char),
    Dots,
    End,
}

struct Lex<'a> {
    s: &'a [u8],
    p: usize,
}

fn hexv(c: u8) -> u8 {
    match c {
        b'0'..=b'9' => c - b'0',
        b'a'..=b'f' => c - b'a' + 10,
        b'A'..=b'F' => c - b'A' + 10,
        _ => 255,
    }
}

impl<'a> Lex<'a> {
    fn quoted(&mut self) -> Vec<u8> {
        // at opening quote
        self.p += 1;
        let mut v = vec![];
        while self.s[self.p] != b'"' {
            if self.s[self.p] == b'\\' {
                if self.s[self.p + 1] == b'\\' {
                    v.push(b'\\');
                    self.p += 2;
                } else {
                    v.push(hexv(self.s[self.p + 1]) * 16 + hexv(self.s[self.p + 2]));
                    self.p += 3;
                }
            } else {
                v.push(self.s[self.p]);
                self.p += 1;
            }
        }
        self.p += 1;
        v
    }
    fn ident(&mut self) -> String {
        let st = self.p;
        while self.p < self.s.len() {
            let c = self.s[self.p];
            if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' {
                self.p += 1;
            } else {
                break;
            }
        }
        String::from_utf8_lossy(&self.s[st..self.p]).into_owned()
    }
    fn name(&mut self) -> String {
        if self.p < self.s.len() && self.s[self.p] == b'"' {
            let q = self.quoted();
            String::from_utf8_lossy(&q).into_owned()
        } else {
            self.ident()
        }
    }
    fn next(&mut self) -> Tok {
        loop {
            if self.p >= self.s.len() {
                return Tok::End;
            }
            let c = self.s[self.p];
            if c == b' ' || c == b'\t' || c == b'\n' || c == b'\r' {
                self.p += 1;
            } else if c == b'/' && self.s.get(self.p + 1) == Some(&b'*') {
                while self.p < self.s.len() && !(self.s[self.p] == b'*' && self.s.get(self.p + 1) == Some(&b'/')) {
                    self.p += 1;
                }
                self.p += 2;
            } else if c == b';' {
                while self.p < self.s.len() && self.s[self.p] != b'\n' {
                    self.p += 1;
                }
            } else {
                break;
            }
        }
        let c = self.s[self.p];
        match c {
            b'%' => {
                self.p += 1;
                Tok::Local(self.name())
            }
            b'@' => {
                self.p += 1;
                Tok::Global(self.name())
            }
            b'!' => {
                self.p += 1;
                if self.p < self.s.len() && self.s[self.p] == b'"' {
                    self.quoted();
                    Tok::Meta("str".into())
                } else {
                    Tok::Meta(self.ident())
                }
            }
            b'#' => {
                self.p += 1;
                Tok::Attr(self.ident())
            }
            b'"' => Tok::Str(self.quoted()),
            b'.' if self.s[self.p..].starts_with(b"...") => {
                self.p += 3;
                Tok::Dots
            }
            b'0'..=b'9' | b'-' | b'+' => {
                let st = self.p;
                self.p += 1;
                while self.p < self.s.len() {
                    let c = self.s[self.p];
                    if c.is_ascii_alphanumeric() || c == b'.' || c == b'+' || c == b'-' {
                        // e+00 forms
                        if (c == b'+' || c == b'-') && !matches!(self.s[self.p - 1], b'e' | b'E') {
                            break;
                        }
                        self.p += 1;
                    } else {
                        break;
                    }
                }
                Tok::Num(String::from_utf8_lossy(&self.s[st..self.p]).into_owned())
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'$' => {
                let id = self.ident();
                if id == "c" && self.p < self.s.len() && self.s[self.p] == b'"' {
                    Tok::CStr(self.quoted())
                } else {
                    Tok::Id(id)
                }
            }
            _ => {
                self.p += 1;
                Tok::P(c as char)
            }
        }
    }
}

struct Par<'a> {
    lx: Lex<'a>,
    t: Tok,
    types: HashMap<String, Ty>,
    // function scope
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}

type R<T> = Result<T, String>;

const PATTRS: &[&str] = &[
    "noundef", "nonnull", "noalias", "nofree", "readonly", "readnone", "writeonly", "writable", "returned", "zeroext",
    "signext", "inreg", "immarg", "nest", "nocapture", "allocptr", "allocalign", "dead_on_unwind", "swiftself",
    "dead_on_return", "noext",
];
const PATTRS_PAREN: &[&str] =
    &["sret", "byval", "captures", "dereferenceable", "dereferenceable_or_null", "range", "nofpclass", "initializes", "elementtype", "align", "byref", "dead_on_return"];

impl<'a> Par<'a> {
    fn new(s: &'a str) -> Self {
        let mut lx = Lex { s: s.as_bytes(), p: 0 };
        let t = lx.next();
        Par { lx, t, types: HashMap::new(), regs: HashMap::new(), blocks: HashMap::new() }
    }
    fn adv(&mut self) -> Tok {
        let n = self.lx.next();
        std::mem::replace(&mut self.t, n)
    }
    fn is_p(&self, c: char) -> bool {
        self.t == Tok::P(c)
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn exp_p(&mut self, c: char) -> R<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            Err(format!("expected {} got {:?} near {}", c, self.t, self.ctx()))
        }
    }
    fn ctx(&self) -> String {
        let a = self.lx.p.saturating_sub(120);
        let b = (self.lx.p + 60).min(self.lx.s.len());
        String::from_utf8_lossy(&self.lx.s[a..b]).into_owned()
    }
    fn is_id(&self, s: &str) -> bool {
        matches!(&self.t, Tok::Id(x) if x == s)
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if self.is_id(s) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn id(&mut self) -> R<String> {
        match self.adv() {
            Tok::Id(s) => Ok(s),
            t => Err(format!("expected ident got {:?} near {}", t, self.ctx())),
        }
    }
    fn skip_parens(&mut self) -> R<()> {
        // at '('
        self.exp_p('(')?;
        let mut d = 1;
        while d > 0 {
            match self.adv() {
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                Tok::End => return Err("eof in parens".into()),
                _ => {}
            }
        }
        Ok(())
    }
    fn is_type_start(&self) -> bool {
        match &self.t {
            Tok::Id(s) => {
                s == "ptr" || s == "void" || s == "float" || s == "double" || s == "label" || s == "metadata" || s == "half" || s == "token"
                    || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Tok::P('[') | Tok::P('{') | Tok::P('<') => true,
            Tok::Local(_) => true,
            _ => false,
        }
    }
    fn ty(&mut self) -> R<Ty> {
        match self.adv() {
            Tok::Id(s) => match s.as_str() {
                "ptr" => {
                    if self.is_id("addrspace") {
                        self.adv();
                        self.skip_parens()?;
                    }
                    Ok(Ty::Ptr)
                }
                "void" => Ok(Ty::Void),
                "float" => Ok(Ty::F32),
                "double" => Ok(Ty::F64),
                "label" => Ok(Ty::Label),
                "metadata" => Ok(Ty::Meta),
                "half" => Ok(Ty::Int(16)),
                "fp128" => Ok(Ty::Int(128)),
                _ if s.starts_with('i') => s[1..].parse::<u32>().map(Ty::Int).map_err(|_| format!("bad type {}", s)),
                _ => Err(format!("bad type {} near {}", s, self.ctx())),
            },
            Tok::P('[') => {
                let n = self.num()?;
                self.id()?; // x
                let t = self.ty()?;
                self.exp_p(']')?;
                Ok(Ty::Arr(n as u64, Rc::new(t)))
            }
            Tok::P('{') => {
                let ts = self.ty_list('}')?;
                Ok(Ty::Struct(Rc::new(ts), false))
            }
            Tok::P('<') => {
                if self.eat_p('{') {
                    let ts = self.ty_list('}')?;
                    self.exp_p('>')?;
                    Ok(Ty::Struct(Rc::new(ts), true))
                } else {
                    let n = self.num()?;
                    self.id()?;
                    let t = self.ty()?;
                    self.exp_p('>')?;
                    Ok(Ty::Vec(n as u64, Rc::new(t)))
                }
            }
            Tok::Local(n) => self.types.get(&n).cloned().ok_or_else(|| format!("unknown type %{}", n)),
            t => Err(format!("bad type tok {:?} near {}", t, self.ctx())),
        }
    }
    fn ty_list(&mut self, close: char) -> R<Vec<Ty>> {
        let mut v = vec![];
        if self.eat_p(close) {
            return Ok(v);
        }
        loop {
            v.push(self.ty()?);
            if self.eat_p(',') {
                continue;
            }
            self.exp_p(close)?;
            return Ok(v);
        }
    }
    fn num(&mut self) -> R<i128> {
        match self.adv() {
            Tok::Num(s) => s.parse::<i128>().map_err(|_| format!("bad num {}", s)),
            t => Err(format!("expected num got {:?} near {}", t, self.ctx())),
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn blk(&mut self, n: &str) -> u32 {
        let k = self.blocks.len() as u32;
        *self.blocks.entry(n.to_string()).or_insert(k)
    }
    fn skip_flags(&mut self, fl: &[&str]) {
        while let Tok::Id(s) = &self.t {
            if fl.contains(&s.as_str()) {
                self.adv();
            } else {
                break;
            }
        }
    }
    fn cst(&mut self, ty: &Ty) -> R<Cst> {
        match self.t.clone() {
            Tok::Num(s) => {
                self.adv();
                match ty {
                    Ty::Int(w) => Ok(Cst::Int(parse_int(&s, *w)?)),
                    Ty::F32 | Ty::F64 => {
                        let d: f64 = if let Some(h) = s.strip_prefix("0x") {
                            f64::from_bits(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?)
                        } else if s.ends_with("qnan") {
                            f64::NAN.copysign(if s.starts_with('-') { -1.0 } else { 1.0 })
                        } else {
                            s.parse().map_err(|_| format!("bad float {}", s))?
                        };
                        Ok(Cst::F(if *ty == Ty::F32 { (d as f32).to_bits() as u64 } else { d.to_bits() }))
                    }
                    _ => Err(format!("num const of type {:?}", ty)),
                }
            }
            Tok::Global(g) => {
                self.adv();
                Ok(Cst::Global(g, 0))
            }
            Tok::CStr(v) => {
                self.adv();
                Ok(Cst::Str(v))
            }
            Tok::P('{') => {
                self.adv();
                Ok(Cst::Agg(self.cst_list('}')?))
            }
            Tok::P('[') => {
                self.adv();
                Ok(Cst::Agg(self.cst_list(']')?))
            }
            Tok::P('<') => {
                self.adv();
                if self.eat_p('{') {
                    let v = self.cst_list('}')?;
                    self.exp_p('>')?;
                    Ok(Cst::Agg(v))
                } else {
                    Ok(Cst::Agg(self.cst_list('>')?))
                }
            }
            Tok::Id(s) => {
                self.adv();
                match s.as_str() {
                    "true" => Ok(Cst::Int(1)),
                    "false" => Ok(Cst::Int(0)),
                    "null" => Ok(Cst::Null),
                    "undef" | "poison" => Ok(Cst::Undef),
                    "zeroinitializer" => Ok(Cst::Zero),
                    "none" => Ok(Cst::Zero),
                    "splat" => {
                        self.exp_p('(')?;
                        let t = self.ty()?;
                        let c = self.cst(&t)?;
                        self.exp_p(')')?;
                        Ok(Cst::Splat(Box::new((t, c))))
                    }
                    "getelementptr" => {
                        while !self.is_p('(') {
                            if self.is_id("inrange") {
                                self.adv();
                                self.skip_parens()?;
                                continue;
                            }
                            self.adv();
                        }
                        self.exp_p('(')?;
                        let t = self.ty()?;
                        self.exp_p(',')?;
                        let bt = self.ty()?;
                        let b = self.cst(&bt)?;
                        let mut ix = vec![];
                        while self.eat_p(',') {
                            let it = self.ty()?;
                            let c = self.cst(&it)?;
                            ix.push((it, c));
                        }
                        self.exp_p(')')?;
                        Ok(Cst::Gep(t, Box::new(b), ix))
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "ptrtoaddr" => {
                        self.skip_flags(&["nuw", "nsw", "nneg"]);
                        self.exp_p('(')?;
                        let t = self.ty()?;
                        let c = self.cst(&t)?;
                        if !self.eat_id("to") {
                            return Err("cast const".into());
                        }
                        self.ty()?;
                        self.exp_p(')')?;
                        Ok(Cst::Expr(s, Box::new((t, c))))
                    }
                    "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" | "lshr" => {
                        self.skip_flags(&["nuw", "nsw", "exact", "disjoint"]);
                        self.exp_p('(')?;
                        let t = self.ty()?;
                        let a = self.cst(&t)?;
                        self.exp_p(',')?;
                        let t2 = self.ty()?;
                        let b = self.cst(&t2)?;
                        self.exp_p(')')?;
                        Ok(Cst::Bin(s, t, Box::new(a), Box::new(b)))
                    }
                    "c" => Err("c?".into()),
                    _ => {
                        if s.starts_with('f') && s.len() > 4 {
                            // f0x...
                            if let Some(h) = s.strip_prefix("f0x") {
                                return Ok(Cst::F(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?));
                            }
                        }
                        Err(format!("bad const {} near {}", s, self.ctx()))
                    }
                }
            }
            t => Err(format!("bad const {:?} near {}", t, self.ctx())),
        }
    }
    fn cst_list(&mut self, close: char) -> R<Vec<(Ty, Cst)>> {
        let mut v = vec![];
        if self.eat_p(close) {
            return Ok(v);
        }
        loop {
            let t = self.ty()?;
            let c = self.cst(&t)?;
            v.push((t, c));
            if self.eat_p(',') {
                continue;
            }
            self.exp_p(close)?;
            return Ok(v);
        }
    }
    fn opd(&mut self, ty: &Ty) -> R<Opd> {
        if let Tok::Local(n) = &self.t {
            let n = n.clone();
            self.adv();
            return Ok(Opd::Reg(self.reg(&n)));
        }
        Ok(Opd::C(self.cst(ty)?))
    }
    fn typed(&mut self) -> R<(Ty, Opd)> {
        let t = self.ty()?;
        let o = self.opd(&t)?;
        Ok((t, o))
    }
    fn label(&mut self) -> R<u32> {
        if !self.eat_id("label") {
            return Err(format!("expected label near {}", self.ctx()));
        }
        match self.adv() {
            Tok::Local(n) => Ok(self.blk(&n)),
            t => Err(format!("label {:?}", t)),
        }
    }
    fn param_attrs(&mut self) -> R<()> {
        loop {
            match &self.t {
                Tok::Id(s) if PATTRS.contains(&s.as_str()) => {
                    self.adv();
                }
                Tok::Id(s) if PATTRS_PAREN.contains(&s.as_str()) => {
                    self.adv();
                    if self.is_p('(') {
                        self.skip_parens()?;
                    } else if let Tok::Num(_) = self.t {
                        self.adv();
                    }
                }
                Tok::Str(_) => {
                    self.adv();
                    if self.eat_p('=') {
                        self.adv();
                    }
                }
                _ => return Ok(()),
            }
        }
    }
    /// skip the rest of the line's trailing decorations: ", align 8", ", !dbg !3" ...
    fn trailing(&mut self) -> R<()> {
        while self.is_p(',') {
            self.adv();
            match self.adv() {
                Tok::Id(s) if s == "align" => {
                    self.adv();
                }
                Tok::Meta(_) => {
                    // !dbg !n or !range !{...}
                    match self.adv() {
                        Tok::Meta(n) => {
                            if n.is_empty() && self.is_p('{') {
                                let mut d = 0;
                                loop {
                                    match self.adv() {
                                        Tok::P('{') => d += 1,
                                        Tok::P('}') => {
                                            d -= 1;
                                            if d == 0 {
                                                break;
                                            }
                                        }
                                        Tok::End => return Err("eof".into()),
                                        _ => {}
                                    }
                                }
                            } else if self.is_p('(') {
                                self.skip_parens()?;
                            }
                        }
                        t => return Err(format!("trailing meta {:?} {}", t, self.ctx())),
                    }
                }
                Tok::Id(s) if s == "addrspace" => self.skip_parens()?,
                t => return Err(format!("trailing {:?} near {}", t, self.ctx())),
            }
        }
        Ok(())
    }
    fn call(&mut self, invoke: bool) -> R<Inst> {
        // after 'call'/'invoke' keyword
        loop {
            match &self.t {
                Tok::Id(s)
                    if matches!(
                        s.as_str(),
                        "fastcc" | "ccc" | "coldcc" | "preserve_mostcc" | "preserve_allcc" | "preserve_nonecc" | "reassoc" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "fast" | "nuw" | "nsw"
                            | "x86_64_sysvcc" | "tailcc"
                    ) =>
                {
                    self.adv();
                }
                _ => {
                    let before = self.lx.p;
                    self.param_attrs()?;
                    if self.lx.p == before {
                        break;
                    }
                }
            }
        }
        let mut ret = self.ty()?;
        // function type?  ret (args...) @f
        if self.is_p('(') {
            self.skip_parens()?;
            if ret == Ty::Func {
                ret = Ty::Void;
            }
        }
        let callee = match self.adv() {
            Tok::Global(g) => Callee::Name(g),
            Tok::Local(n) => {
                let r = self.reg(&n);
                Callee::Ptr(Opd::Reg(r))
            }
            Tok::Id(s) if s == "asm" => {
                self.skip_flags(&["sideeffect", "alignstack", "inteldialect", "unwind"]);
                let a = match self.adv() {
                    Tok::Str(v) => String::from_utf8_lossy(&v).into_owned(),
                    t => return Err(format!("asm {:?}", t)),
                };
                self.exp_p(',')?;
                self.adv();
                Callee::Asm(a)
            }
            Tok::Id(s) if s == "inttoptr" => {
                self.exp_p('(')?;
                let t = self.ty()?;
                let c = self.cst(&t)?;
                self.eat_id("to");
                self.ty()?;
                self.exp_p(')')?;
                Callee::Ptr(Opd::C(c))
            }
            Tok::Id(s) if s == "null" || s == "undef" || s == "poison" => Callee::Ptr(Opd::C(Cst::Null)),
            t => return Err(format!("callee {:?} near {}", t, self.ctx())),
        };
        self.exp_p('(')?;
        let mut args = vec![];
        if !self.eat_p(')') {
            loop {
                if self.is_id("metadata") {
                    // skip metadata argument
                    self.adv();
                    let mut d = 0;
                    loop {
                        match &self.t {
                            Tok::P('(') | Tok::P('{') | Tok::P('[') => d += 1,
                            Tok::P(')') | Tok::P('}') | Tok::P(']') => {
                                if d == 0 {
                                    break;
                                }
                                d -= 1
                            }
                            Tok::P(',') if d == 0 => break,
                            Tok::End => return Err("eof".into()),
                            _ => {}
                        }
                        self.adv();
                    }
                } else {
                    let t = self.ty()?;
                    self.param_attrs()?;
                    let o = self.opd(&t)?;
                    args.push((t, o));
                }
                if self.eat_p(',') {
                    continue;
                }
                self.exp_p(')')?;
                break;
            }
        }
        // fn attrs / operand bundles
        loop {
            match &self.t {
                Tok::Attr(_) => {
                    self.adv();
                }
                Tok::P('[') => {
                    let mut d = 0;
                    loop {
                        match self.adv() {
                            Tok::P('[') => d += 1,
                            Tok::P(']') => {
                                d -= 1;
                                if d == 0 {
                                    break;
                                }
                            }
                            Tok::End => return Err("eof".into()),
                            _ => {}
                        }
                    }
                }
                Tok::Id(s) if matches!(s.as_str(), "nounwind" | "noreturn" | "cold" | "memory" | "allocsize" | "readnone") => {
                    self.adv();
                    if self.is_p('(') {
                        self.skip_parens()?;
                    }
                }
                _ => break,
            }
        }
        let mut normal = None;
        if invoke {
            if !self.eat_id("to") {
                return Err(format!("invoke to near {}", self.ctx()));
            }
            normal = Some(self.label()?);
            if !self.eat_id("unwind") {
                return Err("invoke unwind".into());
            }
            self.label()?;
        }
        self.trailing()?;
        Ok(Inst::Call(CallI { ret, callee, args, normal }))
    }
    fn idx_list(&mut self) -> R<Vec<u64>> {
        let mut v = vec![];
        while self.is_p(',') {
            // could be metadata
            let save = self.lx.p;
            let st = self.t.clone();
            self.adv();
            if let Tok::Num(_) = self.t {
                v.push(self.num()? as u64);
            } else {
                self.lx.p = save;
                self.t = st;
                break;
            }
        }
        Ok(v)
    }
    fn inst(&mut self) -> R<Inst> {
        let mut op = self.id()?;
        if op == "tail" || op == "musttail" || op == "notail" {
            op = self.id()?;
        }
        let r = match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "fadd" | "fsub"
            | "fmul" | "fdiv" | "frem" => {
                self.skip_flags(&["nuw", "nsw", "exact", "disjoint", "reassoc", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "fast"]);
                let t = self.ty()?;
                let a = self.opd(&t)?;
                self.exp_p(',')?;
                let b = self.opd(&t)?;
                Inst::Bin(op, t, a, b)
            }
            "fneg" => {
                self.skip_flags(&["reassoc", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "fast"]);
                let (t, a) = self.typed()?;
                Inst::Fneg(t, a)
            }
            "icmp" | "fcmp" => {
                self.skip_flags(&["samesign", "reassoc", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "fast"]);
                let p = self.id()?;
                let t = self.ty()?;
                let a = self.opd(&t)?;
                self.exp_p(',')?;
                let b = self.opd(&t)?;
                if op == "icmp" {
                    Inst::Icmp(p, t, a, b)
                } else {
                    Inst::Fcmp(p, t, a, b)
                }
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc"
            | "addrspacecast" | "ptrtoaddr" => {
                self.skip_flags(&["nuw", "nsw", "nneg", "reassoc", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "fast"]);
                let (t, a) = self.typed()?;
                if !self.eat_id("to") {
                    return Err(format!("cast to near {}", self.ctx()));
                }
                let t2 = self.ty()?;
                Inst::Cast(op, t, a, t2)
            }
            "load" => {
                self.skip_flags(&["atomic", "volatile"]);
                let t = self.ty()?;
                self.exp_p(',')?;
                let (_, p) = self.typed()?;
                self.atomics()?;
                Inst::Load(t, p)
            }
            "store" => {
                self.skip_flags(&["atomic", "volatile"]);
                let (t, v) = self.typed()?;
                self.exp_p(',')?;
                let (_, p) = self.typed()?;
                self.atomics()?;
                Inst::Store(t, v, p)
            }
            "alloca" => {
                self.skip_flags(&["inalloca"]);
                let t = self.ty()?;
                let mut n = (Ty::Int(32), Opd::C(Cst::Int(1)));
                if self.is_p(',') {
                    let save = self.lx.p;
                    let st = self.t.clone();
                    self.adv();
                    if self.is_type_start() {
                        n = self.typed()?;
                    } else {
                        self.lx.p = save;
                        self.t = st;
                    }
                }
                Inst::Alloca(t, n.1, n.0)
            }
            "getelementptr" => {
                loop {
                    if self.is_id("inbounds") || self.is_id("nuw") || self.is_id("nusw") {
                        self.adv();
                    } else if self.is_id("inrange") {
                        self.adv();
                        self.skip_parens()?;
                    } else {
                        break;
                    }
                }
                let t = self.ty()?;
                self.exp_p(',')?;
                let (_, b) = self.typed()?;
                let mut ix = vec![];
                while self.is_p(',') {
                    let save = self.lx.p;
                    let st = self.t.clone();
                    self.adv();
                    if self.is_type_start() {
                        ix.push(self.typed()?);
                    } else {
                        self.lx.p = save;
                        self.t = st;
                        break;
                    }
                }
                Inst::Gep(t, b, ix)
            }
            "select" => {
                self.skip_flags(&["reassoc", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "fast"]);
                let (ct, c) = self.typed()?;
                self.exp_p(',')?;
                let (t, a) = self.typed()?;
                self.exp_p(',')?;
                let (_, b) = self.typed()?;
                Inst::Select(ct, c, t, a, b)
            }
            "extractvalue" => {
                let (t, a) = self.typed()?;
                let ix = self.idx_list()?;
                Inst::Extract(t, a, ix)
            }
            "insertvalue" => {
                let (t, a) = self.typed()?;
                self.exp_p(',')?;
                let (t2, b) = self.typed()?;
                let ix = self.idx_list()?;
                Inst::Insert(t, a, t2, b, ix)
            }
            "extractelement" => {
                let (t, a) = self.typed()?;
                self.exp_p(',')?;
                let (t2, b) = self.typed()?;
                Inst::ExtElem(t, a, t2, b)
            }
            "insertelement" => {
                let (t, a) = self.typed()?;
                self.exp_p(',')?;
                let (_, e) = self.typed()?;
                self.exp_p(',')?;
                let (t2, b) = self.typed()?;
                Inst::InsElem(t, a, e, t2, b)
            }
            "shufflevector" => {
                let (t, a) = self.typed()?;
                self.exp_p(',')?;
                let (_, b) = self.typed()?;
                self.exp_p(',')?;
                let mt = self.ty()?;
                let c = self.cst(&mt)?;
                let n = match mt {
                    Ty::Vec(n, _) => n,
                    _ => return Err("shuffle mask".into()),
                };
                let mask: Vec<i64> = match c {
                    Cst::Zero => vec![0; n as usize],
                    Cst::Undef => vec![-1; n as usize],
                    Cst::Splat(b) => match b.1 {
                        Cst::Int(v) => vec![v as i64; n as usize],
                        _ => return Err("shuffle splat".into()),
                    },
                    Cst::Agg(v) => v
                        .iter()
                        .map(|(_, c)| match c {
                            Cst::Int(x) => *x as i64,
                            _ => -1,
                        })
                        .collect(),
                    _ => return Err("shuffle mask const".into()),
                };
                Inst::Shuffle(t, a, b, mask, n)
            }
            "freeze" => {
                let (t, a) = self.typed()?;
                Inst::Freeze(t, a)
            }
            "call" => return self.call(false),
            "invoke" => return self.call(true),
            "atomicrmw" => {
                self.skip_flags(&["volatile"]);
                let o = self.id()?;
                let (_, p) = self.typed()?;
                self.exp_p(',')?;
                let (t, v) = self.typed()?;
                self.atomics()?;
                Inst::Rmw(o, t, p, v)
            }
            "cmpxchg" => {
                self.skip_flags(&["weak", "volatile"]);
                let (_, p) = self.typed()?;
                self.exp_p(',')?;
                let (t, c) = self.typed()?;
                self.exp_p(',')?;
                let (_, n) = self.typed()?;
                self.atomics()?;
                self.atomics()?;
                Inst::CmpXchg(t, p, c, n)
            }
            "fence" => {
                self.atomics()?;
                Inst::Fence
            }
            "landingpad" => {
                self.ty()?;
                loop {
                    if self.eat_id("cleanup") {
                        continue;
                    }
                    if self.eat_id("catch") || self.eat_id("filter") {
                        self.typed()?;
                        continue;
                    }
                    break;
                }
                Inst::LandingPad
            }
            "phi" => {
                self.skip_flags(&["reassoc", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "fast"]);
                let t = self.ty()?;
                let mut v = vec![];
                loop {
                    if !self.eat_p('[') {
                        return Err(format!("phi near {}", self.ctx()));
                    }
                    let o = self.opd(&t)?;
                    self.exp_p(',')?;
                    let b = match self.adv() {
                        Tok::Local(n) => self.blk(&n),
                        t => return Err(format!("phi blk {:?}", t)),
                    };
                    self.exp_p(']')?;
                    v.push((o, b));
                    if self.is_p(',') {
                        let save = self.lx.p;
                        let st = self.t.clone();
                        self.adv();
                        if self.is_p('[') {
                            continue;
                        }
                        self.lx.p = save;
                        self.t = st;
                    }
                    break;
                }
                Inst::Phi(t, v)
            }
            "br" => {
                if self.is_id("label") {
                    Inst::Br(self.label()?)
                } else {
                    let (_, c) = self.typed()?;
                    self.exp_p(',')?;
                    let a = self.label()?;
                    self.exp_p(',')?;
                    let b = self.label()?;
                    Inst::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.typed()?;
                self.exp_p(',')?;
                let d = self.label()?;
                self.exp_p('[')?;
                let mut cs = vec![];
                while !self.eat_p(']') {
                    let (_, c) = self.typed()?;
                    let c = match c {
                        Opd::C(Cst::Int(v)) => v,
                        Opd::C(Cst::Null) => 0,
                        _ => return Err("switch case".into()),
                    };
                    self.exp_p(',')?;
                    let b = self.label()?;
                    cs.push((c, b));
                }
                Inst::Switch(t, v, d, cs)
            }
            "ret" => {
                let t = self.ty()?;
                if t == Ty::Void {
                    Inst::Ret(t, None)
                } else {
                    let o = self.opd(&t)?;
                    Inst::Ret(t, Some(o))
                }
            }
            "unreachable" => Inst::Unreachable,
            "resume" => {
                self.typed()?;
                Inst::Resume
            }
            _ => return Err(format!("unknown inst {} near {}", op, self.ctx())),
        };
        self.trailing()?;
        Ok(r)
    }
    fn atomics(&mut self) -> R<()> {
        loop {
            match &self.t {
                Tok::Id(s) if s == "syncscope" => {
                    self.adv();
                    self.skip_parens()?;
                }
                Tok::Id(s) if matches!(s.as_str(), "unordered" | "monotonic" | "acquire" | "release" | "acq_rel" | "seq_cst") => {
                    self.adv();
                }
                _ => return Ok(()),
            }
        }
    }
}

fn parse_int(s: &str, w: u32) -> R<u128> {
    if let Some(h) = s.strip_prefix("u0x").or_else(|| s.strip_prefix("0x")) {
        return u128::from_str_radix(h, 16).map_err(|e| e.to_string());
    }
    let v: u128 = if let Some(n) = s.strip_prefix('-') {
        (n.parse::<u128>().map_err(|e| format!("{} {}", s, e))?).wrapping_neg()
    } else {
        s.parse::<u128>().map_err(|e| format!("{} {}", s, e))?
    };
    Ok(if w < 128 { v & ((1u128 << w) - 1) } else { v })
}

/// split the module text in top-level entities and parse them
pub fn parse(text: &str) -> R<Module> {
    let mut m = Module { types: HashMap::new(), globals: vec![], funcs: vec![], decls: vec![], aliases: vec![] };
    let mut lines = text.split_inclusive('\n');
    let mut off = 0usize;
    let mut p = Par::new("");
    while let Some(l) = lines.next() {
        let start = off;
        off += l.len();
        if l.starts_with("define") {
            let mut body_end = off;
            for l2 in lines.by_ref() {
                off += l2.len();
                if l2.starts_with('}') {
                    break;
                }
                body_end = off;
            }
            let head = l;
            let f = parse_func(&mut p, head, &text[start + l.len()..body_end]).map_err(|e| format!("{}\n in {}", e, head))?;
            m.funcs.push(f);
        } else if l.starts_with("declare") {
            let weak = l.contains("extern_weak");
            if let Some(i) = l.find('@') {
                let mut lx = Lex { s: l.as_bytes(), p: i };
                if let Tok::Global(n) = lx.next() {
                    m.decls.push((n, weak));
                }
            }
        } else if l.starts_with('@') {
            let mut q = Par::new(l);
            std::mem::swap(&mut q.types, &mut p.types);
            let r = parse_global(&mut q, &mut m);
            std::mem::swap(&mut q.types, &mut p.types);
            r.map_err(|e| format!("{}\n in {}", e, l))?;
        } else if l.starts_with('%') {
            let mut q = Par::new(l);
            std::mem::swap(&mut q.types, &mut p.types);
            let n = match q.adv() {
                Tok::Local(n) => n,
                _ => return Err("type def".into()),
            };
            q.exp_p('=')?;
            q.id()?;
            if q.eat_id("opaque") {
                q.types.insert(n, Ty::Struct(Rc::new(vec![]), false));
            } else {
                let t = q.ty()?;
                q.types.insert(n, t);
            }
            std::mem::swap(&mut q.types, &mut p.types);
        }
    }
    m.types = p.types;
    Ok(m)
}

fn parse_global(q: &mut Par, m: &mut Module) -> R<()> {
    let name = match q.adv() {
        Tok::Global(n) => n,
        _ => return Err("global".into()),
    };
    q.exp_p('=')?;
    let mut external = false;
    let mut weak = false;
    loop {
        match q.t.clone() {
            Tok::Id(s) => {
                if s == "constant" || s == "global" {
                    q.adv();
                    let ty = q.ty()?;
                    let init = if external { None } else { Some(q.cst(&ty)?) };
                    m.globals.push(Global { name, ty, init, constant: s == "constant", weak });
                    return Ok(());
                }
                if s == "alias" {
                    q.adv();
                    q.ty()?;
                    q.exp_p(',')?;
                    let t = q.ty()?;
                    let c = q.cst(&t)?;
                    m.aliases.push((name, c));
                    return Ok(());
                }
                if s == "external" {
                    external = true;
                }
                if s == "extern_weak" {
                    external = true;
                    weak = true;
                }
                q.adv();
                if q.is_p('(') {
                    q.skip_parens()?;
                }
            }
            t => return Err(format!("global tok {:?}", t)),
        }
    }
}

fn parse_func(p: &mut Par, head: &str, body: &str) -> R<Func> {
    let mut q = Par::new(head);
    std::mem::swap(&mut q.types, &mut p.types);
    q.adv(); // define
    // skip until type
    loop {
        if q.is_type_start() {
            // could be an ident like "internal"? is_type_start handles exact forms
            break;
        }
        match &q.t {
            Tok::Id(s) if PATTRS_PAREN.contains(&s.as_str()) => q.param_attrs()?,
            Tok::End => return Err("define".into()),
            _ => {
                q.adv();
            }
        }
    }
    let ret = q.ty()?;
    let name = match q.adv() {
        Tok::Global(n) => n,
        t => return Err(format!("define name {:?}", t)),
    };
    q.exp_p('(')?;
    let mut params = vec![];
    let mut k = 0;
    if !q.eat_p(')') {
        loop {
            if q.t == Tok::Dots {
                q.adv();
                q.exp_p(')')?;
                break;
            }
            let t = q.ty()?;
            q.param_attrs()?;
            let n = if let Tok::Local(n) = &q.t {
                let n = n.clone();
                q.adv();
                n
            } else {
                k.to_string()
            };
            k += 1;
            let r = q.reg(&n);
            params.push((t, r));
            if q.eat_p(',') {
                continue;
            }
            q.exp_p(')')?;
            break;
        }
    }
    // body
    let mut b = Par::new(body);
    std::mem::swap(&mut b.types, &mut q.types);
    std::mem::swap(&mut b.regs, &mut q.regs);
    let nparams = params.len();
    let mut blocks: Vec<Block> = vec![];
    let mut order: Vec<u32> = vec![];
    // entry label: explicit or implicit (= nparams)
    let mut cur: Option<u32> = None;
    while b.t != Tok::End {
        // label?
        let lab = match &b.t {
            Tok::Id(s) | Tok::Num(s) => {
                if b.lx.p < b.lx.s.len() && b.lx.s[b.lx.p] == b':' {
                    Some(s.clone())
                } else {
                    None
                }
            }
            Tok::Str(s) if b.lx.p < b.lx.s.len() && b.lx.s[b.lx.p] == b':' => Some(String::from_utf8_lossy(s).into_owned()),
            _ => None,
        };
        if let Some(n) = lab {
            b.adv();
            b.exp_p(':')?;
            let id = b.blk(&n);
            cur = Some(id);
            order.push(id);
            blocks.push(Block { insts: vec![] });
            continue;
        }
        if cur.is_none() {
            let id = b.blk(&nparams.to_string());
            cur = Some(id);
            order.push(id);
            blocks.push(Block { insts: vec![] });
        }
        if b.is_p('#') || matches!(b.t, Tok::Attr(_)) {
            // debug record: #dbg_value(...)
            b.adv();
            if b.is_p('(') {
                b.skip_parens()?;
            }
            if b.is_p(',') {
                b.trailing()?;
            }
            continue;
        }
        let mut dst = None;
        if let Tok::Local(n) = &b.t {
            let n = n.clone();
            b.adv();
            b.exp_p('=')?;
            dst = Some(b.reg(&n));
        }
        let i = b.inst()?;
        blocks.last_mut().unwrap().insts.push((dst, i));
    }
    // reorder blocks so that index == id
    let nb = b.blocks.len();
    if nb != blocks.len() {
        return Err(format!("undefined labels in {} ({} vs {})", name, nb, blocks.len()));
    }
    let entry = order[0];
    let mut slots: Vec<Option<Block>> = (0..nb).map(|_| None).collect();
    for (id, bl) in order.into_iter().zip(blocks) {
        slots[id as usize] = Some(bl);
    }
    let nregs = b.regs.len();
    std::mem::swap(&mut p.types, &mut b.types);
    // entry must be block 0: swap ids if needed
    let mut blocks: Vec<Block> = slots.into_iter().map(|x| x.unwrap()).collect();
    if entry != 0 {
        let map = |x: u32| if x == 0 { entry } else if x == entry { 0 } else { x };
        for bl in blocks.iter_mut() {
            for (_, i) in bl.insts.iter_mut() {
                match i {
                    Inst::Br(a) => *a = map(*a),
                    Inst::CondBr(_, a, b) => {
                        *a = map(*a);
                        *b = map(*b)
                    }
                    Inst::Switch(_, _, d, cs) => {
                        *d = map(*d);
                        for c in cs {
                            c.1 = map(c.1)
                        }
                    }
                    Inst::Phi(_, v) => {
                        for c in v {
                            c.1 = map(c.1)
                        }
                    }
                    Inst::Call(c) => {
                        if let Some(n) = c.normal.as_mut() {
                            *n = map(*n)
                        }
                    }
                    _ => {}
                }
            }
        }
        blocks.swap(0, entry as usize);
    }
    Ok(Func { name, params, ret, nregs, blocks })
}
