//! Syntax tree of generated scripts with name resolution already done by the
//! generator, and its rendering to Sieve source text.

use crate::val::Op;
use std::collections::BTreeSet;
use std::fmt::Write;

pub type DeclId = usize;

#[derive(Clone, Debug, PartialEq)]
pub enum EnvF {
    From,
    To,
    Orcpt,
    Envid,
    Ret,
    Notify,
    ByAbs,
    ByRel,
    ByMode,
    ByTrace,
}

impl EnvF {
    pub fn text(&self) -> &'static str {
        match self {
            EnvF::From => "from",
            EnvF::To => "to",
            EnvF::Orcpt => "orcpt",
            EnvF::Envid => "envid",
            EnvF::Ret => "ret",
            EnvF::Notify => "notify",
            EnvF::ByAbs => "bytimeabsolute",
            EnvF::ByRel => "bytimerelative",
            EnvF::ByMode => "bymode",
            EnvF::ByTrace => "bytrace",
        }
    }
    /// Its name as a variable.
    pub fn var(&self) -> &'static str {
        match self {
            EnvF::ByAbs => "by_time_absolute",
            EnvF::ByRel => "by_time_relative",
            EnvF::ByMode => "by_mode",
            EnvF::ByTrace => "by_trace",
            _ => self.text(),
        }
    }
    pub fn envelope(&self) -> sieve::Envelope {
        match self {
            EnvF::From => sieve::Envelope::From,
            EnvF::To => sieve::Envelope::To,
            EnvF::Orcpt => sieve::Envelope::Orcpt,
            EnvF::Envid => sieve::Envelope::Envid,
            EnvF::Ret => sieve::Envelope::Ret,
            EnvF::Notify => sieve::Envelope::Notify,
            EnvF::ByAbs => sieve::Envelope::ByTimeAbsolute,
            EnvF::ByRel => sieve::Envelope::ByTimeRelative,
            EnvF::ByMode => sieve::Envelope::ByMode,
            EnvF::ByTrace => sieve::Envelope::ByTrace,
        }
    }
}

/// Until when a redirected message is to arrive: within seconds, or by an instant.
#[derive(Clone, Debug)]
pub struct By {
    pub until: Result<u64, Str>,
    pub mode: Option<String>,
    pub trace: bool,
}

/// Reference to a readable thing inside a string or an expression.
#[derive(Clone, Debug)]
pub enum VRef {
    Local { text: String, decl: DeclId },
    Global { text: String, key: String },
    Env(String),
    Envelope(EnvF),
    Match(usize),
    /// A name that is not visible here: expands to nothing.
    Undef(String),
    Header(HVar),
    /// Text of the message: as text, as html, converted to text, to html.
    Body(usize),
    PartText,
    PartRaw,
}

/// A header field variable: `header.a:b[index].part[pindex]`.
#[derive(Clone, Debug)]
pub struct HVar {
    /// Empty: every field.
    pub names: Vec<String>,
    /// Some(0) is every occurrence.
    pub index: Option<i32>,
    pub part: HP,
    pub pindex: Option<i32>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum HP {
    Text,
    Raw,
    RawName,
    Exists,
    Addr,
    Name,
    Id,
    Date,
    Type,
    Subtype,
    Attr(String),
    /// What a Received field says.
    Rcvd(&'static str),
}

impl HVar {
    pub fn text_of(name: &str) -> Self {
        HVar { names: vec![name.into()], index: None, part: HP::Text, pindex: None }
    }

    fn text(&self) -> String {
        let ix = |i: &Option<i32>| match i {
            None => String::new(),
            Some(0) => "[*]".into(),
            Some(i) => format!("[{i}]"),
        };
        let n = if self.names.is_empty() { "*".to_string() } else { self.names.join(":") };
        let mut o = format!("header.{n}{}", ix(&self.index));
        let part = match &self.part {
            HP::Text if self.pindex.is_some() => ".text",
            HP::Text => "",
            HP::Raw => ".raw",
            HP::RawName => ".raw_name",
            HP::Exists => ".exists",
            HP::Addr => ".addr",
            HP::Name => ".name",
            HP::Id => ".id",
            HP::Date => ".date",
            HP::Type => ".type",
            HP::Subtype => ".subtype",
            HP::Rcvd(p) => return format!("{o}.rcvd.{p}"),
            HP::Attr(a) => return format!("{o}.attr.{a}"),
        };
        o += part;
        o + &ix(&self.pindex)
    }
}

impl VRef {
    pub fn text(&self) -> String {
        match self {
            VRef::Local { text, .. } | VRef::Global { text, .. } => text.clone(),
            VRef::Env(n) => format!("env.{n}"),
            VRef::Envelope(f) => format!("envelope.{}", f.var()),
            VRef::Match(n) => n.to_string(),
            VRef::Undef(n) => n.clone(),
            VRef::Header(h) => h.text(),
            VRef::Body(k) => format!("body.{}", ["text", "html", "to_text", "to_html"][*k]),
            VRef::PartText => "part.text".into(),
            VRef::PartRaw => "part.raw".into(),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Seg {
    Lit(String),
    Var(VRef),
}

pub type Str = Vec<Seg>;

pub fn lit(s: &str) -> Str {
    vec![Seg::Lit(s.to_string())]
}

/// Assignable name.
#[derive(Clone, Debug)]
pub enum Target {
    Local { text: String, decl: DeclId },
    Global { text: String, key: String },
    Envelope(EnvF),
}

impl Target {
    pub fn text(&self) -> String {
        match self {
            Target::Local { text, .. } | Target::Global { text, .. } => text.clone(),
            Target::Envelope(f) => format!("envelope.{}", f.text()),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Expr {
    Int(i64),
    /// `true` and `false`
    Word(bool),
    Float(f64, String),
    Str(String),
    Var(VRef),
    Neg(Box<Expr>),
    Not(Box<Expr>),
    Bin(Op, Box<Expr>, Box<Expr>),
    Call { name: String, ext: Option<u32>, args: Vec<Expr> },
    Index(Box<Expr>, Box<Expr>),
    Array(Vec<Expr>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rel {
    Gt,
    Ge,
    Lt,
    Le,
    Eq,
    Ne,
}

pub const RELS: [Rel; 6] = [Rel::Eq, Rel::Gt, Rel::Ge, Rel::Lt, Rel::Le, Rel::Ne];

impl Rel {
    pub fn text(self) -> &'static str {
        match self {
            Rel::Gt => "gt",
            Rel::Ge => "ge",
            Rel::Lt => "lt",
            Rel::Le => "le",
            Rel::Eq => "eq",
            Rel::Ne => "ne",
        }
    }
    pub fn holds(self, o: std::cmp::Ordering) -> bool {
        match self {
            Rel::Gt => o.is_gt(),
            Rel::Ge => o.is_ge(),
            Rel::Lt => o.is_lt(),
            Rel::Le => o.is_le(),
            Rel::Eq => o.is_eq(),
            Rel::Ne => o.is_ne(),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum MType {
    Is,
    Contains,
    Matches,
    Regex,
    Value(Rel),
    Count(Rel),
    List,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cmp {
    Default,
    Casemap,
    Octet,
    Numeric,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum APart {
    Default,
    All,
    Local,
    Domain,
    User,
    Detail,
}

#[derive(Clone, Debug)]
pub struct Match {
    pub mtype: MType,
    pub cmp: Cmp,
}

#[derive(Clone, Debug)]
pub enum MimeOpt {
    None,
    Type,
    Subtype,
    ContentType,
    Param(Vec<Str>),
}

#[derive(Clone, Debug)]
pub enum BodyOf {
    Text,
    Raw,
    Content(Vec<Str>),
}

#[derive(Clone, Debug)]
pub enum Test {
    True,
    False,
    Not(Box<Test>),
    AnyOf(Vec<Test>),
    AllOf(Vec<Test>),
    Header { mime: MimeOpt, anychild: bool, index: Option<i32>, m: Match, names: Vec<Str>, keys: Vec<Str> },
    Address { part: APart, anychild: bool, index: Option<i32>, m: Match, names: Vec<Str>, keys: Vec<Str> },
    Envelope { zone: Option<i64>, part: APart, m: Match, names: Vec<EnvF>, keys: Vec<Str> },
    Exists { anychild: bool, names: Vec<Str> },
    Size { over: bool, limit: usize },
    String { m: Match, sources: Vec<Str>, keys: Vec<Str> },
    Environment { m: Match, names: Vec<String>, keys: Vec<Str> },
    HasFlag { m: Match, vars: Vec<Target>, flags: Vec<Str> },
    Duplicate { handle: Option<Str>, header: Option<Str>, unique: Option<Str>, seconds: Option<u64>, last: bool },
    ValidNotify { uris: Vec<Str> },
    NotifyCap { m: Match, uri: Str, cap: Str, keys: Vec<Str> },
    ValidExtList { lists: Vec<Str> },
    Ihave { caps: Vec<String> },
    MailboxExists { names: Vec<Str> },
    MailboxIdExists { ids: Vec<Str> },
    SpecialUseExists { mailbox: Option<Str>, attrs: Vec<Str> },
    Metadata { m: Match, mailbox: Option<Str>, annotation: Str, keys: Vec<Str> },
    MetadataExists { mailbox: Option<Str>, annotations: Vec<Str> },
    Spam { percent: bool, m: Match, key: Str },
    Virus { m: Match, key: Str },
    Eval(Expr),
    CurrentDate { zone: Option<i64>, m: Match, part: DPart, keys: Vec<Str> },
    Date { zone: Zone, m: Match, header: Str, part: DPart, keys: Vec<Str> },
    Body { m: Match, of: BodyOf, subject: bool, keys: Vec<Str> },
    Convert { from: Str, to: Str },
    /// Unknown test: an error when reached.
    Unknown(String),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Zone {
    Local,
    Original,
    Fixed(i64),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum DPart {
    Year,
    Month,
    Day,
    Date,
    Julian,
    Hour,
    Minute,
    Second,
    Time,
    Iso8601,
    Std11,
    Zone,
    Weekday,
}

pub const DPARTS: [DPart; 13] = [
    DPart::Year,
    DPart::Month,
    DPart::Day,
    DPart::Date,
    DPart::Julian,
    DPart::Hour,
    DPart::Minute,
    DPart::Second,
    DPart::Time,
    DPart::Iso8601,
    DPart::Std11,
    DPart::Zone,
    DPart::Weekday,
];

impl DPart {
    pub fn text(self) -> &'static str {
        match self {
            DPart::Year => "year",
            DPart::Month => "month",
            DPart::Day => "day",
            DPart::Date => "date",
            DPart::Julian => "julian",
            DPart::Hour => "hour",
            DPart::Minute => "minute",
            DPart::Second => "second",
            DPart::Time => "time",
            DPart::Iso8601 => "iso8601",
            DPart::Std11 => "std11",
            DPart::Zone => "zone",
            DPart::Weekday => "weekday",
        }
    }
}

#[derive(Clone, Debug)]
pub enum Modif {
    Lower,
    Upper,
    LowerFirst,
    UpperFirst,
    QuoteWildcard,
    QuoteRegex,
    EncodeUrl,
    Length,
    Replace(Str, Str),
}

impl Modif {
    pub fn precedence(&self) -> u32 {
        match self {
            Modif::Lower => 41,
            Modif::Upper | Modif::Replace(..) => 40,
            Modif::LowerFirst => 31,
            Modif::UpperFirst => 30,
            Modif::QuoteRegex => 21,
            Modif::QuoteWildcard => 20,
            Modif::EncodeUrl => 15,
            Modif::Length => 10,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FlagAct {
    Set,
    Add,
    Remove,
}

#[derive(Clone, Debug, Default)]
pub struct Block {
    pub stmts: Vec<Stmt>,
    /// Locals declared in this block; they vanish when it is left.
    pub owned: Vec<DeclId>,
    /// `require` written inside this block (capability names).
    pub require: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Vacation {
    pub period: Option<(bool, u64)>, // (is_seconds, n)
    pub subject: Option<Str>,
    pub from: Option<Str>,
    pub addresses: Vec<Str>,
    pub mime: bool,
    pub handle: Option<Str>,
    pub fcc: Option<Fcc>,
    pub reason: Str,
}

#[derive(Clone, Debug)]
pub struct Fcc {
    pub mailbox: Str,
    pub flags: Vec<Str>,
    pub create: bool,
    pub mailbox_id: Option<Str>,
    pub special_use: Option<Str>,
}

#[derive(Clone, Debug)]
pub struct NotifyAct {
    pub from: Option<Str>,
    pub importance: Option<Str>,
    pub options: Vec<Str>,
    pub message: Option<Str>,
    pub fcc: Option<Fcc>,
    pub method: Str,
}

#[derive(Clone, Debug)]
pub enum Stmt {
    Keep { flags: Option<Vec<Str>> },
    Discard,
    Stop,
    Return,
    FileInto { copy: bool, create: bool, flags: Option<Vec<Str>>, mailbox_id: Option<Str>, special_use: Option<Str>, folder: Str },
    Redirect { copy: bool, list: bool, notify: Option<String>, ret: Option<String>, by: Option<By>, addr: Str },
    Reject { extended: bool, reason: Str },
    Set { mods: Vec<Modif>, local: bool, target: Target, value: Str },
    Let { target: Target, expr: Expr },
    Eval(Expr),
    Flag { act: FlagAct, var: Option<Target>, flags: Vec<Str> },
    If { arms: Vec<(Test, Block)>, els: Option<Block> },
    While { cond: Expr, body: Block },
    ForEveryPart { label: Option<String>, body: Block },
    Break { label: Option<String> },
    Continue,
    Include { global: bool, once: bool, optional: bool, name: Str },
    Global(Vec<String>),
    Error(Str),
    Unknown(String),
    AddHeader { last: bool, name: Str, value: Str },
    DeleteHeader { anychild: bool, index: Option<i32>, m: Match, name: Str, patterns: Vec<Str> },
    ExtractText { first: Option<usize>, mods: Vec<Modif>, target: Target },
    Replace { mime: bool, subject: Option<Str>, from: Option<Str>, value: Str },
    Enclose { subject: Option<Str>, headers: Vec<Str>, value: Str },
    Convert { from: Str, to: Str },
    Vacation(Box<Vacation>),
    Notify(Box<NotifyAct>),
}

#[derive(Clone, Debug, Default)]
pub struct Script {
    pub body: Block,
    /// Extra capabilities named in `require` that nothing uses.
    pub extra_caps: Vec<String>,
    pub uses_ihave: bool,
    /// Nothing is required: for compilers told not to check capabilities.
    pub bare: bool,
    /// How the script is written down: 0 is plain, anything else chooses
    /// comments, layout, letter case and notations of strings.
    pub style: u64,
}

// ---------------------------------------------------------------- rendering

pub struct Render {
    out: String,
    caps: BTreeSet<String>,
    indent: usize,
    style: Lcg,
}

/// Choices of layout, made the same way every time a script is rendered.
#[derive(Clone, Copy)]
struct Lcg(u64);

impl Lcg {
    fn below(&mut self, n: u64) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.0 >> 33) % n
    }
    /// Never for plain scripts.
    fn chance(&mut self, a: u64, b: u64) -> bool {
        self.0 != 0 && self.below(b) < a
    }
}

/// Write a script another way: white space, comments and letter case.
fn restyle(src: &str, style: u64) -> String {
    if style == 0 {
        return src.to_string();
    }
    let mut r = Lcg(style ^ 0x5151);
    let mut o = String::with_capacity(src.len() * 2);
    let b: Vec<char> = src.chars().collect();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        match c {
            '"' => {
                o.push(c);
                i += 1;
                while b[i] != '"' {
                    if b[i] == '\\' {
                        o.push(b[i]);
                        i += 1;
                    }
                    o.push(b[i]);
                    i += 1;
                }
                o.push('"');
            }
            't' if b[i..].starts_with(&['t', 'e', 'x', 't', ':', '\n']) => {
                // A multi-line string, up to the line with a single dot.
                let end = (i..b.len()).find(|k| b[*k..].starts_with(&['\n', '.', '\n'])).unwrap();
                let head = ["text:\n", "TEXT:\r\n", "text: # why not\n", "Text:\t\n"][r.below(4) as usize];
                o.push_str(head);
                o.extend(&b[i + 6..end]);
                o.push_str(if r.chance(1, 2) { "\n.\r\n" } else { "\n.\n" });
                i = end + 2;
            }
            ' ' | '\n' => {
                let plain = c.to_string();
                o.push_str(match r.below(14) {
                    0 => "\t",
                    1 => "\r\n",
                    2 => " /* a \"comment\"; stop; */ ",
                    3 => " # a comment \" { ; \r\n",
                    4 => "\n\n  ",
                    5 => "/* over\n two lines **/ ",
                    6 => "#\n",
                    _ => &plain,
                });
            }
            'a'..='z' | '0'..='9' | ':' => {
                let start = i;
                while i + 1 < b.len() && (b[i + 1].is_ascii_alphanumeric() || matches!(b[i + 1], '_' | '.')) {
                    i += 1;
                }
                let w: String = b[start..=i].iter().collect();
                let w = match r.below(8) {
                    0 => w.to_ascii_uppercase(),
                    1 => w.chars().map(|c| if r.below(2) == 0 { c.to_ascii_uppercase() } else { c }).collect(),
                    _ => w,
                };
                o.push_str(&w);
            }
            ';' | ',' | '(' | ')' | '[' | ']' | '{' | '}' if r.below(12) == 0 => {
                o.push_str([" ", "\n", "/**/"][r.below(3) as usize]);
                o.push(c);
            }
            c => o.push(c),
        }
        i += 1;
    }
    o
}

pub fn escape(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 4);
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\r' => o.push_str("\\r"),
            '\n' => o.push_str("\\n"),
            c => o.push(c),
        }
    }
    o
}

pub fn str_text(s: &Str) -> String {
    let mut o = String::new();
    for seg in s {
        match seg {
            Seg::Lit(l) => o.push_str(l),
            Seg::Var(v) => {
                let _ = write!(o, "${{{}}}", v.text());
            }
        }
    }
    o
}

pub fn render(s: &Script) -> String {
    let (body, _) = render_parts(s);
    let mut out = String::new();
    let list = required_caps(s);
    if !list.is_empty() {
        requires(&mut out, &list, &mut Lcg(if s.style == 0 { 0 } else { s.style ^ 0x7e9 }));
    }
    out.push_str(&body);
    restyle(&out, s.style)
}

/// One `require` or several, some naming a capability again.
fn requires(out: &mut String, list: &[String], style: &mut Lcg) {
    let mut rest = list;
    while !rest.is_empty() {
        let n = if style.chance(1, 3) { 1 + style.below(rest.len() as u64) as usize } else { rest.len() };
        let mut l: Vec<String> = rest[..n].iter().map(|c| format!("\"{}\"", escape(c))).collect();
        rest = &rest[n..];
        if style.chance(1, 8) {
            l.push(l[0].clone());
        }
        if l.len() == 1 && style.chance(1, 2) {
            let _ = writeln!(out, "require {};", l[0]);
        } else {
            let _ = writeln!(out, "require [{}];", l.join(", "));
        }
    }
}

/// Capabilities the rendered script requires at top level, in order.
pub fn required_caps(s: &Script) -> Vec<String> {
    let (_, caps) = render_parts(s);
    let mut list: Vec<String> = caps.into_iter().collect();
    for c in &s.extra_caps {
        if !list.contains(c) {
            list.push(c.clone());
        }
    }
    if s.bare {
        list.retain(|c| c == "ihave");
    }
    list
}

fn render_parts(s: &Script) -> (String, BTreeSet<String>) {
    let mut r = Render { out: String::new(), caps: BTreeSet::new(), indent: 0, style: Lcg(s.style) };
    if s.uses_ihave {
        r.cap("ihave");
    }
    r.block(&s.body);
    (r.out, r.caps)
}

/// Strings that must be constants.
fn constants(l: &[String]) -> String {
    let v: Vec<String> = l.iter().map(|s| format!("\"{}\"", escape(s))).collect();
    if v.len() == 1 {
        v[0].clone()
    } else {
        format!("[{}]", v.join(", "))
    }
}

impl Render {
    fn cap(&mut self, c: &str) {
        if !self.caps.contains(c) {
            self.caps.insert(c.to_string());
        }
    }

    fn line(&mut self, s: &str) {
        for _ in 0..self.indent {
            self.out.push_str("  ");
        }
        self.out.push_str(s);
        self.out.push('\n');
    }

    fn vref(&mut self, v: &VRef) {
        let _ = v;
        self.cap("variables");
    }

    fn s(&mut self, s: &Str) -> String {
        for seg in s {
            if let Seg::Var(v) = seg {
                self.vref(v);
            }
        }
        self.quote(s)
    }

    /// A string in one of its notations.
    fn quote(&mut self, s: &Str) -> String {
        let text = str_text(s);
        if text.ends_with('\n') && self.style.chance(1, 2) {
            // A dot at the start of a line is doubled; one that is not followed
            // by another may also stand alone.
            let alone = self.style.chance(1, 4);
            let lines: Vec<String> = text[..text.len() - 1]
                .split('\n')
                .map(|l| if l.starts_with('.') && !(alone && l.len() > 1 && !l.starts_with("..") && l != ".\r") { format!(".{l}") } else { l.to_string() })
                .collect();
            return format!("text:\n{}\n.\n", lines.join("\n"));
        }
        let undef = s.iter().any(|x| matches!(x, Seg::Var(VRef::Undef(_))));
        if !text.is_empty() && self.style.chance(1, 12) && !text.contains('%') && !crate::gen::is_number_text(&text) {
            // Some of the characters are written as their codes.
            self.cap("encoded-character");
            let mut o = String::new();
            for seg in s {
                match seg {
                    Seg::Lit(l) => {
                        for c in l.chars() {
                            if self.style.below(4) > 0 {
                                o.push_str(&escape(&c.to_string()));
                                continue;
                            }
                            let mut buf = [0; 4];
                            let hex: Vec<String> = c.encode_utf8(&mut buf).bytes().map(|b| format!("{b:02x}")).collect();
                            o.push_str(&match self.style.below(4) {
                                0 => format!("${{hex:{}}}", hex.join(" ")),
                                1 => format!("${{HEX:  {} }}", hex.join("\n").to_uppercase()),
                                2 => format!("${{unicode:{:06X}}}", c as u32),
                                _ => format!("${{Unicode: {:x}\t}}", c as u32),
                            });
                        }
                    }
                    Seg::Var(v) => {
                        let dollar = if !undef && self.style.below(3) == 0 { "${hex:24}" } else { "$" };
                        let _ = write!(o, "{dollar}{{{}}}", v.text());
                    }
                }
            }
            return format!("\"{o}\"");
        }
        // Line breaks may stand in a quoted string as they are.
        let raw = self.style.chance(1, 3);
        let e: Vec<String> = text.split('\n').map(escape).collect();
        format!("\"{}\"", e.join(if raw { "\n" } else { "\\n" }))
    }

    fn list(&mut self, l: &[Str]) -> String {
        if l.len() == 1 && !self.style.chance(1, 6) {
            self.s(&l[0])
        } else {
            let v: Vec<String> = l.iter().map(|s| self.s(s)).collect();
            format!("[{}]", v.join(", "))
        }
    }

    fn target(&mut self, t: &Target) -> String {
        self.cap("variables");
        format!("\"{}\"", t.text())
    }

    fn modif(&mut self, m: &Modif) -> String {
        match m {
            Modif::Lower => ":lower".into(),
            Modif::Upper => ":upper".into(),
            Modif::LowerFirst => ":lowerfirst".into(),
            Modif::UpperFirst => ":upperfirst".into(),
            Modif::QuoteWildcard => ":quotewildcard".into(),
            Modif::QuoteRegex => {
                self.cap("regex");
                ":quoteregex".into()
            }
            Modif::EncodeUrl => {
                self.cap("enotify");
                ":encodeurl".into()
            }
            Modif::Length => ":length".into(),
            Modif::Replace(a, b) => format!(":replace {} {}", self.s(a), self.s(b)),
        }
    }

    /// With every operation in parentheses, or only where they are needed.
    pub fn expr(&mut self, e: &Expr) -> String {
        if self.style.chance(2, 3) {
            let tight = self.style.chance(1, 2);
            Self::expr_min(e, 0, tight)
        } else {
            Self::expr_full(e)
        }
    }

    fn expr_full(e: &Expr) -> String {
        match e {
            Expr::Neg(e) => format!("(-{})", Self::expr_full(e)),
            Expr::Not(e) => format!("(!{})", Self::expr_full(e)),
            Expr::Bin(op, l, r) => format!("({} {} {})", Self::expr_full(l), op.text(), Self::expr_full(r)),
            e => Self::expr_leaf(e, Self::expr_full),
        }
    }

    fn expr_min(e: &Expr, outer: u8, tight: bool) -> String {
        match e {
            Expr::Neg(x) | Expr::Not(x) => {
                let inner = match **x {
                    Expr::Bin(..) | Expr::Neg(_) | Expr::Not(_) => format!("({})", Self::expr_min(x, 0, tight)),
                    _ => Self::expr_min(x, 0, tight),
                };
                format!("{}{inner}", if matches!(e, Expr::Neg(_)) { "-" } else { "!" })
            }
            Expr::Bin(op, l, r) => {
                let p = op.precedence();
                let (l, r) = (Self::expr_min(l, p, tight), Self::expr_min(r, p + 1, tight));
                // A sign may belong to the name of a header field.
                let s = if tight && !l.contains("header.") { "" } else { " " };
                let o = format!("{l}{s}{}{s}{r}", op.text());
                if p < outer {
                    format!("({o})")
                } else {
                    o
                }
            }
            e => Self::expr_leaf(e, |e| Self::expr_min(e, 0, tight)),
        }
    }

    fn expr_leaf(e: &Expr, sub: impl Fn(&Expr) -> String) -> String {
        match e {
            Expr::Int(i) => i.to_string(),
            Expr::Word(b) => b.to_string(),
            Expr::Float(_, t) => t.clone(),
            Expr::Str(s) => format!("'{s}'"),
            Expr::Var(v) => v.text(),
            Expr::Call { name, args, .. } => {
                let a: Vec<String> = args.iter().map(sub).collect();
                format!("{}({})", name, a.join(", "))
            }
            Expr::Index(a, i) => {
                let i = sub(i);
                format!("{}[{i}{}]", sub(a), if i.contains("header.") { " " } else { "" })
            }
            Expr::Array(v) => {
                let a: Vec<String> = v.iter().map(sub).collect();
                // A bracket right after an indexed field variable belongs to it.
                format!("[{}{}]", a.join(", "), if a.last().is_some_and(|x| x.contains("header.")) { " " } else { "" })
            }
            _ => unreachable!(),
        }
    }

    fn m(&mut self, m: &Match) -> String {
        let mut o = String::new();
        match m.cmp {
            Cmp::Default => (),
            Cmp::Casemap => o.push_str(":comparator \"i;ascii-casemap\" "),
            Cmp::Octet => o.push_str(":comparator \"i;octet\" "),
            Cmp::Numeric => {
                self.cap("comparator-i;ascii-numeric");
                o.push_str(":comparator \"i;ascii-numeric\" ")
            }
        }
        match m.mtype {
            MType::Is => o.push_str(":is"),
            MType::Contains => o.push_str(":contains"),
            MType::Matches => o.push_str(":matches"),
            MType::Regex => {
                self.cap("regex");
                o.push_str(":regex")
            }
            MType::Value(r) => {
                self.cap("relational");
                let _ = write!(o, ":value \"{}\"", r.text());
            }
            MType::Count(r) => {
                self.cap("relational");
                let _ = write!(o, ":count \"{}\"", r.text());
            }
            MType::List => {
                self.cap("extlists");
                o.push_str(":list")
            }
        }
        o
    }

    fn index(&mut self, i: &Option<i32>) -> String {
        match i {
            None => String::new(),
            Some(i) => {
                self.cap("index");
                if *i >= 0 {
                    format!(":index {i} ")
                } else {
                    format!(":index {} :last ", -i)
                }
            }
        }
    }

    fn anychild(&mut self, a: bool) -> &'static str {
        if a {
            self.cap("mime");
            ":mime :anychild "
        } else {
            ""
        }
    }

    fn apart(&mut self, p: APart) -> &'static str {
        match p {
            APart::Default => "",
            APart::All => ":all ",
            APart::Local => ":localpart ",
            APart::Domain => ":domain ",
            APart::User => {
                self.cap("subaddress");
                ":user "
            }
            APart::Detail => {
                self.cap("subaddress");
                ":detail "
            }
        }
    }

    pub fn test(&mut self, t: &Test) -> String {
        let o = self.bare_test(t);
        let simple = match t {
            Test::AnyOf(_) | Test::AllOf(_) => false,
            Test::Not(t) => !matches!(**t, Test::Not(_) | Test::AnyOf(_) | Test::AllOf(_)) && !o.starts_with("not ("),
            _ => true,
        };
        match (simple, self.style.chance(1, 20)) {
            (true, true) => format!("({o})"),
            _ => o,
        }
    }

    fn bare_test(&mut self, t: &Test) -> String {
        match t {
            Test::True => "true".into(),
            Test::False => "false".into(),
            Test::Not(t) => format!("not {}", self.bare_test(t)),
            Test::AnyOf(v) => {
                let a: Vec<String> = v.iter().enumerate().map(|(i, t)| if i == 0 { self.test(t) } else { self.bare_test(t) }).collect();
                format!("anyof ({})", a.join(", "))
            }
            Test::AllOf(v) => {
                let a: Vec<String> = v.iter().enumerate().map(|(i, t)| if i == 0 { self.test(t) } else { self.bare_test(t) }).collect();
                format!("allof ({})", a.join(", "))
            }
            Test::Header { mime, anychild, index, m, names, keys } => {
                let mut o = String::from("header ");
                if !matches!(mime, MimeOpt::None) || *anychild {
                    self.cap("mime");
                    o.push_str(":mime ");
                    match mime {
                        MimeOpt::None => (),
                        MimeOpt::Type => o.push_str(":type "),
                        MimeOpt::Subtype => o.push_str(":subtype "),
                        MimeOpt::ContentType => o.push_str(":contenttype "),
                        MimeOpt::Param(p) => {
                            let _ = write!(o, ":param {} ", self.list(p));
                        }
                    }
                    if *anychild {
                        o.push_str(":anychild ");
                    }
                }
                let _ = write!(o, "{}{} {} {}", self.index(index), self.m(m), self.list(names), self.list(keys));
                o
            }
            Test::Address { part, anychild, index, m, names, keys } => format!(
                "address {}{}{}{} {} {}",
                self.anychild(*anychild),
                self.index(index),
                self.apart(*part),
                self.m(m),
                self.list(names),
                self.list(keys)
            ),
            Test::Envelope { zone, part, m, names, keys } => {
                self.cap("envelope");
                let z = match zone {
                    Some(z) => {
                        self.cap("envelope-deliverby");
                        format!(":zone \"{}\" ", zone_text(*z))
                    }
                    None => String::new(),
                };
                let mut n = Vec::new();
                for f in names {
                    match f {
                        EnvF::From | EnvF::To => (),
                        EnvF::Orcpt | EnvF::Envid | EnvF::Ret | EnvF::Notify => self.cap("envelope-dsn"),
                        _ => self.cap("envelope-deliverby"),
                    }
                    n.push(format!("\"{}\"", f.text()));
                }
                let nl = if n.len() == 1 { n[0].clone() } else { format!("[{}]", n.join(", ")) };
                format!("envelope {z}{}{} {} {}", self.apart(*part), self.m(m), nl, self.list(keys))
            }
            Test::Exists { anychild, names } => format!("exists {}{}", self.anychild(*anychild), self.list(names)),
            Test::Size { over, limit } => format!("size {} {}", if *over { ":over" } else { ":under" }, limit),
            Test::String { m, sources, keys } => {
                self.cap("variables");
                format!("string {} {} {}", self.m(m), self.list(sources), self.list(keys))
            }
            Test::Environment { m, names, keys } => {
                self.cap("environment");
                format!("environment {} {} {}", self.m(m), constants(names), self.list(keys))
            }
            Test::HasFlag { m, vars, flags } => {
                self.cap("imap4flags");
                if vars.is_empty() {
                    format!("hasflag {} {}", self.m(m), self.list(flags))
                } else {
                    self.cap("variables");
                    let v: Vec<String> = vars.iter().map(|t| self.target(t)).collect();
                    let vl = if v.len() == 1 { v[0].clone() } else { format!("[{}]", v.join(", ")) };
                    format!("hasflag {} {} {}", self.m(m), vl, self.list(flags))
                }
            }
            Test::Duplicate { handle, header, unique, seconds, last } => {
                self.cap("duplicate");
                let mut o = String::from("duplicate");
                if let Some(h) = handle {
                    let _ = write!(o, " :handle {}", self.s(h));
                }
                if let Some(h) = header {
                    let _ = write!(o, " :header {}", self.s(h));
                }
                if let Some(h) = unique {
                    let _ = write!(o, " :uniqueid {}", self.s(h));
                }
                if let Some(n) = seconds {
                    let _ = write!(o, " :seconds {n}");
                }
                if *last {
                    o.push_str(" :last");
                }
                o
            }
            Test::ValidNotify { uris } => {
                self.cap("enotify");
                format!("valid_notify_method {}", self.list(uris))
            }
            Test::NotifyCap { m, uri, cap, keys } => {
                self.cap("enotify");
                format!("notify_method_capability {} {} {} {}", self.m(m), self.s(uri), self.s(cap), self.list(keys))
            }
            Test::ValidExtList { lists } => {
                self.cap("extlists");
                format!("valid_ext_list {}", self.list(lists))
            }
            Test::Ihave { caps } => {
                self.cap("ihave");
                format!("ihave {}", constants(caps))
            }
            Test::MailboxExists { names } => {
                self.cap("mailbox");
                format!("mailboxexists {}", self.list(names))
            }
            Test::MailboxIdExists { ids } => {
                self.cap("mailboxid");
                format!("mailboxidexists {}", self.list(ids))
            }
            Test::SpecialUseExists { mailbox, attrs } => {
                self.cap("special-use");
                match mailbox {
                    Some(m) => format!("specialuse_exists {} {}", self.s(m), self.list(attrs)),
                    None => format!("specialuse_exists {}", self.list(attrs)),
                }
            }
            Test::Metadata { m, mailbox, annotation, keys } => match mailbox {
                Some(mb) => {
                    self.cap("mboxmetadata");
                    format!("metadata {} {} {} {}", self.m(m), self.s(mb), self.s(annotation), self.list(keys))
                }
                None => {
                    self.cap("servermetadata");
                    format!("servermetadata {} {} {}", self.m(m), self.s(annotation), self.list(keys))
                }
            },
            Test::MetadataExists { mailbox, annotations } => match mailbox {
                Some(mb) => {
                    self.cap("mboxmetadata");
                    format!("metadataexists {} {}", self.s(mb), self.list(annotations))
                }
                None => {
                    self.cap("servermetadata");
                    format!("servermetadataexists {}", self.list(annotations))
                }
            },
            Test::Spam { percent, m, key } => {
                self.cap(if *percent { "spamtestplus" } else { "spamtest" });
                format!("spamtest {}{} {}", if *percent { ":percent " } else { "" }, self.m(m), self.s(key))
            }
            Test::Virus { m, key } => {
                self.cap("virustest");
                format!("virustest {} {}", self.m(m), self.s(key))
            }
            Test::Eval(e) => {
                self.cap("vnd.stalwart.expressions");
                format!("eval \"{}\"", escape(&self.expr(e)))
            }
            Test::CurrentDate { zone, m, part, keys } => {
                self.cap("date");
                let z = match zone {
                    Some(z) => format!(":zone \"{}\" ", zone_text(*z)),
                    None => String::new(),
                };
                format!("currentdate {}{} \"{}\" {}", z, self.m(m), part.text(), self.list(keys))
            }
            Test::Date { zone, m, header, part, keys } => {
                self.cap("date");
                let z = match zone {
                    Zone::Fixed(z) => format!(":zone \"{}\" ", zone_text(*z)),
                    Zone::Original => ":originalzone ".to_string(),
                    Zone::Local => String::new(),
                };
                format!("date {}{} {} \"{}\" {}", z, self.m(m), self.s(header), part.text(), self.list(keys))
            }
            Test::Body { m, of, subject, keys } => {
                self.cap("body");
                let of = match of {
                    BodyOf::Raw => ":raw".to_string(),
                    BodyOf::Text => ":text".into(),
                    BodyOf::Content(v) => format!(":content {}", self.list(v)),
                };
                format!("body {}{} {} {}", if *subject { ":subject " } else { "" }, of, self.m(m), self.list(keys))
            }
            Test::Convert { from, to } => {
                self.cap("convert");
                format!("convert {} {} [\"q=1\"]", self.s(from), self.s(to))
            }
            Test::Unknown(n) => {
                self.cap("ihave");
                let a = match if self.style.chance(1, 1) { self.style.below(6) } else { 0 } {
                    1 => "",
                    2 => " :is [\"a\", \")\"] 7",
                    3 => " (b, c (\"d\", e))",
                    4 => " :tag (not x \"y\")",
                    _ => " \"x\"",
                };
                format!("{n}{a}")
            }
        }
    }

    fn fcc(&mut self, f: &Option<Fcc>) -> String {
        match f {
            None => String::new(),
            Some(f) => {
                self.cap("fcc");
                let mut o = format!(":fcc {} ", self.s(&f.mailbox));
                if f.create {
                    self.cap("mailbox");
                    o.push_str(":create ");
                }
                if let Some(m) = &f.mailbox_id {
                    self.cap("mailboxid");
                    let _ = write!(o, ":mailboxid {} ", self.s(m));
                }
                if let Some(m) = &f.special_use {
                    self.cap("special-use");
                    let _ = write!(o, ":specialuse {} ", self.s(m));
                }
                if !f.flags.is_empty() {
                    self.cap("imap4flags");
                    let _ = write!(o, ":flags {} ", self.list(&f.flags));
                }
                o
            }
        }
    }

    pub fn block(&mut self, b: &Block) {
        if !b.require.is_empty() {
            let mut o = String::new();
            requires(&mut o, &b.require, &mut self.style);
            o.lines().for_each(|l| self.line(l));
        }
        for s in &b.stmts {
            self.stmt(s);
        }
    }

    fn braces(&mut self, head: &str, b: &Block) {
        self.line(&format!("{head} {{"));
        self.indent += 1;
        self.block(b);
        self.indent -= 1;
        self.line("}");
    }

    fn stmt(&mut self, s: &Stmt) {
        let t = match s {
            Stmt::Keep { flags } => match flags {
                Some(f) => {
                    self.cap("imap4flags");
                    format!("keep :flags {};", self.list(f))
                }
                None => "keep;".into(),
            },
            Stmt::Discard => "discard;".into(),
            Stmt::Stop => "stop;".into(),
            Stmt::Return => {
                self.cap("include");
                "return;".into()
            }
            Stmt::FileInto { copy, create, flags, mailbox_id, special_use, folder } => {
                self.cap("fileinto");
                let mut o = String::from("fileinto ");
                if *copy {
                    self.cap("copy");
                    o.push_str(":copy ");
                }
                if *create {
                    self.cap("mailbox");
                    o.push_str(":create ");
                }
                if let Some(f) = flags {
                    self.cap("imap4flags");
                    let _ = write!(o, ":flags {} ", self.list(f));
                }
                if let Some(m) = mailbox_id {
                    self.cap("mailbox");
                    self.cap("mailboxid");
                    let _ = write!(o, ":mailboxid {} ", self.s(m));
                }
                if let Some(m) = special_use {
                    self.cap("special-use");
                    let _ = write!(o, ":specialuse {} ", self.s(m));
                }
                let _ = write!(o, "{};", self.s(folder));
                o
            }
            Stmt::Redirect { copy, list, notify, ret, by, addr } => {
                let mut o = String::from("redirect ");
                if *copy {
                    self.cap("copy");
                    o.push_str(":copy ");
                }
                if *list {
                    self.cap("extlists");
                    o.push_str(":list ");
                }
                if let Some(n) = notify {
                    self.cap("redirect-dsn");
                    let _ = write!(o, ":notify \"{n}\" ");
                }
                if let Some(n) = ret {
                    self.cap("redirect-dsn");
                    let _ = write!(o, ":ret \"{n}\" ");
                }
                if let Some(by) = by {
                    self.cap("redirect-deliverby");
                    if by.trace {
                        o.push_str(":bytrace ");
                    }
                    match &by.until {
                        Ok(n) => {
                            let _ = write!(o, ":bytimerelative {n} ");
                        }
                        Err(t) => {
                            let _ = write!(o, ":bytimeabsolute {} ", self.s(t));
                        }
                    }
                    if let Some(mode) = &by.mode {
                        let _ = write!(o, ":bymode \"{mode}\" ");
                    }
                }
                let _ = write!(o, "{};", self.s(addr));
                o
            }
            Stmt::Reject { extended, reason } => {
                self.cap(if *extended { "ereject" } else { "reject" });
                format!("{} {};", if *extended { "ereject" } else { "reject" }, self.s(reason))
            }
            Stmt::Set { mods, local, target, value } => {
                let mut o = String::from("set ");
                for m in mods {
                    let m = self.modif(m);
                    let _ = write!(o, "{m} ");
                }
                if *local {
                    o.push_str(":local ");
                }
                let _ = write!(o, "{} {};", self.target(target), self.s(value));
                o
            }
            Stmt::Let { target, expr } => {
                self.cap("vnd.stalwart.expressions");
                format!("let {} \"{}\";", self.target(target), escape(&self.expr(expr)))
            }
            Stmt::Eval(e) => {
                self.cap("vnd.stalwart.expressions");
                format!("eval \"{}\";", escape(&self.expr(e)))
            }
            Stmt::Flag { act, var, flags } => {
                self.cap("imap4flags");
                let n = match act {
                    FlagAct::Set => "setflag",
                    FlagAct::Add => "addflag",
                    FlagAct::Remove => "removeflag",
                };
                match var {
                    Some(v) => format!("{} {} {};", n, self.target(v), self.list(flags)),
                    None => format!("{} {};", n, self.list(flags)),
                }
            }
            Stmt::If { arms, els } => {
                for (i, (t, b)) in arms.iter().enumerate() {
                    let t = self.test(t);
                    let head = format!("{} {}", if i == 0 { "if" } else { "elsif" }, t);
                    self.braces(&head, b);
                }
                if let Some(b) = els {
                    self.braces("else", b);
                }
                return;
            }
            Stmt::While { cond, body } => {
                self.cap("vnd.stalwart.while");
                let head = format!("while \"{}\"", escape(&self.expr(cond)));
                self.braces(&head, body);
                return;
            }
            Stmt::ForEveryPart { label, body } => {
                self.cap("foreverypart");
                let head = match label {
                    Some(l) => format!("foreverypart :name \"{l}\""),
                    None => "foreverypart".to_string(),
                };
                self.braces(&head, body);
                return;
            }
            Stmt::Break { label } => match label {
                Some(l) => {
                    self.cap("foreverypart");
                    format!("break :name \"{l}\";")
                }
                None => "break;".into(),
            },
            Stmt::Continue => {
                self.cap("vnd.stalwart.while");
                "continue;".into()
            }
            Stmt::Include { global, once, optional, name } => {
                self.cap("include");
                format!(
                    "include {}{}{}{};",
                    if *global { ":global " } else { ":personal " },
                    if *once { ":once " } else { "" },
                    if *optional { ":optional " } else { "" },
                    self.s(name)
                )
            }
            Stmt::Global(v) => {
                self.cap("include");
                self.cap("variables");
                let l: Vec<String> = v.iter().map(|c| format!("\"{c}\"")).collect();
                if l.len() == 1 {
                    format!("global {};", l[0])
                } else {
                    format!("global [{}];", l.join(", "))
                }
            }
            Stmt::Error(m) => {
                self.cap("ihave");
                format!("error {};", self.s(m))
            }
            Stmt::Unknown(n) => {
                self.cap("ihave");
                // Whatever its arguments and block are
                let a = match if self.style.chance(1, 1) { self.style.below(8) } else { 0 } {
                    1 => ";",
                    2 => " :tag 5 [\"a\", \"b;\"];",
                    3 => " { keep; if true { discard; } keep; }",
                    4 => " anyof (other \"{\", not true) { frob { x; } }",
                    5 => " :a (b, c (d)) \"\" { }",
                    _ => " \"argument\";",
                };
                format!("{n}{a}")
            }
            Stmt::AddHeader { last, name, value } => {
                self.cap("editheader");
                format!("addheader {}{} {};", if *last { ":last " } else { "" }, self.s(name), self.s(value))
            }
            Stmt::DeleteHeader { anychild, index, m, name, patterns } => {
                self.cap("editheader");
                let mut o = format!("deleteheader {}", self.anychild(*anychild));
                if let Some(i) = index {
                    let _ = write!(o, ":index {} ", i.abs());
                    if *i < 0 {
                        o.push_str(":last ");
                    }
                }
                if !patterns.is_empty() {
                    let _ = write!(o, "{} ", self.m(m));
                }
                let _ = write!(o, "{}", self.s(name));
                if !patterns.is_empty() {
                    let _ = write!(o, " {}", self.list(patterns));
                }
                o.push(';');
                o
            }
            Stmt::ExtractText { first, mods, target } => {
                self.cap("extracttext");
                self.cap("foreverypart");
                let mut o = String::from("extracttext ");
                for m in mods {
                    let m = self.modif(m);
                    let _ = write!(o, "{m} ");
                }
                if let Some(f) = first {
                    let _ = write!(o, ":first {f} ");
                }
                let _ = write!(o, "{};", self.target(target));
                o
            }
            Stmt::Replace { mime, subject, from, value } => {
                self.cap("replace");
                let mut o = String::from("replace ");
                if *mime {
                    o.push_str(":mime ");
                }
                if let Some(s) = subject {
                    let _ = write!(o, ":subject {} ", self.s(s));
                }
                if let Some(s) = from {
                    let _ = write!(o, ":from {} ", self.s(s));
                }
                let _ = write!(o, "{};", self.s(value));
                o
            }
            Stmt::Enclose { subject, headers, value } => {
                self.cap("enclose");
                let mut o = String::from("enclose ");
                if let Some(s) = subject {
                    let _ = write!(o, ":subject {} ", self.s(s));
                }
                if !headers.is_empty() {
                    let _ = write!(o, ":headers {} ", self.list(headers));
                }
                let _ = write!(o, "{};", self.s(value));
                o
            }
            Stmt::Convert { from, to } => {
                self.cap("convert");
                format!("convert {} {} [\"q=1\"];", self.s(from), self.s(to))
            }
            Stmt::Vacation(v) => {
                self.cap("vacation");
                let mut o = String::from("vacation ");
                if let Some((secs, n)) = v.period {
                    if secs {
                        self.cap("vacation-seconds");
                        let _ = write!(o, ":seconds {n} ");
                    } else {
                        let _ = write!(o, ":days {n} ");
                    }
                }
                if let Some(s) = &v.subject {
                    let _ = write!(o, ":subject {} ", self.s(s));
                }
                if let Some(s) = &v.from {
                    let _ = write!(o, ":from {} ", self.s(s));
                }
                if !v.addresses.is_empty() {
                    let _ = write!(o, ":addresses {} ", self.list(&v.addresses));
                }
                if v.mime {
                    o.push_str(":mime ");
                }
                if let Some(s) = &v.handle {
                    let _ = write!(o, ":handle {} ", self.s(s));
                }
                o.push_str(&self.fcc(&v.fcc));
                let _ = write!(o, "{};", self.s(&v.reason));
                o
            }
            Stmt::Notify(n) => {
                self.cap("enotify");
                let mut o = String::from("notify ");
                if let Some(s) = &n.from {
                    let _ = write!(o, ":from {} ", self.s(s));
                }
                if let Some(s) = &n.importance {
                    let _ = write!(o, ":importance {} ", self.s(s));
                }
                if !n.options.is_empty() {
                    let _ = write!(o, ":options {} ", self.list(&n.options));
                }
                if let Some(s) = &n.message {
                    let _ = write!(o, ":message {} ", self.s(s));
                }
                o.push_str(&self.fcc(&n.fcc));
                let _ = write!(o, "{};", self.s(&n.method));
                o
            }
        };
        self.line(&t);
    }
}

pub fn zone_text(minutes: i64) -> String {
    let s = if minutes < 0 { '-' } else { '+' };
    let m = minutes.abs();
    format!("{}{:02}{:02}", s, m / 60, m % 60)
}
