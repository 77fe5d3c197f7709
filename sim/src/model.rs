//! Reference model: an interpreter of the generated scripts written from the
//! language description.  It replays the recorded history of one delivery: at
//! every point where the language says the host must see something, the next
//! recorded observation has to be exactly that.

use crate::ast::*;
use crate::mail::*;
use crate::oracle::*;
use crate::val::{self, Op, Val};
use sieve::compiler::grammar::actions::action_redirect::{ByMode, ByTime, Notify, NotifyItem, Ret};
use sieve::{Event, Importance, Mailbox, MatchAs, Recipient, Script as SName};
use std::collections::{BTreeSet, HashMap};

#[derive(Clone, Debug)]
pub enum Obs {
    Event(Event),
    Err(String),
    End,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Reply {
    True,
    False,
    Val(Val2),
    /// Index into the script library.
    Script(usize),
    /// No further call was made after this observation.
    Abandon,
}

/// `Val` with a usable PartialEq for replies.
#[derive(Clone, Debug)]
pub struct Val2(pub Val);
impl PartialEq for Val2 {
    fn eq(&self, o: &Val2) -> bool {
        self.0.same(&o.0)
    }
}

/// Histories are copied often; their steps are shared.
pub type Step = std::sync::Arc<StepData>;

#[derive(Clone, Debug)]
pub struct StepData {
    pub obs: Obs,
    /// Simulated time (seconds) of the call that returned it.
    pub at: i64,
    pub reply: Reply,
    /// At the end of a delivery: what it left in the context.
    pub left: Option<Box<Left>>,
}

/// What the host finds in the context when a delivery has ended.
#[derive(Clone, Debug)]
pub struct Left {
    pub globals: Vec<(String, Val)>,
    pub edited: bool,
}

impl Left {
    pub fn same(&self, o: &Left) -> bool {
        self.edited == o.edited && self.globals.len() == o.globals.len() && self.globals.iter().zip(&o.globals).all(|((a, x), (b, y))| a == b && x.same(y))
    }
}

#[derive(Clone, Debug)]
pub struct Unit {
    pub global: bool,
    pub name: String,
    pub ast: Script,
    pub caps: Vec<String>,
}

/// Everything a delivery is given, apart from script and message.
#[derive(Clone, Debug)]
pub struct Settings {
    pub allowed: BTreeSet<String>,
    pub cpu: usize,
    pub max_includes: usize,
    pub max_redirects: usize,
    pub max_out: usize,
    pub max_received: usize,
    pub max_var: usize,
    pub max_header: usize,
    pub dup_expiry: u64,
    pub vac_expiry: u64,
    pub protected: Vec<String>,
    pub env: Vec<(String, Val)>,
    pub notify_uris: Vec<String>,
    pub ext_lists: Vec<String>,
    pub use_orcpt: bool,
    pub default_subject: String,
    pub subject_prefix: String,
    pub hostname: String,
    /// (mailbox or "", annotation, value)
    pub metadata: Vec<(String, String, String)>,
    // per delivery
    pub user: String,
    pub full_name: String,
    pub envelope: Vec<(EnvF, String)>,
    pub ctx_env: Vec<(String, Val)>,
    pub ctx_metadata: Vec<(String, String, String)>,
    pub globals: Vec<(String, Val)>,
    pub spam: u32,
    pub virus: u32,
    pub created_at: i64,
    /// An ordinary message to the user (only steers the generator).
    pub calm: bool,
}

#[derive(Debug)]
pub enum Halt {
    /// The recorded history disagrees; (step index, what was expected).
    Mismatch(usize, String),
    /// The delivery was abandoned by the simulated host here.
    Abandoned,
    /// The delivery reported its budget exhausted.
    Cpu,
    /// A runtime error was expected and seen.
    Raised,
}

type R<T> = Result<T, Halt>;

#[derive(Clone, Debug, PartialEq)]
enum Disp {
    Keep(Vec<String>),
    Discard,
    Gone,
}

enum Flow {
    Next,
    Break(Option<String>),
    Continue,
    Return,
    Stop,
}

enum Exp {
    Ev(Event),
    Created(usize, Content),
    Func(u32, Vec<Val>),
    Err(String),
    End,
}

#[derive(Clone)]
enum Content {
    Exact(Vec<u8>),
    Gen { hdrs: Vec<(String, String)>, body: String },
}

#[derive(Default)]
struct Frame {
    locals: HashMap<DeclId, Val>,
    caps: Vec<Val>,
}

#[derive(Clone)]
struct Snap {
    disp: Disp,
    gflags: Vec<String>,
    changed: bool,
    last_id: usize,
    main_id: usize,
    msg: Option<Msg>,
}

#[derive(Default, Debug, Clone)]
pub struct Seen {
    pub stmts: u64,
    pub loops: u64,
    pub includes: u64,
    pub calls: u64,
    pub queries: u64,
    pub edits: u64,
    pub parts: u64,
    pub vac_conditions: u64,
    pub vac_suppressed: u64,
}

pub struct Model<'a> {
    st: &'a Settings,
    lib: &'a [Unit],
    trace: &'a [Step],
    at: usize,
    pub msg: Msg,
    received: Msg,
    body: std::cell::OnceCell<[Option<String>; 4]>,
    /// Date texts the model can read, with their instants.
    dates: HashMap<String, i64>,
    msg_len: usize,
    changed: bool,
    ever_edited: bool,
    last_id: usize,
    main_id: usize,
    globals: HashMap<String, Val>,
    envelope: Vec<(EnvF, Val)>,
    disp: Disp,
    part: usize,
    /// Loops over message parts in progress: the part outside, the parts left.
    loops: Vec<(usize, std::collections::VecDeque<usize>)>,
    cache: HashMap<(bool, String), usize>,
    depth: usize,
    /// Statements certainly executed (each is at least one instruction).
    ticks: u64,
    /// The budget ran out.
    over: bool,
    /// Generous count of everything done (bounds instructions from above).
    work: u64,
    redirects: usize,
    out: usize,
    fr: Frame,
    snaps: Vec<Snap>,
    track: bool,
    pub seen: Seen,
    /// What each question about a duplicate is about: step, period, whether
    /// the period starts again, and the parts of the identifier.
    pub asked: Vec<(usize, u64, bool, Vec<String>)>,
}

pub fn normalise(b: &[u8]) -> Vec<u8> {
    // Tokens "hex.hex.hex" of generated boundaries and message ids.
    let hexd = |c: u8| c.is_ascii_digit() || (b'a'..=b'f').contains(&c);
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        let prev_ok = i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'.');
        if prev_ok && hexd(b[i]) {
            let mut j = i;
            let mut groups = 0;
            let mut len = 0;
            loop {
                let s = j;
                while j < b.len() && hexd(b[j]) {
                    j += 1;
                }
                // Other runs of digits are numbers that a script has computed.
                if j == s || (groups > 0 && !(5..=16).contains(&(j - s))) {
                    break;
                }
                groups += 1;
                len += j - s;
                if groups < 3 && j < b.len() && b[j] == b'.' {
                    j += 1;
                } else {
                    break;
                }
            }
            let end_ok = j >= b.len() || !b[j].is_ascii_alphanumeric();
            if groups == 3 && len >= 20 && end_ok {
                o.extend_from_slice(b"#UID#");
                i = j;
                continue;
            }
        }
        o.push(b[i]);
        i += 1;
    }
    o
}

fn parse_fields(msg: &[u8]) -> (Vec<(String, String)>, String) {
    let text = String::from_utf8_lossy(msg).into_owned();
    let mut out: Vec<(String, String)> = Vec::new();
    let mut rest = text.as_str();
    loop {
        let (line, tail) = match rest.find('\n') {
            Some(p) => (&rest[..p], &rest[p + 1..]),
            None => (rest, ""),
        };
        let line = line.strip_suffix('\r').unwrap_or(line);
        if line.is_empty() {
            return (out, tail.to_string());
        }
        // A lone CR is treated by many receivers as a line end.
        for (n, piece) in line.split('\r').enumerate() {
            if n == 0 && piece.starts_with([' ', '\t']) {
                if let Some(l) = out.last_mut() {
                    l.1.push_str(piece);
                    continue;
                }
            }
            match piece.split_once(':') {
                Some((a, b)) => out.push((a.to_string(), b.to_string())),
                None => out.push((format!("<malformed line: {piece}>"), String::new())),
            }
        }
        if tail.is_empty() {
            return (out, String::new());
        }
        rest = tail;
    }
}

fn same_event(e: &Event, g: &Event) -> bool {
    if let (Event::ListContains { lists, values, match_as }, Event::ListContains { lists: gl, values: gv, match_as: gm }) = (e, g) {
        return lists == gl && match_as == gm && values.len() == gv.len() && values.iter().zip(gv).all(|(a, b)| same_id(a, b));
    }
    e == g
}

/// Message-ID the model gives to generated messages.
pub const MODEL_ID: &str = "aaaaaaaaaaaa.bbbbbbbbbb.cccccccccc";

/// Equal up to generated Message-IDs.
fn same_id(want: &str, got: &str) -> bool {
    // Line breaks of folded fields, and the brackets of generated identifiers,
    // may or may not be part of the identifier (known-findings.txt).
    let (mut want, mut got) = (want.replace(['\r', '\n'], ""), got.replace(['\r', '\n'], ""));
    if want.contains(MODEL_ID) {
        (want, got) = (want.replace(['<', '>'], ""), got.replace(['<', '>'], ""));
    }
    match want.split_once(MODEL_ID) {
        Some((a, b)) => got
            .strip_prefix(a)
            .and_then(|g| g.strip_suffix(b))
            .is_some_and(|g| g.len() >= 20 && g.split('.').count() == 3 && g.chars().all(|c| c == '.' || c.is_ascii_hexdigit())),
        None => want == got,
    }
}

impl Exp {
    fn text(&self) -> String {
        match self {
            Exp::Ev(e) => format!("{e:?}"),
            Exp::Created(id, Content::Exact(b)) => format!("CreatedMessage {id} with content:\n{}", String::from_utf8_lossy(b)),
            Exp::Created(id, Content::Gen { hdrs, body }) => format!("CreatedMessage {id} with fields {hdrs:?} body {body:?}"),
            Exp::Func(id, a) => format!("Function {id} {a:?}"),
            Exp::Err(e) => format!("error {e}"),
            Exp::End => "end of delivery".into(),
        }
    }

    fn check(&self, o: &Obs) -> bool {
        match (self, o) {
            (Exp::Ev(Event::DuplicateId { id, expiry, last }), Obs::Event(Event::DuplicateId { id: gid, expiry: ge, last: gl })) => {
                same_id(id, gid) && expiry == ge && last == gl
            }
            (Exp::Ev(e), Obs::Event(g)) => same_event(e, g),
            (Exp::Created(id, c), Obs::Event(Event::CreatedMessage { message_id, message })) => {
                id == message_id
                    && match c {
                        Content::Exact(b) => normalise(b) == normalise(message),
                        Content::Gen { hdrs, body } => {
                            let (got, gbody) = parse_fields(&normalise(message));
                            let key = |v: &[(String, String)]| {
                                let mut v: Vec<(String, String)> = v.iter().map(|(a, b)| (a.to_ascii_lowercase(), squeeze(&String::from_utf8_lossy(&normalise(b.as_bytes()))))).collect();
                                v.sort();
                                v
                            };
                            key(hdrs) == key(&got) && *body == gbody
                        }
                    }
            }
            (Exp::Func(id, a), Obs::Event(Event::Function { id: gid, arguments })) => {
                id == gid && a.len() == arguments.len() && a.iter().zip(arguments).all(|(x, y)| x.same(&Val::from_var(y)))
            }
            (Exp::Err(e), Obs::Err(g)) => e == g,
            (Exp::End, Obs::End) => true,
            _ => false,
        }
    }
}

pub fn const_val(s: &str) -> Val {
    if !s.is_empty() && s.chars().all(|c| c.is_ascii_digit() || c == '-' || c == '.') {
        if let Ok(i) = s.parse::<i64>() {
            if i.to_string() == s {
                return Val::I(i);
            }
        }
        if s.matches('.').count() == 1 {
            if let Ok(f) = s.parse::<f64>() {
                if f.to_string() == s {
                    return Val::F(f);
                }
            }
        }
    }
    Val::S(s.to_string())
}

fn strip_crlf(s: &str, max: usize) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if c != '\r' && c != '\n' {
            if o.len() + c.len_utf8() > max {
                break;
            }
            o.push(c);
        }
    }
    o
}

pub fn native(name: &str, a: &[Val]) -> Option<Val> {
    // Functions implemented inside the runtime (registered by the harness).
    Some(match name {
        "cat" => Val::S(a[0].text() + "+" + &a[1].text()),
        "size_of" => Val::I(a[0].text().len() as i64),
        "first" => a[0].clone().items().first().cloned().unwrap_or_default(),
        _ => return None,
    })
}

fn match_as(c: Cmp) -> MatchAs {
    match c {
        Cmp::Default | Cmp::Casemap => MatchAs::Lowercase,
        Cmp::Numeric => MatchAs::Number,
        Cmp::Octet => MatchAs::Octet,
    }
}

fn addr_part(p: APart, a: &str) -> Option<String> {
    if a.is_empty() || matches!(p, APart::Default | APart::All) {
        return Some(a.to_string());
    }
    // The parts of anything that is not an address are absent.
    let (l, d) = a.split_once('@')?;
    if l.is_empty() || d.is_empty() || !l.is_ascii() {
        return None;
    }
    match p {
        APart::Local => Some(l.to_string()),
        APart::Domain => Some(d.to_string()),
        APart::User => match l.split_once('+') {
            Some(("", _)) => None,
            Some((u, _)) => Some(u.to_string()),
            None => Some(l.to_string()),
        },
        _ => l.rsplit_once('+').map(|(_, d)| d.to_string()),
    }
}

/// Outcome of replaying one history.
pub enum Outcome {
    Ok,
    Bad { step: usize, why: String },
}

pub fn set_size_cap(v: Val, max: usize) -> Val {
    if v.size() > max {
        let mut s = String::new();
        for c in v.text_joined().chars() {
            if s.len() + c.len_utf8() > max {
                break;
            }
            s.push(c);
        }
        Val::S(s)
    } else {
        v
    }
}

impl<'a> Model<'a> {
    pub fn new(st: &'a Settings, lib: &'a [Unit], msg: &Msg, trace: &'a [Step]) -> Self {
        Model {
            st,
            lib,
            trace,
            at: 0,
            msg: msg.clone(),
            received: msg.clone(),
            body: Default::default(),
            dates: [(DATE_TEXT.to_string(), DATE_SECS)].into(),
            msg_len: msg.render().len(),
            changed: false,
            ever_edited: false,
            last_id: 0,
            main_id: 0,
            globals: st.globals.iter().cloned().collect(),
            envelope: st.envelope.iter().map(|(e, v)| (e.clone(), Val::S(v.clone()))).collect(),
            disp: Disp::Keep(vec![]),
            part: 0,
            loops: Vec::new(),
            cache: HashMap::new(),
            depth: 0,
            ticks: 0,
            over: false,
            work: 0,
            redirects: 0,
            out: 0,
            fr: Frame::default(),
            snaps: vec![],
            track: trace.iter().any(|s| matches!(&s.obs, Obs::Err(e) if e == "cpu")),
            seen: Seen::default(),
            asked: vec![],
        }
    }

    /// Replay the delivery of library script `main`.
    pub fn run(&mut self, main: usize) -> Outcome {
        self.cache.insert((self.lib[main].global, self.lib[main].name.clone()), main);
        self.snap();
        let r = self.script(main);
        let r = match r {
            // The budget may run out on what comes after the last visible action.
            Ok(_) => match self.finish() {
                Err(Halt::Cpu) => self.finish_cpu(),
                r => r,
            },
            Err(Halt::Raised) => self.finish(),
            Err(Halt::Cpu) => self.finish_cpu(),
            Err(e) => Err(e),
        };
        match r {
            Ok(()) | Err(Halt::Abandoned) => Outcome::Ok,
            Err(Halt::Mismatch(step, why)) => Outcome::Bad { step, why },
            Err(Halt::Cpu) | Err(Halt::Raised) => Outcome::Bad { step: self.at, why: "a second error was reported".into() },
        }
    }

    // ---------------------------------------------------------- observations

    fn emit(&mut self, e: Exp) -> R<Reply> {
        let step = match self.trace.get(self.at) {
            Some(s) => s,
            None => return Err(Halt::Abandoned),
        };
        if let Obs::Err(k) = &step.obs {
            if k == "cpu" && !matches!(&e, Exp::Err(x) if x == "cpu") {
                if (self.work * 8 + 60) < self.st.cpu as u64 {
                    return Err(Halt::Mismatch(self.at, format!("the instruction budget of {} cannot be exhausted yet (at most {} instructions so far); expected {}", self.st.cpu, self.work * 8 + 60, e.text())));
                }
                self.at += 1;
                return Err(Halt::Cpu);
            }
        }
        if !e.check(&step.obs) {
            return Err(Halt::Mismatch(self.at, format!("expected {}", e.text())));
        }
        if let (Exp::End, Some(l)) = (&e, &step.left) {
            let mut globals: Vec<(String, Val)> = if self.over { l.globals.clone() } else { self.globals.iter().map(|(k, v)| (k.clone(), v.clone())).collect() };
            globals.sort_by(|a, b| a.0.cmp(&b.0));
            let want = Left { globals, edited: self.main_id > 0 };
            if !want.same(l) {
                return Err(Halt::Mismatch(self.at, format!("expected the end of the delivery to leave {want:?}, found {l:?}")));
            }
        }
        if !self.over && self.ticks > self.st.cpu as u64 {
            return Err(Halt::Mismatch(self.at, format!("at least {} statements and tests were executed with a budget of {} instructions", self.ticks, self.st.cpu)));
        }
        self.at += 1;
        self.snaps.clear();
        self.snap();
        if step.reply == Reply::Abandon {
            return Err(Halt::Abandoned);
        }
        Ok(step.reply.clone())
    }

    fn now(&self) -> i64 {
        self.trace.get(self.at).map(|s| s.at).unwrap_or(0).max(0)
    }

    fn raise<T>(&mut self, e: String) -> R<T> {
        self.emit(Exp::Err(e))?;
        Err(Halt::Raised)
    }

    fn query(&mut self, e: Event) -> R<bool> {
        self.seen.queries += 1;
        Ok(self.emit(Exp::Ev(e))? == Reply::True)
    }

    fn snap(&mut self) {
        if self.track {
            self.snaps.push(Snap {
                disp: self.disp.clone(),
                gflags: self.gflags(),
                changed: self.changed,
                last_id: self.last_id,
                main_id: self.main_id,
                msg: if self.changed { Some(self.msg.clone()) } else { None },
            });
        }
    }

    fn finish(&mut self) -> R<()> {
        match self.disp.clone() {
            Disp::Keep(f) => {
                self.flush()?;
                let flags = if f.is_empty() { self.gflags() } else { f };
                self.emit(Exp::Ev(Event::Keep { flags, message_id: self.main_id }))?;
            }
            Disp::Discard => {
                self.emit(Exp::Ev(Event::Discard))?;
            }
            Disp::Gone => (),
        }
        self.emit(Exp::End)?;
        Ok(())
    }

    fn finish_cpu(&mut self) -> R<()> {
        self.over = true;
        let at = self.at;
        let mut first = None;
        // Lines of the message that was announced after the error, if any.
        let lines = |b: &[u8]| b.iter().filter(|c| **c == b'\n').count();
        let (seen, want) = match self.trace.get(at).map(|s| &s.obs) {
            Some(Obs::Event(Event::CreatedMessage { message, .. })) => (message.len(), lines(message)),
            _ => (0, 0),
        };
        let mut bytes = 0usize;
        for s in std::mem::take(&mut self.snaps) {
            self.at = at;
            if let (Some(m), true) = (&s.msg, bytes > 10_000_000) {
                // Clearly another state.
                if lines(&m.render()) != want {
                    continue;
                }
            }
            bytes += seen;
            self.disp = s.disp;
            self.changed = s.changed;
            self.last_id = s.last_id;
            self.main_id = s.main_id;
            if let Some(m) = s.msg {
                self.msg = m;
            }
            self.globals.insert("__flags".into(), Val::S(s.gflags.join(" ")));
            match self.finish() {
                Ok(()) => return Ok(()),
                Err(Halt::Abandoned) => return Ok(()),
                Err(e) => {
                    if first.is_none() {
                        first = Some(e);
                    }
                }
            }
        }
        Err(first.unwrap_or(Halt::Mismatch(at, "no possible disposition after the budget error".into())))
    }

    /// Announce the edited message if there are edits nobody has seen.
    fn flush(&mut self) -> R<()> {
        if self.changed {
            self.changed = false;
            self.last_id += 1;
            self.main_id = self.last_id;
            let b = self.msg.render();
            self.emit(Exp::Created(self.main_id, Content::Exact(b)))?;
        }
        Ok(())
    }

    fn gflags(&self) -> Vec<String> {
        match self.globals.get("__flags") {
            Some(v) if !v.is_empty() => v.text().split(' ').map(|s| s.to_string()).collect(),
            _ => vec![],
        }
    }

    // -------------------------------------------------------------- values

    fn var(&self, v: &VRef) -> Option<Val> {
        match v {
            VRef::Local { decl, .. } => Some(self.fr.locals.get(decl).cloned().unwrap_or_default()),
            VRef::Global { key, .. } => self.globals.get(key).cloned(),
            VRef::Env(n) => self.st.ctx_env.iter().chain(&self.st.env).find(|(k, _)| k == n).map(|(_, v)| v.clone()),
            VRef::Envelope(f) => self.envelope.iter().find(|(e, _)| e == f).map(|(_, v)| v.clone()),
            VRef::Match(n) => Some(self.fr.caps.get(*n).cloned().unwrap_or_default()),
            VRef::Undef(_) => None,
            VRef::Header(h) => self.header_var(h),
            VRef::Body(k) => self.body.get_or_init(|| body_texts(&self.received))[*k].clone().map(Val::S),
            VRef::PartText => self.msg.text_of(self.part).map(Val::S),
            VRef::PartRaw => None,
        }
    }

    fn header_var(&self, v: &HVar) -> Option<Val> {
        let all: Vec<&Hdr> = self.msg.parts[self.part].hdrs.iter().filter(|h| v.names.is_empty() || v.names.iter().any(|n| h.name.eq_ignore_ascii_case(n))).collect();
        let wild = v.names.is_empty();
        let index = v.index.unwrap_or(if wild { 0 } else { -1 });
        let pindex = v.pindex.unwrap_or(if wild { 0 } else { -1 });
        let chosen: Vec<&Hdr> = nth(&all, index).into_iter().copied().collect();
        let mut o = Vec::new();
        for h in chosen {
            let list = |l: Vec<Option<String>>| nth(&l, pindex).into_iter().map(|x| x.clone().map_or(Val::default(), Val::S)).collect::<Vec<_>>();
            // Absent items of a field count as one empty value.
            let list = |l| {
                let v = list(l);
                if v.is_empty() && pindex != 0 { vec![Val::default()] } else { v }
            };
            let single = |s: Option<String>| vec![s.map_or(Val::default(), Val::S)];
            let structured = h.raw.is_some();
            o.extend(match &v.part {
                // All fields: each with its name
                HP::Text if wild => single(Some(whole_field(h))),
                HP::Raw if wild => single(Some({
                    let v = h.raw.as_ref().map_or(format!("{}: {}", h.name, h.value), |r| String::from_utf8_lossy(r).into_owned());
                    v.split_ascii_whitespace().collect::<Vec<_>>().join(" ")
                })),
                HP::Exists => vec![Val::I(1)],
                HP::RawName => single(Some(h.raw.as_ref().map_or(h.name.clone(), |r| String::from_utf8_lossy(r).split(':').next().unwrap().to_string()))),
                HP::Raw => {
                    let v = h.raw.as_ref().map_or(format!(" {}", h.value), |r| String::from_utf8_lossy(r).split_once(':').unwrap().1.to_string());
                    // Runs of white space are one blank.
                    let lead = v.starts_with(|c: char| c.is_ascii_whitespace());
                    let t: Vec<&str> = v.split_ascii_whitespace().collect();
                    single(Some(format!("{}{}", if lead && !t.is_empty() { " " } else { "" }, t.join(" "))))
                }
                // (a field of unknown kind is text until its addresses are asked for)
                HP::Text if structured && !h.addrs.is_empty() && !h.name.starts_with("X-") => list(
                    h.addrs
                        .iter()
                        .map(|(n, a)| {
                            Some(match n {
                                Some(n) => format!("{n} <{a}>"),
                                None => format!("<{a}>"),
                            })
                        })
                        .collect(),
                ),
                HP::Text if structured && h.name.eq_ignore_ascii_case("content-type") => single(Some(h.value.split(';').next().unwrap().trim().to_string())),
                HP::Text if structured && h.name.eq_ignore_ascii_case("references") => list(h.value.split(' ').map(|i| Some(i.trim_matches(['<', '>']).to_string())).collect()),
                HP::Text if structured && h.name.eq_ignore_ascii_case("message-id") => single(if [-1, 0, 1].contains(&pindex) { Some(h.value.trim_matches(['<', '>']).to_string()) } else { None }),
                HP::Text if structured && h.name.eq_ignore_ascii_case("date") => single(Some(h.value.to_string())),
                HP::Text => single(if [-1, 0, 1].contains(&pindex) { Some(h.kept_text()) } else { None }),
                HP::Addr | HP::Name => match written_addrs(h) {
                    Some(l) => list(l.into_iter().map(|(n, a)| if v.part == HP::Addr { a } else { n }).collect()),
                    None => single(None),
                },
                HP::Rcvd(p) => vec![received_part(h, p).unwrap_or_default()],
                HP::Id => single(Some(h.value.trim_matches(['<', '>']).to_string())),
                HP::Date => vec![Val::I(DATE_SECS)],
                HP::Type => single(Some(h.value.split(['/', ';']).next().unwrap().to_string())),
                HP::Subtype => single(h.value.split(';').next().unwrap().split_once('/').map(|x| x.1.to_string())),
                HP::Attr(a) => single(h.value.split(';').skip(1).find_map(|x| x.trim().split_once('=').filter(|(k, _)| k.eq_ignore_ascii_case(a)).map(|(_, v)| v.trim_matches('"').to_string()))),
            });
        }
        match o.len() {
            0 => None,
            1 if index != 0 && pindex != 0 => o.pop(),
            _ => Some(Val::A(o)),
        }
    }

    fn s(&self, s: &Str) -> Val {
        let has_var = s.iter().any(|x| matches!(x, Seg::Var(_)));
        if !has_var {
            let t: String = s.iter().map(|x| if let Seg::Lit(l) = x { l.as_str() } else { "" }).collect();
            return const_val(&t);
        }
        let mut items: Vec<Option<Val>> = Vec::new();
        for seg in s {
            match seg {
                Seg::Lit(l) if l.is_empty() => (),
                Seg::Lit(l) => items.push(Some(if l.contains('-') { Val::S(l.clone()) } else { const_val(l) })),
                Seg::Var(VRef::Undef(_)) => (),
                Seg::Var(v) => items.push(self.var(v)),
            }
        }
        if items.len() == 1 {
            return items.pop().unwrap().unwrap_or_default();
        }
        Val::S(items.into_iter().flatten().map(|v| v.text_joined()).collect())
    }

    fn st(&self, s: &Str) -> String {
        self.s(s).text_joined()
    }

    fn list(&self, l: &[Str]) -> Vec<String> {
        l.iter().map(|s| self.st(s)).collect()
    }

    fn flags(&self, l: &[Str]) -> Vec<String> {
        let mut o = Vec::new();
        for s in l {
            let t = self.st(s);
            if t.is_empty() {
                continue;
            }
            if true {
                o.extend(t.split_ascii_whitespace().map(|x| x.to_string()));
            } else {
                o.push(t.trim().to_string());
            }
        }
        o
    }

    fn flags_or_current(&self, l: &Option<Vec<Str>>) -> Vec<String> {
        match l {
            Some(l) if !l.is_empty() => self.flags(l),
            _ => self.gflags(),
        }
    }

    fn get(&self, t: &Target) -> Val {
        match t {
            Target::Local { decl, .. } => self.fr.locals.get(decl).cloned().unwrap_or_default(),
            Target::Global { key, .. } => self.globals.get(key).cloned().unwrap_or_default(),
            Target::Envelope(f) => self.envelope.iter().find(|(e, _)| e == f).map(|(_, v)| v.clone()).unwrap_or_default(),
        }
    }

    fn assign(&mut self, t: &Target, v: Val) -> R<()> {
        let v = set_size_cap(v, self.st.max_var);
        match t {
            Target::Local { decl, .. } => {
                self.fr.locals.insert(*decl, v);
            }
            Target::Global { key, .. } => {
                self.globals.insert(key.clone(), v);
            }
            Target::Envelope(f) => {
                let text = v.text_joined();
                match self.envelope.iter_mut().find(|(e, _)| e == f) {
                    Some(x) => x.1 = Val::S(text.clone()),
                    None => self.envelope.push((f.clone(), Val::S(text.clone()))),
                }
                self.emit(Exp::Ev(Event::SetEnvelope { envelope: f.envelope(), value: text }))?;
            }
        }
        Ok(())
    }

    fn modif(&self, m: &Modif, s: &str) -> String {
        let max = self.st.max_var;
        let esc = |set: &[char]| {
            let mut o = String::new();
            for c in s.chars() {
                if set.contains(&c) {
                    if o.len() + c.len_utf8() >= max {
                        break;
                    }
                    o.push('\\');
                } else if o.len() + c.len_utf8() > max {
                    break;
                }
                o.push(c);
            }
            o
        };
        let first = |up: bool| {
            let mut o = String::new();
            for (i, c) in s.chars().enumerate() {
                if o.len() + c.len_utf8() > max {
                    break;
                }
                if i > 0 {
                    o.push(c);
                } else if up {
                    o.extend(c.to_uppercase());
                } else {
                    o.extend(c.to_lowercase());
                }
            }
            o
        };
        match m {
            Modif::Lower => s.to_lowercase(),
            Modif::Upper => s.to_uppercase(),
            Modif::LowerFirst => first(false),
            Modif::UpperFirst => first(true),
            Modif::QuoteWildcard => esc(&['*', '\\', '?']),
            Modif::QuoteRegex => esc(&['*', '\\', '?', '.', '[', ']', '(', ')', '+', '{', '}', '|', '^', '=', ':', '$']),
            Modif::Length => s.chars().count().to_string(),
            Modif::EncodeUrl => {
                let mut o = String::new();
                for c in s.chars() {
                    if c.is_ascii_alphanumeric() || "-._~".contains(c) {
                        if o.len() + 1 > max {
                            break;
                        }
                        o.push(c);
                    } else {
                        if o.len() + 3 * c.len_utf8() > max {
                            break;
                        }
                        let mut b = [0; 4];
                        for x in c.encode_utf8(&mut b).bytes() {
                            o.push_str(&format!("%{x:02x}"));
                        }
                    }
                }
                o
            }
            Modif::Replace(a, b) => s.replace(&self.st(a), &self.st(b)),
        }
    }

    fn apply(&self, mods: &[Modif], v: Val) -> Val {
        let mut ms: Vec<&Modif> = Vec::new();
        for m in mods {
            if !ms.iter().any(|x| std::mem::discriminant(*x) == std::mem::discriminant(m)) {
                ms.push(m);
            }
        }
        ms.sort_by_key(|m| std::cmp::Reverse(m.precedence()));
        let mut v = v;
        for m in ms {
            v = Val::S(self.modif(m, &v.text_joined()));
        }
        v
    }

    fn expr(&mut self, e: &Expr) -> R<Val> {
        self.work += 1;
        Ok(match e {
            Expr::Int(i) => Val::I(*i),
            Expr::Word(b) => Val::I(*b as i64),
            Expr::Float(f, _) => Val::F(*f),
            Expr::Str(s) => Val::S(s.clone()),
            Expr::Var(v) => self.var(v).unwrap_or_default(),
            Expr::Neg(e) => {
                let v = self.expr(e)?;
                val::negate(v)
            }
            Expr::Not(e) => {
                let v = self.expr(e)?;
                val::not(&v)
            }
            Expr::Bin(op, l, r) => {
                let lv = self.expr(l)?;
                match op {
                    Op::And if !lv.truth() => return Ok(lv),
                    Op::Or if lv.truth() => return Ok(lv),
                    _ => (),
                }
                let rv = self.expr(r)?;
                val::binary(*op, lv, rv)
            }
            Expr::Call { name, ext, args } => {
                let mut a = Vec::new();
                for x in args {
                    a.push(self.expr(x)?);
                }
                match ext {
                    None => native(name, &a).unwrap_or_default(),
                    Some(id) => {
                        self.seen.calls += 1;
                        self.work += 1;
                        match self.emit(Exp::Func(*id, a))? {
                            Reply::Val(v) => v.0,
                            _ => Val::default(),
                        }
                    }
                }
            }
            Expr::Index(a, i) => {
                let a = self.expr(a)?;
                let i = self.expr(i)?;
                a.items().get(i.index()).cloned().unwrap_or_default()
            }
            Expr::Array(v) => {
                let mut a = Vec::new();
                for x in v {
                    a.push(self.expr(x)?);
                }
                Val::A(a)
            }
        })
    }

    // --------------------------------------------------------------- tests

    /// Visit headers of the current part (or its subtree) in test order.
    fn headers(&self, names: &[String], index: Option<i32>, anychild: bool) -> Vec<(usize, usize)> {
        let parts = if anychild { self.msg.subtree(self.part) } else { vec![self.part] };
        let mut o = Vec::new();
        for p in parts {
            for n in names {
                let pos: Vec<usize> = self.msg.parts[p].hdrs.iter().enumerate().filter(|(_, h)| h.name.eq_ignore_ascii_case(n)).map(|(i, _)| i).collect();
                match index {
                    None => o.extend(pos.into_iter().map(|i| (p, i))),
                    Some(i) if i > 0 => {
                        if let Some(x) = pos.get(i as usize - 1) {
                            o.push((p, *x));
                        }
                    }
                    Some(i) if i < 0 => {
                        let k = (-i) as usize;
                        if k <= pos.len() {
                            o.push((p, pos[pos.len() - k]));
                        }
                    }
                    Some(_) => (),
                }
            }
        }
        o
    }

    fn names(&self, l: &[Str]) -> Vec<String> {
        self.list(l).into_iter().filter(|n| !n.is_empty()).collect()
    }

    /// `values` against `keys`, first value and key that match; captures set.
    fn any(&self, m: &Match, values: &[(String, f64)], keys: &[Val], out: &mut Option<Vec<String>>) -> bool {
        for (v, n) in values {
            for k in keys {
                if let Some(c) = matches(m.mtype, m.cmp, v, *n, k) {
                    *out = Some(c);
                    return true;
                }
            }
        }
        false
    }

    fn count(&self, m: &Match, n: f64, keys: &[Val]) -> bool {
        match m.mtype {
            MType::Count(r) => keys.iter().any(|k| n.partial_cmp(&number(k)).map(|o| r.holds(o)).unwrap_or(false)),
            _ => false,
        }
    }

    fn list_query(&mut self, m: &Match, values: Vec<String>, keys: &[Str]) -> R<bool> {
        let mut v: Vec<String> = Vec::new();
        for x in values {
            if !x.is_empty() && !v.contains(&x) {
                v.push(x);
            }
        }
        if v.is_empty() {
            return Ok(false);
        }
        let lists = self.list(keys);
        self.query(Event::ListContains { lists, values: v, match_as: match_as(m.cmp) })
    }

    /// General string-set test; `num` reads message text, sources of values.
    fn set_test(&mut self, m: &Match, values: Vec<String>, keys: &[Str], caps: &mut Option<Vec<String>>, count: f64) -> R<bool> {
        match m.mtype {
            MType::List => self.list_query(m, values, keys),
            MType::Count(_) => {
                let k: Vec<Val> = keys.iter().map(|k| self.s(k)).collect();
                Ok(self.count(m, count, &k))
            }
            _ => {
                let k: Vec<Val> = keys.iter().map(|k| self.s(k)).collect();
                let v: Vec<(String, f64)> = values
                    .into_iter()
                    .map(|v| {
                        let n = text_number(&v);
                        (v, n)
                    })
                    .collect();
                Ok(self.any(m, &v, &k, caps))
            }
        }
    }

    fn uri_ok(&self, uri: &str) -> bool {
        let Some((scheme, rest)) = uri.split_once(':') else { return false };
        if rest.is_empty() {
            return false;
        }
        let known = if scheme.eq_ignore_ascii_case("mailto") { mailto(rest).is_some() } else { ["xmpp", "tel", "http", "https"].contains(&scheme) };
        known && self.st.notify_uris.iter().any(|u| u == scheme || u == uri)
    }

    fn test(&mut self, t: &Test, caps: &mut Option<Vec<String>>) -> R<bool> {
        self.work += 1;
        if !matches!(t, Test::True | Test::False | Test::Not(_) | Test::AnyOf(_) | Test::AllOf(_)) {
            // Every evaluated test is at least one instruction.
            self.ticks += 1;
        }
        Ok(match t {
            Test::True => true,
            Test::False => false,
            Test::Not(t) => !self.test(t, caps)?,
            Test::AnyOf(v) => {
                for t in v {
                    if self.test(t, caps)? {
                        return Ok(true);
                    }
                }
                false
            }
            Test::AllOf(v) => {
                for t in v {
                    if !self.test(t, caps)? {
                        return Ok(false);
                    }
                }
                true
            }
            Test::Header { mime, anychild, index, m, names, keys } => {
                let names = self.names(names);
                let hs = self.headers(&names, *index, *anychild);
                let mut vals = Vec::new();
                let mut n = hs.len() as f64;
                if let MimeOpt::Param(ps) = mime {
                    let ps: Vec<String> = self.list(ps);
                    n = 0.0;
                    for (p, i) in hs {
                        let v = self.params(p, i, &ps);
                        // A parameter named twice counts once.
                        n += self.params(p, i, &[]).iter().filter(|k| ps.iter().any(|x| x.eq_ignore_ascii_case(k))).count() as f64;
                        vals.extend(v);
                        // Without a match, the absence of a value counts as an empty one.
                        vals.push(String::new());
                    }
                } else {
                    for (p, i) in hs {
                        vals.push(self.header_value(p, i, mime));
                    }
                }
                self.set_test(m, vals, keys, caps, n)?
            }
            Test::Address { part, anychild, index, m, names, keys } => {
                let names = self.names(names);
                let hs = self.headers(&names, *index, *anychild);
                let mut vals = Vec::new();
                for (p, i) in hs {
                    for a in addresses(&self.msg.parts[p].hdrs[i]) {
                        if let Some(v) = addr_part(*part, &a) {
                            vals.push(v);
                        }
                    }
                }
                let n = vals.iter().filter(|v| !v.is_empty()).count() as f64;
                self.set_test(m, vals, keys, caps, n)?
            }
            Test::Envelope { zone, part, m, names, keys } => {
                let mut vals = Vec::new();
                for (e, v) in &self.envelope {
                    if names.contains(e) {
                        let v = v.text_joined();
                        match e {
                            EnvF::From | EnvF::To | EnvF::Orcpt if !v.is_empty() => {
                                if let Some(x) = addr_part(*part, &v) {
                                    vals.push(x);
                                }
                            }
                            // An instant, told in the zone asked for.
                            EnvF::ByAbs if zone.is_some() => vals.push(INSTANTS3339.iter().find(|x| x.0 == v).map(|x| date_part(DPart::Iso8601, x.1, zone.unwrap())).unwrap_or_default()),
                            _ => vals.push(v),
                        }
                    }
                }
                let n = vals.iter().filter(|v| !v.is_empty()).count() as f64;
                self.set_test(m, vals, keys, caps, n)?
            }
            Test::Exists { anychild, names } => {
                let names = self.names(names);
                let parts = if *anychild { self.msg.subtree(self.part) } else { vec![self.part] };
                names.iter().all(|n| parts.iter().any(|p| self.msg.parts[*p].hdrs.iter().any(|h| h.name.eq_ignore_ascii_case(n))))
            }
            Test::Size { over, limit } => {
                // After edits only far-away limits are used.
                if *over {
                    self.msg_len > *limit
                } else {
                    self.msg_len < *limit
                }
            }
            Test::String { m, sources, keys } => match m.mtype {
                MType::List => {
                    let v = self.list(sources);
                    self.list_query(m, v, keys)?
                }
                MType::Count(_) => {
                    let n = sources.iter().filter(|s| !self.s(s).is_empty()).count() as f64;
                    let k: Vec<Val> = keys.iter().map(|k| self.s(k)).collect();
                    self.count(m, n, &k)
                }
                _ => {
                    let k: Vec<Val> = keys.iter().map(|k| self.s(k)).collect();
                    let src: Vec<(String, f64)> = sources
                        .iter()
                        .map(|s| {
                            let v = self.s(s);
                            (v.text_joined(), number(&v))
                        })
                        .collect();
                    self.any(m, &src, &k, caps)
                }
            },
            Test::Environment { m, names, keys } => {
                let vals: Vec<Val> = names.iter().map(|n| self.var(&VRef::Env(n.clone())).unwrap_or_default()).filter(|v| !v.is_empty()).collect();
                match m.mtype {
                    MType::Count(_) => {
                        let k: Vec<Val> = keys.iter().map(|k| self.s(k)).collect();
                        !vals.is_empty() && self.count(m, vals.len() as f64, &k)
                    }
                    MType::List => {
                        let v = vals.iter().map(|v| v.text_joined()).collect();
                        self.list_query(m, v, keys)?
                    }
                    _ => {
                        let k: Vec<Val> = keys.iter().map(|k| self.s(k)).collect();
                        let src: Vec<(String, f64)> = vals.iter().map(|v| (v.text_joined(), number(v))).collect();
                        self.any(m, &src, &k, caps)
                    }
                }
            }
            Test::HasFlag { m, vars, flags } => {
                let mut cur: Vec<String> = Vec::new();
                if vars.is_empty() {
                    cur = self.gflags();
                } else {
                    for v in vars {
                        let v = self.get(v);
                        if !v.is_empty() {
                            cur.extend(v.text_joined().split(' ').map(|s| s.to_string()));
                        }
                    }
                }
                if let MType::Count(_) = m.mtype {
                    let k: Vec<Val> = flags.iter().map(|k| self.s(k)).collect();
                    self.count(m, cur.len() as f64, &k)
                } else {
                    for f in self.flags(flags) {
                        for c in &cur {
                            // Flags are texts: numbers are read from them as from a message.
                            let k = if m.cmp == Cmp::Numeric && matches!(m.mtype, MType::Is | MType::Value(_)) { Val::F(text_number(&f)) } else { Val::S(f.clone()) };
                            if let Some(x) = matches(m.mtype, m.cmp, c, text_number(c), &k) {
                                *caps = Some(x);
                                return Ok(true);
                            }
                        }
                    }
                    false
                }
            }
            Test::Duplicate { handle, header, unique, seconds, last } => {
                let id = if let Some(h) = header {
                    let n = self.st(h);
                    let mut id = String::new();
                    for (p, i) in self.headers(&[n], None, true) {
                        let v = first_id(&self.msg.parts[p].hdrs[i].undecoded());
                        if let Some(v) = v {
                            id = v;
                            break;
                        }
                    }
                    id
                } else if let Some(u) = unique {
                    self.st(u)
                } else {
                    self.msg.parts[0].hdrs.iter().rev().find(|h| h.name.eq_ignore_ascii_case("Message-ID")).map(|h| h.value.trim_matches(['<', '>']).to_string()).unwrap_or_default()
                };
                if id.is_empty() {
                    return Ok(false);
                }
                let expiry = seconds.unwrap_or(self.st.dup_expiry);
                let mut key = vec!["duplicate".to_string()];
                let full = match handle {
                    Some(h) => {
                        let h = self.st(h);
                        key.push(h.clone());
                        h + &id
                    }
                    None => id.clone(),
                };
                key.push(id);
                self.asked.push((self.at, expiry, *last, key));
                self.query(Event::DuplicateId { id: full, expiry, last: *last })?
            }
            Test::ValidNotify { uris } => uris.iter().all(|u| self.uri_ok(&self.st(u))),
            Test::NotifyCap { m, uri, cap, keys } => {
                if !self.st(cap).eq_ignore_ascii_case("online") || !self.uri_ok(&self.st(uri)) {
                    return Ok(false);
                }
                let k: Vec<Val> = keys.iter().map(|k| self.s(k)).collect();
                if let MType::Count(_) = m.mtype {
                    self.count(m, 1.0, &k)
                } else {
                    self.any(m, &[("maybe".to_string(), text_number("maybe"))], &k, caps)
                }
            }
            Test::ValidExtList { lists } => self.list(lists).iter().all(|l| self.st.ext_lists.contains(l)),
            Test::Ihave { caps } => caps.iter().all(|c| c != "variables" && c != "encoded-character" && self.st.allowed.contains(c)),
            Test::MailboxExists { names } => {
                let mailboxes = self.list(names).into_iter().map(Mailbox::Name).collect();
                self.query(Event::MailboxExists { mailboxes, special_use: vec![] })?
            }
            Test::MailboxIdExists { ids } => {
                let mailboxes = self.list(ids).into_iter().map(Mailbox::Id).collect();
                self.query(Event::MailboxExists { mailboxes, special_use: vec![] })?
            }
            Test::SpecialUseExists { mailbox, attrs } => {
                let mailboxes = mailbox.iter().map(|m| Mailbox::Name(self.st(m))).collect();
                let special_use = self.list(attrs);
                self.query(Event::MailboxExists { mailboxes, special_use })?
            }
            Test::Metadata { m, mailbox, annotation, keys } => {
                let mb = mailbox.as_ref().map(|m| self.st(m)).unwrap_or_default();
                let an = self.st(annotation);
                let v = self.st.ctx_metadata.iter().chain(&self.st.metadata).find(|(a, b, _)| *a == mb && b.eq_ignore_ascii_case(&an)).map(|x| x.2.clone());
                let Some(v) = v else { return Ok(false) };
                let k: Vec<Val> = keys.iter().map(|k| self.s(k)).collect();
                if let MType::Count(_) = m.mtype {
                    self.count(m, 1.0, &k)
                } else {
                    let n = text_number(&v);
                    self.any(m, &[(v, n)], &k, caps)
                }
            }
            Test::MetadataExists { mailbox, annotations } => {
                let mb = mailbox.as_ref().map(|m| self.st(m)).unwrap_or_default();
                self.list(annotations).iter().all(|an| self.st.ctx_metadata.iter().chain(&self.st.metadata).any(|(a, b, _)| *a == mb && b.eq_ignore_ascii_case(an)))
            }
            Test::Spam { percent, m, key } => {
                let s = self.st.spam as i64;
                let v = if *percent {
                    match s {
                        2..=9 => s * 10,
                        10 => 100,
                        _ => 0,
                    }
                } else if (1..=10).contains(&s) {
                    s
                } else {
                    0
                };
                self.level(m, v, key, caps)
            }
            Test::Virus { m, key } => {
                let v = if (1..=5).contains(&self.st.virus) { self.st.virus as i64 } else { 0 };
                self.level(m, v, key, caps)
            }
            Test::Eval(e) => self.expr(e)?.truth(),
            Test::CurrentDate { zone, m, part, keys } => {
                let v = date_part(*part, self.st.created_at.max(0), zone.unwrap_or(0));
                self.date_test(m, vec![v], keys, caps)?
            }
            Test::Date { zone, m, header, part, keys } => {
                let n = self.st(header);
                // The generator's only date fields are in UTC.
                let z = match zone {
                    Zone::Fixed(z) => *z,
                    _ => 0,
                };
                let hs = self.headers(&[n], None, false);
                let vals = hs.iter().filter_map(|(p, i)| self.dates.get(self.msg.parts[*p].hdrs[*i].value.as_ref() as &str)).map(|secs| date_part(*part, *secs, z)).collect();
                self.date_test(m, vals, keys, caps)?
            }
            Test::Body { m, of, subject, keys } => {
                let mut vals = Vec::new();
                if *subject && !matches!(m.mtype, MType::Count(_) | MType::List) {
                    let s = match of {
                        BodyOf::Raw => self.msg.top("Subject").last().map(|h| h.raw.as_ref().map_or(h.value.to_string(), |r| {
                            let v = String::from_utf8_lossy(r);
                            v[v.find(':').map_or(0, |p| p + 1)..].to_string()
                        })),
                        _ => self.msg.top("Subject").last().map(|h| h.value.to_string()),
                    };
                    vals.push(s.unwrap_or_default());
                }
                let mut filter = Some(vec![]);
                if let BodyOf::Content(ts) = of {
                    for t in self.list(ts) {
                        if t.is_empty() {
                            break;
                        }
                        let p: Vec<&str> = t.split('/').collect();
                        if p.len() > 2 || p.iter().any(|x| x.is_empty()) {
                            filter = None;
                            break;
                        }
                        filter.as_mut().unwrap().push(t.to_ascii_lowercase());
                    }
                }
                let Some(filter) = filter else {
                    // Not a content type: only the subject can match.
                    return if vals.is_empty() { Ok(false) } else { self.set_test(m, vals, keys, &mut None, 0.0) };
                };
                let n = bodies(&self.msg, self.part, of, &filter, &mut vals);
                self.set_test(m, vals, keys, &mut None, n as f64)? // body tests never capture
            }
            Test::Convert { from, to } => {
                let r = self.convert(from, to);
                self.snap();
                r
            }
            Test::Unknown(n) => {
                let n = n.clone();
                return self.raise(format!("invalid {n}"));
            }
        })
    }

    fn level(&self, m: &Match, v: i64, key: &Str, caps: &mut Option<Vec<String>>) -> bool {
        let k = self.s(key);
        self.any(m, &[(v.to_string(), v as f64)], &[k], caps)
    }

    fn date_test(&mut self, m: &Match, vals: Vec<String>, keys: &[Str], caps: &mut Option<Vec<String>>) -> R<bool> {
        let n = vals.len() as f64;
        self.set_test(m, vals, keys, caps, n)
    }

    fn params(&self, p: usize, i: usize, names: &[String]) -> Vec<String> {
        let h = &self.msg.parts[p].hdrs[i];
        if !h.name.eq_ignore_ascii_case("Content-Type") {
            return vec![];
        }
        let mut o = Vec::new();
        if names.is_empty() {
            // The names of all parameters.
            return h.value.split(';').skip(1).filter_map(|a| a.trim().split_once('=')).map(|(k, _)| k.to_string()).collect();
        }
        for n in names {
            for a in h.value.split(';').skip(1) {
                if let Some((k, v)) = a.trim().split_once('=') {
                    if k.eq_ignore_ascii_case(n) {
                        o.push(v.trim_matches('"').to_string());
                    }
                }
            }
        }
        o
    }

    fn header_value(&self, p: usize, i: usize, mime: &MimeOpt) -> String {
        let h = &self.msg.parts[p].hdrs[i];
        if let MimeOpt::None = mime {
            return h.value.to_string();
        }
        if !h.name.eq_ignore_ascii_case("Content-Type") {
            return String::new();
        }
        let full = h.value.split(';').next().unwrap_or("").trim().to_ascii_lowercase();
        let (a, b) = full.split_once('/').unwrap_or((full.as_str(), ""));
        match mime {
            MimeOpt::Type => a.to_string(),
            MimeOpt::Subtype => b.to_string(),
            _ => full.clone(),
        }
    }

    // ------------------------------------------------------------ statements

    fn script(&mut self, id: usize) -> R<Flow> {
        let lib = self.lib;
        let u = &lib[id];
        self.depth += 1;
        if self.depth > self.st.max_includes.max(1) {
            return Err(Halt::Mismatch(self.at, "nesting deeper than configured".into()));
        }
        let saved = std::mem::take(&mut self.fr);
        self.work += 2;
        if !u.caps.is_empty() {
            self.ticks += 1;
        }
        for c in &u.caps {
            if !self.st.allowed.contains(c) {
                return self.raise(format!("capability {c}"));
            }
        }
        let r = self.block(&u.ast.body)?;
        self.fr = saved;
        self.depth -= 1;
        Ok(match r {
            Flow::Stop => Flow::Stop,
            _ => Flow::Next,
        })
    }

    fn block(&mut self, b: &Block) -> R<Flow> {
        for c in &b.require {
            if !self.st.allowed.contains(c) {
                return self.raise(format!("capability {c}"));
            }
        }
        let mut flow = Flow::Next;
        for s in &b.stmts {
            flow = self.stmt(s)?;
            self.snap();
            if self.ticks > self.st.cpu as u64 {
                // Every statement is at least one instruction.
                return match self.trace.get(self.at).map(|s| s.as_ref()) {
                    None => Err(Halt::Abandoned),
                    Some(StepData { obs: Obs::Err(e), .. }) if e == "cpu" => {
                        self.at += 1;
                        Err(Halt::Cpu)
                    }
                    _ => Err(Halt::Mismatch(self.at, format!("more than {} instructions executed without a budget error", self.st.cpu))),
                };
            }
            if !matches!(flow, Flow::Next) {
                break;
            }
        }
        for d in &b.owned {
            self.fr.locals.remove(d);
        }
        Ok(flow)
    }

    fn file_into_event(&mut self, folder: String, flags: Vec<String>, mailbox_id: Option<String>, special_use: Option<String>, create: bool, message_id: usize) -> R<()> {
        self.emit(Exp::Ev(Event::FileInto { folder, flags, mailbox_id, special_use, create, message_id }))?;
        Ok(())
    }

    fn stmt(&mut self, s: &Stmt) -> R<Flow> {
        self.ticks += 1;
        self.work += 1;
        self.seen.stmts += 1;
        match s {
            Stmt::Keep { flags } => {
                self.ev_flush_keep(flags)?;
            }
            Stmt::Discard => self.disp = Disp::Discard,
            Stmt::Stop => return Ok(Flow::Stop),
            Stmt::Return => return Ok(Flow::Return),
            Stmt::FileInto { copy, create, flags, mailbox_id, special_use, folder } => {
                let folder = self.st(folder);
                let fl = self.flags_or_current(flags);
                let mid = mailbox_id.as_ref().map(|m| self.st(m));
                let su = special_use.as_ref().map(|m| self.st(m));
                if !copy && !matches!(&self.disp, Disp::Keep(f) if !f.is_empty()) {
                    self.disp = Disp::Gone;
                }
                self.flush()?;
                let id = self.main_id;
                self.file_into_event(folder, fl, mid, su, *create, id)?;
            }
            Stmt::Redirect { copy, list, notify, ret, by, addr } => {
                if let Some(a) = redirect_target(&self.st(addr)) {
                    let received = self.msg.top("Received").count();
                    let own = !list && a.eq_ignore_ascii_case(&self.st.user);
                    if self.redirects < self.st.max_redirects && self.out < self.st.max_out && received < self.st.max_received && !own {
                        if !copy && matches!(self.disp, Disp::Keep(_)) {
                            self.disp = Disp::Gone;
                        }
                        self.redirects += 1;
                        self.out += 1;
                        self.flush()?;
                        let notify = match notify.as_deref() {
                            None => Notify::Default,
                            Some("NEVER" | "never") => Notify::Never,
                            Some(x) => Notify::Items(
                                x.split(',')
                                    .filter_map(|i| match i.trim().to_ascii_uppercase().as_str() {
                                        "SUCCESS" => Some(NotifyItem::Success),
                                        "FAILURE" => Some(NotifyItem::Failure),
                                        "DELAY" => Some(NotifyItem::Delay),
                                        _ => None,
                                    })
                                    .collect(),
                            ),
                        };
                        let return_of_content = match ret.as_deref() {
                            None => Ret::Default,
                            Some("FULL" | "Full") => Ret::Full,
                            _ => Ret::Hdrs,
                        };
                        let by_time = match by {
                            None => ByTime::None,
                            Some(by) => {
                                let mode = match by.mode.as_ref().map(|m| m.to_ascii_lowercase()).as_deref() {
                                    Some("notify") => ByMode::Notify,
                                    Some("return") => ByMode::Return,
                                    _ => ByMode::Default,
                                };
                                match &by.until {
                                    Ok(n) => ByTime::Relative { rlimit: *n, mode, trace: by.trace },
                                    Err(s) => {
                                        let t = self.st(s);
                                        ByTime::Absolute { alimit: INSTANTS3339.iter().find(|x| x.0 == t).map_or(0, |x| x.1), mode, trace: by.trace }
                                    }
                                }
                            }
                        };
                        let recipient = if *list { Recipient::List(a) } else { Recipient::Address(a) };
                        self.emit(Exp::Ev(Event::SendMessage { recipient, notify, return_of_content, by_time, message_id: self.main_id }))?;
                    }
                }
            }
            Stmt::Reject { extended, reason } => {
                self.disp = Disp::Gone;
                let reason = self.st(reason);
                self.emit(Exp::Ev(Event::Reject { extended: *extended, reason }))?;
            }
            Stmt::Set { mods, target, value, .. } => {
                let v = self.s(value);
                let v = self.apply(mods, v);
                self.assign(target, v)?;
            }
            Stmt::Let { target, expr } => {
                let v = self.expr(expr)?;
                self.assign(target, v)?;
            }
            Stmt::Eval(e) => {
                self.expr(e)?;
            }
            Stmt::Flag { act, var, flags } => {
                let t = var.clone().unwrap_or(Target::Global { text: String::new(), key: "__flags".into() });
                let new = self.flags(flags);
                let lc = |v: &[String], f: &str| v.iter().any(|x| x.to_lowercase() == f.to_lowercase());
                let v = match act {
                    FlagAct::Set => {
                        let mut o: Vec<String> = Vec::new();
                        for f in new {
                            if !lc(&o, &f) {
                                o.push(f);
                            }
                        }
                        o.join(" ")
                    }
                    FlagAct::Add => {
                        let mut text = self.get(&t).text_joined();
                        for f in new {
                            let have: Vec<String> = text.split(' ').map(|s| s.to_string()).collect();
                            if !lc(&have, &f) {
                                if !text.is_empty() {
                                    text.push(' ');
                                }
                                text.push_str(&f);
                            }
                        }
                        text
                    }
                    FlagAct::Remove => {
                        let text = self.get(&t).text_joined();
                        let mut have: Vec<&str> = text.split(' ').collect();
                        for f in &new {
                            if let Some(p) = have.iter().position(|x| x.to_lowercase() == f.to_lowercase()) {
                                have.swap_remove(p);
                            }
                        }
                        have.join(" ")
                    }
                };
                self.assign(&t, Val::S(v))?;
            }
            Stmt::If { arms, els } => {
                self.ticks -= 1;
                for (t, b) in arms {
                    let mut caps = None;
                    if self.test(t, &mut caps)? {
                        let saved = self.fr.caps.clone();
                        if let Some(c) = caps {
                            if !c.is_empty() {
                                self.fr.caps = c.into_iter().map(Val::S).collect();
                            }
                        }
                        let f = self.block(b)?;
                        self.fr.caps = saved;
                        return Ok(f);
                    }
                }
                if let Some(b) = els {
                    return self.block(b);
                }
            }
            Stmt::While { cond, body } => {
                self.ticks -= 1; // counted at every evaluation of the condition
                loop {
                    self.ticks += 1;
                    self.work += 2;
                    self.seen.loops += 1;
                    if !self.expr(cond)?.truth() {
                        break;
                    }
                    match self.block(body)? {
                        Flow::Next | Flow::Continue => (),
                        Flow::Break(None) => break,
                        f => return Ok(f),
                    }
                }
            }
            Stmt::ForEveryPart { label, body } => {
                let mut ids = self.msg.subtree(self.part);
                if self.part == 0 {
                    ids = (0..self.msg.parts.len()).collect();
                }
                if !self.loops.is_empty() {
                    ids.remove(0);
                }
                // Edits made inside the loop may remove or renumber the parts that are left.
                self.loops.push((self.part, ids.into()));
                let mut flow = Flow::Next;
                while let Some(id) = self.loops.last_mut().and_then(|l| l.1.pop_front()) {
                    self.ticks += 1;
                    self.work += 2;
                    self.seen.parts += 1;
                    self.part = id;
                    match self.block(body)? {
                        Flow::Next => (),
                        Flow::Break(l) if l.is_none() || l == *label => break,
                        f => {
                            flow = f;
                            break;
                        }
                    }
                }
                self.part = self.loops.pop().map_or(0, |l| l.0);
                return Ok(flow);
            }
            Stmt::Break { label } => return Ok(Flow::Break(label.clone())),
            Stmt::Continue => return Ok(Flow::Continue),
            Stmt::Include { global, once, optional, name } => {
                let n = self.s(name);
                if n.is_empty() {
                    return Ok(Flow::Next);
                }
                let n = n.text_joined();
                let key = (*global, n.clone());
                let cached = self.cache.get(&key).copied();
                if *once && cached.is_some() {
                    return Ok(Flow::Next);
                }
                if self.depth >= self.st.max_includes {
                    return self.raise("includes".into());
                }
                let id = match cached {
                    Some(i) => Some(i),
                    None => {
                        let name = if *global { SName::Global(n) } else { SName::Personal(n) };
                        match self.emit(Exp::Ev(Event::IncludeScript { name, optional: *optional }))? {
                            Reply::Script(i) => {
                                self.cache.insert(key, i);
                                Some(i)
                            }
                            _ => None,
                        }
                    }
                };
                if let Some(i) = id {
                    self.seen.includes += 1;
                    if let Flow::Stop = self.script(i)? {
                        return Ok(Flow::Stop);
                    }
                }
            }
            Stmt::Global(_) => self.ticks -= 1,
            Stmt::Error(m) => {
                let m = self.st(m);
                return self.raise(format!("message {m}"));
            }
            Stmt::Unknown(n) => {
                let n = n.clone();
                return self.raise(format!("invalid {n}"));
            }
            Stmt::AddHeader { last, name, value } => {
                let n: String = self.st(name).chars().filter(|c| c.is_alphanumeric() || *c == '-').collect();
                if !n.is_empty() && n.is_ascii() && !self.protected(&n) {
                    let v = strip_crlf(&self.st(value), self.st.max_header);
                    let h = inserted(&n, &v);
                    let hs = &mut self.msg.parts[self.part].hdrs;
                    if *last {
                        hs.push(h);
                    } else {
                        hs.insert(0, h);
                    }
                    self.edited();
                }
            }
            Stmt::DeleteHeader { anychild, index, m, name, patterns } => {
                let n = self.st(name);
                if !n.is_empty() && !self.protected(&n) {
                    let keys: Vec<Val> = patterns.iter().map(|k| self.s(k)).collect();
                    let mut del = Vec::new();
                    for (p, i) in self.headers(&[n], *index, *anychild) {
                        let v = self.msg.parts[p].hdrs[i].value.clone();
                        let hit = patterns.is_empty() || {
                            let nn = text_number(&v);
                            self.any(m, &[(v.to_string(), nn)], &keys, &mut None)
                        };
                        if hit {
                            del.push((p, i));
                        }
                    }
                    if !del.is_empty() {
                        del.sort();
                        for (p, i) in del.into_iter().rev() {
                            self.msg.parts[p].hdrs.remove(i);
                        }
                        self.edited();
                    }
                }
            }
            Stmt::ExtractText { first, mods, target } => {
                let mut v = String::new();
                if !self.loops.is_empty() {
                    let p = &self.msg.parts[self.part];
                    let text = match &p.body {
                        Body::Text { text, .. } => Some(text.clone()),
                        Body::Html { text, .. } => Some(mail_parser::decoders::html::html_to_text(text)),
                        Body::New { text, html, .. } => Some(if *html { mail_parser::decoders::html::html_to_text(text) } else { text.clone() }),
                        _ => None,
                    };
                    if let Some(t) = text {
                        v = match first {
                            Some(n) => t.chars().take(*n).collect(),
                            None => t,
                        };
                        if !v.is_empty() {
                            v = self.apply(mods, Val::S(v)).text();
                        }
                    }
                }
                self.assign(target, Val::S(v))?;
            }
            Stmt::Replace { mime, subject, from, value } => self.replace(*mime, subject, from, value),
            Stmt::Enclose { subject, headers, value } => self.enclose(subject, headers, value),
            Stmt::Convert { from, to } => {
                self.convert(from, to);
            }
            Stmt::Vacation(v) => self.vacation(v)?,
            Stmt::Notify(n) => self.notify(n)?,
        }
        Ok(Flow::Next)
    }

    fn ev_flush_keep(&mut self, flags: &Option<Vec<Str>>) -> R<()> {
        self.disp = Disp::Keep(self.flags_or_current(flags));
        self.flush()
    }

    fn edited(&mut self) {
        self.changed = true;
        self.ever_edited = true;
        self.seen.edits += 1;
    }

    fn protected(&self, n: &str) -> bool {
        self.st.protected.iter().any(|p| p.eq_ignore_ascii_case(n))
    }

    fn user_from(&self) -> String {
        if self.st.full_name.is_empty() {
            self.st.user.clone()
        } else {
            let esc: String = self.st.full_name.chars().flat_map(|c| if c == '"' || c == '\\' { vec!['\\', c] } else { vec![c] }).collect();
            format!("\"{}\" <{}>", esc, self.st.user)
        }
    }

    fn replace(&mut self, mime: bool, subject: &Option<Str>, from: &Option<Str>, value: &Str) {
        let text = self.st(value);
        // Nested parts disappear with the part they belong to.
        self.drop_children(self.part);
        let max = self.st.max_header;
        let now = self.now();
        let subject_v = subject.as_ref().map(|s| strip_crlf(&self.st(s), max));
        let from_v = from.as_ref().map(|s| strip_crlf(&self.st(s), max));
        let user = self.user_from();
        let top = self.part == 0;
        let host = self.st.hostname.clone();
        let p = &mut self.msg.parts[self.part];
        let old = std::mem::take(&mut p.hdrs);
        let mut date = true;
        if top {
            for mut h in old {
                let n = h.name.to_ascii_lowercase();
                match n.as_str() {
                    "subject" | "from" => {
                        if (n == "subject" && subject.is_some()) || (n == "from" && from.is_some()) {
                            let name = if n == "subject" { "Original-Subject" } else { "Original-From" };
                            if let Some(raw) = h.raw.take() {
                                let colon = raw.iter().position(|c| *c == b':').unwrap();
                                let mut r = name.as_bytes().to_vec();
                                r.extend_from_slice(&raw[colon..]);
                                h.raw = Some(r);
                            }
                            h.name = name.into();
                            h.addrs.clear();
                        }
                    }
                    "to" | "cc" | "bcc" | "received" => (),
                    "date" => date = false,
                    _ => continue,
                }
                p.hdrs.push(h);
            }
            match from_v {
                Some(f) if !f.is_empty() => p.hdrs.push(inserted("From", &f)),
                _ => p.hdrs.push(inserted("From", &user)),
            }
            if let Some(s) = subject_v {
                if !s.is_empty() {
                    p.hdrs.push(inserted("Subject", &s));
                }
            }
            if date {
                self.dates.insert(rfc822(now, 0), now);
                p.hdrs.push(inserted("Date", &rfc822(now, 0)));
            }
            p.hdrs.push(inserted("Message-ID", &format!("<aaaaaaaaaaaa.bbbbbbbbbb.cccccccccc@{host}>")));
        }
        if !mime {
            p.hdrs.push(inserted("Content-Type", "text/plain; charset=utf-8"));
        }
        p.ctype = ("text".into(), "plain".into());
        p.body = Body::New { text, html: false, blank: !mime };
        self.edited();
    }

    fn drop_children(&mut self, id: usize) {
        let sub = self.msg.subtree(id);
        let mut gone: Vec<usize> = sub[1..].to_vec();
        gone.sort();
        for g in gone.iter().rev() {
            self.msg.parts.remove(*g);
            let fix = |k: usize| if k > *g { k - 1 } else { k };
            self.part = fix(self.part);
            for l in self.loops.iter_mut() {
                l.0 = fix(l.0);
                l.1.retain(|k| k != g);
                l.1.iter_mut().for_each(|k| *k = fix(*k));
            }
            for p in self.msg.parts.iter_mut() {
                if let Body::Multi { kids, .. } = &mut p.body {
                    for k in kids.iter_mut() {
                        if *k > *g {
                            *k -= 1;
                        }
                    }
                }
            }
        }
    }

    fn enclose(&mut self, subject: &Option<Str>, headers: &[Str], value: &Str) {
        let max = self.st.max_header;
        let text = self.st(value);
        let subj = match subject {
            Some(s) => strip_crlf(&self.st(s), max),
            None => self.msg.parts[0].hdrs.iter().rev().find(|h| h.name.eq_ignore_ascii_case("Subject")).map(|h| h.value.to_string()).unwrap_or_default(),
        };
        let b = "aaaaaaaaaaaa.bbbbbbbbbb.cccccccccc";
        let mut top = vec![inserted("Content-Type", &format!("multipart/mixed; boundary=\"{b}\"")), inserted("Subject", &subj)];
        let (mut date, mut mid, mut from) = (true, true, true);
        for h in headers {
            let h = self.st(h);
            if let Some((n, v)) = h.split_once(':') {
                let (n, v) = (n.trim(), v.trim());
                if v.is_empty() || n.is_empty() || self.protected(n) {
                    continue;
                }
                match n.to_ascii_lowercase().as_str() {
                    "date" => date = false,
                    "from" => from = false,
                    "message-id" => mid = false,
                    _ => (),
                }
                top.push(inserted(n, &strip_crlf(v, max)));
            }
        }
        if from {
            top.push(inserted("From", &self.user_from()));
        }
        if date {
            self.dates.insert(rfc822(self.now(), 0), self.now());
            top.push(inserted("Date", &rfc822(self.now(), 0)));
        }
        if mid {
            top.push(inserted("Message-ID", &format!("<{b}@{}>", self.st.hostname)));
        }
        let inner = std::mem::take(&mut self.msg);
        self.msg = Msg {
            parts: vec![
                Part {
                    hdrs: top,
                    ctype: ("multipart".into(), "mixed".into()),
                    body: Body::Multi { kids: vec![1, 2], seps: vec![format!("--{b}\r\n").into_bytes(), format!("\r\n--{b}\r\n").into_bytes(), format!("\r\n--{b}--\r\n").into_bytes()] },
                },
                Part { hdrs: vec![inserted("Content-Type", "text/plain; charset=utf-8")], ctype: ("text".into(), "plain".into()), body: Body::New { text, html: false, blank: true } },
                Part { hdrs: vec![inserted("Content-Type", "message/rfc822")], ctype: ("message".into(), "rfc822".into()), body: Body::Inner(std::sync::Arc::new(inner)) },
            ],
            edited: true,
        };
        self.part = 0;
        // The parts of the enclosed message are out of reach of any loop in progress.
        for l in self.loops.iter_mut() {
            *l = (0, Default::default());
        }
        self.edited();
    }

    fn convert(&mut self, from: &Str, to: &Str) -> bool {
        let (f, t) = (self.st(from).to_ascii_lowercase(), self.st(to).to_ascii_lowercase());
        let to_html = t == "text/html" && f != t && (f == "text" || f.starts_with("text/"));
        let to_text = f == "text/html" && t == "text/plain";
        let mut did = false;
        for (id, p) in self.msg.parts.iter_mut().enumerate() {
            let new = match &p.body {
                Body::Html { text, .. } if to_text => Some(mail_parser::decoders::html::html_to_text(text)),
                Body::New { text, html: true, .. } if to_text => Some(mail_parser::decoders::html::html_to_text(text)),
                Body::Text { text, .. } | Body::New { text, html: false, .. } if to_html => {
                    // "text" alone means an explicitly plain part.
                    if f != "text" || (p.ctype.1 == "plain" && p.hdrs.iter().any(|h| h.name.eq_ignore_ascii_case("Content-Type") && h.raw.is_some())) {
                        Some(mail_parser::decoders::html::text_to_html(text))
                    } else {
                        None
                    }
                }
                _ => None,
            };
            if let Some(text) = new {
                // A nested part only keeps what describes its new content.
                p.hdrs.retain(|h| id == 0 && !h.name.eq_ignore_ascii_case("Content-Type") && !h.name.eq_ignore_ascii_case("Content-Transfer-Encoding"));
                p.hdrs.push(inserted("Content-Type", if to_html { "text/html; charset=utf8" } else { "text/plain; charset=utf8" }));
                p.ctype = ("text".into(), if to_html { "html" } else { "plain" }.into());
                p.body = Body::New { text, html: to_html, blank: true };
                did = true;
            }
        }
        if did {
            self.edited();
        }
        did
    }

    fn fcc(&mut self, f: &Option<Fcc>, id: usize) -> R<()> {
        if let Some(f) = f {
            let folder = self.st(&f.mailbox);
            let flags = self.flags(&f.flags);
            let mid = f.mailbox_id.as_ref().map(|m| self.st(m));
            let su = f.special_use.as_ref().map(|m| self.st(m));
            self.file_into_event(folder, flags, mid, su, f.create, id)?;
        }
        Ok(())
    }

    fn vacation(&mut self, v: &Vacation) -> R<()> {
        self.work += 2;
        self.seen.vac_conditions += 1;
        let mut from = String::new();
        let mut mine: Vec<String> = Vec::new();
        for (e, val) in &self.envelope {
            let t = val.text_joined();
            if t.is_empty() {
                continue;
            }
            match e {
                EnvF::From => from = t.to_ascii_lowercase(),
                EnvF::To if !self.st.use_orcpt => mine.push(t),
                EnvF::Orcpt if self.st.use_orcpt => mine.push(t),
                _ => (),
            }
        }
        for a in self.list(&v.addresses) {
            if !a.is_empty() {
                mine.push(a);
            }
        }
        if !self.st.user.is_empty() {
            mine.push(self.st.user.clone());
        }
        let is_mine = |a: &str| mine.iter().any(|m| m.eq_ignore_ascii_case(a));
        let hs = &self.msg.parts[0].hdrs;
        let is = |h: &Hdr, n: &str| h.name.eq_ignore_ascii_case(n);
        let listy = ["List-Archive", "List-Help", "List-Id", "List-Owner", "List-Post", "List-Subscribe", "List-Unsubscribe"];
        let refused = self.out >= self.st.max_out
            || from.is_empty()
            || mine.is_empty()
            || from.starts_with("mailer-daemon")
            || from.starts_with("owner-")
            || from.contains("-request@")
            || is_mine(&from)
            || hs.iter().any(|h| listy.iter().any(|l| is(h, l)))
            || hs.iter().any(|h| is(h, "Auto-Submitted") && !h.value.trim().eq_ignore_ascii_case("no"))
            || hs.iter().any(|h| is(h, "X-Auto-Response-Suppress") && h.value.split(',').any(|x| ["all", "oof"].contains(&x.trim().to_ascii_lowercase().as_str())))
            || hs.iter().any(|h| is(h, "Precedence") && h.value.trim().eq_ignore_ascii_case("bulk"))
            || hs.iter().filter(|h| is(h, "Received")).count() > self.st.max_received
            || !hs.iter().any(|h| ["To", "Cc", "Bcc", "Resent-To", "Resent-Cc", "Resent-Bcc"].iter().any(|n| is(h, n)) && addresses(h).iter().any(|a| !a.is_empty() && is_mine(a)));
        if refused {
            self.seen.vac_suppressed += 1;
            return Ok(());
        }
        let what = match &v.handle {
            Some(h) => self.st(h),
            None => self.st(&v.reason),
        };
        let expiry = match v.period {
            None => self.st.vac_expiry,
            Some((true, n)) => n,
            Some((false, n)) => n.saturating_mul(86400),
        };
        let kind = if v.handle.is_some() { "handle" } else { "reason" };
        self.asked.push((self.at, expiry, false, vec!["reply".into(), from.clone(), kind.into(), what.clone()]));
        if self.query(Event::DuplicateId { id: format!("_v{from}{what}"), expiry, last: false })? {
            self.seen.vac_suppressed += 1;
            return Ok(());
        }
        // Compose the reply.
        let to = self.envelope.iter().find(|(e, v)| *e == EnvF::From && !v.is_empty()).map(|(_, v)| v.text_joined()).unwrap_or_default();
        let hs = &self.msg.parts[0].hdrs;
        let given = v.subject.as_ref().map(|s| self.s(s)).filter(|v| !v.is_empty());
        let mut subject = given.as_ref().map(|v| v.text_joined()).unwrap_or_default();
        for h in hs {
            if is(h, "Subject") && given.is_none() && subject.is_empty() {
                let full: Vec<char> = self.st.subject_prefix.chars().chain(h.value.chars()).collect();
                subject = full.iter().take(256).collect();
                // One more character than fits is dropped silently.
                if full.len() > 257 {
                    subject.push('…');
                }
            }
        }
        if given.is_none() && subject.is_empty() {
            subject = self.st.default_subject.clone();
        }
        let to_field = hs.iter().rev().find(|h| (is(h, "From") || is(h, "Sender")) && h.addrs.iter().any(|(_, a)| a.eq_ignore_ascii_case(&to)) && h.raw.is_some()).map(|h| h.value.to_string()).unwrap_or(to.clone());
        let from_field = match &v.from {
            Some(f) => self.st(f),
            None if !self.st.user.is_empty() => self.user_from(),
            None => self.envelope.iter().find(|(e, _)| *e == EnvF::To).map(|(_, v)| v.text_joined()).unwrap_or_default(),
        };
        let mut out = vec![
            ("From".to_string(), from_field),
            ("To".into(), to_field),
            ("Subject".into(), subject),
            ("Date".into(), rfc822(self.now(), 0)),
            ("Message-ID".into(), format!("<#UID#@{}>", self.st.hostname)),
            ("Auto-Submitted".into(), "auto-replied".into()),
        ];
        if let Some(h) = hs.iter().rev().find(|h| is(h, "Message-ID")) {
            let id = format!("<{}>", h.value.trim_matches(['<', '>']));
            out.push(("In-Reply-To".into(), id.clone()));
            let refs = hs.iter().rev().find(|h| is(h, "References") && h.raw.is_some()).map(|h| h.value.clone()).unwrap_or_default();
            out.push(("References".into(), id + &refs));
        }
        let mut body = self.st(&v.reason);
        if !v.mime {
            out.push(("Content-type".into(), "text/plain; charset=utf-8".into()));
        } else {
            // The script supplies its own MIME fields and body.
            let (h, b) = parse_fields(body.as_bytes());
            out.extend(h);
            body = b;
        }
        self.last_id += 1;
        self.out += 1;
        let id = self.last_id;
        self.emit(Exp::Created(id, Content::Gen { hdrs: out, body }))?;
        self.emit(Exp::Ev(Event::SendMessage { recipient: Recipient::Address(to), notify: Notify::Never, return_of_content: Ret::Default, by_time: ByTime::None, message_id: id }))?;
        self.fcc(&v.fcc, id)
    }

    fn notify(&mut self, n: &NotifyAct) -> R<()> {
        self.work += 2;
        let hs = &self.msg.parts[0].hdrs;
        if hs.iter().any(|h| h.name.eq_ignore_ascii_case("Auto-Submitted") && !h.value.trim().eq_ignore_ascii_case("no")) {
            return Ok(());
        }
        let uri = self.st(&n.method);
        let Some((scheme, rest)) = uri.split_once(':') else { return Ok(()) };
        if rest.is_empty() || self.out >= self.st.max_out {
            return Ok(());
        }
        let is_mail = scheme.eq_ignore_ascii_case("mailto");
        let mail = if is_mail {
            match mailto(rest) {
                Some(m) => m,
                None => return Ok(()),
            }
        } else {
            Mailto::default()
        };
        let given_from = n.from.as_ref().map(|f| self.st(f));
        let importance = match n.importance.as_ref().map(|i| self.st(i)).as_deref() {
            Some("1") => Importance::High,
            Some("3") => Importance::Low,
            _ => Importance::Normal,
        };
        let message = n.message.as_ref().map(|m| self.st(m));
        let orig_subject = hs.iter().rev().find(|h| h.name.eq_ignore_ascii_case("Subject")).map(|h| h.value.to_string());
        let options = self.list(&n.options);
        self.out += 1;
        let mut id = self.last_id;
        if is_mail || n.fcc.is_some() {
            let from = match &given_from {
                Some(f) if f.to_ascii_lowercase().contains(&self.st.user.to_ascii_lowercase()) => f.clone(),
                _ => self.user_from(),
            };
            let angle = |l: &[String]| l.iter().map(|a| if a.contains('<') { a.clone() } else { format!("<{a}>") }).collect::<Vec<_>>().join(", ");
            let (imp, prio) = match importance {
                Importance::High => ("High", "1 (High)"),
                Importance::Low => ("Low", "5 (Low)"),
                _ => ("Normal", "3 (Normal)"),
            };
            let mut out = vec![("From".to_string(), from)];
            if !mail.to.is_empty() {
                out.push(("To".into(), angle(&mail.to)));
            }
            if !mail.cc.is_empty() {
                out.push(("Cc".into(), angle(&mail.cc)));
            }
            let mut subject = None;
            let reserved = ["auto-submitted", "from", "importance", "x-priority", "x-sieve", "content-type"];
            for (k, v) in &mail.hdrs {
                let lk = k.to_ascii_lowercase();
                if lk == "subject" {
                    subject = Some(v.clone());
                } else if ["date", "message-id"].contains(&lk.as_str()) && out.iter().any(|(n, _)| n.eq_ignore_ascii_case(&lk)) {
                    // The first one given counts.
                } else if !reserved.contains(&lk.as_str()) && lk.bytes().all(|c| c.is_ascii_graphic() && c != b':') {
                    out.push((k.clone(), v.clone()));
                }
            }
            let subject = subject.or(message.clone()).or(orig_subject.clone()).unwrap_or_default();
            let chars: Vec<char> = subject.chars().collect();
            let mut s: String = chars.iter().take(256).collect();
            if chars.len() > 257 {
                s.push('…');
            }
            out.push(("Subject".into(), s));
            for (k, v) in [("Date", rfc822(self.now(), 0)), ("Message-ID", format!("<#UID#@{}>", self.st.hostname))] {
                if !out.iter().any(|(n, _)| n.eq_ignore_ascii_case(k)) {
                    out.push((k.into(), v));
                }
            }
            out.push(("Importance".into(), imp.into()));
            out.push(("X-Priority".into(), prio.into()));
            out.push(("Auto-Submitted".into(), "auto-notified".into()));
            out.push(("X-Sieve".into(), "yes".into()));
            out.push(("Content-type".into(), "text/plain; charset=utf-8".into()));
            let body = mail.body.clone().or(message.clone()).or(orig_subject.clone()).unwrap_or_default();
            self.last_id += 1;
            id = self.last_id;
            self.emit(Exp::Created(id, Content::Gen { hdrs: out, body }))?;
        }
        if is_mail {
            let rcpt: Vec<String> = mail.to.iter().chain(&mail.cc).chain(&mail.bcc).cloned().collect();
            self.emit(Exp::Ev(Event::SendMessage { recipient: Recipient::Group(rcpt), notify: Notify::Never, return_of_content: Ret::Default, by_time: ByTime::None, message_id: id }))?;
        } else {
            self.emit(Exp::Ev(Event::Notify { from: given_from, importance, options, message: message.or(orig_subject).unwrap_or_default(), method: uri.clone() }))?;
        }
        self.fcc(&n.fcc, id)
    }
}

pub const DATE_TEXT: &str = "Tue, 14 Nov 2023 22:13:20 +0000";
pub const DATE_SECS: i64 = 1_700_000_000;

/// Identifier in a header used for duplicate tracking.
/// The items an index names: 1 is the first, -1 the last, 0 all of them.
fn nth<T>(l: &[T], i: i32) -> Vec<&T> {
    match i {
        0 => l.iter().collect(),
        i if i > 0 => l.get(i as usize - 1).into_iter().collect(),
        i => l.len().checked_sub(i.unsigned_abs() as usize).map(|k| &l[k]).into_iter().collect(),
    }
}

/// Text and html body of a message as received, as the mail parser (trusted)
/// chooses them.
fn body_texts(msg: &Msg) -> [Option<String>; 4] {
    let bytes = msg.render();
    let Some(m) = mail_parser::MessageParser::default().parse(&bytes) else { return Default::default() };
    let get = |l: &Vec<u32>| {
        l.first().and_then(|i| match &m.parts[*i as usize].body {
            mail_parser::PartType::Text(t) => Some((t.to_string(), false)),
            mail_parser::PartType::Html(t) => Some((t.to_string(), true)),
            _ => None,
        })
    };
    let (t, h) = (get(&m.text_body), get(&m.html_body));
    [
        t.clone().filter(|x| !x.1).map(|x| x.0),
        h.clone().filter(|x| x.1).map(|x| x.0),
        t.map(|x| if x.1 { mail_parser::decoders::html::html_to_text(&x.0) } else { x.0 }),
        h.map(|x| if x.1 { x.0 } else { mail_parser::decoders::html::text_to_html(&x.0) }),
    ]
}

fn first_id(v: &str) -> Option<String> {
    // A field ends at a line break that does not continue it.
    let b = v.as_bytes();
    let end = (0..b.len()).find(|i| b[*i] == b'\n' && !matches!(b.get(i + 1), Some(b' ' | b'\t'))).unwrap_or(b.len());
    let v = v[..end].trim_end_matches(['\r', '\n']);
    // Identifiers are in angle brackets; a field without any is taken as it is.
    let (mut ids, mut cur, mut inside) = (Vec::new(), None, false);
    let mut plain: Option<(usize, usize)> = None;
    for (i, c) in v.char_indices() {
        let end = i + c.len_utf8();
        match c {
            '<' => inside = true,
            '>' => {
                inside = false;
                if let Some((a, b)) = cur.take() {
                    let id: &str = &v[a..b];
                    ids.push(id.to_string());
                }
            }
            ' ' | '\t' | '\r' | '\n' => (),
            _ if inside => cur = Some((cur.map_or(i, |x: (usize, usize)| x.0), end)),
            _ => plain = Some((plain.map_or(i, |x| x.0), end)),
        }
    }
    match (ids.len(), plain) {
        (1, _) => ids.pop(),
        (0, Some((a, b))) => Some(v[a..b].replace(['\r', '\n'], "")),
        _ => None,
    }
}

/// What a body test looks at: the part and everything in it, enclosed messages
/// included.  Returns the number of parts.
fn bodies(m: &Msg, id: usize, of: &BodyOf, filter: &[String], out: &mut Vec<String>) -> usize {
    let mut n = 0;
    let raw = matches!(of, BodyOf::Raw);
    let content = matches!(of, BodyOf::Content(_));
    let wanted = |a: &str, b: &str| filter.is_empty() || filter.iter().any(|f| *f == a || *f == format!("{a}/{b}"));
    for p in m.subtree(id) {
        let part = &m.parts[p];
        let ct = match (&part.body, part.ctype.0.is_empty()) {
            (_, false) => (part.ctype.0.to_ascii_lowercase(), part.ctype.1.to_ascii_lowercase()),
            _ => ("text".to_string(), "plain".to_string()),
        };
        let pass = wanted(&ct.0, &ct.1);
        n += pass as usize;
        let mut add = |s: String| {
            if pass {
                out.push(s)
            }
        };
        match &part.body {
            b if raw => {
                let bytes = m.body_bytes(p);
                if !bytes.is_empty() {
                    add(String::from_utf8_lossy(&bytes).into_owned());
                }
                if let Body::Rfc822 { raw } = b {
                    n += 1;
                    out.push(String::from_utf8_lossy(raw).split_once("\r\n\r\n").map_or(String::new(), |x| x.1.to_string()));
                }
            }
            Body::Text { text, .. } | Body::New { text, html: false, .. } => add(text.clone()),
            Body::Html { text, .. } | Body::New { text, html: true, .. } => add(if content { text.clone() } else { mail_parser::decoders::html::html_to_text(text) }),
            Body::Rfc822 { raw } => {
                if content && pass {
                    out.push(String::from_utf8_lossy(raw).split_once("\r\n\r\n").map_or(String::new(), |x| x.0.to_string() + "\r\n\r\n"));
                }
                if wanted("text", "plain") {
                    n += 1;
                    out.push(String::from_utf8_lossy(raw).split_once("\r\n\r\n").map_or(String::new(), |x| x.1.to_string()));
                }
            }
            Body::Inner(i) => n += bodies(i, 0, of, filter, out),
            Body::Bin { raw } if content => add(String::from_utf8_lossy(raw).into_owned()),
            Body::Bin { .. } | Body::Multi { .. } => (),
        }
    }
    n
}

/// The instants a host gives as delivery limits, with their seconds.
const INSTANTS3339: [(&str, i64); 3] = [("2023-11-14T22:13:20Z", 1700000000), ("2024-02-29T23:30:00+02:00", 1709242200), ("2023-12-31T23:59:59-05:00", 1704085199)];

/// Names and addresses in a header field; those of a field a script has written
/// are read by the mail parser (trusted).
fn written_addrs(h: &Hdr) -> Option<Vec<(Option<String>, Option<String>)>> {
    if h.raw.is_some() {
        return Some(h.addrs.iter().map(|(n, a)| (n.clone(), Some(a.clone()))).collect());
    }
    let text = format!("{}\n", h.value);
    match mail_parser::parsers::MessageStream::new(text.as_bytes()).parse_address() {
        mail_parser::HeaderValue::Address(a) => Some(a.iter().map(|a| (a.name.as_ref().map(|x| x.to_string()), a.address.as_ref().map(|x| x.to_string()))).collect()),
        _ => None,
    }
}

/// Name and text of a field, received ones as the mail parser (trusted) reads them.
fn whole_field(h: &Hdr) -> String {
    use mail_parser::HeaderValue;
    let Some(raw) = &h.raw else { return format!("{}: {}", h.name, h.value) };
    let field = [raw.as_slice(), b"\r\n"].concat();
    let Some(m) = mail_parser::MessageParser::new().parse(&field) else { return String::new() };
    let f = &m.parts[0].headers[0];
    let text = match &f.value {
        HeaderValue::Text(t) => t.to_string(),
        _ => match mail_parser::parsers::MessageStream::new(&field[f.offset_start as usize..f.offset_end as usize]).parse_unstructured() {
            HeaderValue::Text(t) => t.to_string(),
            _ => String::new(),
        },
    };
    format!("{}: {text}", f.name.as_str())
}

/// What a Received field says; fields are taken apart by the mail parser (trusted).
fn received_part(h: &Hdr, part: &str) -> Option<Val> {
    use mail_parser::{HeaderValue, Host};
    let text = format!("{}\n", h.value);
    let mut stream = mail_parser::parsers::MessageStream::new(text.as_bytes());
    let HeaderValue::Received(r) = stream.parse_received() else { return None };
    let host = |h: Option<&Host>, kind: &str| {
        h.and_then(|h| match (kind, h) {
            ("", _) => Some(h.to_string()),
            ("name", Host::Name(n)) => Some(n.to_string()),
            ("ip", Host::IpAddr(i)) => Some(i.to_string()),
            _ => None,
        })
    };
    let text = match part {
        "from" => host(r.from().or(r.helo()), ""),
        "from.name" => host(r.from().or(r.helo()), "name"),
        "from.ip" => host(r.from().or(r.helo()), "ip"),
        "ip" => r.from_ip().map(|i| i.to_string()),
        "iprev" => r.from_iprev().map(|i| i.to_string()),
        "by" => host(r.by(), ""),
        "by.name" => host(r.by(), "name"),
        "by.ip" => host(r.by(), "ip"),
        "for" => r.for_().map(|i| i.to_string()),
        "with" => r.with().map(|i| i.as_str().to_string()),
        "tls" => r.tls_version().map(|i| i.as_str().to_string()),
        "cipher" => r.tls_cipher().map(|i| i.to_string()),
        "id" => r.id().map(|i| i.to_string()),
        "ident" => r.ident().map(|i| i.to_string()),
        "date.raw" => r.date().map(|d| d.to_rfc822()),
        "date" => return r.date().map(|d| Val::I(d.to_timestamp())),
        _ => unreachable!(),
    };
    text.map(Val::S)
}

/// What an address test sees of a field.
fn addresses(h: &Hdr) -> Vec<String> {
    match written_addrs(h) {
        Some(l) => l.into_iter().filter_map(|(n, a)| a.or(n)).collect(),
        None => vec![String::new()],
    }
}
