//! Generator of scripts, script libraries, settings and messages.  The syntax
//! tree carries the name resolution the language prescribes (the generator
//! tracks lexical scopes itself), so that the reference model need not.

use crate::ast::*;
use crate::mail::{self, Msg, ADDRS, WORDS};
use crate::model::{const_val, Settings, Unit};
use crate::tape::Tape;
use crate::val::{Op, Val, OPS};
use std::collections::{BTreeSet, HashMap, HashSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum SK {
    Keep,
    Discard,
    Stop,
    Return,
    FileInto,
    Redirect,
    Reject,
    Set,
    Let,
    Eval,
    Flag,
    If,
    While,
    Fep,
    Break,
    Continue,
    Include,
    Error,
    Unknown,
    AddHeader,
    DeleteHeader,
    ExtractText,
    Replace,
    Enclose,
    Convert,
    Vacation,
    Notify,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum TK {
    True,
    False,
    Not,
    AnyOf,
    AllOf,
    Header,
    Address,
    Envelope,
    Exists,
    Size,
    Str,
    Env,
    HasFlag,
    Duplicate,
    ValidNotify,
    NotifyCap,
    ValidExtList,
    Ihave,
    Mailbox,
    MailboxId,
    SpecialUse,
    Metadata,
    MetadataExists,
    Spam,
    Virus,
    Eval,
    CurrentDate,
    Date,
    Body,
    Convert,
    Unknown,
}

pub const STMTS: [(SK, u32); 27] = [
    (SK::Set, 10),
    (SK::FileInto, 6),
    (SK::Keep, 4),
    (SK::Let, 6),
    (SK::If, 14),
    (SK::While, 4),
    (SK::Fep, 3),
    (SK::Include, 5),
    (SK::Flag, 5),
    (SK::Discard, 2),
    (SK::Redirect, 4),
    (SK::Reject, 1),
    (SK::Eval, 3),
    (SK::Stop, 1),
    (SK::Return, 2),
    (SK::Break, 3),
    (SK::Continue, 2),
    (SK::Error, 1),
    (SK::Unknown, 1),
    (SK::AddHeader, 4),
    (SK::DeleteHeader, 4),
    (SK::ExtractText, 3),
    (SK::Replace, 1),
    (SK::Enclose, 1),
    (SK::Convert, 1),
    (SK::Vacation, 2),
    (SK::Notify, 2),
];

pub const TESTS: [(TK, u32); 31] = [
    (TK::True, 2),
    (TK::Header, 10),
    (TK::Str, 8),
    (TK::Eval, 6),
    (TK::False, 1),
    (TK::Not, 5),
    (TK::AnyOf, 5),
    (TK::AllOf, 5),
    (TK::Address, 5),
    (TK::Envelope, 4),
    (TK::Exists, 4),
    (TK::Size, 2),
    (TK::Env, 2),
    (TK::HasFlag, 4),
    (TK::Duplicate, 3),
    (TK::ValidNotify, 1),
    (TK::NotifyCap, 1),
    (TK::ValidExtList, 1),
    (TK::Ihave, 2),
    (TK::Mailbox, 4),
    (TK::MailboxId, 2),
    (TK::SpecialUse, 2),
    (TK::Metadata, 2),
    (TK::MetadataExists, 1),
    (TK::Spam, 1),
    (TK::Virus, 1),
    (TK::CurrentDate, 2),
    (TK::Date, 1),
    (TK::Body, 3),
    (TK::Convert, 1),
    (TK::Unknown, 1),
];

/// What a workload concentrates on.
#[derive(Clone)]
pub struct Bias {
    pub stmts: HashMap<SK, u32>,
    pub tests: HashMap<TK, u32>,
    /// Percent chance that an expression leaf is a function call.
    pub calls: usize,
    pub lists: usize,
    pub max_stmts: usize,
    pub max_depth: usize,
    pub units: usize,
    pub multi: bool,
    pub auto_hdrs: usize,
    pub to_user: usize,
    pub tight: usize,
    pub forbid: usize,
    pub swarm: bool,
    /// Unused layouts of the message.
    pub weird: bool,
    /// Percent of deliveries an automatic reply is due for (ordinary sender,
    /// addressed to the user).
    pub calm: usize,
    /// Percent of values with line breaks and other control characters.
    pub hostile: usize,
    /// Percent of deliveries created at an unusual instant.
    pub clocks: usize,
    /// Scripts may come from storage.
    pub stored: bool,
}

impl Bias {
    pub fn general() -> Bias {
        Bias {
            stmts: STMTS.iter().copied().collect(),
            tests: TESTS.iter().copied().collect(),
            calls: 20,
            lists: 6,
            max_stmts: 7,
            max_depth: 3,
            units: 3,
            multi: true,
            auto_hdrs: 15,
            to_user: 60,
            tight: 25,
            forbid: 10,
            swarm: true,
            weird: false,
            calm: 20,
            hostile: 1,
            clocks: 5,
            stored: false,
        }
    }
    pub fn st(mut self, l: &[(SK, u32)]) -> Self {
        for (k, m) in l {
            if let Some(w) = self.stmts.get_mut(k) {
                *w *= m;
            }
        }
        self
    }
    pub fn te(mut self, l: &[(TK, u32)]) -> Self {
        for (k, m) in l {
            if let Some(w) = self.tests.get_mut(k) {
                *w *= m;
            }
        }
        self
    }
}

pub const HOSTILE: [&str; 9] = ["a\r\nBcc: victim@v.example", "x\r\n\r\nforged body", "two\nlines", "lone\rcr", "\r\n", "tab\there", "end\r\n", "\nSubject: forged", "q\r\n folded"];
/// Literals whose notation needs care.
pub const TRICKY: [&str; 21] = ["${a b}", "${}", "$$", "x${hex:}", "${hex:4G}", "${unicode:zz}", "${hex:1ff}", "%{x}", "${hex:40 G1}$", "${\u{e9}}", "${hex:$", "a${", ".5x\r\n", "42\n", "\ttab\r\n.\tdot\r\n",
    "tail\\", "c:\\new\\road", "say \"hi\"", "one\r\n.two\r\n", ".\r\n..\r\nx\r\n", "{$x}"];
pub const REGEXES: [&str; 8] = ["^(.*)@(.+)$", "al(.+)a", "^.+ (.*)$", "l+", "^Re: (.*)$", "o", "(.)o", "^$"];
/// What the variables of the prelude hold.
pub const NAMED: [&str; 40] = [
    "X-Foo", "Subject", "From", "To", "Cc", "Date", "Content-Type", "X-New", "X-Bar", "INBOX.work", "Spam", "/private/comment", "list1", "text/plain", "text/html", "image/png", "h1", "\\Junk", "\\Sent", "\\Seen",
    "online", "anna@a.example", "bob@b.example", "1", "2", "5", "42", "alpha", "a.example", "id1", "X-Enc: yes", "mailto:alarm@n.example", "*@*", "al*", "*o*", "^(.*)@(.+)$", "(.)o", "k=v", "work", "maybe",
];
pub const LOCALS: [&str; 7] = ["a", "b", "cnt", "name", "value", "acc", "tmp"];
pub const GLOBALS: [&str; 4] = ["g", "shared", "total", "seen"];
pub const FOLDERS: [&str; 6] = ["INBOX.work", "Lists", "Spam", "Über", "Archive/2023", "x"];
pub const FLAGS: [&str; 7] = ["\\Seen", "\\Flagged", "$label1", "\\seen", "work", "Work", "\\Deleted \\Draft"];
pub const ENVS: [&str; 3] = ["domain", "phase", "quota"];
pub const HNAMES: [&str; 15] = ["Subject", "X-Foo", "X-Bar", "X-Part", "Comments", "subject", "x-foo", "From", "To", "Received", "Message-ID", "Sender", "Reply-To", "In-Reply-To", "References"];
pub const ENVFS: [EnvF; 14] = [EnvF::From, EnvF::To, EnvF::Orcpt, EnvF::Envid, EnvF::From, EnvF::To, EnvF::Ret, EnvF::Notify, EnvF::ByRel, EnvF::ByMode, EnvF::ByTrace, EnvF::ByAbs, EnvF::From, EnvF::To];
pub const EDITNAMES: [&str; 8] = ["X-Foo", "X-Bar", "X-New", "Comments", "Subject", "X-Prot", "Original-Subject", "x-foo"];
pub const ALLCAPS: [&str; 47] = [
    "body", "convert", "copy", "date", "duplicate", "editheader", "enclose", "encoded-character", "enotify", "envelope", "envelope-deliverby", "envelope-dsn", "environment", "ereject",
    "extlists", "extracttext", "fcc", "fileinto", "foreverypart", "ihave", "imap4flags", "imapsieve", "include", "index", "mailbox", "mailboxid", "mboxmetadata", "mime", "redirect-deliverby",
    "redirect-dsn", "regex", "reject", "relational", "replace", "servermetadata", "spamtest", "spamtestplus", "special-use", "subaddress", "vacation", "vacation-seconds", "variables", "virustest",
    "vnd.stalwart.expressions", "vnd.stalwart.while", "comparator-i;ascii-numeric", "comparator-i;octet",
];

/// (name, external id, arguments)
pub const FUNCS: [(&str, Option<u32>, usize); 7] =
    [("ask", Some(1), 1), ("next", Some(2), 0), ("join", Some(3), 3), ("cat", None, 2), ("size_of", None, 1), ("first", None, 1), ("probe", Some(4), 2)];

struct Scope {
    map: HashMap<String, DeclId>,
    owned: Vec<DeclId>,
}

pub struct G<'a> {
    pub t: &'a mut Tape,
    pub b: &'a Bias,
    pub st: &'a Settings,
    stmts: Vec<(SK, u32)>,
    tests: Vec<(TK, u32)>,
    scopes: Vec<Scope>,
    globals: HashSet<String>,
    next: DeclId,
    /// Captures usable here (count including ${0}).
    caps: usize,
    whiles: usize,
    whiles_direct: bool,
    feps: Vec<Option<String>>,
    loops: Vec<bool>, // true = while
    /// Capturing tests generated so far, and whether more may come.
    captures: usize,
    no_capture: bool,
    nblocks: Vec<u8>,
    jumps: bool,
    bare: bool,
    exclude: Option<DeclId>,
    counters: usize,
    includes: usize,
    names: Vec<(bool, String)>,
    uses_ihave: bool,
    depth: usize,
    budget: usize,
    /// Variables of the prelude: value, name.
    named: Vec<(String, String, DeclId)>,
    raw_ok: bool,
    /// Raw bodies of parts are tested, and so no header field is edited.
    raw_body: bool,
}

fn swarm<T: Copy + Ord>(t: &mut Tape, on: bool, base: &HashMap<T, u32>) -> Vec<(T, u32)> {
    let mut v: Vec<(T, u32)> = base.iter().map(|(k, w)| (*k, *w)).collect();
    v.sort();
    if on {
        for x in v.iter_mut() {
            x.1 *= [2, 0, 1, 2, 4, 1][t.below(6)];
        }
    }
    v
}

impl<'a> G<'a> {
    pub fn new(t: &'a mut Tape, b: &'a Bias, st: &'a Settings, names: Vec<(bool, String)>, raw_ok: bool, raw_body: bool) -> Self {
        let mut stmts = swarm(t, b.swarm, &b.stmts);
        let tests = swarm(t, b.swarm, &b.tests);
        // Something must remain.
        stmts.push((SK::FileInto, 1));
        stmts.push((SK::If, 2));
        let mut tests = tests;
        tests.push((TK::Str, 1));
        if raw_ok {
            // Raw bodies are only tested where nothing restructures the message.
            stmts.iter_mut().filter(|s| matches!(s.0, SK::Replace | SK::Enclose | SK::Convert)).for_each(|s| s.1 = 0);
            tests.iter_mut().filter(|s| matches!(s.0, TK::Convert)).for_each(|s| s.1 = 0);
        }
        if raw_body {
            // Whether the raw body of a multipart shows the edits made to the
            // fields of the parts inside it is nobody's promise.
            stmts.iter_mut().filter(|s| matches!(s.0, SK::AddHeader | SK::DeleteHeader)).for_each(|s| s.1 = 0);
        }
        if st.user.is_empty() {
            stmts.iter_mut().filter(|s| matches!(s.0, SK::Replace | SK::Enclose)).for_each(|s| s.1 = 0);
        }
        G {
            raw_ok,
            raw_body,
            t,
            b,
            st,
            stmts,
            tests,
            scopes: vec![],
            globals: HashSet::new(),
            next: 0,
            caps: 0,
            whiles: 0,
            whiles_direct: false,
            feps: vec![],
            loops: vec![],
            captures: 0,
            no_capture: false,
            nblocks: vec![],
            jumps: false,
            bare: false,
            exclude: None,
            counters: 0,
            includes: 0,
            names,
            uses_ihave: false,
            depth: 0,
            budget: 0,
            named: vec![],
        }
    }

    fn new_decl(&mut self) -> DeclId {
        self.next += 1;
        self.next
    }

    fn lookup(&self, lower: &str) -> Option<DeclId> {
        self.scopes.iter().rev().find_map(|s| s.map.get(lower).copied())
    }

    fn visible(&self) -> Vec<(String, DeclId)> {
        let mut seen = HashSet::new();
        let mut o = Vec::new();
        for s in self.scopes.iter().rev() {
            let mut k: Vec<_> = s.map.iter().collect();
            k.sort();
            for (n, d) in k {
                if seen.insert(n.clone()) {
                    o.push((n.clone(), *d));
                }
            }
        }
        o
    }

    fn case(&mut self, n: &str) -> String {
        if self.t.chance(1, 8) {
            let mut c = n.chars();
            c.next().map(|f| f.to_uppercase().collect::<String>() + c.as_str()).unwrap_or_default()
        } else {
            n.to_string()
        }
    }

    // ----------------------------------------------------------- variables

    /// Something readable.
    fn vref(&mut self, in_expr: bool) -> VRef {
        let vis = self.visible();
        match self.t.weighted(&[8, 3, 1, 2, if self.caps > 0 && !in_expr { 8 } else { 0 }, 1, 2, if self.feps.is_empty() || in_expr { 0 } else { 2 }]) {
            0 if !vis.is_empty() => {
                let (n, d) = self.t.pick(&vis).clone();
                if Some(d) == self.exclude {
                    return VRef::Env(ENVS[0].into());
                }
                VRef::Local { text: self.case(&n), decl: d }
            }
            0 | 1 => {
                let g = *self.t.pick(&GLOBALS);
                if self.globals.contains(g) && self.t.chance(1, 2) {
                    return VRef::Global { text: self.case(g), key: g.into() };
                }
                let ns = *self.t.pick(&["global", "global", "t"]);
                VRef::Global { text: format!("{ns}.{}", self.case(g)), key: g.into() }
            }
            2 => VRef::Env(self.t.pick(&ENVS).to_string()),
            3 => VRef::Envelope(self.t.pick(&ENVFS).clone()),
            4 => VRef::Match(self.t.below(self.caps)),
            5 if !in_expr => {
                let n = *self.t.pick(&["nothing", "zzz"]);
                VRef::Undef(n.into())
            }
            6 => self.header_var(),
            7 => VRef::PartText,
            _ => VRef::Env(ENVS[1].into()),
        }
    }

    /// A field of the current part, or the text of the message.
    fn header_var(&mut self) -> VRef {
        // Only where nothing restructures the message do structured fields
        // stay as they were received.
        let raw = self.raw_ok;
        if raw && self.t.chance(1, 8) {
            return VRef::Body(self.t.below(4));
        }
        let k = self.t.weighted(&[6, 2, if raw { 3 } else { 0 }, if raw { 2 } else { 0 }, if raw { 1 } else { 0 }, 1]);
        let index = |g: &mut Self| if g.t.chance(2, 5) { Some(*g.t.pick(&[1, 0, -1, 2, -2, 3])) } else { None };
        let mut v = HVar::text_of("X-Foo");
        match k {
            0 | 1 => {
                v.names = vec![self.t.pick(&["X-Foo", "Subject", "X-Bar", "x-foo", "Comments", "X-New"]).to_string()];
                if k == 1 {
                    v.names.push(self.t.pick(&["X-Bar", "X-Part", "Subject", "X-Foo"]).to_string());
                }
                v.index = index(self);
                v.part = self.t.pick(&[HP::Text, HP::Text, HP::Text, HP::Exists, HP::Raw, HP::RawName]).clone();
                if v.part == HP::Text && self.t.chance(1, 8) {
                    v.pindex = Some(*self.t.pick(&[1, 0, 2]));
                }
            }
            2 => {
                v.names = vec![self.t.pick(&["From", "To", "Cc"]).to_string()];
                if self.t.chance(1, 3) {
                    v.names.push(self.t.pick(&["Cc", "Bcc", "From"]).to_string());
                }
                v.index = index(self);
                v.pindex = index(self);
                v.part = self.t.pick(&[HP::Addr, HP::Text, HP::Name, HP::Addr]).clone();
                if self.t.chance(1, 6) {
                    v.names = vec!["X-Original-From".into()];
                }
            }
            3 => {
                let rcvd = *self.t.pick(&["from", "by", "from.name", "from.ip", "ip", "iprev", "by.name", "by.ip", "for", "with", "tls", "cipher", "id", "ident", "date", "date.raw"]);
                let (n, p) = self
                    .t
                    .pick(&[
                        ("Message-ID", HP::Id),
                        ("Message-ID", HP::Text),
                        ("Date", HP::Date),
                        ("Date", HP::Text),
                        ("References", HP::Text),
                        ("Content-Type", HP::Text),
                        ("Content-Type", HP::Type),
                        ("Content-Type", HP::Subtype),
                        ("Content-Type", HP::Attr("charset".into())),
                        ("Content-Type", HP::Attr("boundary".into())),
                        ("Content-Type", HP::Attr("CharSet".into())),
                        ("Received", HP::Exists),
                        ("Received", HP::Raw),
                        ("Received", HP::Rcvd(rcvd)),
                        ("Received", HP::Rcvd(rcvd)),
                    ])
                    .clone();
                v.names = vec![n.to_string()];
                v.part = p;
                v.index = index(self);
                if n == "References" {
                    v.pindex = index(self);
                }
            }
            4 => {
                v.names = vec![];
                v.part = self.t.pick(&[HP::Exists, HP::RawName, HP::Raw, HP::Text]).clone();
            }
            _ => v = HVar::text_of(self.t.pick(&["X-Foo", "Subject", "X-Bar"])),
        }
        VRef::Header(v)
    }

    /// An assignable name; registers it. Returns whether it is new.
    fn target(&mut self, local_tag: bool, fresh_ok: bool) -> (Target, bool) {
        match self.t.weighted(&[10, 3, if self.loops.is_empty() { 1 } else { 0 }]) {
            1 => {
                let g = *self.t.pick(&GLOBALS);
                if self.globals.contains(g) && self.t.chance(1, 2) {
                    return (Target::Global { text: self.case(g), key: g.into() }, false);
                }
                return (Target::Global { text: format!("global.{g}"), key: g.into() }, false);
            }
            2 => return (Target::Envelope(self.t.pick(&ENVFS[..11]).clone()), false),
            _ => (),
        }
        let n = *self.t.pick(&LOCALS);
        let text = self.case(n);
        if let Some(d) = self.lookup(n) {
            return (Target::Local { text, decl: d }, false);
        }
        if !fresh_ok {
            let vis: Vec<_> = self.visible().into_iter().filter(|(n, _)| !n.starts_with("k_") && !n.starts_with("n_")).collect();
            if let Some((n, d)) = vis.first() {
                return (Target::Local { text: n.clone(), decl: *d }, false);
            }
            let g = GLOBALS[0];
            return (Target::Global { text: format!("global.{g}"), key: g.into() }, false);
        }
        let d = self.new_decl();
        if local_tag && self.scopes.len() > 1 {
            self.scopes[0].map.insert(n.into(), d);
        } else {
            let s = self.scopes.last_mut().unwrap();
            s.map.insert(n.into(), d);
            s.owned.push(d);
        }
        (Target::Local { text, decl: d }, true)
    }

    fn word(&mut self) -> String {
        self.t.pick(&WORDS).to_string()
    }

    /// A MIME entity.
    fn entity(&mut self) -> Str {
        let head = *self.t.pick(&[
            "Content-Type: text/html; charset=utf-8\r\n\r\n",
            "Content-Type: text/plain; charset=utf-8\r\nContent-Transfer-Encoding: 8bit\r\n\r\n",
            "MIME-Version: 1.0\r\nContent-Type: multipart/mixed; boundary=\"xx\"\r\n\r\n--xx\r\nContent-Type: text/plain\r\n\r\nhello\r\n--xx--\r\n",
        ]);
        let mut v = vec![Seg::Lit(head.into())];
        v.extend(self.grown());
        v
    }

    /// Text for a part of the message.  It names the text of the current part
    /// at most once: a script that doubles it in a loop exhausts the memory
    /// (known-findings.txt).
    fn grown(&mut self) -> Str {
        let mut v = self.value();
        let mut seen = false;
        for s in v.iter_mut() {
            if matches!(s, Seg::Var(VRef::PartText)) {
                if seen {
                    *s = Seg::Var(VRef::Env("domain".into()));
                }
                seen = true;
            }
        }
        v
    }

    /// A string with at most a few expansions.
    pub fn string(&mut self) -> Str {
        match self.t.weighted(&[5, 4, 3]) {
            _ if self.t.chance(self.b.hostile, 400) => lit(self.t.pick(&HOSTILE)),
            0 if self.t.chance(1, 20) => lit(self.t.pick(&TRICKY)),
            0 => lit(&self.word()),
            1 => {
                let v = self.vref(false);
                vec![Seg::Var(v)]
            }
            _ => {
                let mut o: Str = vec![];
                let n = self.t.range(2, 4);
                let mut undef = false;
                for i in 0..n {
                    let want_lit = matches!(o.last(), Some(Seg::Var(_))) || i == 0 && self.t.chance(1, 2);
                    if want_lit && !matches!(o.last(), Some(Seg::Lit(_))) {
                        o.push(Seg::Lit(self.t.pick(&[" ", "-", ":x", "a", "42", "<", ", ", "ß"]).to_string()));
                    } else {
                        let v = self.vref(false);
                        undef |= matches!(v, VRef::Undef(_));
                        o.push(Seg::Var(v));
                    }
                }
                if undef {
                    // Keep the text non-numeric whatever remains of it.
                    for s in o.iter_mut() {
                        if let Seg::Lit(l) = s {
                            *l = format!("u{l}");
                        }
                    }
                    if !o.iter().any(|s| matches!(s, Seg::Lit(_))) {
                        o.push(Seg::Lit("u".into()));
                    }
                }
                if self.t.chance(1, 16) {
                    // Something that only looks like a reference.
                    o.insert(0, Seg::Lit(self.t.pick(&["${", "${a ", "$", "${hex:4", "{", "%", "${unicode:41 $"]).to_string()));
                }
                if self.t.chance(1, 16) {
                    o.push(Seg::Lit(self.t.pick(&["\n", "\r\n", "\r\n.\r\n", "}\n"]).to_string()));
                }
                // Adjacent literals would be one.
                let mut merged: Str = vec![];
                for s in o {
                    match (merged.last_mut(), s) {
                        (Some(Seg::Lit(a)), Seg::Lit(b)) => a.push_str(&b),
                        (_, s) => merged.push(s),
                    }
                }
                merged
            }
        }
    }

    fn of(&mut self, l: &[&str]) -> Str {
        match self.t.weighted(&[6, 1]) {
            0 => self.one(l),
            _ => self.string(),
        }
    }

    /// A constant of the list or something only known at run time.
    fn of_var(&mut self, l: &[&str]) -> Str {
        match self.t.weighted(&[6, 1]) {
            0 => self.one(l),
            _ => {
                let v = match self.vref(false) {
                    VRef::Undef(_) => VRef::Env(ENVS[0].into()),
                    v => v,
                };
                vec![Seg::Var(v)]
            }
        }
    }

    fn many(&mut self, f: impl Fn(&mut Self) -> Str) -> Vec<Str> {
        let n = [1, 1, 1, 2, 3][self.t.below(5)];
        (0..n).map(|_| f(self)).collect()
    }

    fn address(&mut self) -> Str {
        match self.t.weighted(&[8, 1, 1, 1]) {
            0 => self.one(&ADDRS),
            1 => lit(self.t.pick(&["not an address", "Zed <zed@z.example>", "zed@localhost", "\"q q\"@z.example", ""])),
            2 => lit(&self.st.user.clone()),
            _ => {
                let v = self.vref(false);
                vec![Seg::Var(v), Seg::Lit("@v.example".into())]
            }
        }
    }

    // --------------------------------------------------------- expressions

    pub fn expr(&mut self, d: usize) -> Expr {
        if d == 0 || self.t.chance(2, 5) {
            return self.leaf(d);
        }
        match self.t.weighted(&[10, 2, 2, 1, 2]) {
            1 => Expr::Neg(Box::new(self.expr(d - 1))),
            2 => Expr::Not(Box::new(self.expr(d - 1))),
            3 => {
                // Indexing: base is a variable or a call.
                let base = if self.t.chance(1, 2) {
                    self.call(d - 1)
                } else {
                    match self.vref(true) {
                        // An index after it would be the index of the field.
                        VRef::Header(_) => Expr::Var(VRef::Env(ENVS[0].into())),
                        v => Expr::Var(v),
                    }
                };
                let i = Expr::Int(self.t.below(4) as i64);
                Expr::Index(Box::new(base), Box::new(i))
            }
            4 => self.call(d - 1),
            _ => {
                let op = *self.t.pick(&OPS);
                Expr::Bin(op, Box::new(self.expr(d - 1)), Box::new(self.expr(d - 1)))
            }
        }
    }

    fn leaf(&mut self, d: usize) -> Expr {
        if self.t.chance(self.b.calls, 100) {
            return self.call(d.saturating_sub(1));
        }
        match self.t.weighted(&[5, 5, 2, 1, 1]) {
            0 => match self.t.below(12) {
                0 => Expr::Word(true),
                1 => Expr::Word(false),
                _ => Expr::Int(*self.t.pick(&[1, 0, 2, 3, 7, 10, 42])),
            },
            1 => Expr::Var(self.vref(true)),
            2 => Expr::Str(self.t.pick(&["a", "beta", "42", "", "x y", "3.5"]).to_string()),
            3 => {
                let (f, s) = *self.t.pick(&[(1.5, "1.5"), (0.25, "0.25"), (10.75, "10.75")]);
                Expr::Float(f, s.into())
            }
            _ => {
                let n = self.t.below(4);
                let mut v: Vec<Expr> = Vec::new();
                for _ in 0..n {
                    v.push(match self.t.below(4) {
                        0 => Expr::Int(self.t.below(9) as i64),
                        1 => Expr::Str(self.t.pick(&["p", "q", "7"]).to_string()),
                        2 => Expr::Var(self.vref(true)),
                        _ if d > 0 => self.call(0),
                        _ => Expr::Int(5),
                    });
                }
                Expr::Array(v)
            }
        }
    }

    fn call(&mut self, d: usize) -> Expr {
        let (name, ext, n) = *self.t.pick(&FUNCS);
        let args = (0..n).map(|_| self.expr(d.min(2))).collect();
        Expr::Call { name: name.into(), ext, args }
    }

    // --------------------------------------------------------------- tests

    fn mt(&mut self, list_ok: bool) -> Match {
        let mtype = match self.t.weighted(&[6, 4, 5, 2, 2, 1, if list_ok { self.b.lists as u32 / 2 } else { 0 }]) {
            0 => MType::Is,
            1 => MType::Contains,
            2 => MType::Matches,
            3 => MType::Regex,
            4 => MType::Value(*self.t.pick(&RELS)),
            5 => MType::Count(*self.t.pick(&RELS)),
            _ => MType::List,
        };
        let cmp = match mtype {
            MType::Is | MType::Value(_) => *self.t.pick(&[Cmp::Default, Cmp::Default, Cmp::Casemap, Cmp::Octet, Cmp::Numeric]),
            MType::Count(_) => *self.t.pick(&[Cmp::Numeric, Cmp::Default]),
            MType::Contains | MType::Matches => *self.t.pick(&[Cmp::Default, Cmp::Default, Cmp::Casemap, Cmp::Octet]),
            MType::List => *self.t.pick(&[Cmp::Default, Cmp::Octet, Cmp::Casemap]),
            MType::Regex => Cmp::Default,
        };
        if self.no_capture && matches!(mtype, MType::Matches | MType::Regex) {
            return Match { mtype: MType::Contains, cmp: Cmp::Default };
        }
        if matches!(mtype, MType::Matches | MType::Regex) {
            self.captures += 1;
            // `${n}` in the arguments of a test that captures by itself.
            self.caps = 0;
        }
        Match { mtype, cmp }
    }

    fn glob(&mut self) -> String {
        if self.t.chance(1, 3) {
            return self.t.pick(&["*", "*@*", "* *", "Re: *", "?lpha", "*a*", "b*", "??", "*.example", "*\\**", "hello ?orld", "*\r\n*"]).to_string();
        }
        let w: Vec<char> = self.word().chars().collect();
        let mut o = String::new();
        let mut i = 0;
        while i < w.len() {
            match self.t.below(6) {
                4 => o.push('?'),
                5 => {
                    o.push('*');
                    i += self.t.below(4);
                }
                _ => {
                    if matches!(w[i], '*' | '?' | '\\') {
                        o.push('\\');
                    }
                    o.push(w[i])
                }
            }
            i += 1;
        }
        o
    }

    /// Keys for a match type; second value = captures a match provides.
    fn keys(&mut self, m: &Match, pool: &[&str]) -> (Vec<Str>, usize) {
        match m.mtype {
            MType::Matches => {
                let n = [1, 1, 1, 2][self.t.below(4)];
                let mut v = Vec::new();
                let mut caps = 0;
                for _ in 0..n {
                    let g = if !pool.is_empty() && self.t.chance(1, 4) {
                        let mut g = String::new();
                        for c in self.t.pick(pool).chars() {
                            if matches!(c, '*' | '?' | '\\') {
                                g.push('\\');
                            }
                            g.push(c);
                        }
                        g
                    } else if let (Some((v, ..)), true) = (self.named.iter().find(|n| n.0.contains('*') && !n.0.starts_with('^')).cloned(), self.t.chance(1, 2)) {
                        v
                    } else {
                        self.glob()
                    };
                    let mut c = 1;
                    let mut esc = false;
                    for ch in g.chars() {
                        if esc {
                            esc = false;
                        } else if ch == '\\' {
                            esc = true;
                        } else if ch == '*' || ch == '?' {
                            c += 1;
                        }
                    }
                    caps = c;
                    let g = self.named(&g);
                    v.push(g);
                }
                let caps = if n == 1 { caps } else { 0 };
                (v, caps)
            }
            MType::Regex => {
                let p = match self.named.iter().find(|n| REGEXES.contains(&n.0.as_str())) {
                    Some((v, ..)) if self.t.chance(1, 2) => REGEXES[REGEXES.iter().position(|r| r == v).unwrap()],
                    _ => *self.t.pick(&REGEXES),
                };
                let c = p.chars().filter(|c| *c == '(').count() + 1;
                (vec![self.named(p)], c)
            }
            MType::Count(_) => (vec![self.one(&["1", "0", "2", "3"])], 0),
            MType::Value(_) if m.cmp == Cmp::Numeric => (vec![self.one(&["5", "0", "42", "10.5", "-3", "100"])], 0),
            MType::List => (self.many(|g| g.one(&["urn:ietf:params:sieve:addrbook:default", "list1", "list2"])), 0),
            _ => {
                let pool: Vec<String> = pool.iter().map(|s| s.to_string()).collect();
                (
                    self.many(|g| {
                        if !pool.is_empty() && g.t.chance(2, 3) {
                            let l = g.t.pick(&pool).clone();
                            g.named(&l)
                        } else {
                            g.string()
                        }
                    }),
                    0,
                )
            }
        }
    }

    fn hnames(&mut self) -> Vec<Str> {
        self.many(|g| {
            let n = *g.t.pick(&HNAMES);
            // The Message-ID that replace and enclose generate is random.
            g.named(if n.eq_ignore_ascii_case("message-id") && !g.raw_ok { "X-Foo" } else { n })
        })
    }

    fn index(&mut self) -> Option<i32> {
        if self.t.chance(1, 4) {
            Some(*self.t.pick(&[1, -1, 2, -2, 3]))
        } else {
            None
        }
    }

    /// hasflag, date and currentdate take a regular expression for a glob
    /// (known-findings.txt).
    fn no_regex(&mut self, list_ok: bool) -> Match {
        let m = self.mt(list_ok);
        if m.mtype == MType::Regex {
            return Match { mtype: MType::Contains, cmp: Cmp::Default };
        }
        m
    }

    fn zone(&mut self, part: DPart) -> i64 {
        let z = *self.t.pick(&[0, 60, -480, 330, 825, -210]);
        // The minutes of a zone are not shown (known-findings.txt).
        let z = if matches!(part, DPart::Zone | DPart::Iso8601 | DPart::Std11) { z - z % 60 } else { z };
        // Local dates before 1970 are beyond the mail parser.
        if self.st.created_at < 100_000_000 && z < 0 {
            -z
        } else {
            z
        }
    }

    fn notify_uri(&mut self) -> Str {
        let uri = *self.t.pick(&[
            "mailto:alarm@n.example",
            "mailto:a@n.example,b@n.example?subject=Hi%20there",
            "mailto:a@n.example?cc=c@n.example&bcc=d@n.example&body=Text%20here",
            "mailto:?subject=none",
            "mailto:a@n.example?X-Alarm=yes&to=e@n.example",
            "mailto:a@n.example?auto-submitted=no&x-sieve=maybe",
            "mailto:A@n.example,a@n.example",
            "xmpp:user@x.example",
            "tel:+123",
            "nothing",
            "mailto:a@n.example?subject=x%0D%0AX-Injected:%20yes",
            "mailto:a@n.example?message-id=%3Cx1@n.example%3E&date=Tue,%2014%20Nov%202023%2022:13:20%20%2B0000&message-id=%3Cx2@n.example%3E",
            "mailto:?to=e@n.example&subject=later",
            "MAILTO:a%40n.example?Subject=Caps&Body=one%2Ctwo,three?four@five=six",
            "mailto:b@n.example%2Ca@n.example?From=evil@x.example&Content-Type=text/html&Importance=high",
            "mailto:a@n.example?date=x&Date=y&subject=one&Subject=two&x-a=1&x-a=2",
            "mailto:a@@n.example",
            "mailto:a@n.example?x=%zz",
            "mailto:a@n.example?x-a=1&subject",
            "mailto:a@n.example?%46rom=evil@x.example&X%0D%0AInjected=yes&X%20Y=z&x%3Ay=1",
            "mailto:a@n.example?%44ate=x&to=b@n.example&from",
            "mailto:a@n.example?x-a&x-b=2",
            "https://n.example/hook?a=b",
            "ftp://n.example/x",
        ]);
        self.named(uri)
    }

    /// Returns the test and the number of captures if it is one plain
    /// capturing test.
    pub fn test(&mut self, d: usize) -> (Test, usize) {
        let saved = self.caps;
        let r = self.test_(d);
        self.caps = saved;
        r
    }

    fn test_(&mut self, d: usize) -> (Test, usize) {
        let w: Vec<u32> = self
            .tests
            .iter()
            .map(|(k, w)| match k {
                TK::Not | TK::AnyOf | TK::AllOf if d == 0 => 0,
                _ => *w,
            })
            .collect();
        let k = self.tests[self.t.weighted(&w)].0;
        let mut caps = 0;
        let t = match k {
            TK::True => Test::True,
            TK::False => Test::False,
            TK::Not => Test::Not(Box::new(self.test_(d - 1).0)),
            TK::AnyOf | TK::AllOf => {
                let n = self.t.range(1, 3);
                let v = (0..n).map(|_| self.test_(d - 1).0).collect();
                if k == TK::AnyOf {
                    Test::AnyOf(v)
                } else {
                    Test::AllOf(v)
                }
            }
            TK::Header => {
                let mime = if self.t.chance(1, 6) {
                    match self.t.below(4) {
                        0 => MimeOpt::ContentType,
                        1 => MimeOpt::Type,
                        2 => MimeOpt::Subtype,
                        _ => MimeOpt::Param(self.many(|g| g.one(&["charset", "Charset", "name"]))),
                    }
                } else {
                    MimeOpt::None
                };
                let mut m = self.mt(matches!(mime, MimeOpt::None));
                if let MimeOpt::Param(_) = mime {
                    // (not counted in fields the script wrote)
                    if let MType::Count(_) = m.mtype {
                        m.mtype = MType::Is;
                    }
                    let (keys, _) = self.keys(&m, &["utf-8", "outer", "1", "", "b", "UTF-8"]);
                    Test::Header { mime, anychild: self.t.chance(2, 3), index: None, m, names: vec![self.named("Content-Type")], keys }
                } else if !matches!(mime, MimeOpt::None) {
                    if let MType::Count(_) = m.mtype {
                        m.mtype = MType::Is;
                    }
                    let (keys, _) = self.keys(&m, &["text/plain", "text", "plain", "multipart", "multipart/mixed", "html"]);
                    Test::Header { mime, anychild: self.t.chance(1, 2), index: None, m, names: vec![self.named("Content-Type")], keys }
                } else {
                    let (keys, c) = self.keys(&m, &["alpha", "Gamma", "42", "hello world", "p2", "p3", "URGENT"]);
                    caps = c;
                    Test::Header { mime, anychild: self.t.chance(1, 5), index: self.index(), m, names: self.hnames(), keys }
                }
            }
            TK::Address => {
                let m = self.mt(true);
                let part = *self.t.pick(&[APart::Default, APart::All, APart::Local, APart::Domain, APart::User, APart::Detail]);
                let (keys, c) = self.keys(&m, &["anna@a.example", "a.example", "bob", "carl", "list", "owner-team", "dora@d.example"]);
                caps = c;
                Test::Address { part, anychild: self.t.chance(1, 8), index: self.index(), m, names: self.many(|g| g.one(&["From", "To", "Cc", "from", "Sender", "Reply-To"])), keys }
            }
            TK::Envelope => {
                let m = self.mt(true);
                let part = *self.t.pick(&[APart::Default, APart::All, APart::Local, APart::Domain]);
                let names: Vec<EnvF> = if self.t.chance(1, 3) { vec![EnvF::From, EnvF::To] } else { vec![self.t.pick(&ENVFS).clone()] };
                let names = if self.t.chance(1, 6) { vec![names[0].clone(), EnvF::ByAbs] } else { names };
                let zone = if self.t.chance(1, 2) && names.contains(&EnvF::ByAbs) || self.t.chance(1, 20) { Some(self.zone(DPart::Iso8601)) } else { None };
                let (keys, c) = self.keys(&m, &["anna@a.example", "a.example", "bob", "u1@u.example", "env-7", "FULL", "R", "120", "2023-11-14T22:13:20Z", "2023-11-14T14:13:20-08:00", ""]);
                caps = c;
                Test::Envelope { zone, part, m, names, keys }
            }
            TK::Exists => Test::Exists { anychild: self.t.chance(1, 6), names: self.hnames() },
            TK::Size => Test::Size { over: self.t.chance(1, 2), limit: *self.t.pick(&[0, 10_000_000, 20]) },
            TK::Str => {
                let m = self.mt(true);
                let sources = self.many(|g| g.string());
                let (mut keys, c) = self.keys(&m, &["alpha", "42", "", "1", "hello world"]);
                if m.mtype != MType::List {
                    // Only the last of several keys counts (known-findings.txt).
                    keys.truncate(1);
                }
                caps = c;
                Test::String { m, sources, keys }
            }
            TK::Env => {
                let m = self.mt(false);
                let names = vec![self.t.pick(&ENVS).to_string()];
                let (mut keys, c) = self.keys(&m, &["x.example", "during", "100", "alpha"]);
                keys.truncate(1);
                caps = c;
                Test::Environment { m, names, keys }
            }
            TK::HasFlag => {
                let m = self.no_regex(false);
                let vars = if self.t.chance(1, 3) {
                    let fresh = !self.jumps;
                    let (v, _) = self.target(false, fresh);
                    if matches!(v, Target::Envelope(_)) {
                        vec![]
                    } else {
                        vec![v]
                    }
                } else {
                    vec![]
                };
                let (flags, _) = match m.mtype {
                    MType::Is | MType::Contains => (self.many(|g| g.one(&FLAGS)), 0),
                    _ => self.keys(&m, &["work"]),
                };
                Test::HasFlag { m, vars, flags }
            }
            TK::Duplicate => {
                let (mut header, mut unique) = (None, None);
                match self.t.below(3) {
                    1 => header = Some(self.one(&["X-Foo", "Message-ID", "Subject", "X-Absent"])),
                    2 => unique = Some(self.string()),
                    _ => (),
                }
                Test::Duplicate {
                    handle: if self.t.chance(1, 3) { Some(self.of(&["h1", "h2"])) } else { None },
                    header,
                    unique,
                    seconds: if self.t.chance(1, 2) { Some(*self.t.pick(&[60, 1, 3600, 0])) } else { None },
                    last: self.t.chance(1, 4),
                }
            }
            TK::ValidNotify => Test::ValidNotify { uris: self.many(|g| g.notify_uri()) },
            TK::NotifyCap => {
                let m = self.mt(false);
                let (keys, _) = self.keys(&m, &["maybe", "yes", "no"]);
                Test::NotifyCap { m, uri: self.notify_uri(), cap: self.one(&["online", "Online", "other"]), keys }
            }
            TK::ValidExtList => Test::ValidExtList { lists: self.many(|g| g.one(&["list1", "list2", "nolist"])) },
            TK::Ihave => {
                let n = [1, 1, 2][self.t.below(3)];
                Test::Ihave { caps: (0..n).map(|_| self.t.pick(&["fileinto", "vacation", "reject", "editheader", "vnd.unknown", "imap4flags", "duplicate"]).to_string()).collect() }
            }
            TK::Mailbox => Test::MailboxExists { names: self.many(|g| g.of(&FOLDERS)) },
            TK::MailboxId => Test::MailboxIdExists { ids: self.many(|g| g.of(&["id1", "id2"])) },
            TK::SpecialUse => Test::SpecialUseExists { mailbox: if self.t.chance(1, 2) { Some(self.of(&FOLDERS)) } else { None }, attrs: self.many(|g| g.one(&["\\Junk", "\\Archive", "\\Trash"])) },
            TK::Metadata => {
                let m = self.mt(false);
                let (keys, c) = self.keys(&m, &["true", "5", "meta value"]);
                caps = c;
                Test::Metadata { m, mailbox: if self.t.chance(1, 2) { Some(self.named("INBOX.work")) } else { None }, annotation: self.one(&["/private/comment", "/shared/x", "/none"]), keys }
            }
            TK::MetadataExists => Test::MetadataExists {
                mailbox: if self.t.chance(1, 2) { Some(self.named("INBOX.work")) } else { None },
                annotations: self.many(|g| g.one(&["/private/comment", "/shared/x", "/none"])),
            },
            TK::Spam | TK::Virus => {
                let mut m = self.mt(false);
                if let MType::Count(_) = m.mtype {
                    m.mtype = MType::Value(Rel::Ge);
                    m.cmp = Cmp::Numeric;
                }
                let (keys, _) = self.keys(&m, &["5", "0", "50", "1"]);
                let key = keys[0].clone();
                if k == TK::Spam {
                    Test::Spam { percent: self.t.chance(1, 2), m, key }
                } else {
                    Test::Virus { m, key }
                }
            }
            TK::Eval => Test::Eval(self.expr(2)),
            TK::CurrentDate => {
                let m = self.no_regex(true);
                let part = *self.t.pick(&DPARTS);
                let zone = if self.t.chance(1, 2) { Some(self.zone(part)) } else { None };
                let secs = self.st.created_at.max(0);
                let v = crate::oracle::date_part(part, secs, zone.unwrap_or(0));
                let near = crate::oracle::date_part(part, secs + 1, zone.unwrap_or(0));
                let (keys, c) = self.keys(&m, &[&v, &near, "2023"]);
                caps = c;
                Test::CurrentDate { zone, m, part, keys }
            }
            TK::Date => {
                let m = self.no_regex(true);
                let part = *self.t.pick(&DPARTS);
                let (zone, z) = match self.t.below(3) {
                    0 => (Zone::Local, 0),
                    1 => (Zone::Original, 0),
                    _ => {
                        let z = self.zone(part);
                        (Zone::Fixed(z), z)
                    }
                };
                let v = crate::oracle::date_part(part, crate::model::DATE_SECS, z);
                let (keys, c) = self.keys(&m, &[&v, "14", "22"]);
                caps = c;
                Test::Date { zone, m, header: self.named("Date"), part, keys }
            }
            TK::Body => {
                let m = self.mt(false);
                let (keys, c) = self.keys(&m, &["second line", "Body 1", "alpha", "bold", "inner"]);
                caps = c;
                let of = if self.raw_body && self.t.chance(2, 3) {
                    BodyOf::Raw
                } else if self.t.chance(1, 2) {
                    BodyOf::Text
                } else if let MType::Count(_) = m.mtype {
                    BodyOf::Content(self.many(|g| g.one(&["text", "", "multipart", "text/html", "message", "message/rfc822", "multipart/mixed", "TEXT", "a/b/c", "/x"])))
                } else {
                    BodyOf::Content(self.many(|g| g.one(&["text", "text/plain", "image", "text/html", "image/png", "application", "Text/HTML", "a/b/c", "/x"])))
                };
                Test::Body { m, of, subject: self.t.chance(1, 6), keys }
            }
            TK::Convert => Test::Convert { from: self.one(&["text/plain", "text/html", "text", "image/png", "Text", "TEXT/Plain"]), to: self.one(&["text/html", "text/plain"]) },
            TK::Unknown => {
                self.uses_ihave = true;
                Test::Unknown("unknowntest".into())
            }
        };
        let plain = matches!(
            &t,
            Test::Header { mime: MimeOpt::None, .. } | Test::Address { .. } | Test::Envelope { .. } | Test::String { .. } | Test::Environment { .. } | Test::Metadata { .. } | Test::CurrentDate { .. } | Test::Date { .. }
        );
        if !plain {
            caps = 0;
        }
        (t, caps)
    }

    // ---------------------------------------------------------- statements

    fn push_scope(&mut self) {
        self.scopes.push(Scope { map: HashMap::new(), owned: vec![] });
    }

    fn block(&mut self, min: usize, max: usize, caps: usize) -> Block {
        self.push_scope();
        self.depth += 1;
        let saved = std::mem::replace(&mut self.caps, caps);
        let captures = self.captures;
        let mut b = Block::default();
        if self.t.chance(1, if self.b.forbid == 100 { 15 } else { 60 }) {
            let c = if self.t.chance(1, 3) { self.t.pick(&["vacation", "reject", "vnd.nope"]).to_string() } else { "fileinto".to_string() };
            // Only what the compiler will accept at this place.
            if c != "vnd.nope" && !self.bare {
                b.require.push(c);
                if self.t.chance(1, 3) {
                    b.require.insert(0, "copy".into());
                }
            }
        }
        if self.scopes.len() == 1 {
            self.prelude(&mut b.stmts);
        }
        let n = self.t.range(min, max.max(min));
        // What a test has captured is still there after an included script.
        if caps > 0 && self.includes < 4 && !self.names.is_empty() && self.t.chance(1, 6) {
            self.includes += 1;
            let (global, name) = self.t.pick(&self.names.clone()).clone();
            b.stmts.push(Stmt::Include { global, once: false, optional: true, name: lit(&name) });
            let k = self.t.below(caps);
            b.stmts.push(Stmt::FileInto { copy: true, create: false, flags: None, mailbox_id: None, special_use: None, folder: vec![Seg::Lit("c-".into()), Seg::Var(VRef::Match(k))] });
        }
        for _ in 0..n {
            self.stmt(&mut b.stmts);
        }
        // A capture further inside may hide the outer ones (known-findings.txt).
        self.caps = if self.captures == captures { saved } else { 0 };
        self.depth -= 1;
        let s = self.scopes.pop().unwrap();
        b.owned = s.owned;
        b
    }

    /// Variables that hold the names the script's commands use.
    fn prelude(&mut self, out: &mut Vec<Stmt>) {
        self.named.clear();
        if !self.t.chance(1, 2) {
            return;
        }
        let n = self.t.range(2, 4);
        for i in 0..n {
            let v = self.t.pick(&NAMED).to_string();
            let name = format!("n_{i}");
            let d = self.new_decl();
            let target = Target::Local { text: self.case(&name), decl: d };
            let deep = self.t.chance(1, 2);
            let set = Stmt::Set { mods: vec![], local: deep || self.t.chance(1, 4), target, value: lit(&v) };
            self.scopes[0].map.insert(name.clone(), d);
            if deep {
                out.push(Stmt::If { arms: vec![(Test::True, Block { stmts: vec![set], ..Default::default() })], els: None });
            } else {
                self.scopes[0].owned.push(d);
                out.push(set);
            }
            self.named.push((v, name, d));
        }
    }

    /// The text, or a variable that holds it.
    fn named(&mut self, v: &str) -> Str {
        let found: Vec<(String, DeclId)> = self.named.iter().filter(|n| n.0 == v).map(|n| (n.1.clone(), n.2)).collect();
        match found.first() {
            Some((n, d)) if self.t.chance(2, 3) => vec![Seg::Var(VRef::Local { text: self.case(n), decl: *d })],
            _ => lit(v),
        }
    }

    /// One of the texts; those that a variable holds are likelier.
    fn one(&mut self, l: &[&str]) -> Str {
        if !self.named.is_empty() && self.t.chance(1, 2) {
            let have: Vec<&str> = l.iter().copied().filter(|v| self.named.iter().any(|n| n.0 == **v)).collect();
            if !have.is_empty() {
                let v = *self.t.pick(&have);
                return self.named(v);
            }
        }
        lit(self.t.pick(l))
    }

    /// Loop bodies either see outer captures or make new ones.
    fn loop_caps(&mut self, caps: usize) -> (usize, bool) {
        let was = self.no_capture;
        if caps > 0 && (was || self.t.chance(1, 2)) {
            self.no_capture = true;
            (caps, was)
        } else {
            (0, was)
        }
    }

    fn mods(&mut self) -> Vec<Modif> {
        let mut o: Vec<Modif> = Vec::new();
        if !self.t.chance(1, 3) {
            return o;
        }
        for _ in 0..self.t.range(1, 2) {
            let m = match self.t.below(9) {
                0 => Modif::Lower,
                1 => Modif::Upper,
                2 => Modif::LowerFirst,
                3 => Modif::UpperFirst,
                4 => Modif::QuoteWildcard,
                5 => Modif::QuoteRegex,
                6 => Modif::EncodeUrl,
                7 => Modif::Length,
                _ => Modif::Replace(self.of(&["a", "l", "hello", " "]), self.of(&["", "ZZ", "_"])),
            };
            if !o.iter().any(|x| x.precedence() == m.precedence()) {
                o.push(m);
            }
        }
        o
    }

    fn flags(&mut self) -> Vec<Str> {
        self.many(|g| g.of(&FLAGS))
    }

    fn fcc(&mut self) -> Option<Fcc> {
        if !self.t.chance(1, 4) {
            return None;
        }
        Some(Fcc {
            mailbox: self.of(&FOLDERS),
            flags: if self.t.chance(1, 3) { self.flags() } else { vec![] },
            create: self.t.chance(1, 4),
            mailbox_id: if self.t.chance(1, 6) { Some(self.named("id1")) } else { None },
            special_use: if self.t.chance(1, 6) { Some(self.named("\\Sent")) } else { None },
        })
    }

    fn stmt(&mut self, out: &mut Vec<Stmt>) {
        if self.budget == 0 {
            return;
        }
        self.budget -= 1;
        // `continue` goes to the innermost `while`, leaving the part loops inside it
        let in_while = self.loops.contains(&true);
        let nested = self.depth >= self.b.max_depth + 1;
        let w: Vec<u32> = self
            .stmts
            .iter()
            .map(|(k, w)| match k {
                SK::If if nested => 0,
                SK::While if nested || self.whiles >= 2 => 0,
                SK::Fep if nested || self.feps.len() >= 2 => 0,
                SK::Break if self.loops.is_empty() || !self.jumps => 0,
                SK::Continue if !in_while || !self.jumps => 0,
                SK::Include if self.includes >= 4 || self.names.is_empty() => 0,
                SK::Return | SK::Stop | SK::Error | SK::Unknown if self.depth <= 1 && out.len() < 2 => 0,
                _ => *w,
            })
            .collect();
        let k = self.stmts[self.t.weighted(&w)].0;
        let s = match k {
            SK::Keep => Stmt::Keep { flags: if self.t.chance(1, 3) { Some(self.flags()) } else { None } },
            SK::Discard => Stmt::Discard,
            SK::Stop => Stmt::Stop,
            SK::Return => Stmt::Return,
            SK::FileInto => Stmt::FileInto {
                copy: self.t.chance(1, 3),
                create: self.t.chance(1, 6),
                flags: if self.t.chance(1, 5) { Some(self.flags()) } else { None },
                mailbox_id: if self.t.chance(1, 10) { Some(self.of(&["id1"])) } else { None },
                special_use: if self.t.chance(1, 10) { Some(self.named("\\Junk")) } else { None },
                folder: self.of(&FOLDERS),
            },
            SK::Redirect => Stmt::Redirect {
                copy: self.t.chance(1, 2),
                list: self.t.chance(1, 10),
                notify: if self.t.chance(1, 8) { Some(self.t.pick(&["NEVER", "SUCCESS", "SUCCESS,FAILURE", "DELAY,FAILURE", "never", "success, delay", "Delay,bogus"]).to_string()) } else { None },
                ret: if self.t.chance(1, 10) { Some(self.t.pick(&["FULL", "HDRS", "hdrs", "Full"]).to_string()) } else { None },
                by: if self.t.chance(1, 8) {
                    Some(By {
                        until: match self.t.below(4) {
                            0 | 1 => Ok(*self.t.pick(&[600, 0, 86_400_000])),
                            2 => Err(self.one(&["2023-11-14T22:13:20Z", "2024-02-29T23:30:00+02:00", "2023-12-31T23:59:59-05:00", "soon"])),
                            _ => Err(vec![Seg::Var(VRef::Envelope(EnvF::ByAbs))]),
                        },
                        mode: if self.t.chance(3, 4) { Some(self.t.pick(&["notify", "return", "NOTIFY", "Return"]).to_string()) } else { None },
                        trace: self.t.chance(1, 2),
                    })
                } else {
                    None
                },
                addr: self.address(),
            },
            SK::Reject => Stmt::Reject { extended: self.t.chance(1, 2), reason: self.string() },
            SK::Set => {
                let mods = self.mods();
                let local = self.t.chance(1, 8);
                let (target, fresh) = self.target(local, true);
                self.guard(&target, fresh);
                let value = self.string();
                self.exclude = None;
                Stmt::Set { mods, local, target, value }
            }
            SK::Let => {
                let (target, fresh) = self.target(false, true);
                self.guard(&target, fresh);
                let expr = self.expr(3);
                self.exclude = None;
                Stmt::Let { target, expr }
            }
            SK::Eval => Stmt::Eval(self.expr(3)),
            SK::Flag => {
                let var = if self.t.chance(1, 4) {
                    let fresh = !self.jumps;
                    let (t, f) = self.target(false, fresh);
                    self.guard(&t, f);
                    Some(t)
                } else {
                    None
                };
                let flags = self.flags();
                self.exclude = None;
                Stmt::Flag { act: *self.t.pick(&[FlagAct::Add, FlagAct::Set, FlagAct::Remove]), var, flags }
            }
            SK::If => {
                let n = [1, 1, 1, 2, 3][self.t.below(5)];
                let outer_caps = self.caps;
                let mut arms = Vec::new();
                let mut matchy = false;
                for _ in 0..n {
                    let (t, c) = self.test(2);
                    matchy |= has_match(&t);
                    // Captures of an enclosing match stay visible only below
                    // tests that cannot set them anew.
                    let here = if has_match(&t) {
                        c
                    } else if matchy {
                        0
                    } else {
                        outer_caps
                    };
                    let b = self.block(1, 3, here);
                    arms.push((t, b));
                    if matchy {
                        self.caps = 0;
                    }
                }
                let els = if self.t.chance(2, 5) {
                    let c = self.caps;
                    Some(self.block(1, 2, c))
                } else {
                    None
                };
                if matchy {
                    self.caps = 0;
                }
                Stmt::If { arms, els }
            }
            SK::While => {
                let n = self.t.range(1, 4) as i64;
                self.counters += 1;
                let name = format!("k_{}", self.counters);
                let d = self.new_decl();
                let s = self.scopes.last_mut().unwrap();
                s.map.insert(name.clone(), d);
                s.owned.push(d);
                out.push(Stmt::Set { mods: vec![], local: false, target: Target::Local { text: name.clone(), decl: d }, value: lit("0") });
                let v = Expr::Var(VRef::Local { text: name.clone(), decl: d });
                let mut cond = Expr::Bin(Op::Lt, Box::new(v.clone()), Box::new(Expr::Int(n)));
                if self.t.chance(1, 3) {
                    let e = self.expr(1);
                    cond = Expr::Bin(*self.t.pick(&[Op::And, Op::And, Op::Or]), Box::new(cond), Box::new(e));
                    // An endless loop ends by the instruction budget.
                }
                self.whiles += 1;
                self.loops.push(true);
                let caps = self.caps;
                let (caps, was) = self.loop_caps(caps);
                let mut body = self.block(1, 3, caps);
                self.no_capture = was;
                self.loops.pop();
                self.whiles -= 1;
                body.stmts.insert(0, Stmt::Let { target: Target::Local { text: name, decl: d }, expr: Expr::Bin(Op::Add, Box::new(v), Box::new(Expr::Int(1))) });
                Stmt::While { cond, body }
            }
            SK::Fep => {
                let label = if self.t.chance(1, 2) { Some(format!("l{}", self.feps.len())) } else { None };
                self.feps.push(label.clone());
                self.loops.push(false);
                let caps = self.caps;
                let (caps, was) = self.loop_caps(caps);
                let body = self.block(1, 4, caps);
                self.no_capture = was;
                self.loops.pop();
                self.feps.pop();
                Stmt::ForEveryPart { label, body }
            }
            SK::Break => {
                let labels: Vec<String> = self.feps.iter().flatten().cloned().collect();
                let b = Stmt::Break { label: if !labels.is_empty() && self.t.chance(1, 2) { Some(self.t.pick(&labels).clone()) } else { None } };
                self.guarded(b)
            }
            SK::Continue => self.guarded(Stmt::Continue),
            SK::Include => {
                self.includes += 1;
                let (global, name) = self.t.pick(&self.names.clone()).clone();
                let name = match self.t.weighted(&[8, 1, 1]) {
                    1 => lit("missing"),
                    2 => {
                        let v = self.vref(false);
                        vec![Seg::Var(v)]
                    }
                    _ => lit(&name),
                };
                Stmt::Include { global, once: self.t.chance(1, 3), optional: self.t.chance(1, 3), name }
            }
            SK::Error => Stmt::Error(self.string()),
            SK::Unknown => {
                self.uses_ihave = true;
                Stmt::Unknown("frobnicate".into())
            }
            SK::AddHeader if self.t.chance(1, 8) && self.st.max_header >= 100 => {
                let (n, v) = self
                    .t
                    .pick(&[
                        ("Cc", "Anna <anna@a.example>, bob@b.example"),
                        ("Cc", "carl+list@c.example"),
                        ("Bcc", "Team: dora@d.example, Eve <eve.e@sub.e.example>;"),
                        ("Resent-To", "u1@u.example"),
                        ("To", "U <u1@u.example>, gus@g.example"),
                        ("Reply-To", "owner-team@lists.example"),
                        ("Sender", "news-request@b.example"),
                        ("Resent-Cc", "not an address"),
                        ("Auto-Submitted", "auto-replied"),
                        ("Auto-Submitted", "no"),
                        ("List-ID", "<l.example>"),
                        ("Precedence", "bulk"),
                    ])
                    .clone();
                Stmt::AddHeader { last: self.t.chance(1, 2), name: self.named(n), value: self.named(v) }
            }
            SK::AddHeader => Stmt::AddHeader { last: self.t.chance(1, 2), name: if self.t.chance(1, 8) {
                // Only letters, digits and hyphens count.
                let n = *self.t.pick(&["X-Prot:", "X -Prot", "X-Prot\r\n", "x-PROT", "X_Bar", "X-Bar ", "Original_-Subject", "Co:mments", "X-New: a\r\nX-Evil", ": ", "X-F\u{f6}o", "C.c"]);
                vec![Seg::Var(VRef::Env("nothing".into())), Seg::Lit(n.into())]
            } else {
                self.one(&EDITNAMES)
            }, value: self.value() },
            SK::DeleteHeader => {
                let m = {
                    let mut m = self.mt(false);
                    if let MType::Count(_) = m.mtype {
                        m = Match { mtype: MType::Contains, cmp: Cmp::Default };
                    }
                    m
                };
                let patterns = if self.t.chance(1, 2) { self.keys(&m, &["alpha", "42", "beta", "report", "p2"]).0 } else { vec![] };
                let name = self.one(&["X-Foo", "X-Bar", "Subject", "X-New", "Comments", "Received", "X-Prot", "X-Part", "x-foo", "Original-Subject"]);
                if !patterns.is_empty() && matches!(m.mtype, MType::Matches | MType::Regex) {
                    self.caps = 0;
                }
                Stmt::DeleteHeader { anychild: self.t.chance(1, 5), index: self.index(), m, name, patterns }
            }
            SK::ExtractText => {
                let mut mods = self.mods();
                mods.retain(|m| !matches!(m, Modif::EncodeUrl));
                let (target, fresh) = self.target(false, true);
                let _ = fresh;
                Stmt::ExtractText { first: if self.t.chance(1, 3) { Some(self.t.below(12)) } else { None }, mods, target }
            }
            SK::Replace => {
                let mime = self.t.chance(1, 5);
                Stmt::Replace {
                mime,
                subject: if self.t.chance(1, 2) { Some(self.value()) } else { None },
                // (a cut address is not read the same way by everybody)
                from: if self.t.chance(1, 3) && self.st.max_header >= 100 { Some(self.address()) } else { None },
                value: if mime { self.entity() } else { self.grown() },
                }
            }
            SK::Enclose => Stmt::Enclose {
                subject: if self.t.chance(1, 2) { Some(self.value()) } else { None },
                headers: if self.t.chance(1, 2) && self.st.max_header >= 100 { self.many(|g| g.one(&["X-Enc: yes", "From: sys@s.example", "bad", "X-Prot: no", "Date: Tue, 14 Nov 2023 22:13:20 +0000"])) } else { vec![] },
                value: self.grown(),
            },
            SK::Convert => Stmt::Convert { from: self.one(&["text/plain", "text/html", "text", "image/png"]), to: self.one(&["text/html", "text/plain"]) },
            SK::Vacation => {
                let mime = self.t.chance(1, 5);
                Stmt::Vacation(Box::new(Vacation {
                period: match self.t.below(4) {
                    0 => Some((true, *self.t.pick(&[60, 3600, 0]))),
                    1 => Some((false, *self.t.pick(&[1, 7, 30]))),
                    _ => None,
                },
                subject: if self.t.chance(1, 2) { Some(self.string()) } else { None },
                from: if self.t.chance(1, 4) { Some(self.of(&["me@u.example", "Me <me@u.example>"])) } else { None },
                addresses: if self.t.chance(1, 3) { self.many(|g| g.one(&ADDRS)) } else { vec![] },
                mime,
                handle: if self.t.chance(1, 4) { Some(self.of(&["h1", "h2"])) } else { None },
                fcc: self.fcc(),
                reason: if mime { self.entity() } else { self.value() },
                }))
            }
            SK::Notify => Stmt::Notify(Box::new(NotifyAct {
                from: if self.t.chance(1, 4) { Some(self.of_var(&["x@y.example", "u1@u.example", "Uma <U1@u.example>", "\"Uma @ <x\" <u1@u.example>", "Other <o@y.example>"])) } else { None },
                importance: if self.t.chance(1, 3) { Some(self.one(&["1", "2", "3"])) } else { None },
                options: if self.t.chance(1, 4) { self.many(|g| g.of(&["k=v", "z=1"])) } else { vec![] },
                message: if self.t.chance(1, 2) { Some(self.string()) } else { None },
                fcc: self.fcc(),
                method: {
                    let u = self.notify_uri();
                    match &u[..] {
                        // The compiler refuses these as constants.
                        [Seg::Lit(l)] if ["nothing", "mailto:?subject=none", "mailto:a@@n.example", "mailto:a@n.example?x=%zz", "mailto:a@n.example?x-a&x-b=2", "ftp://n.example/x"].contains(&l.as_str()) => vec![Seg::Var(VRef::Undef("nothing".into())), Seg::Lit(l.clone())],
                        _ => u,
                    }
                },
            })),
        };
        out.push(s);
    }

    /// A text that is never a bare number (so its type is unambiguous) and may
    /// contain line breaks.
    fn value(&mut self) -> Str {
        match self.t.weighted(&[6, 3, 1]) {
            0 => self.string(),
            1 => {
                let mut s = self.string();
                match s.last_mut() {
                    Some(Seg::Lit(l)) => l.push_str(" end"),
                    _ => s.push(Seg::Lit(" end".into())),
                }
                s
            }
            _ => lit(self.t.pick(&["line1\r\nX-Injected: yes", "two\nlines", "\rcr", "tail\r\n\r\nbody"])),
        }
    }

    /// Values of a fresh name must not read it in scripts where a jump may have
    /// left it behind.
    fn guard(&mut self, t: &Target, fresh: bool) {
        if fresh && self.jumps {
            if let Target::Local { decl, .. } = t {
                self.exclude = Some(*decl);
            }
        }
    }

    fn guarded(&mut self, s: Stmt) -> Stmt {
        if self.t.chance(3, 4) {
            let (t, _) = self.test(1);
            if has_match(&t) {
                self.caps = 0;
            }
            Stmt::If { arms: vec![(t, Block { stmts: vec![s], ..Default::default() })], els: None }
        } else {
            s
        }
    }

    pub fn script(&mut self, max: usize) -> Script {
        self.scopes.clear();
        self.globals.clear();
        self.caps = 0;
        self.includes = 0;
        self.counters = 0;
        self.uses_ihave = false;
        self.depth = 0;
        self.budget = 40;
        self.bare = self.t.chance(1, 25);
        self.jumps = self.t.chance(1, 2);
        let mut pre = Vec::new();
        if self.t.chance(1, 2) {
            let n = self.t.range(1, 3);
            let mut names: Vec<String> = Vec::new();
            for _ in 0..n {
                let g = self.t.pick(&GLOBALS).to_string();
                if !names.contains(&g) {
                    names.push(g);
                }
            }
            for g in &names {
                self.globals.insert(g.clone());
            }
            pre.push(Stmt::Global(names));
        }
        let mut body = self.block(1, max, 0);
        body.require.clear();
        if !pre.is_empty() {
            body.stmts.splice(0..0, pre);
        }
        let mut extra_caps = Vec::new();
        if self.t.chance(1, 12) {
            extra_caps.push(self.t.pick(&["vacation", "reject", "editheader", "foreverypart", "include"]).to_string());
        }
        Script { body, extra_caps, uses_ihave: self.uses_ihave, bare: self.bare, style: if self.t.chance(1, 3) { 1 + self.t.below(1 << 30) as u64 } else { 0 } }
    }
}

/// The test (or a part of it) may set match variables.
pub fn has_match(t: &Test) -> bool {
    let mm = |m: &Match| matches!(m.mtype, MType::Matches | MType::Regex);
    match t {
        Test::Not(t) => has_match(t),
        Test::AnyOf(v) | Test::AllOf(v) => v.iter().any(has_match),
        Test::Header { m, .. }
        | Test::Address { m, .. }
        | Test::Envelope { m, .. }
        | Test::String { m, .. }
        | Test::Environment { m, .. }
        | Test::HasFlag { m, .. }
        | Test::NotifyCap { m, .. }
        | Test::Metadata { m, .. }
        | Test::Spam { m, .. }
        | Test::Virus { m, .. }
        | Test::CurrentDate { m, .. }
        | Test::Date { m, .. }
        | Test::Body { m, .. } => mm(m),
        _ => false,
    }
}

// ---------------------------------------------------------------- settings

pub fn settings(t: &mut Tape, b: &Bias) -> Settings {
    let mut allowed: BTreeSet<String> = ALLCAPS.iter().map(|s| s.to_string()).collect();
    if t.chance(b.forbid, 100) {
        for _ in 0..t.range(1, 3) {
            let c = *t.pick(&["fileinto", "variables", "vacation", "imap4flags", "editheader", "include", "regex", "vnd.stalwart.expressions", "foreverypart", "relational", "reject", "copy", "mailbox", "duplicate", "ihave", "enotify"]);
            allowed.remove(c);
        }
    }
    let tight = t.chance(b.tight, 100);
    let ample = if t.chance(1, 25) { 5000 } else { 600 };
    let mut pick = |v: &[usize], normal: usize| if tight && t.chance(1, 2) { *t.pick(v) } else { normal };
    let cpu = pick(&[3, 10, 20, 40, 80, 150], ample);
    let max_includes = pick(&[1, 2, 4, 0], 3);
    let max_redirects = pick(&[0, 1, 3], 2);
    let max_out = pick(&[0, 1, 2, 5], 3);
    let max_received = pick(&[0, 1, 2], 10);
    let max_var = pick(&[8, 10, 16, 30], 4096);
    let max_header = pick(&[5, 12, 20, 1], 1024);
    let s = |x: &str| x.to_string();
    let user = s("u1@u.example");
    let mut st = Settings {
        allowed,
        cpu,
        max_includes,
        max_redirects,
        max_out,
        max_received,
        max_var,
        max_header,
        dup_expiry: *t.pick(&[7 * 86400, 3600]),
        vac_expiry: *t.pick(&[30 * 86400, 86400]),
        protected: match t.weighted(&[6, 3, 1]) {
            1 => vec![s("X-Prot"), s("Original-Subject"), s("Original-From"), s("X-Bar")],
            2 => vec![s("x-foo"), s("Original-Subject"), s("Original-From"), s("X-Prot"), s("Cc")],
            _ => vec![s("Original-Subject"), s("Original-From"), s("X-Prot")],
        },
        env: vec![(s("domain"), Val::S(s("x.example"))), (s("quota"), Val::I(100))],
        notify_uris: if t.chance(1, 2) { vec![s("mailto"), s("xmpp")] } else { vec![s("mailto"), s("tel:+123")] },
        ext_lists: match t.weighted(&[6, 1, 1]) {
            1 => vec![],
            2 => vec![s("list2"), s("list1")],
            _ => vec![s("list1")],
        },
        use_orcpt: t.chance(1, 8),
        default_subject: s(*t.pick(&["Automated reply", "Automated reply", "Away"])),
        subject_prefix: s(*t.pick(&["Auto: ", "Auto: ", "", "Re: "])),
        hostname: s(*t.pick(&["mx.example", "mx.example", "mail2.example.net"])),
        metadata: vec![(s(""), s("/shared/x"), s("5")), (s("INBOX.work"), s("/private/comment"), s("meta value"))],
        user,
        full_name: String::new(),
        envelope: vec![],
        ctx_env: vec![],
        ctx_metadata: vec![],
        globals: vec![],
        spam: 0,
        virus: 0,
        created_at: crate::seam::EPOCH0,
        calm: false,
    };
    delivery(t, b, &mut st, 0);
    st
}

pub const INSTANTS: [i64; 14] =
    [0, 1, -1, -86_400 * 3, 59, 951_782_399, 951_868_800, 1_709_164_800, 1_704_067_199, 1_735_689_599, 2_147_483_648, 4_102_444_800, 1_711_843_199, 32_500_000_000];

/// Fields of one delivery.
pub fn delivery(t: &mut Tape, b: &Bias, st: &mut Settings, n: usize) {
    let s = |x: &str| x.to_string();
    // (n > 0: the scripts were written for a user with an address)
    st.user = if t.chance(1, 15) && (n == 0 || st.user.is_empty()) { String::new() } else { format!("u{}@u.example", n.max(1)) };
    st.full_name = match t.below(5) {
        0 | 1 => String::new(),
        2 => s("Uma \"U\" User"),
        _ => s("Uma User"),
    };
    st.envelope = vec![];
    if !t.chance(1, 12) {
        let f = if t.chance(1, 15) { st.user.clone() } else { t.pick(&ADDRS).to_string() };
        if !f.is_empty() || t.chance(1, 2) {
            st.envelope.push((EnvF::From, f));
        }
    }
    if !t.chance(1, 10) {
        st.envelope.push((EnvF::To, if st.user.is_empty() { s("u1@u.example") } else { st.user.clone() }));
    }
    if t.chance(1, 4) {
        st.envelope.push((EnvF::Envid, s("env-7")));
    }
    if t.chance(1, 6) {
        st.envelope.push((EnvF::Orcpt, t.pick(&ADDRS).to_string()));
    }
    for (f, of) in [
        (EnvF::Ret, &["FULL", "HDRS"][..]),
        (EnvF::Notify, &["NEVER", "SUCCESS,FAILURE"]),
        (EnvF::ByAbs, &["2023-11-14T22:13:20Z", "2024-02-29T23:30:00+02:00", "2023-12-31T23:59:59-05:00", "soon"]),
        (EnvF::ByRel, &["120", "-5"]),
        (EnvF::ByMode, &["R", "N"]),
        (EnvF::ByTrace, &["T"]),
    ] {
        if t.chance(1, 10) {
            st.envelope.push((f, t.pick(of).to_string()));
        }
    }
    st.ctx_env = if t.chance(1, 2) { vec![(s("phase"), Val::S(s("during")))] } else { vec![(s("phase"), Val::S(s("pre"))), (s("domain"), Val::S(s("ctx.example")))] };
    st.ctx_metadata = if t.chance(1, 3) { vec![(s("INBOX.work"), s("/private/comment"), s("override"))] } else { vec![] };
    st.globals = vec![];
    if t.chance(1, 3) {
        st.globals.push((s("g"), Val::S(s("preset"))));
    }
    if t.chance(1, 4) {
        st.globals.push((s("total"), Val::I(t.below(50) as i64)));
    }
    if t.chance(1, 8) {
        st.globals.push((s("shared"), Val::A(vec![Val::S(s("i1")), Val::I(2), Val::S(s("i3"))])));
    }
    st.spam = t.below(12) as u32;
    st.virus = t.below(7) as u32;
    if t.chance(b.clocks, 100) {
        st.created_at = *t.pick(&INSTANTS);
    } else if t.chance(b.clocks, 100) {
        st.created_at = t.below(2_000_000_000) as i64;
    }
    if t.chance(b.calm, 100) {
        st.user = format!("u{}@u.example", n.max(1));
        st.envelope.retain(|e| e.0 != EnvF::From && e.0 != EnvF::To);
        st.envelope.push((EnvF::From, t.pick(&["anna@a.example", "bob@b.example", "Dora@D.example", "friend@f.example"]).to_string()));
        st.envelope.push((EnvF::To, st.user.clone()));
        st.calm = true;
    }
}

pub fn library(t: &mut Tape, b: &Bias, st: &Settings) -> Vec<Unit> {
    let n = t.range(0, b.units);
    let mut names: Vec<(bool, String)> = vec![(false, "main".to_string())];
    for i in 0..n {
        let (g, p) = *t.pick(&[(false, "p"), (true, "p"), (true, "g")]);
        names.push((g, format!("{p}{}", i / 2)));
    }
    // Distinct (location, name).
    let mut seen = HashSet::new();
    names.retain(|n| seen.insert(n.clone()));
    let targets: Vec<(bool, String)> = if n == 0 { vec![] } else { names[1..].to_vec() };
    let mut out = Vec::new();
    let raw_ok = t.chance(1, 3);
    let raw_body = raw_ok && t.chance(1, 2);
    for (i, (global, name)) in names.iter().enumerate() {
        let mut tg = targets.clone();
        if i > 0 && t.chance(1, 4) {
            tg.push((false, "main".into()));
        }
        let max = if i == 0 { b.max_stmts } else { 4 };
        let mut g = G::new(t, b, st, tg, raw_ok, raw_body);
        let ast = g.script(max);
        let caps = required_caps(&ast);
        out.push(Unit { global: *global, name: name.clone(), ast, caps });
    }
    out
}

pub fn message(t: &mut Tape, b: &Bias, st: &Settings, tag: usize) -> Msg {
    let cfg = mail::MailCfg { hostile: b.hostile, calm: st.calm, user: if st.user.is_empty() { "u1@u.example".into() } else { st.user.clone() }, max_depth: 3, multi: b.multi, auto_hdrs: b.auto_hdrs, to_user: b.to_user, weird: b.weird };
    mail::gen(t, &cfg, tag)
}

#[allow(dead_code)]
pub fn is_number_text(s: &str) -> bool {
    !matches!(const_val(s), Val::S(_))
}
