//! The simulated environment of deliveries: runtime and compiler built from
//! simulated settings, deliveries as coroutines, the host that answers them.

use crate::ast::*;
use crate::gen::FUNCS;
use crate::mail::Msg;
use crate::model::{native, Left, Model, Obs, Outcome, Reply, Settings, Step, StepData, Unit, Val2};
use crate::seam;
use crate::tape::Tape;
use crate::val::Val;
use sieve::compiler::grammar::Capability;
use sieve::runtime::{RuntimeError, Variable};
use sieve::{Compiler, Context, Event, FunctionMap, Input, Metadata, Runtime, Script as SName, Sieve, SpamStatus, VirusStatus};
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::sync::Arc;

// ------------------------------------------------------------- environment

fn vals(v: Vec<Variable>) -> Vec<Val> {
    v.iter().map(Val::from_var).collect()
}

fn f_cat<'x>(_: &'x Context<'x>, v: Vec<Variable>) -> Variable {
    native("cat", &vals(v)).unwrap().to_var()
}
fn f_size_of<'x>(_: &'x Context<'x>, v: Vec<Variable>) -> Variable {
    native("size_of", &vals(v)).unwrap().to_var()
}
fn f_first<'x>(_: &'x Context<'x>, v: Vec<Variable>) -> Variable {
    native("first", &vals(v)).unwrap().to_var()
}

pub fn functions() -> FunctionMap {
    let mut m = FunctionMap::new().with_function_args("cat", f_cat, 2).with_function_args("size_of", f_size_of, 1).with_function_args("first", f_first, 1);
    for (n, id, a) in FUNCS {
        if let Some(id) = id {
            m = m.with_external_function(n, id, a as u32);
        }
    }
    m
}

pub fn compiler() -> Compiler {
    Compiler::new().register_functions(&mut functions())
}

/// The same environment can be given in several ways.
fn other_way(st: &Settings) -> bool {
    (st.spam + st.virus) % 2 == 1
}

/// An address as hosts give it: as it is, or a path of RFC 5321.
fn path(st: &Settings, e: &crate::ast::EnvF, v: &str) -> String {
    if !matches!(e, crate::ast::EnvF::From | crate::ast::EnvF::To) || v.contains(['<', '>', '"']) {
        return v.to_string();
    }
    match (st.spam * 7 + st.virus + st.envelope.len() as u32) % 5 {
        1 | 2 => format!("<{v}>"),
        3 if v.contains('@') => format!("<@relay.example,@hop2.example:{v}>"),
        _ => v.to_string(),
    }
}

fn metadata(m: &str, a: &str) -> Metadata<String> {
    if m.is_empty() {
        Metadata::Server { annotation: a.to_string() }
    } else {
        Metadata::Mailbox { name: m.to_string(), annotation: a.to_string() }
    }
}

pub fn runtime(st: &Settings) -> Runtime {
    if other_way(st) {
        return runtime2(st);
    }
    let mut r = Runtime::new()
        .with_functions(&mut functions())
        .with_cpu_limit(st.cpu)
        .with_max_nested_includes(st.max_includes)
        .with_max_redirects(st.max_redirects)
        .with_max_out_messages(st.max_out)
        .with_max_received_headers(st.max_received)
        .with_max_variable_size(st.max_var)
        .with_max_header_size(st.max_header)
        .with_default_vacation_expiry(st.vac_expiry)
        .with_default_duplicate_expiry(st.dup_expiry)
        .with_vacation_use_orig_rcpt(st.use_orcpt)
        .with_vacation_default_subject(st.default_subject.clone())
        .with_vacation_subject_prefix(st.subject_prefix.clone())
        .with_local_hostname(st.hostname.clone())
        .with_capability("vnd.stalwart.expressions")
        .with_capability("vnd.stalwart.while");
    for p in &st.protected {
        r.set_protected_header(p.clone());
    }
    for c in crate::gen::ALLCAPS {
        if !st.allowed.contains(c) {
            r.unset_capability(Capability::from(c));
        }
    }
    for (n, v) in &st.env {
        r.set_env_variable(n.clone(), v.to_var());
    }
    for (m, a, v) in &st.metadata {
        r.set_medatata(metadata(m, a), v.clone());
    }
    for u in &st.notify_uris {
        r.set_valid_notification_uri(u.clone());
    }
    for l in &st.ext_lists {
        r.set_valid_ext_list(l.clone());
    }
    r
}

fn runtime2(st: &Settings) -> Runtime {
    let mut r = Runtime::default();
    r.set_functions(&mut functions());
    r.set_cpu_limit(st.cpu);
    r.set_max_nested_includes(st.max_includes);
    r.set_max_redirects(st.max_redirects);
    r.set_max_out_messages(st.max_out);
    r.set_max_received_headers(st.max_received);
    r.set_max_variable_size(st.max_var);
    r.set_max_header_size(st.max_header);
    r.set_default_vacation_expiry(st.vac_expiry);
    r.set_default_duplicate_expiry(st.dup_expiry);
    r.set_vacation_use_orig_rcpt(st.use_orcpt);
    r.set_vacation_default_subject(st.default_subject.clone());
    r.set_vacation_subject_prefix(st.subject_prefix.clone());
    r.set_local_hostname(st.hostname.clone());
    r.set_capability("vnd.stalwart.expressions");
    r.set_capability("vnd.stalwart.while");
    let not: Vec<&str> = crate::gen::ALLCAPS.iter().copied().filter(|c| !st.allowed.contains(*c)).collect();
    r = if not.len() == 1 { r.without_capability(not[0]) } else { r.without_capabilities(not) };
    r = if st.protected.len() % 2 == 1 {
        r.with_protected_headers(st.protected.clone())
    } else {
        st.protected.iter().fold(r, |r, p| r.with_protected_header(p.clone()))
    };
    for (n, v) in &st.env {
        if let Val::S(s) = v {
            r = r.with_env_variable(n.clone(), s.clone());
        } else {
            r.set_env_variable(n.clone(), v.to_var());
        }
    }
    for (m, a, v) in &st.metadata {
        r = r.with_metadata(metadata(m, a), v.clone());
    }
    r = if st.ext_lists.len() == 1 { r.with_valid_ext_list(st.ext_lists[0].clone()) } else { r.with_valid_ext_lists(st.ext_lists.clone()) };
    if st.notify_uris.len() == 1 {
        r.with_valid_notification_uri(st.notify_uris[0].clone())
    } else {
        r.with_valid_notification_uris(st.notify_uris.clone())
    }
}

pub fn context<'x>(r: &'x Runtime, raw: &'x [u8], st: &Settings) -> Context<'x> {
    seam::set_secs(st.created_at);
    if other_way(st) {
        return context2(r, raw, st);
    }
    let mut c = r.filter(raw);
    for (e, v) in &st.envelope {
        c.set_envelope(e.envelope(), path(st, e, v));
    }
    c = c.with_user_address(st.user.clone()).with_user_full_name(&st.full_name);
    for (n, v) in &st.ctx_env {
        c.set_env_variable(n.clone(), v.to_var());
    }
    for (m, a, v) in &st.ctx_metadata {
        c.set_medatata(metadata(m, a), v.clone());
    }
    for (n, v) in &st.globals {
        c.set_global_variable(n.clone(), v.to_var());
    }
    c.set_spam_status(SpamStatus::from_number(st.spam));
    c.set_virus_status(VirusStatus::from_number(st.virus));
    c
}

fn context2<'x>(r: &'x Runtime, raw: &'x [u8], st: &Settings) -> Context<'x> {
    let mut c = match mail_parser::MessageParser::new().parse(raw) {
        Some(m) => r.filter_parsed(m),
        None => r.filter(raw),
    };
    // A context that is used for the second time.
    c.set_envelope(sieve::Envelope::From, "left.over@f.example");
    c.clear_envelope();
    for (e, v) in &st.envelope {
        c = c.with_envelope(e.envelope(), path(st, e, v));
    }
    c.set_user_address(st.user.clone());
    c.set_user_full_name(&st.full_name);
    c = c.with_vars_env(st.ctx_env.iter().take(1).map(|(n, v)| (n.clone().into(), v.to_var())).collect());
    for (n, v) in st.ctx_env.iter().skip(1) {
        c = c.with_env_variable(n.clone(), v.to_var());
    }
    for (m, a, v) in &st.ctx_metadata {
        c = c.with_metadata(metadata(m, a), v.clone());
    }
    for (n, v) in &st.globals {
        c = c.with_global_variable(n.clone(), v.to_var());
    }
    c.with_spam_status(st.spam).with_virus_status(st.virus)
}

pub struct Lib {
    pub units: Vec<Unit>,
    pub src: Vec<String>,
    pub sieve: Vec<Arc<Sieve>>,
}

pub fn compile(units: Vec<Unit>) -> Result<Lib, String> {
    let mut src = Vec::new();
    let mut sieve = Vec::new();
    for u in &units {
        let s = render(&u.ast);
        match compiler().with_no_capability_check(u.ast.bare).compile(s.as_bytes()) {
            Ok(x) => sieve.push(Arc::new(x)),
            Err(e) => return Err(format!("the compiler refused a valid script at {}:{}: {e}\n{s}", e.line_num(), e.line_pos())),
        }
        src.push(s);
    }
    Ok(Lib { units, src, sieve })
}

pub fn script_name(global: bool, name: &str) -> SName {
    if global {
        SName::Global(name.to_string())
    } else {
        SName::Personal(name.to_string())
    }
}

impl Lib {
    pub fn find(&self, n: &SName) -> Option<usize> {
        self.units.iter().position(|u| script_name(u.global, &u.name) == *n)
    }
}

// -------------------------------------------------------------------- host

/// Answers drawn in advance for one delivery, so that they do not depend on
/// what else runs.
#[derive(Clone)]
pub struct Answers {
    pub a: Vec<u32>,
    /// Odd acknowledgements (False, a stray value) for actions.
    pub odd_acks: bool,
    pub clock_jumps: bool,
    /// Other answers from a step on.
    pub later: Option<(usize, Arc<Answers>)>,
}

impl Answers {
    pub fn gen(t: &mut Tape, odd_acks: bool, clock_jumps: bool) -> Self {
        let n = t.range(1, 16);
        Answers { a: (0..n).map(|_| t.below(240) as u32).collect(), odd_acks, clock_jumps, later: None }
    }

    pub fn then(&self, n: usize, other: Answers) -> Answers {
        Answers { later: Some((n, Arc::new(other))), ..self.clone() }
    }

    fn at(&self, n: usize) -> u32 {
        // Later rounds through the list differ.
        self.a[n % self.a.len()] ^ ((n / self.a.len()) as u32 & 1)
    }

    pub fn dt(&self, n: usize) -> i64 {
        if let Some((k, o)) = &self.later {
            // The step from event k-1 to event k belongs to what came before.
            if n > *k {
                return o.dt(n);
            }
        }
        if !self.clock_jumps {
            return 0;
        }
        match self.at(n + 3) % 24 {
            17 => 1,
            18 => 59,
            19 => 3600,
            20 => 86400 * 3,
            21 => -7200,
            22 => -86400 * 400,
            23 => 31_536_000,
            _ => 0,
        }
    }

    pub fn reply(&self, n: usize, ev: &Event, lib: &Lib) -> Reply {
        if let Some((k, o)) = &self.later {
            if n >= *k {
                return o.reply(n, ev, lib);
            }
        }
        let a = self.at(n);
        match ev {
            Event::IncludeScript { name, .. } => match lib.find(name) {
                Some(i) if a % 16 != 15 => Reply::Script(i),
                _ => Reply::False,
            },
            Event::MailboxExists { .. } | Event::ListContains { .. } | Event::DuplicateId { .. } => {
                if a & 1 == 1 {
                    Reply::True
                } else {
                    Reply::False
                }
            }
            Event::Function { id, arguments } => Reply::Val(Val2(function(*id, arguments, a, n))),
            _ if self.odd_acks => match a % 4 {
                0 | 1 => Reply::True,
                2 => Reply::False,
                _ => Reply::Val(Val2(Val::S("stray".into()))),
            },
            _ => Reply::True,
        }
    }
}

pub fn function(id: u32, args: &[Variable], a: u32, n: usize) -> Val {
    let v: Vec<Val> = args.iter().map(Val::from_var).collect();
    match id {
        1 => match a % 7 {
            0 => Val::I(1),
            1 => Val::S("ans".into()),
            2 => Val::I(0),
            3 => Val::F(2.5),
            4 => Val::A(vec![Val::S("r1".into()), Val::I(9)]),
            5 => Val::S(String::new()),
            _ => v.first().cloned().unwrap_or_default(),
        },
        2 => Val::I(n as i64),
        3 => Val::S(v.iter().map(|x| x.text()).collect::<Vec<_>>().join(",")),
        _ => v.get((a & 1) as usize).cloned().unwrap_or_default(),
    }
}

// ---------------------------------------------------------------- sessions

pub fn err_text(e: &RuntimeError) -> String {
    match e {
        RuntimeError::TooManyIncludes => "includes".into(),
        RuntimeError::InvalidInstruction(i) => format!("invalid {}", i.name()),
        RuntimeError::ScriptErrorMessage(m) => format!("message {m}"),
        RuntimeError::CapabilityNotAllowed(c) => format!("capability {c}"),
        RuntimeError::CapabilityNotSupported(c) => format!("capability {c}"),
        RuntimeError::CPULimitReached => "cpu".into(),
    }
}

pub struct Session<'x> {
    pub ctx: Context<'x>,
    pub lib: &'x Lib,
    pub ans: Answers,
    pub trace: Vec<Step>,
    pub next: Option<Input>,
    pub clock: i64,
    pub done: bool,
}

impl Clone for Session<'_> {
    fn clone(&self) -> Self {
        Session {
            ctx: self.ctx.clone(),
            lib: self.lib,
            ans: self.ans.clone(),
            trace: self.trace.clone(),
            next: self.next.clone(),
            clock: self.clock,
            done: self.done,
        }
    }
}

pub const STEP_CAP: usize = 30_000;

impl<'x> Session<'x> {
    pub fn new(r: &'x Runtime, raw: &'x [u8], st: &Settings, lib: &'x Lib, main: usize, ans: Answers) -> Self {
        let ctx = context(r, raw, st);
        let u = &lib.units[main];
        Session { ctx, lib, ans, trace: vec![], next: Some(Input::script(script_name(u.global, &u.name), lib.sieve[main].clone())), clock: st.created_at, done: false }
    }

    /// One call into the delivery.
    pub fn step(&mut self) -> bool {
        if self.done {
            return false;
        }
        let n = self.trace.len();
        self.clock += self.ans.dt(n);
        seam::set_secs(self.clock);
        let input = self.next.take().unwrap();
        let out = self.ctx.run(input);
        let at = self.clock;
        match out {
            None => {
                self.trace.push(Arc::new(StepData { obs: Obs::End, at, reply: Reply::True, left: Some(Box::new(self.left())) }));
                self.done = true;
                return false;
            }
            Some(Err(e)) => {
                let mut text = err_text(&e);
                if let RuntimeError::InvalidInstruction(i) = &e {
                    let there = |s: &String| s.lines().nth(i.line_num().wrapping_sub(1)).is_some_and(|l| l.to_ascii_lowercase().contains(&i.name().to_ascii_lowercase()));
                    if !self.lib.src.iter().any(there) || !e.to_string().contains(&format!("at line {}, column {}.", i.line_num(), i.line_pos())) {
                        text = format!("{text}, wrongly placed: {e}");
                    }
                }
                self.trace.push(Arc::new(StepData { obs: Obs::Err(text), at, reply: Reply::True, left: None }));
                self.next = Some(Input::True);
            }
            Some(Ok(ev)) => {
                let r = self.ans.reply(n, &ev, self.lib);
                self.next = Some(input_of(&r, &ev, self.lib));
                self.trace.push(Arc::new(StepData { obs: Obs::Event(ev), at, reply: r, left: None }));
            }
        }
        true
    }

    fn left(&self) -> Left {
        let names: Vec<String> = self.ctx.global_variable_names().map(|n| n.to_string()).collect();
        let mut globals: Vec<(String, Val)> = names.into_iter().map(|n| (Val::from_var(self.ctx.global_variable(&n).unwrap_or(&Variable::default())), n)).map(|(v, n)| (n, v)).collect();
        globals.sort_by(|a, b| a.0.cmp(&b.0));
        Left { globals, edited: self.ctx.has_message_changed() }
    }

    pub fn drive(&mut self) -> Result<(), String> {
        while self.step() {
            if self.trace.len() > STEP_CAP {
                return Err(format!("delivery did not end within {STEP_CAP} resumes"));
            }
        }
        Ok(())
    }

    /// After the end every further call has to report the end again.
    pub fn stays_ended(&mut self) -> Result<(), String> {
        for i in [Input::True, Input::False] {
            if let Some(x) = self.ctx.run(i) {
                return Err(format!("delivery reported {:?} after its end", x.map_err(|e| err_text(&e))));
            }
        }
        Ok(())
    }
}

pub fn input_of(r: &Reply, ev: &Event, lib: &Lib) -> Input {
    match r {
        Reply::True | Reply::Abandon => Input::True,
        Reply::False => Input::False,
        Reply::Val(v) => Input::result(v.0.to_var()),
        Reply::Script(i) => match ev {
            Event::IncludeScript { name, .. } => Input::script(name.clone(), lib.sieve[*i].clone()),
            _ => Input::script(script_name(lib.units[*i].global, &lib.units[*i].name), lib.sieve[*i].clone()),
        },
    }
}

// ----------------------------------------------------------------- reports

#[derive(Clone, Debug)]
pub struct Violation {
    pub oracle: String,
    pub detail: String,
}

pub fn bad<T>(oracle: &str, detail: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { oracle: oracle.into(), detail: detail.into() })
}

#[derive(Default, Clone)]
pub struct Stats {
    pub counts: BTreeMap<&'static str, u64>,
    pub shape: u64,
    pub nontrivial: bool,
    pub sim_secs: u64,
    pub note: String,
}

impl Stats {
    pub fn add(&mut self, k: &'static str, n: u64) {
        if n > 0 {
            *self.counts.entry(k).or_default() += n;
        }
    }
    pub fn mix(&mut self, x: impl Hash) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.shape.hash(&mut h);
        x.hash(&mut h);
        self.shape = h.finish();
    }
}

pub fn kind(o: &Obs) -> &'static str {
    match o {
        Obs::Event(e) => match e {
            Event::Keep { .. } => "keep",
            Event::Discard => "discard",
            Event::Reject { .. } => "reject",
            Event::FileInto { .. } => "fileinto",
            Event::SendMessage { .. } => "send",
            Event::Notify { .. } => "notify",
            Event::CreatedMessage { .. } => "created",
            Event::IncludeScript { .. } => "include",
            Event::MailboxExists { .. } => "mailbox",
            Event::ListContains { .. } => "list",
            Event::DuplicateId { .. } => "duplicate",
            Event::SetEnvelope { .. } => "setenv",
            Event::Function { .. } => "function",
            #[allow(unreachable_patterns)]
            _ => "other",
        },
        Obs::Err(e) => match e.split(' ').next().unwrap_or("") {
            "cpu" => "err:cpu",
            "includes" => "err:includes",
            "invalid" => "err:invalid",
            "message" => "err:message",
            _ => "err:capability",
        },
        Obs::End => "end",
    }
}

pub fn shape(stats: &mut Stats, trace: &[Step]) {
    for s in trace {
        let k = kind(&s.obs);
        stats.mix(k);
        stats.mix(matches!(s.reply, Reply::True));
        *stats.counts.entry(k).or_default() += 1;
        let fault = match (&s.obs, &s.reply) {
            (Obs::Event(Event::IncludeScript { .. }), Reply::False) => "fault:include-refused",
            (Obs::Event(Event::IncludeScript { .. } | Event::MailboxExists { .. } | Event::ListContains { .. } | Event::DuplicateId { .. } | Event::Function { .. }), _) => continue,
            (Obs::Event(_), Reply::False) => "fault:action-acknowledged-false",
            (Obs::Event(_), Reply::Val(_)) => "fault:action-answered-with-value",
            (Obs::Err(_), _) => match k {
                "err:cpu" => "fault:budget-exhausted",
                "err:includes" => "fault:include-limit",
                "err:capability" => "fault:capability-refused",
                _ => continue,
            },
            _ => continue,
        };
        *stats.counts.entry(fault).or_default() += 1;
    }
    for w in trace.windows(2) {
        match w[1].at - w[0].at {
            d if d < 0 => *stats.counts.entry("fault:clock-back").or_default() += 1,
            d if d > 3600 => *stats.counts.entry("fault:clock-jump").or_default() += 1,
            _ => (),
        }
    }
    if trace.len() > 2 {
        stats.nontrivial = true;
    }
}

pub fn show_trace(trace: &[Step]) -> String {
    let mut o = String::new();
    for (i, s) in trace.iter().enumerate() {
        let t = match &s.obs {
            Obs::Event(Event::CreatedMessage { message_id, message }) => format!("CreatedMessage {message_id}:\n{}", String::from_utf8_lossy(message)),
            x => format!("{x:?}"),
        };
        o.push_str(&format!("  [{i}] t={} {t}  <- {:?}\n", s.at, s.reply));
    }
    o
}

/// Compare one complete history with the reference model.
pub fn check_model(st: &Settings, lib: &Lib, main: usize, msg: &Msg, trace: &[Step], stats: &mut Stats) -> Result<(), Violation> {
    let mut m = Model::new(st, &lib.units, msg, trace);
    let r = m.run(main);
    stats.add("model:statements", m.seen.stmts);
    stats.add("model:loop-iterations", m.seen.loops);
    stats.add("model:part-visits", m.seen.parts);
    stats.add("model:includes-run", m.seen.includes);
    stats.add("model:calls", m.seen.calls);
    stats.add("model:queries", m.seen.queries);
    stats.add("model:edits", m.seen.edits);
    stats.add("model:vacation", m.seen.vac_conditions);
    stats.add("model:vacation-suppressed", m.seen.vac_suppressed);
    match r {
        Outcome::Ok => Ok(()),
        Outcome::Bad { step, why } => {
            let got = trace.get(step).map(|s| format!("{:?}", s.obs)).unwrap_or_else(|| "nothing".into());
            let why = if why.len() > 3000 { why.chars().take(3000).collect() } else { why };
            let got: String = match trace.get(step).map(|s| &s.obs) {
                Some(Obs::Event(Event::CreatedMessage { message_id, message })) => format!("CreatedMessage {message_id} with content:\n{}", String::from_utf8_lossy(message)),
                _ => got,
            };
            bad("reference-model", format!("step {step}: {why}\ngot {got}"))
        }
    }
}

pub fn describe(st: &Settings, lib: &Lib, raw: &[u8]) -> String {
    let mut o = String::new();
    o.push_str(&format!("settings: {st:?}\n"));
    for (u, s) in lib.units.iter().zip(&lib.src) {
        o.push_str(&format!("--- script {} {}\n{s}", if u.global { "global" } else { "personal" }, u.name));
    }
    o.push_str(&format!("--- message\n{}\n---\n", String::from_utf8_lossy(raw)));
    o
}
