//! Simulated situations: several deliveries at once, suspension, copies,
//! crashes, storage, exhausted budgets, misbehaving hosts, damaged input.

use crate::gen::{self, Bias};
use crate::mail::Msg;
use crate::model::{normalise, Model, Obs, Outcome, Settings, Step, Unit};
use crate::profiles::{account, account_more};
use crate::tape::Tape;
use crate::world::*;
use sieve::runtime::Variable;
use sieve::{Event, Input, Runtime, Sieve};
use std::sync::Arc;

// ------------------------------------------------------------------ common

/// The same observation up to generated tokens (boundaries, message ids).
pub fn same_obs(a: &Obs, b: &Obs) -> bool {
    match (a, b) {
        (Obs::End, Obs::End) => true,
        (Obs::Err(x), Obs::Err(y)) => x == y,
        (Obs::Event(Event::CreatedMessage { message_id: i, message: x }), Obs::Event(Event::CreatedMessage { message_id: j, message: y })) => i == j && normalise(x) == normalise(y),
        (Obs::Event(x), Obs::Event(y)) => x == y || tokens(&format!("{x:?}")) == tokens(&format!("{y:?}")),
        _ => false,
    }
}

/// Replaces generated tokens wherever they stand, even right behind other text.
fn tokens(s: &str) -> String {
    let g: Vec<&str> = s.split('.').collect();
    let hex = |x: &str, min: usize| x.len() >= min && x.bytes().all(|c| c.is_ascii_digit() || (b'a'..=b'f').contains(&c));
    let mut o = String::new();
    let mut i = 0;
    while i < g.len() {
        // ...aaaa.bbbb.cccc...
        let last = g.get(i + 2).map(|x| x.split(|c: char| !(c.is_ascii_digit() || ('a'..='f').contains(&c))).next().unwrap_or(""));
        if i + 2 < g.len() && hex(g[i + 1], 6) && last.is_some_and(|l| hex(l, 6)) {
            let keep = g[i].trim_end_matches(|c: char| c.is_ascii_digit() || ('a'..='f').contains(&c));
            o.push_str(keep);
            o.push_str("#UID#");
            o.push_str(&g[i + 2][last.unwrap().len()..]);
            i += 3;
        } else {
            o.push_str(g[i]);
            i += 1;
        }
        if i < g.len() {
            o.push('.');
        }
    }
    o
}

fn same_left(a: &Step, b: &Step) -> bool {
    match (&a.left, &b.left) {
        (Some(x), Some(y)) => x.same(y) || tokens(&format!("{x:?}")) == tokens(&format!("{y:?}")),
        (x, y) => x.is_none() == y.is_none(),
    }
}

/// First step at which two histories differ.
pub fn differ(a: &[Step], b: &[Step]) -> Option<usize> {
    for i in 0..a.len().max(b.len()) {
        match (a.get(i), b.get(i)) {
            (Some(x), Some(y)) if x.at == y.at && same_obs(&x.obs, &y.obs) && same_left(x, y) => (),
            _ => return Some(i),
        }
    }
    None
}

fn show(t: &[Step], i: usize) -> String {
    match t.get(i) {
        None => "nothing".into(),
        Some(s) => {
            let x = match &s.obs {
                Obs::Event(Event::CreatedMessage { message_id, message }) => format!("CreatedMessage {message_id}:\n{}", String::from_utf8_lossy(message)),
                x => format!("{x:?}"),
            };
            format!("t={} {}", s.at, x.chars().take(1500).collect::<String>())
        }
    }
}

pub fn expect_same(oracle: &str, what: &str, want: &[Step], got: &[Step]) -> Result<(), Violation> {
    match differ(want, got) {
        None => Ok(()),
        Some(i) => bad(oracle, format!("{what}: step {i} differs\nexpected {}\ngot      {}", show(want, i), show(got, i))),
    }
}

/// What every delivery that is driven to its end has to look like, whatever
/// its script: at most one disposition, at the end; none only when the script
/// disposed of the message itself; after an error nothing but that.
pub fn disposition(trace: &[Step]) -> Result<(), Violation> {
    let kinds: Vec<&str> = trace.iter().map(|s| kind(&s.obs)).collect();
    if kinds.last() != Some(&"end") {
        return Ok(());
    }
    let n = kinds.len();
    let fin = kinds.iter().filter(|k| matches!(**k, "keep" | "discard")).count();
    if fin > 1 {
        return bad("disposition", format!("{fin} final dispositions"));
    }
    if fin == 1 && !matches!(kinds[n - 2], "keep" | "discard") {
        return bad("disposition", "something happened after the final disposition");
    }
    if fin == 0 && !kinds.iter().any(|k| matches!(*k, "reject" | "fileinto" | "send")) {
        return bad("disposition", "the message was neither kept nor disposed of by the script");
    }
    if let Some(e) = kinds.iter().position(|k| k.starts_with("err:")) {
        let mut rest = &kinds[e + 1..n - 1];
        if rest.first() == Some(&"created") {
            rest = &rest[1..];
        }
        if rest.len() > 1 || !rest.iter().all(|k| matches!(*k, "keep" | "discard")) {
            return bad("disposition", format!("after the error came {:?}", &kinds[e + 1..]));
        }
    }
    Ok(())
}

pub struct World {
    pub st: Settings,
    pub msg: Msg,
    pub raw: Vec<u8>,
    pub units: Vec<Unit>,
    pub ans: Answers,
}

pub fn world(t: &mut Tape, b: &Bias) -> World {
    let st = gen::settings(t, b);
    let msg = gen::message(t, b, &st, 1);
    let (odd, jumps) = (t.chance(1, 2), t.chance(1, 3));
    let ans = Answers::gen(t, odd, jumps);
    let units = gen::library(t, b, &st);
    let raw = msg.render();
    World { st, msg, raw, units, ans }
}

pub fn lib_of(units: &[Unit]) -> Result<Lib, Violation> {
    compile(units.to_vec()).or_else(|e| bad("compile", e))
}

/// A whole delivery on its own.
pub fn full(r: &Runtime, raw: &[u8], st: &Settings, lib: &Lib, main: usize, ans: &Answers) -> Result<Vec<Step>, Violation> {
    let mut s = Session::new(r, raw, st, lib, main, ans.clone());
    if let Err(e) = s.drive() {
        return bad("progress", e);
    }
    if let Err(e) = s.stays_ended() {
        return bad("end", e);
    }
    disposition(&s.trace)?;
    Ok(s.trace)
}

fn note(stats: &mut Stats, trace: &[Step], st: &Settings) {
    shape(stats, trace);
    if let Some(l) = trace.last() {
        stats.sim_secs += (l.at - st.created_at).unsigned_abs();
    }
}

// ------------------------------------------------------- instruction budget

pub fn budget(t: &mut Tape, b: &Bias, stats: &mut Stats) -> Result<(), Violation> {
    const AMPLE: usize = 1500;
    let mut w = world(t, b);
    w.st.cpu = AMPLE;
    let lib = lib_of(&w.units)?;
    account(describe(&w.st, &lib, &w.raw));
    stats.add("scenario:budget", 1);
    let at = |n: usize, stats: &mut Stats| -> Result<Vec<Step>, Violation> {
        let mut st = w.st.clone();
        st.cpu = n;
        let r = runtime(&st);
        let tr = full(&r, &w.raw, &st, &lib, 0, &w.ans)?;
        if let Err(v) = check_model(&st, &lib, 0, &w.msg, &tr, stats) {
            account_more(&format!("budget {n}:\n{}", show_trace(&tr)));
            return Err(v);
        }
        Ok(tr)
    };
    let ample = at(AMPLE, stats)?;
    account_more(&show_trace(&ample));
    note(stats, &ample, &w.st);
    let endless = ample.iter().any(|s| kind(&s.obs) == "err:cpu");
    // Steps of the ample run that a run with a lower budget shares.
    let check = |n: usize, tr: &[Step]| -> Result<usize, Violation> {
        let cut = tr.iter().position(|s| kind(&s.obs) == "err:cpu");
        match cut {
            None => {
                expect_same("budget", &format!("with a budget of {n} the delivery was not cut short, but is not the delivery with an ample budget"), &ample, tr)?;
                Ok(ample.len())
            }
            Some(c) => {
                if let Some(i) = differ(&ample[..c.min(ample.len())], &tr[..c]) {
                    return bad("budget", format!("with a budget of {n} step {i} differs from the delivery with an ample budget\nexpected {}\ngot      {}", show(&ample, i), show(tr, i)));
                }
                if c >= ample.len() {
                    return bad("budget", format!("with a budget of {n} the delivery went on after the end of the unlimited one"));
                }
                Ok(c)
            }
        }
    };
    let mut probes: Vec<usize> = Vec::new();
    if endless {
        for _ in 0..3 {
            probes.push(t.range(1, AMPLE));
        }
    } else {
        // Smallest budget that is enough.
        let (mut lo, mut hi) = (0, AMPLE);
        while lo + 1 < hi {
            let mid = (lo + hi) / 2;
            let tr = at(mid, stats)?;
            check(mid, &tr)?;
            if tr.iter().any(|s| kind(&s.obs) == "err:cpu") {
                lo = mid;
            } else {
                hi = mid;
            }
        }
        stats.mix(hi);
        probes.extend([hi, hi + 1, hi.saturating_sub(1), hi.saturating_sub(2)]);
        for _ in 0..3 {
            probes.push(t.range(0, hi));
        }
        for n in [hi, hi + 1] {
            let tr = at(n, stats)?;
            if tr.iter().any(|s| kind(&s.obs) == "err:cpu") {
                return bad("budget", format!("a budget of {hi} seemed enough, {n} is not"));
            }
        }
        if hi > 1 && !at(hi - 1, stats)?.iter().any(|s| kind(&s.obs) == "err:cpu") {
            return bad("budget", format!("a budget of {} is enough, although a higher one was not", hi - 1));
        }
    }
    probes.sort();
    let mut last = (0, 0);
    for n in probes {
        let tr = at(n, stats)?;
        let k = check(n, &tr)?;
        stats.add("fault:budget-exhausted", tr.iter().any(|s| kind(&s.obs) == "err:cpu") as u64);
        if k < last.1 {
            return bad("budget", format!("a budget of {n} gives fewer events ({k}) than a budget of {} ({})", last.0, last.1));
        }
        last = (n, k);
    }
    if t.chance(1, 8) {
        plain_actions(t, &w, stats)?;
    }
    Ok(())
}

/// A script that is nothing but n plain actions needs a budget of n, no more
/// and no less.
fn plain_actions(t: &mut Tape, w: &World, stats: &mut Stats) -> Result<(), Violation> {
    let n = t.range(1, 12);
    let src: String = (0..n).map(|_| *t.pick(&["keep;\r\n", "discard;\r\n"])).collect();
    let x = compiler().compile(src.as_bytes());
    let Ok(x) = x else { return bad("compile", format!("the compiler refused\n{src}")) };
    let lib = Lib { units: w.units.clone(), src: vec![src.clone()], sieve: vec![Arc::new(x)] };
    account(format!("{n} plain actions:\n{src}"));
    for budget in [n - 1, n, n + 1] {
        let mut st = w.st.clone();
        st.cpu = budget;
        let tr = full(&runtime(&st), &w.raw, &st, &lib, 0, &w.ans)?;
        account_more(&format!("budget {budget}:\n{}", show_trace(&tr)));
        if tr.iter().any(|s| kind(&s.obs) == "err:cpu") != (budget < n) {
            return bad("budget", format!("{n} plain actions with a budget of {budget}\n{}", show_trace(&tr)));
        }
    }
    stats.add("scenario:exact-budget", 1);
    Ok(())
}

// ---------------------------------------------------- concurrent deliveries

struct Job {
    st: Settings,
    msg: Msg,
    raw: Vec<u8>,
    main: usize,
    ans: Answers,
}

fn jobs(t: &mut Tape, b: &Bias, st: &Settings, units: &[Unit], max: usize) -> Vec<Job> {
    let n = t.range(2, max);
    let mut v: Vec<Job> = Vec::new();
    for i in 0..n {
        let mut s = st.clone();
        gen::delivery(t, b, &mut s, i + 1);
        if !(172_800..32_000_000_000).contains(&s.created_at) && s.created_at != st.created_at {
            // Zones of the scripts were chosen for another instant.
            s.created_at = st.created_at;
        }
        let (msg, raw) = if i > 0 && t.chance(1, 3) {
            // The same mail for another user, or once more.
            let k = t.below(i);
            if t.chance(1, 2) {
                s = v[k].st.clone();
            }
            (v[k].msg.clone(), v[k].raw.clone())
        } else {
            let m = gen::message(t, b, &s, i + 1);
            let r = m.render();
            (m, r)
        };
        let (odd, jumps) = (t.chance(1, 2), t.chance(1, 3));
        let ans = Answers::gen(t, odd, jumps);
        let main = if t.chance(1, 3) { t.below(units.len()) } else { 0 };
        v.push(Job { st: s, msg, raw, main, ans });
    }
    v
}

pub fn concurrent(t: &mut Tape, b: &Bias, stats: &mut Stats) -> Result<(), Violation> {
    let st = gen::settings(t, b);
    let units = gen::library(t, b, &st);
    let js = jobs(t, b, &st, &units, 4);
    stats.add("scenario:concurrent", 1);
    // Reference: alone, on a runtime and scripts of its own.
    let mut alone = Vec::new();
    let shared = lib_of(&units)?;
    let mut acc = String::new();
    for (i, j) in js.iter().enumerate() {
        let lib = lib_of(&units)?;
        acc.push_str(&format!("=== delivery {i} (script {})\n{}", j.main, describe(&j.st, &lib, &j.raw)));
        account(acc.clone());
        let r = runtime(&j.st);
        let tr = full(&r, &j.raw, &j.st, &lib, j.main, &j.ans)?;
        acc.push_str(&show_trace(&tr));
        account(acc.clone());
        check_model(&j.st, &lib, j.main, &j.msg, &tr, stats)?;
        alone.push(tr);
    }
    let r = runtime(&st);
    let mut live: Vec<Option<Session>> = js.iter().map(|_| None).collect();
    let mut finished: Vec<Vec<Step>> = vec![vec![]; js.len()];
    let mut state = vec![0u8; js.len()]; // 0 waiting, 1 running, 2 over, 3 abandoned
    let mut sched = String::new();
    loop {
        let open: Vec<usize> = (0..js.len()).filter(|i| state[*i] < 2).collect();
        if open.is_empty() {
            break;
        }
        let i = *t.pick(&open);
        let j = &js[i];
        stats.mix(i);
        if state[i] == 0 {
            live[i] = Some(Session::new(&r, &j.raw, &j.st, &shared, j.main, j.ans.clone()));
            state[i] = 1;
            sched.push_str(&format!(" start{i}"));
            continue;
        }
        let s = live[i].as_mut().unwrap();
        match t.below(24) {
            23 => {
                // The server forgets about this delivery.
                stats.add("fault:abandoned-delivery", 1);
                sched.push_str(&format!(" abandon{i}"));
                state[i] = 3;
                finished[i] = live[i].take().unwrap().trace;
                continue;
            }
            22 => {
                // Goes on in a copy; the original is dropped.
                stats.add("fault:moved-delivery", 1);
                let c = s.clone();
                live[i] = Some(c);
            }
            21 => {
                // Abandoned and started again from the beginning.
                stats.add("fault:restarted-delivery", 1);
                live[i] = Some(Session::new(&r, &j.raw, &j.st, &shared, j.main, j.ans.clone()));
                sched.push_str(&format!(" restart{i}"));
            }
            _ => (),
        }
        let s = live[i].as_mut().unwrap();
        sched.push_str(&format!(" {i}"));
        if !s.step() {
            if let Err(e) = s.stays_ended() {
                return bad("end", e);
            }
            state[i] = 2;
            finished[i] = live[i].take().unwrap().trace;
        } else if s.trace.len() > STEP_CAP {
            return bad("progress", "an interleaved delivery does not end");
        }
    }
    account_more(&format!("schedule:{sched}\n"));
    for (i, tr) in finished.iter().enumerate() {
        let want = if state[i] == 3 { &alone[i][..tr.len().min(alone[i].len())] } else { &alone[i][..] };
        note(stats, tr, &js[i].st);
        expect_same("isolation", &format!("delivery {i} does not take the course it takes alone"), want, tr)?;
    }
    // And alone again, on what the others have used.
    let i = t.below(js.len());
    let tr = full(&r, &js[i].raw, &js[i].st, &shared, js[i].main, &js[i].ans)?;
    expect_same("isolation", &format!("delivery {i} repeated later on the shared runtime takes another course"), &alone[i], &tr)
}

// ----------------------------------------------------- suspension and crash

pub fn suspended(t: &mut Tape, b: &Bias, stats: &mut Stats) -> Result<(), Violation> {
    let w = world(t, b);
    let lib = lib_of(&w.units)?;
    account(describe(&w.st, &lib, &w.raw));
    stats.add("scenario:suspended", 1);
    let r = runtime(&w.st);
    let whole = full(&r, &w.raw, &w.st, &lib, 0, &w.ans)?;
    account_more(&show_trace(&whole));
    note(stats, &whole, &w.st);
    check_model(&w.st, &lib, 0, &w.msg, &whole, stats)?;
    if whole.len() < 2 {
        return Ok(());
    }
    // Other mail keeps the shared runtime and scripts busy meanwhile.
    let mut nst = w.st.clone();
    gen::delivery(t, b, &mut nst, 2);
    let nmsg = gen::message(t, b, &nst, 2);
    let nraw = nmsg.render();
    let nans = Answers::gen(t, false, true);
    let mut noise = Session::new(&r, &nraw, &nst, &lib, t.below(w.units.len()), nans.clone());

    // Copies at any point, crashes that fall back to one of them.
    let mut points: Vec<Session> = Vec::new();
    let mut s = Session::new(&r, &w.raw, &w.st, &lib, 0, w.ans.clone());
    let mut crashes = 0;
    let mut path = String::new();
    // (copy, answers changed from that point on, history from scratch)
    let mut forks: Vec<(Session, Answers, usize)> = Vec::new();
    loop {
        match t.below(10) {
            1 | 2 => {
                stats.add("fault:checkpoint", 1);
                points.push(s.clone());
                path.push_str(&format!(" copy@{}", s.trace.len()));
            }
            3 if crashes < 6 && !s.trace.is_empty() => {
                crashes += 1;
                stats.add("fault:crash", 1);
                let k = t.below(points.len() + 1);
                s = match points.get(k) {
                    Some(p) => p.clone(),
                    None => Session::new(&r, &w.raw, &w.st, &lib, 0, w.ans.clone()),
                };
                path.push_str(&format!(" crash->{}", s.trace.len()));
                stats.mix((1u8, s.trace.len()));
            }
            4 => {
                stats.add("fault:foreign-work", 1);
                for _ in 0..t.range(1, 4) {
                    if !noise.step() {
                        noise = Session::new(&r, &nraw, &nst, &lib, t.below(w.units.len()), nans.clone());
                    }
                }
            }
            5 if forks.len() < 2 && !s.done => {
                // A copy that receives other answers from here on.
                let mut a = Answers::gen(t, false, false);
                a.odd_acks = w.ans.odd_acks;
                let alt = w.ans.then(s.trace.len(), a);
                let mut f = s.clone();
                f.ans = alt.clone();
                // The pending answer was decided before.
                path.push_str(&format!(" fork@{}", s.trace.len()));
                stats.add("fault:fork", 1);
                forks.push((f, alt, s.trace.len()));
            }
            _ => {
                if !s.step() {
                    break;
                }
                if s.trace.len() > STEP_CAP {
                    return bad("progress", "delivery does not end");
                }
            }
        }
    }
    account_more(&format!("path:{path}\n"));
    expect_same("suspension", "copied, crashed and resumed, the delivery takes another course", &whole, &s.trace)?;
    if let Err(e) = s.stays_ended() {
        return bad("end", e);
    }
    for (mut f, alt, at) in forks {
        let mut scratch = Session::new(&r, &w.raw, &w.st, &lib, 0, alt);
        if scratch.drive().is_err() || f.drive().is_err() {
            return bad("progress", "delivery does not end");
        }
        if let Some(i) = differ(&scratch.trace, &f.trace) {
            account_more(&format!("from scratch:\n{}copy from step {at}:\n{}", show_trace(&scratch.trace), show_trace(&f.trace)));
            return bad("suspension", format!("a copy taken at step {at} that gets other answers differs at step {i} from a delivery that got them from the start\nexpected {}\ngot      {}", show(&scratch.trace, i), show(&f.trace, i)));
        }
        note(stats, &f.trace, &w.st);
        check_model(&w.st, &lib, 0, &w.msg, &f.trace, stats)?;
    }
    // Every remaining copy is still good.
    points.truncate(4);
    for mut p in points {
        let at = p.trace.len();
        if p.drive().is_err() {
            return bad("progress", "delivery does not end");
        }
        expect_same("suspension", &format!("the copy taken at step {at}, resumed much later, takes another course"), &whole, &p.trace)?;
    }
    Ok(())
}

// ----------------------------------------------------------------- storage

fn rkyv_of(s: &Sieve) -> Vec<u8> {
    rkyv::to_bytes::<rkyv::rancor::Error>(s).expect("script cannot be stored").to_vec()
}

pub fn rkyv_back(b: &[u8]) -> Result<Sieve, String> {
    // Images are read into aligned memory.
    let mut v = rkyv::util::AlignedVec::<16>::new();
    v.extend_from_slice(b);
    rkyv::from_bytes::<Sieve, rkyv::rancor::Error>(&v).map_err(|e| e.to_string())
}

/// The library as read back from storage.
pub fn stored(t: &mut Tape, lib: &Lib, stats: &mut Stats) -> Result<Lib, Violation> {
    let mut out = Vec::new();
    for s in &lib.sieve {
        let x = match t.below(3) {
            0 => {
                stats.add("scenario:stored-json", 1);
                let j = serde_json::to_vec(s.as_ref()).expect("script cannot be stored");
                serde_json::from_slice::<Sieve>(&j).map_err(|e| e.to_string())
            }
            1 => {
                stats.add("scenario:stored-rkyv", 1);
                rkyv_back(&rkyv_of(s))
            }
            _ => Ok(s.as_ref().clone()),
        };
        match x {
            Ok(x) => {
                if x != **s {
                    return bad("storage", "a script read back from storage is not equal to the one stored");
                }
                out.push(Arc::new(x));
            }
            Err(e) => return bad("storage", format!("a stored script cannot be read back: {e}")),
        }
    }
    Ok(Lib { units: lib.units.clone(), src: lib.src.clone(), sieve: out })
}

pub fn storage(t: &mut Tape, b: &Bias, stats: &mut Stats) -> Result<(), Violation> {
    let w = world(t, b);
    let lib = lib_of(&w.units)?;
    let again = lib_of(&w.units)?;
    account(describe(&w.st, &lib, &w.raw));
    stats.add("scenario:storage", 1);
    for (a, b) in lib.sieve.iter().zip(&again.sieve) {
        if a != b {
            return bad("storage", "compiling the same source twice gives different scripts");
        }
    }
    let r = runtime(&w.st);
    // Before it was ever used, and with its caches filled.
    let before = stored(t, &lib, stats)?;
    let tr = full(&r, &w.raw, &w.st, &lib, 0, &w.ans)?;
    account_more(&show_trace(&tr));
    note(stats, &tr, &w.st);
    check_model(&w.st, &lib, 0, &w.msg, &tr, stats)?;
    let after = stored(t, &lib, stats)?;
    let twice = stored(t, &before, stats)?;
    for (l, what) in [(&before, "stored when new"), (&after, "stored after use"), (&twice, "stored twice")] {
        let r = runtime(&w.st);
        let x = full(&r, &w.raw, &w.st, l, 0, &w.ans)?;
        expect_same("storage", &format!("scripts {what} behave differently"), &tr, &x)?;
    }
    // Torn images.
    let k = t.below(lib.sieve.len());
    let s = &lib.sieve[k];
    let j = serde_json::to_vec(s.as_ref()).unwrap();
    let y = rkyv_of(s);
    for _ in 0..4 {
        let json = t.chance(1, 2);
        let img = if json { &j } else { &y };
        let cut = t.below(img.len());
        let mut torn = img[..cut].to_vec();
        let how = t.below(3);
        match how {
            0 => (),
            1 => torn.resize(img.len(), 0),
            // The first part never reached the disk.
            _ => torn = [vec![0u8; cut], img[cut..].to_vec()].concat(),
        }
        stats.add(if json { "fault:torn-json" } else { "fault:torn-rkyv" }, 1);
        let back = if json { serde_json::from_slice::<Sieve>(&torn).map_err(|e| e.to_string()) } else { rkyv_back(&torn) };
        if torn == *img {
            continue;
        }
        match back {
            Err(_) => stats.add("fault:torn-rejected", 1),
            Ok(x) if x == **s => stats.add("fault:torn-harmless", 1),
            Ok(_) if json && how == 0 => return bad("storage", format!("the first {cut} of {} bytes of a script stored as JSON are accepted as a script", img.len())),
            Ok(x) => {
                // A binary image carries no checksum; what passes validation must
                // at least be safe to run.
                stats.add("fault:torn-accepted", 1);
                let mut l = Lib { units: lib.units.clone(), src: lib.src.clone(), sieve: lib.sieve.clone() };
                l.sieve[k] = Arc::new(x);
                let r = runtime(&w.st);
                let main = if t.chance(1, 3) { 0 } else { k };
                full(&r, &w.raw, &w.st, &l, main, &w.ans)?;
            }
        }
    }
    Ok(())
}


// -------------------------------------------------------- misbehaving hosts

/// Limits that hold whatever happens.
fn limits(st: &Settings, trace: &[Step]) -> Result<(), Violation> {
    let out = trace.iter().filter(|s| matches!(kind(&s.obs), "send" | "notify")).count();
    if out > st.max_out {
        return bad("limits", format!("{out} outgoing messages, {} allowed", st.max_out));
    }
    // Redirects: sent messages that were not created just before.
    let mut auto = std::collections::HashSet::new();
    let mut red = 0;
    let mut last = 0;
    for s in trace {
        match &s.obs {
            Obs::Event(Event::CreatedMessage { message_id, message }) => {
                if *message_id <= last {
                    return bad("versions", format!("version {message_id} announced after {last}"));
                }
                last = *message_id;
                if String::from_utf8_lossy(message).contains("Auto-Submitted: auto-") {
                    auto.insert(*message_id);
                }
            }
            Obs::Event(Event::SendMessage { message_id, .. }) if !auto.contains(message_id) => red += 1,
            _ => (),
        }
    }
    if red > st.max_redirects && red > st.max_redirects + trace.iter().filter(|s| kind(&s.obs) == "created").count() {
        return bad("limits", format!("{red} redirects, {} allowed", st.max_redirects));
    }
    // Versions used are known.
    let mut known = vec![0usize];
    for s in trace {
        let id = match &s.obs {
            Obs::Event(Event::CreatedMessage { message_id, .. }) => {
                known.push(*message_id);
                continue;
            }
            Obs::Event(Event::Keep { message_id, .. }) | Obs::Event(Event::FileInto { message_id, .. }) | Obs::Event(Event::SendMessage { message_id, .. }) => *message_id,
            _ => continue,
        };
        if !known.contains(&id) {
            return bad("versions", format!("version {id} was never announced"));
        }
    }
    Ok(())
}

fn stray(t: &mut Tape) -> Variable {
    match t.below(16) {
        12 => {
            let inner = Variable::from(vec![Variable::from(1i64), Variable::from(2.5)]);
            Variable::from(vec![inner.clone(), inner.clone(), Variable::from(vec![inner])])
        }
        13 => Variable::from(vec![Variable::from(Vec::<Variable>::new())]),
        14 => Variable::from((0..300).map(|i| Variable::from(i as i64)).collect::<Vec<_>>()),
        15 => Variable::from("\0\u{7f}\t".to_string()),
        0 => Variable::default(),
        1 => Variable::from(0i64),
        2 => Variable::from(i64::MIN),
        3 => Variable::from(i64::MAX),
        4 => Variable::from(f64::NAN),
        5 => Variable::from(f64::NEG_INFINITY),
        6 => Variable::from(1e308),
        7 => Variable::from("stray \u{1F600}\r\nX: y".to_string()),
        8 => Variable::from("9".repeat(40)),
        9 => Variable::from("z".repeat(9000)),
        10 => Variable::from(Vec::<Variable>::new()),
        _ => Variable::from(vec![Variable::from(1i64), Variable::from("x".to_string()), Variable::from(vec![Variable::from(2i64)])]),
    }
}

/// Drives a delivery with a host that answers as it likes.
fn rogue(t: &mut Tape, s: &mut Session, st: &Settings, percent: usize, stats: &mut Stats) -> Result<Vec<usize>, Violation> {
    let mut scripts = Vec::new();
    let cap = 8 * st.cpu + 400;
    loop {
        if !s.trace.is_empty() && t.chance(percent, 100) {
            let asked = matches!(s.trace.last().map(|x| &x.obs), Some(Obs::Event(Event::Function { .. })));
            s.next = Some(match if asked && t.chance(1, 2) { 7 } else { t.below(8) } {
                0 | 1 => {
                    stats.add("fault:wrong-true", 1);
                    Input::True
                }
                2 | 3 => {
                    stats.add("fault:wrong-false", 1);
                    Input::False
                }
                4 | 5 if scripts.len() < 12 => {
                    stats.add("fault:unrequested-script", 1);
                    scripts.push(s.trace.len());
                    let k = t.below(s.lib.units.len());
                    let n = t.below(s.lib.units.len());
                    let u = &s.lib.units[n];
                    Input::script(script_name(u.global, &u.name), s.lib.sieve[k].clone())
                }
                _ => {
                    stats.add("fault:stray-result", 1);
                    Input::result(stray(t))
                }
            });
            stats.mix("rogue");
        }
        if !s.step() {
            return Ok(scripts);
        }
        if s.trace.len() > cap {
            return bad("progress", format!("the delivery has not ended after {} resumes with a budget of {} instructions", s.trace.len(), st.cpu));
        }
    }
}

fn after_end(t: &mut Tape, s: &mut Session) -> Result<(), Violation> {
    for _ in 0..t.range(1, 4) {
        let i = match t.below(3) {
            0 => Input::True,
            1 => Input::False,
            _ => Input::result(stray(t)),
        };
        if let Some(x) = s.ctx.run(i) {
            return bad("end", format!("delivery reported {:?} after its end", x.map_err(|e| err_text(&e))));
        }
    }
    Ok(())
}

pub fn byzantine(t: &mut Tape, b: &Bias, stats: &mut Stats) -> Result<(), Violation> {
    let mut w = world(t, b);
    w.st.cpu = *t.pick(&[300, 1, 7, 30, 600]);
    let lib = lib_of(&w.units)?;
    account(describe(&w.st, &lib, &w.raw));
    stats.add("scenario:misbehaving-host", 1);
    let r = runtime(&w.st);
    let mut s = Session::new(&r, &w.raw, &w.st, &lib, 0, w.ans.clone());
    let percent = *t.pick(&[30, 5, 80]);
    let scripts = rogue(t, &mut s, &w.st, percent, stats);
    account_more(&show_trace(&s.trace));
    note(stats, &s.trace, &w.st);
    let scripts = scripts?;
    let fins: Vec<usize> = (0..s.trace.len()).filter(|i| matches!(kind(&s.trace[*i].obs), "keep" | "discard")).collect();
    let fin = fins.len();
    // A script passed in once the delivery has come to its end starts anew.
    let over = s.trace.iter().position(|x| kind(&x.obs).starts_with("err:")).map_or(usize::MAX, |e| e + 1);
    if fin > 1 && !scripts.iter().any(|k| *k >= fins[0].min(over)) {
        return bad("disposition", format!("{fin} final dispositions"));
    }
    if fin == 0 && !s.trace.iter().any(|x| matches!(kind(&x.obs), "reject" | "fileinto" | "send")) {
        return bad("disposition", "the message was neither kept nor disposed of by the script");
    }
    if scripts.is_empty() {
        disposition(&s.trace)?;
    }
    limits(&w.st, &s.trace)?;
    after_end(t, &mut s)?;
    if t.chance(1, 3) {
        // A script supplied after the end starts anew.
        stats.add("fault:script-after-end", 1);
        let k = t.below(lib.units.len());
        let u = &lib.units[k];
        s.done = false;
        s.next = Some(Input::script(script_name(u.global, &u.name), lib.sieve[k].clone()));
        let n = s.trace.len();
        while s.step() {
            if s.trace.len() > n + 8 * w.st.cpu + 400 {
                return bad("progress", "a script supplied after the end does not end");
            }
        }
        limits(&w.st, &s.trace)?;
        after_end(t, &mut s)?;
    }
    // The same runtime and scripts still serve an ordinary delivery.
    let tr = full(&r, &w.raw, &w.st, &lib, 0, &w.ans)?;
    check_model(&w.st, &lib, 0, &w.msg, &tr, stats)
}

// ------------------------------------------------------------ damaged input

fn damage(t: &mut Tape, mut s: Vec<u8>, words: &[&[u8]]) -> Vec<u8> {
    for _ in 0..t.range(1, 4) {
        let n = s.len();
        if n == 0 {
            break;
        }
        let at = t.below(n);
        let len = t.range(1, 24).min(n - at);
        match t.below(9) {
            0 => {
                s.truncate(at);
            }
            1 => s[at] ^= 1 << t.below(8),
            2 => {
                s.drain(at..at + len);
            }
            3 => {
                let x = s[at..at + len].to_vec();
                let k = t.below(n);
                s.splice(k..k, x);
            }
            4 | 5 => {
                let w = t.pick(words).to_vec();
                s.splice(at..at, w);
            }
            6 => {
                // Replace one word or string.
                let is = |c: u8| c.is_ascii_alphanumeric() || c >= 0x80;
                let a = (0..at).rev().find(|k| !is(s[*k])).map_or(0, |k| k + 1);
                let e = (at..n).find(|k| !is(s[*k])).unwrap_or(n);
                let w = t.pick(words).to_vec();
                s.splice(a..e.max(a), w);
            }
            7 => {
                let x: Vec<u8> = (0..t.range(1, 6)).map(|_| t.below(256) as u8).collect();
                s.splice(at..at, x);
            }
            _ => {
                // The same piece many times.
                let x = s[at..at + len].repeat(t.range(2, 40));
                s.splice(at..at, x);
            }
        }
        if s.len() > 200_000 {
            s.truncate(200_000);
        }
    }
    s
}

const SCRIPT_WORDS: [&[u8]; 44] = [
    b"0", b"-1", b"18446744073709551615", b"99999999999999999999", b"4294967296", b"9223372036854775807", b"1.0e400", b"5G", b"{", b"}", b"(", b")", b"[", b"]", b";", b"\"", b"\\", b"${", b"}", b"${1}", b"${99}",
    b"${a.b}", b"text:\r\n", b"\r\n.\r\n", b":", b":matches", b":regex", b":list", b":count \"gt\"", b":value \"zz\"", b":comparator \"i;nope\"", b"if", b"elsif", b"else", b"anyof", b"not", b"foreverypart", b"while", b"break", b"\"(((((((((\"",
    b"\"((a*)*)*b\"", b"/*", b"#", b"\xff\xfe\x00",
];

const MAIL_WORDS: [&[u8]; 30] = [
    b"\r\n", b"\n", b"\r", b"\r\n\r\n", b"--b1\r\n", b"--b1--\r\n", b"--", b"Content-Type: multipart/mixed; boundary=\"b1\"\r\n", b"Content-Type: message/rfc822\r\n\r\n", b"Content-Type: text/html\r\n\r\n<", b"Content-Transfer-Encoding: base64\r\n",
    b"Content-Transfer-Encoding: quoted-printable\r\n", b"=?utf-8?B?////?=", b"=?utf-8?Q?=0D=0AX:_y?=", b"=?x?", b"\x00", b"\xc3", b"\xf0\x9f\x98\x80", b"From: <@>,;:\r\n", b"To: u1@u.example\r\n", b"Subject:\r\n", b"Subject: \r\n \r\n \r\n", b":", b" ", b"\t",
    b"Received: x\r\n", b"Message-ID: <>\r\n", b"Date: x\r\n", b"References: <\r\n\r\n", b"=\r\n",
];

/// Panics that are recorded in known-findings.txt.
fn known_panic(p: &str) -> Option<&'static str> {
    if p.contains("/mail-parser-") {
        Some("known:mail-parser-panic")
    } else if p.contains("runtime/tests/glob.rs") && p.contains("attempt to shift") {
        Some("known:glob-shift-overflow")
    } else {
        None
    }
}

pub fn hostile(t: &mut Tape, b: &Bias, stats: &mut Stats) -> Result<(), Violation> {
    let mut w = world(t, b);
    stats.add("scenario:damaged", 1);
    // Extreme settings.
    if t.chance(1, 2) {
        let x = |t: &mut Tape, v: usize| *t.pick(&[v, 0, 1, 2, usize::MAX]);
        w.st.max_includes = x(t, 3);
        w.st.max_redirects = x(t, 1);
        w.st.max_out = x(t, 3);
        w.st.max_received = x(t, 10);
        w.st.max_header = x(t, 1024);
        w.st.max_var = *t.pick(&[4096, 0, 1, 2, 1 << 16]);
        w.st.dup_expiry = *t.pick(&[3600, 0, u64::MAX]);
        w.st.vac_expiry = *t.pick(&[3600, 0, u64::MAX]);
        if t.chance(1, 4) {
            w.st.user = t.pick(&["", "<", "\r\n", "a@b@c", "\u{1F600}@x.y"]).to_string();
        }
        if t.chance(1, 4) {
            w.st.hostname = t.pick(&["", "\r\n", "h\0st"]).to_string();
        }
        if t.chance(1, 4) {
            let v = t.pick(&["", "<>", "@", "\"", "a@b.example\r\nX: y", "\u{1F600}"]).to_string();
            w.st.envelope.push((crate::ast::EnvF::From, v));
        }
        stats.add("fault:extreme-settings", 1);
    }
    w.st.cpu = *t.pick(&[500, 0, 1, 40, 5000]);
    let scripts = t.below(3); // 0 both, 1 only the mail, 2 only scripts
    let mut raw = w.raw.clone();
    if scripts != 2 {
        raw = damage(t, raw, &MAIL_WORDS);
        if t.chance(1, 10) {
            let n = t.range(10, 120);
            let mut m = b"Subject: deep\r\n".to_vec();
            for i in 0..n {
                m.extend_from_slice(if i % 3 == 2 { b"Content-Type: message/rfc822\r\n\r\n".to_vec() } else { format!("Content-Type: multipart/mixed; boundary=x{i}\r\n\r\n--x{i}\r\n").into_bytes() }.as_slice());
            }
            raw = m;
        }
        stats.add("fault:damaged-mail", 1);
    }
    let mut lib = lib_of(&w.units)?;
    if scripts != 1 {
        let mut c = compiler();
        if t.chance(1, 3) {
            let v = |t: &mut Tape| *t.pick(&[8usize, 0, 1, 3, 4096]);
            c = c
                .with_max_nested_blocks(v(t))
                .with_max_nested_tests(v(t))
                .with_max_nested_foreverypart(v(t))
                .with_max_match_variables(v(t))
                .with_max_local_variables(v(t))
                .with_max_includes(v(t))
                .with_max_string_size(v(t))
                .with_max_header_size(v(t))
                .with_max_variable_name_size(v(t))
                .with_max_script_size(*t.pick(&[1 << 20, 0, 1, 100]));
            stats.add("fault:extreme-compiler-limits", 1);
        }
        for i in 0..lib.sieve.len() {
            let src = damage(t, lib.src[i].clone().into_bytes(), &SCRIPT_WORDS);
            let text = String::from_utf8_lossy(&src).into_owned();
            account(format!("script {i}: {text}"));
            if text.contains("replace") && text.matches("part.").count() > 1 {
                // May double the message in a loop (known-findings.txt).
                continue;
            }
            stats.add("fault:damaged-script", 1);
            match c.compile(&src) {
                Ok(x) => {
                    stats.add("fault:damaged-script-accepted", 1);
                    lib.src[i] = String::from_utf8_lossy(&src).into_owned();
                    lib.sieve[i] = Arc::new(x);
                }
                Err(e) => {
                    let lines = src.iter().filter(|c| **c == b'\n').count() + 1;
                    if e.line_num() > lines + 1 || e.line_pos() > src.len() + 1 {
                        return bad("compile", format!("error at {}:{} in a script of {lines} lines and {} bytes: {e}", e.line_num(), e.line_pos(), src.len()));
                    }
                }
            }
        }
    }
    account(describe(&w.st, &lib, &raw));
    let r = runtime(&w.st);
    let percent = *t.pick(&[0, 0, 10]);
    let mut trace = Vec::new();
    let run = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut s = Session::new(&r, &raw, &w.st, &lib, 0, w.ans.clone());
        let scripts = rogue(t, &mut s, &w.st, percent, stats);
        trace = std::mem::take(&mut s.trace);
        let scripts = scripts?;
        limits(&w.st, &trace)?;
        if scripts.is_empty() {
            disposition(&trace)?;
        }
        after_end(t, &mut s)
    }));
    account_more(&show_trace(&trace));
    note(stats, &trace, &w.st);
    match run {
        Ok(x) => x,
        Err(_) => {
            let p = crate::sup::take_panic();
            match known_panic(&p) {
                Some(k) => {
                    stats.add(k, 1);
                    Ok(())
                }
                None => bad("panic", format!("panicked {p}")),
            }
        }
    }
}

// ------------------------------------------ replies and duplicates over time

/// The host's durable store of identifiers: a check that records what it has
/// not seen, all in one.
#[derive(Default)]
pub struct Seen<K: Ord> {
    until: std::collections::BTreeMap<K, i64>,
}

impl<K: Ord> Seen<K> {
    pub fn check(&mut self, k: K, now: i64, expiry: u64, last: bool) -> bool {
        let end = now.saturating_add(expiry.min(i64::MAX as u64 / 4) as i64);
        match self.until.get(&k) {
            Some(u) if *u > now => {
                if last {
                    self.until.insert(k, end);
                }
                true
            }
            _ => {
                self.until.insert(k, end);
                false
            }
        }
    }
}

/// The same few messages arrive for the same few users again and again, over
/// months of simulated time, several at once, some deliveries crash and are
/// repeated.  The host's store answers truthfully.
pub fn campaign(t: &mut Tape, b: &Bias, stats: &mut Stats) -> Result<(), Violation> {
    let b = Bias { forbid: 0, clocks: 0, units: b.units.min(2), ..b.clone() };
    let st = gen::settings(t, &b);
    let units = gen::library(t, &b, &st);
    let lib = lib_of(&units)?;
    stats.add("scenario:campaign", 1);
    // Mails: for one of two users each.
    let mut mails: Vec<Job> = Vec::new();
    for i in 0..t.range(1, 4) {
        let mut s = st.clone();
        let u = t.range(1, 3);
        gen::delivery(t, &b, &mut s, u);
        let (msg, raw) = if i > 0 && t.chance(1, 2) {
            (mails[0].msg.clone(), mails[0].raw.clone())
        } else {
            let m = gen::message(t, &b, &s, i + 1);
            let r = m.render();
            (m, r)
        };
        let odd = t.chance(1, 2);
        let ans = Answers::gen(t, odd, false);
        mails.push(Job { st: s, msg, raw, main: 0, ans });
    }
    let mut acc = String::new();
    for (i, m) in mails.iter().enumerate() {
        acc.push_str(&format!("=== mail {i}\n{}", describe(&m.st, &lib, &m.raw)));
    }
    account(acc);
    let r = runtime(&st);
    let total = t.range(3, 12);
    let mut begun = 0;
    let mut clock = st.created_at;
    let mut store: Seen<(String, String)> = Seen::default();
    struct Run<'x> {
        mail: usize,
        st: Settings,
        s: Session<'x>,
        retries: usize,
    }
    let settings_at = |m: usize, now: i64| Settings { created_at: now, ..mails[m].st.clone() };
    let mut live: Vec<Run> = Vec::new();
    let mut over: Vec<(usize, Settings, Vec<Step>)> = Vec::new();
    // Every question in the order the host answered them: run, step.
    let mut log: Vec<(usize, usize)> = Vec::new();
    let mut ids: Vec<usize> = Vec::new();
    let mut next_id = 0;
    // (history index by run id) filled at the end of each run.
    let mut done_at: std::collections::BTreeMap<usize, usize> = Default::default();
    while begun < total || !live.is_empty() {
        let can_start = begun < total && live.len() < 3;
        let a = t.below(12);
        if live.is_empty() || (a < 2 && can_start) {
            // Time passes between arrivals.
            let mut dt = *t.pick(&[0i64, 1, 59, 60, 61, 3599, 3600, 86_399, 86_400, 86_401, 7 * 86_400, 30 * 86_400 - 1, 30 * 86_400, 30 * 86_400 + 1]);
            if t.chance(1, 8) {
                dt = t.below(40 * 86_400) as i64;
            }
            clock += dt;
            stats.sim_secs += dt as u64;
            let m = t.below(mails.len());
            let s = settings_at(m, clock);
            live.push(Run { mail: m, s: Session::new(&r, &mails[m].raw, &s, &lib, 0, mails[m].ans.clone()), st: s, retries: 0 });
            ids.push(next_id);
            next_id += 1;
            begun += 1;
            continue;
        }
        let i = t.below(live.len());
        stats.mix((i, live.len()));
        if a == 11 && live[i].retries < 2 && !live[i].s.trace.is_empty() {
            // The server dies in the middle of the delivery; the mail is
            // delivered again from the start, the store remembers.
            stats.add("fault:crash", 1);
            let m = live[i].mail;
            let s = settings_at(m, clock);
            let retries = live[i].retries + 1;
            let mut old = std::mem::replace(&mut live[i], Run { mail: m, s: Session::new(&r, &mails[m].raw, &s, &lib, 0, mails[m].ans.clone()), st: s, retries });
            if let Some(l) = old.s.trace.last_mut() {
                Arc::make_mut(l).reply = crate::model::Reply::Abandon;
            }
            done_at.insert(ids[i], over.len());
            over.push((m, old.st, old.s.trace));
            ids[i] = next_id;
            next_id += 1;
            continue;
        }
        if t.chance(1, 10) {
            let dt = *t.pick(&[1i64, 60, 3600, 86_400]);
            clock += dt;
            stats.sim_secs += dt as u64;
        }
        let run = &mut live[i];
        run.s.clock = clock;
        if !run.s.step() {
            let run = live.remove(i);
            let id = ids.remove(i);
            done_at.insert(id, over.len());
            disposition(&run.s.trace)?;
            over.push((run.mail, run.st, run.s.trace));
            continue;
        }
        if run.s.trace.len() > STEP_CAP {
            return bad("progress", "delivery does not end");
        }
        let l = run.s.trace.last_mut().unwrap();
        if let Obs::Event(Event::DuplicateId { id, expiry, last }) = &l.obs {
            let dup = store.check((run.st.user.clone(), id.clone()), clock, *expiry, *last);
            stats.add("store:question", 1);
            stats.add("store:duplicate", dup as u64);
            Arc::make_mut(l).reply = if dup { crate::model::Reply::True } else { crate::model::Reply::False };
            run.s.next = Some(if dup { Input::True } else { Input::False });
            log.push((ids[i], run.s.trace.len() - 1));
        }
    }
    // Each delivery takes the course the model takes.
    let mut asked: Vec<Vec<(usize, u64, bool, Vec<String>)>> = Vec::new();
    for (n, (m, s, tr)) in over.iter().enumerate() {
        account_more(&format!("delivery {n} of mail {m} at {}:\n{}", s.created_at, show_trace(tr)));
        shape(stats, tr);
        let mut model = Model::new(s, &lib.units, &mails[*m].msg, tr);
        if let Outcome::Bad { .. } = model.run(0) {
            check_model(s, &lib, 0, &mails[*m].msg, tr, stats)?;
        }
        stats.add("model:vacation", model.seen.vac_conditions);
        stats.add("model:vacation-suppressed", model.seen.vac_suppressed);
        asked.push(model.asked);
    }
    // And the store, asked in the code's words, has said what a store that is
    // asked for the things themselves says.
    let mut reference: Seen<(String, Vec<String>)> = Seen::default();
    let mut words: std::collections::BTreeMap<(String, String), Vec<String>> = Default::default();
    for (run, step) in &log {
        let n = done_at[run];
        let (_, s, tr) = &over[n];
        let Some((_, expiry, last, key)) = asked[n].iter().find(|a| a.0 == *step) else {
            return bad("duplicates", format!("delivery {n} asked about an identifier at step {step}, the script does not"));
        };
        let Obs::Event(Event::DuplicateId { id, .. }) = &tr[*step].obs else { continue };
        let mut key = key.clone();
        if key.iter().any(|k| k.contains("#UID#") || k.contains("aaaaaaaaaaaa.bbbbbbbbbb")) {
            // Generated identifiers are only equal to themselves.
            key = vec![id.clone()];
        }
        if id.contains('\r') {
            // Folded identifiers keep their line breaks (see known-findings.txt).
            stats.add("known:folded-identifier", 1);
            key = vec![id.clone()];
        }
        // Different things under the same words (see known-findings.txt).
        let w = words.entry((s.user.clone(), id.clone())).or_insert_with(|| key.clone());
        if *w != key {
            stats.add("known:ambiguous-identifier", 1);
            key = w.clone();
        }
        let dup = reference.check((s.user.clone(), key.clone()), tr[*step].at, *expiry, *last);
        let said = matches!(tr[*step].reply, crate::model::Reply::True);
        if dup != said && !matches!(tr[*step].reply, crate::model::Reply::Abandon) {
            return bad("duplicates", format!("delivery {n} step {step}: {key:?} at {} is {}a duplicate, the code's identifier {id:?} says otherwise", tr[*step].at, if dup { "" } else { "not " }));
        }
    }
    // At most one reply per sender and text within each period.
    let mut sent: std::collections::BTreeMap<(String, Vec<String>), (i64, u64)> = Default::default();
    let mut replies: Vec<(i64, usize, usize)> = Vec::new();
    for (run, step) in &log {
        let n = done_at[run];
        if asked[n].iter().any(|a| a.0 == *step && a.3[0] == "reply") {
            let tr = &over[n].2;
            if tr.get(step + 1).is_some_and(|x| matches!(x.obs, Obs::Event(Event::CreatedMessage { .. }))) && matches!(tr[*step].reply, crate::model::Reply::False) {
                replies.push((tr[*step].at, n, *step));
            }
        }
    }
    for (at, n, step) in replies {
        let a = asked[n].iter().find(|a| a.0 == step).unwrap();
        let k = (over[n].1.user.clone(), a.3.clone());
        if let Some((before, period)) = sent.get(&k) {
            if at < before + (*period).min(1 << 40) as i64 {
                return bad("replies", format!("delivery {n} sends {:?} a reply at {at}, {} s after the one before, within the period of {period} s", k.1, at - before));
            }
        }
        stats.add("store:reply", 1);
        sent.insert(k, (at, a.1));
    }
    Ok(())
}

// ------------------------------------------------------- acknowledgements

/// Whatever the host replies to actions and notifications, the delivery takes
/// the same course; and up to the first question whose answer differs, so do
/// two deliveries with different answers.
pub fn acknowledged(t: &mut Tape, b: &Bias, stats: &mut Stats) -> Result<(), Violation> {
    let w = world(t, b);
    let lib = lib_of(&w.units)?;
    account(describe(&w.st, &lib, &w.raw));
    stats.add("scenario:acknowledged", 1);
    let r = runtime(&w.st);
    let plain = Answers { odd_acks: false, ..w.ans.clone() };
    let whole = full(&r, &w.raw, &w.st, &lib, 0, &plain)?;
    account_more(&show_trace(&whole));
    note(stats, &whole, &w.st);
    check_model(&w.st, &lib, 0, &w.msg, &whole, stats)?;
    stats.add("fault:odd-acknowledgements", 1);
    let odd = full(&r, &w.raw, &w.st, &lib, 0, &Answers { odd_acks: true, ..plain.clone() })?;
    expect_same("acknowledgements", "with other acknowledgements of its actions the delivery takes another course", &whole, &odd)?;
    // The answer to one question changes.
    let asked: Vec<usize> = (0..whole.len()).filter(|i| matches!(kind(&whole[*i].obs), "list" | "mailbox" | "duplicate")).collect();
    if asked.is_empty() {
        return Ok(());
    }
    let k = *t.pick(&asked);
    stats.add("fault:changed-answer", 1);
    let mut s = Session::new(&r, &w.raw, &w.st, &lib, 0, plain);
    while s.trace.len() <= k {
        s.step();
    }
    let flip = !matches!(s.trace[k].reply, crate::model::Reply::True);
    Arc::make_mut(&mut s.trace[k]).reply = if flip { crate::model::Reply::True } else { crate::model::Reply::False };
    s.next = Some(if flip { Input::True } else { Input::False });
    if let Err(e) = s.drive() {
        return bad("progress", e);
    }
    account_more(&format!("answer {k} changed:\n{}", show_trace(&s.trace)));
    if let Some(i) = differ(&whole[..=k], &s.trace[..=k]) {
        return bad("answers", format!("the answer to question {k} changed step {i} before it"));
    }
    note(stats, &s.trace, &w.st);
    disposition(&s.trace)?;
    check_model(&w.st, &lib, 0, &w.msg, &s.trace, stats)
}
