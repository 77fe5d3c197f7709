//! A network of users whose scripts forward, answer and notify each other.
//! Messages are delayed, reordered, duplicated and lost, servers crash in the
//! middle of deliveries and deliver again.

use crate::gen::{self, Bias, SK};
use crate::model::{Obs, Reply, Settings};
use crate::profiles::{account, account_more};
use crate::scen::{disposition, lib_of, Seen};
use crate::tape::Tape;
use crate::world::*;
use sieve::{Event, Input, Recipient};
use std::collections::BTreeMap;

struct Letter {
    due: i64,
    from: String,
    to: String,
    raw: Vec<u8>,
    /// Generated by a script (or the host) or forwarded from such a message.
    auto: bool,
    hops: usize,
    text: String,
}

struct Live<'x> {
    user: usize,
    st: Settings,
    s: Session<'x>,
    letter: usize,
    crashes: usize,
}

/// Delivered messages stay where they are while deliveries refer to them.
#[derive(Default)]
struct Arena(std::cell::RefCell<Vec<*mut [u8]>>);

impl Arena {
    fn keep<'x>(&'x self, b: Vec<u8>) -> &'x [u8] {
        let p = Box::into_raw(b.into_boxed_slice());
        self.0.borrow_mut().push(p);
        // Freed only when the arena is dropped.
        unsafe { &*p }
    }
}

impl Drop for Arena {
    fn drop(&mut self) {
        for p in self.0.borrow_mut().drain(..) {
            unsafe { drop(Box::from_raw(p)) };
        }
    }
}

/// Received fields at the top of a message.
fn received(raw: &[u8]) -> usize {
    let s = String::from_utf8_lossy(raw);
    s.split("\r\n").take_while(|l| !l.is_empty()).filter(|l| l.as_bytes().get(..9).is_some_and(|x| x.eq_ignore_ascii_case(b"received:"))).count()
}

pub fn network(t: &mut Tape, b: &Bias, stats: &mut Stats) -> Result<(), Violation> {
    // Replaced and enclosed messages lose their trace fields (see
    // known-findings.txt).
    let mut b = Bias { forbid: 0, clocks: 0, hostile: 0, auto_hdrs: 8, ..b.clone() };
    for k in [SK::Replace, SK::Enclose] {
        b.stmts.insert(k, 0);
    }
    let mut st = gen::settings(t, &b);
    // What a host of several users protects (as in the project's own tests).
    for h in ["Auto-Submitted", "Received"] {
        if !st.protected.iter().any(|p| p == h) {
            st.protected.push(h.into());
        }
    }
    st.max_received = *t.pick(&[3, 4, 5, 2, 1, 10]);
    st.max_redirects = t.range(1, if st.max_received > 5 { 2 } else { 3 });
    st.max_out = st.max_redirects + t.below(3);
    let units = gen::library(t, &b, &st);
    let lib = lib_of(&units)?;
    let users = t.range(2, 4);
    let mut acc = describe(&st, &lib, b"");
    acc.push_str(&format!("users 1..{users}\n"));
    stats.add("scenario:network", 1);
    let mains: Vec<usize> = (0..users).map(|_| t.below(units.len())).collect();
    // Which of the other addresses belong to whom.
    let mut owner: BTreeMap<String, Option<usize>> = BTreeMap::new();
    let mut wire: Vec<Letter> = Vec::new();
    let mut clock = st.created_at;
    let faulty = t.chance(2, 3);
    // Everything the injected messages may still cause, at most.
    let (red, out, rmax) = (st.max_redirects as u128, st.max_out as u128, st.max_received);
    let auto_cost = |r: usize| -> u128 { (0..=rmax.saturating_sub(r)).rev().fold(0u128, |w, i| 1 + if i + r < rmax { red * w } else { 0 }) };
    let cost = |auto: bool, r: usize| -> u128 {
        if auto {
            auto_cost(r)
        } else {
            (0..=rmax.saturating_sub(r)).rev().fold(0u128, |w, i| 1 + if i + r < rmax { red * w } else { 0 } + out * auto_cost(0))
        }
    };
    let mut budget: u128 = 0;
    let mut injected = t.range(1, 4);
    let arena = Arena::default();
    let r = runtime(&st);
    let mut live: Vec<Live> = Vec::new();
    let mut letters: Vec<Letter> = Vec::new();
    let mut store: Seen<(usize, String)> = Seen::default();
    let mut deliveries = 0u64;
    account(acc);
    let mut result = Ok(());
    'run: loop {
        if injected > 0 && (wire.is_empty() && live.is_empty() || t.chance(1, 6)) {
            injected -= 1;
            let u = t.below(users);
            let mut s = st.clone();
            gen::delivery(t, &b, &mut s, u + 1);
            let m = gen::message(t, &b, &s, injected + 1);
            let from = s.envelope.iter().find(|e| e.0 == crate::ast::EnvF::From).map(|e| e.1.clone()).unwrap_or_default();
            let from = if t.chance(1, 2) { format!("u{}@u.example", t.below(users) + 1) } else { from };
            let auto = m.top("Auto-Submitted").any(|h| !h.value.eq_ignore_ascii_case("no"));
            let raw = m.render();
            let n = received(&raw);
            budget += cost(auto, (n + 1).min(rmax));
            account_more(&format!("inject from {from:?} to u{}\n{}\n", u + 1, String::from_utf8_lossy(&raw)));
            wire.push(Letter { due: clock, from, to: format!("u{}@u.example", u + 1), raw, auto, hops: n, text: "injected".into() });
            continue;
        }
        if wire.is_empty() && live.is_empty() {
            break;
        }
        // One step of a delivery in progress, or the next arrival.
        let go = !live.is_empty() && (wire.is_empty() || live.len() >= 3 || t.chance(2, 3));
        if !go {
            // Usually in order of arrival, sometimes overtaken.
            let mut k = (0..wire.len()).min_by_key(|i| (wire[*i].due, *i)).unwrap();
            if faulty && t.chance(1, 5) {
                k = t.below(wire.len());
                stats.add("fault:reordered-mail", 1);
            }
            if faulty && t.chance(1, 25) {
                stats.add("fault:lost-mail", 1);
                wire.remove(k);
                continue;
            }
            if faulty && t.chance(1, 20) && stats.counts.get("fault:duplicated-mail").copied().unwrap_or(0) < 6 {
                stats.add("fault:duplicated-mail", 1);
                let l = &wire[k];
                budget += cost(l.auto, (l.hops + 1).min(rmax));
                let due = clock + *t.pick(&[0i64, 30, 86_400 * 3]);
                let c = Letter { due, from: l.from.clone(), to: l.to.clone(), raw: l.raw.clone(), text: l.text.clone(), ..*l };
                wire.push(c);
            }
            let mut l = wire.remove(k);
            clock = clock.max(l.due);
            // The transport leaves its trace.
            l.hops += 1;
            let mut raw = format!("Received: from mx.example by mx.example; hop {}\r\n", l.hops).into_bytes();
            raw.extend_from_slice(&l.raw);
            l.raw = raw;
            let to = l.to.to_ascii_lowercase();
            let u = match (1..=users).find(|n| to == format!("u{n}@u.example")) {
                Some(n) => Some(n - 1),
                None => *owner.entry(to.clone()).or_insert_with(|| if t.chance(1, 3) { None } else { Some(t.below(users)) }),
            };
            stats.mix((u, l.auto, l.hops));
            let Some(u) = u else {
                stats.add("net:left", 1);
                if budget == 0 {
                    result = bad("storm", "more messages were sent than the limits allow");
                    break 'run;
                }
                budget -= 1;
                continue;
            };
            deliveries += 1;
            if budget == 0 {
                result = bad("storm", "more messages were sent than the limits allow");
                break 'run;
            }
            budget -= 1;
            if deliveries > 400 {
                stats.add("net:stopped-early", 1);
                break;
            }
            let mut s = st.clone();
            s.user = format!("u{}@u.example", u + 1);
            s.envelope = vec![(crate::ast::EnvF::To, l.to.clone())];
            if !l.from.is_empty() {
                s.envelope.push((crate::ast::EnvF::From, l.from.clone()));
            }
            s.created_at = clock;
            let keep = arena.keep(l.raw.clone());
            let (odd, n) = (t.chance(1, 3), mains[u]);
            let ans = Answers::gen(t, odd, false);
            account_more(&format!("t={clock} delivery {} to u{} ({}) from {:?} hops {} auto {}\n", letters.len(), u + 1, l.text, l.from, l.hops, l.auto));
            live.push(Live { user: u, s: Session::new(&r, keep, &s, &lib, n, ans), st: s, letter: letters.len(), crashes: 0 });
            letters.push(l);
            continue;
        }
        let i = t.below(live.len());
        if faulty && live[i].crashes < 2 && !live[i].s.trace.is_empty() && t.chance(1, 40) {
            // What the host has sent is gone; the mail is delivered again.
            stats.add("fault:crash", 1);
            let x = &mut live[i];
            let l = &letters[x.letter];
            budget += cost(l.auto, l.hops.min(rmax));
            let keep = arena.keep(l.raw.clone());
            x.st.created_at = clock;
            x.s = Session::new(&r, keep, &x.st, &lib, mains[x.user], x.s.ans.clone());
            x.crashes += 1;
            account_more(&format!("t={clock} delivery {} crashes\n", x.letter));
            continue;
        }
        if t.chance(1, 12) {
            clock += *t.pick(&[1i64, 60, 3600, 86_400, 86_400 * 31]);
        }
        let x = &mut live[i];
        x.s.clock = clock;
        if !x.s.step() {
            let x = live.remove(i);
            shape(stats, &x.s.trace);
            if let Err(v) = disposition(&x.s.trace) {
                account_more(&show_trace(&x.s.trace));
                result = Err(v);
                break;
            }
            continue;
        }
        if x.s.trace.len() > STEP_CAP {
            result = bad("progress", "delivery does not end");
            break;
        }
        let n = x.s.trace.len() - 1;
        let step = &x.s.trace[n];
        let l = &letters[x.letter];
        match &step.obs {
            Obs::Event(Event::DuplicateId { id, expiry, last }) => {
                let dup = store.check((x.user, id.clone()), clock, *expiry, *last);
                std::sync::Arc::make_mut(&mut x.s.trace[n]).reply = if dup { Reply::True } else { Reply::False };
                x.s.next = Some(if dup { Input::True } else { Input::False });
            }
            Obs::Event(Event::Reject { reason, .. }) if !l.from.is_empty() => {
                // The host's own report.
                let raw = format!("From: mailer-daemon@mx.example\r\nTo: {}\r\nSubject: rejected\r\nAuto-Submitted: auto-replied\r\nMessage-ID: <rej{}@mx.example>\r\n\r\n{reason}\r\n", l.from, x.letter);
                budget += cost(true, 1.min(rmax));
                wire.push(Letter { due: clock, from: String::new(), to: l.from.clone(), raw: raw.into_bytes(), auto: true, hops: 0, text: format!("report on {}", x.letter) });
            }
            Obs::Event(Event::SendMessage { recipient, message_id, .. }) => {
                let body: Option<Vec<u8>> = x.s.trace[..n].iter().rev().find_map(|s| match &s.obs {
                    Obs::Event(Event::CreatedMessage { message_id: m, message }) if m == message_id => Some(message.clone()),
                    _ => None,
                });
                let raw = match body {
                    Some(b) => b,
                    None if *message_id == 0 => l.raw.clone(),
                    None => {
                        result = bad("messages", format!("message {message_id} is sent but was never announced"));
                        break;
                    }
                };
                let reply = n >= 2 && matches!(&x.s.trace[n - 2].obs, Obs::Event(Event::DuplicateId { id, .. }) if id.starts_with("_v")) && matches!(x.s.trace[n - 2].reply, Reply::False) && matches!(x.s.trace[n - 1].obs, Obs::Event(Event::CreatedMessage { .. }));
                let fresh = reply || matches!(recipient, Recipient::Group(_));
                if fresh && l.auto {
                    account_more(&show_trace(&x.s.trace));
                    result = bad("automatic", format!("delivery {} of an automatic message generates another one for {recipient:?}", x.letter));
                    break;
                }
                if !fresh && l.hops >= rmax {
                    account_more(&show_trace(&x.s.trace));
                    result = bad("loop", format!("delivery {} forwards a message that has made {} hops, {rmax} are allowed", x.letter, l.hops));
                    break;
                }
                if reply && l.hops > rmax {
                    account_more(&show_trace(&x.s.trace));
                    result = bad("loop", format!("delivery {} answers a message that has made {} hops, {rmax} are allowed", x.letter, l.hops));
                    break;
                }
                let hops = received(&raw);
                if !fresh && hops != l.hops {
                    account_more(&show_trace(&x.s.trace));
                    result = bad("trace-fields", format!("delivery {} forwards a message with {} trace fields with {hops}", x.letter, l.hops));
                    break;
                }
                let to: Vec<String> = match recipient {
                    Recipient::Address(a) => vec![a.clone()],
                    Recipient::List(a) => vec![a.clone()],
                    Recipient::Group(v) => v.clone(),
                };
                if !fresh && to[0].eq_ignore_ascii_case(&x.st.user) && matches!(recipient, Recipient::Address(_)) {
                    result = bad("loop", format!("delivery {} forwards to the user's own address", x.letter));
                    break;
                }
                if reply && !to[0].eq_ignore_ascii_case(&l.from) && !x.s.trace[..n].iter().any(|s| matches!(s.obs, Obs::Event(Event::SetEnvelope { .. }))) {
                    result = bad("replies", format!("delivery {} answers {to:?}, the sender is {:?}", x.letter, l.from));
                    break;
                }
                stats.add(if fresh { "net:automatic" } else { "net:forwarded" }, to.len() as u64);
                for (k, a) in to.into_iter().enumerate() {
                    if k > 0 {
                        // Several recipients of one notification.
                        budget += cost(true, 1.min(rmax));
                    }
                    // Worst case: automatic messages carry the user as sender.
                    let from = if fresh { x.st.user.clone() } else { l.from.clone() };
                    let delay = if faulty { *t.pick(&[0i64, 1, 600, 86_400]) } else { 0 };
                    if delay > 600 {
                        stats.add("fault:delayed-mail", 1);
                    }
                    wire.push(Letter { due: clock + delay, from, to: a, raw: raw.clone(), auto: l.auto || fresh, hops, text: format!("{} {}", if fresh { "automatic, by" } else { "forwarded by" }, x.letter) });
                }
            }
            _ => (),
        }
    }
    stats.add("net:deliveries", deliveries);
    stats.sim_secs += (clock - st.created_at).unsigned_abs();
    result
}
