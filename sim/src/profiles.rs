//! Workloads.

use crate::gen::{self, Bias, SK, TK};
use crate::net;
use crate::scen;
use crate::tape::Tape;
use crate::world::*;
use std::cell::RefCell;

thread_local! {
    /// Readable account of the run in progress (for replay files).
    pub static ACCOUNT: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn account(s: String) {
    ACCOUNT.with(|a| *a.borrow_mut() = s);
}
pub fn account_more(s: &str) {
    ACCOUNT.with(|a| a.borrow_mut().push_str(s));
}

pub struct Spec {
    pub quick: u64,
    /// Thorough runs per quick run.
    pub factor: u64,
    pub rule: &'static str,
    pub stubs: &'static str,
    pub assumptions: &'static [&'static str],
}

const HOST: &str = "host (answers, include library, function implementations, duplicate store), system clock";

pub fn spec(prop: &str) -> Option<Spec> {
    const SOLO: &str = "each run: a random library of scripts, a message, settings and a host drawn from the seed; the whole history is compared with the reference model";
    let s = |quick, rule| Some(Spec { quick, factor: 20, rule, stubs: HOST, assumptions: ASSUME });
    match prop {
        "C01" => s(200_000, "a delivery with errors, limits and refusals against the model, 1 in 6 at every interesting instruction budget; non-trivial when the host sees more than two events"),
        "C02" => s(80_000, "half of the runs: one delivery under an ample budget, the least sufficient one (found by bisection) and others below, each against the model; non-trivial when the host sees more than two events"),
        "C05" => s(80_000, "half of the runs: one delivery repeated with odd acknowledgements and with one answer changed; non-trivial when the host sees more than two events"),
        "C06" => s(80_000, "2 of 3 runs: 2-4 deliveries interleaved step by step on one runtime, abandoned, moved and restarted, against the same deliveries alone; non-trivial when the host sees more than two events"),
        "C07" => s(120_000, "2 of 3 runs: one delivery copied, crashed back to copies, forked and resumed among foreign work, against the same delivery in one go; non-trivial when the host sees more than two events"),
        "C08" => s(80_000, "3 of 4 runs: the scripts are stored, torn, flipped and read back at random points of the delivery; non-trivial when the host sees more than two events"),
        "C11" => s(160_000, "3 of 4 runs: the host passes wrong kinds of answers, unrequested scripts and answers after the end; non-trivial when the host sees more than two events"),
        "C12" => s(200_000, "4 of 5 runs: damaged scripts and messages, extreme settings; non-trivial when the host sees more than two events"),
        "C15" | "C21" => s(130_000, "half of the runs: a few messages delivered again and again, concurrently and after crashes, over months of simulated time against a durable duplicate store; non-trivial when the host sees more than two events"),
        "C16" => s(120_000, "3 of 4 runs: 2-4 users on a network that delays, reorders, duplicates and loses mail, with crashes and redelivery, until it is quiet; non-trivial when the host sees more than two events"),
        "C03" | "C17" => s(250_000, SOLO),
        "C04" | "C14" | "C18" => s(200_000, SOLO),
        "C09" => s(120_000, SOLO),
        "C10" | "C13" | "C19" => s(150_000, SOLO),
        "C20" => s(240_000, SOLO),
        _ => None,
    }
}

const ASSUME: &[&str] = &[
    "the simulated host follows the documented protocol (except where the property is about hosts that do not)",
    "mail-parser reads the generated messages as the simulator wrote them",
    "what known-findings.txt lists is left out of the generated scripts or accepted as the code does it",
    "memory per worker is limited to 3 GB and processor time per run to 20 s",
];

pub const PROPS: [&str; 21] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21"];

/// What the general workload is biased to for a property.
pub fn bias(prop: &str) -> Bias {
    use SK::*;
    let g = Bias::general();
    match prop {
        "C01" => Bias { tight: 60, forbid: 25, ..g.st(&[(Keep, 3), (Discard, 4), (Reject, 6), (SK::FileInto, 2), (Redirect, 3), (Error, 6), (SK::Unknown, 3), (Stop, 2), (Include, 2)]) },
        "C02" => Bias { forbid: 0, units: 3, tight: 0, ..g.st(&[(While, 4), (Fep, 3), (Include, 3), (Eval, 3), (Let, 2)]) },
        "C03" => Bias { tight: 100, forbid: 0, calm: 60, ..g.st(&[(Redirect, 5), (SK::Notify, 5), (SK::Vacation, 5), (Include, 3), (Set, 2), (Let, 2), (SK::ExtractText, 3), (AddHeader, 2)]) },
        "C04" => Bias { stored: true, forbid: 100, tight: 0, ..g.st(&[(Include, 4)]).te(&[(TK::Ihave, 6)]) },
        "C05" => Bias {
            lists: 45,
            ..g.st(&[(If, 3), (While, 2)]).te(&[(TK::Duplicate, 5), (TK::Mailbox, 5), (TK::MailboxId, 3), (TK::SpecialUse, 3), (TK::AnyOf, 3), (TK::AllOf, 3), (TK::Not, 3), (TK::Envelope, 2), (TK::Address, 2)])
        },
        "C06" | "C07" => Bias { units: 4, tight: 30, ..g.st(&[(Include, 3), (If, 2)]).te(&[(TK::Str, 4), (TK::Header, 3)]) },
        "C09" => Bias { max_stmts: 9, ..g.st(&[(AddHeader, 4), (DeleteHeader, 4), (Replace, 6), (Enclose, 5), (SK::Convert, 6), (SK::FileInto, 2), (Keep, 2), (Redirect, 2), (Fep, 2)]).te(&[(TK::Convert, 4)]) },
        "C10" => Bias { units: 5, ..g.st(&[(Include, 6), (Return, 4), (Stop, 3), (Set, 2), (Let, 2), (Fep, 2), (While, 2)]) },
        "C11" => Bias { calls: 35, ..g.st(&[(Eval, 3), (Let, 3)]) },
        "C13" => Bias { calls: 55, ..g.st(&[(Eval, 6), (Let, 5), (While, 3), (If, 2)]).te(&[(TK::Eval, 8)]) },
        "C14" => Bias { clocks: 60, calm: 40, ..g.st(&[(SK::Vacation, 3), (SK::Notify, 3), (Replace, 4), (Enclose, 3)]).te(&[(TK::CurrentDate, 25), (TK::Date, 12)]) },
        "C15" => Bias { calm: 70, auto_hdrs: 25, ..g.st(&[(SK::Vacation, 25), (AddHeader, 2), (DeleteHeader, 2)]).te(&[(TK::Duplicate, 2)]) },
        "C16" => Bias { calm: 60, tight: 0, units: 4, ..g.st(&[(Redirect, 14), (SK::Vacation, 8), (SK::Notify, 7), (DeleteHeader, 2), (AddHeader, 2)]) },
        "C17" => Bias { tight: 40, ..g.st(&[(AddHeader, 12), (DeleteHeader, 12)]).te(&[(TK::Header, 2), (TK::Exists, 3)]) },
        "C18" => Bias { calm: 75, hostile: 25, ..g.st(&[(SK::Vacation, 18), (SK::Notify, 18)]) },
        "C19" => Bias { max_stmts: 6, max_depth: 4, ..g.st(&[(Fep, 14), (Break, 4), (Continue, 4), (Return, 3), (While, 2), (SK::ExtractText, 3), (Include, 2)]).te(&[(TK::Body, 3), (TK::Exists, 2)]) },
        "C21" => Bias { ..g.st(&[(If, 2)]).te(&[(TK::Duplicate, 30)]) },
        _ => g,
    }
}

pub fn run(prop: &str, t: &mut Tape, stats: &mut Stats) -> Result<(), Violation> {
    let b = bias(prop);
    match prop {
        "C01" if t.chance(1, 6) => scen::budget(t, &b, stats),
        "C05" if t.chance(1, 2) => scen::acknowledged(t, &b, stats),
        "C02" if t.chance(1, 2) => scen::budget(t, &b, stats),
        "C06" if t.chance(2, 3) => scen::concurrent(t, &b, stats),
        "C07" if t.chance(2, 3) => scen::suspended(t, &b, stats),
        "C08" if t.chance(3, 4) => scen::storage(t, &b, stats),
        "C11" if t.chance(3, 4) => scen::byzantine(t, &b, stats),
        "C12" if t.chance(4, 5) => scen::hostile(t, &b, stats),
        "C16" if t.chance(3, 4) => net::network(t, &b, stats),
        "C15" | "C21" if t.chance(1, 2) => scen::campaign(t, &b, stats),
        _ => solo(t, &b, stats),
    }
}

/// One delivery on its own, history compared with the model.
pub fn solo(t: &mut Tape, b: &Bias, stats: &mut Stats) -> Result<(), Violation> {
    let st = gen::settings(t, b);
    let msg = gen::message(t, b, &st, 1);
    let odd = t.chance(1, 2);
    let jumps = t.chance(1, 3);
    let ans = Answers::gen(t, odd, jumps);
    let units = gen::library(t, b, &st);
    let raw = msg.render();
    let mut lib = match compile(units) {
        Ok(l) => l,
        Err(e) => return bad("compile", e),
    };
    if b.stored && t.chance(1, 2) {
        stats.add("scenario:restored-scripts", 1);
        lib = scen::stored(t, &lib, stats)?;
    }
    account(describe(&st, &lib, &raw));
    let r = runtime(&st);
    let mut s = Session::new(&r, &raw, &st, &lib, 0, ans);
    let d = s.drive();
    account_more(&show_trace(&s.trace));
    shape(stats, &s.trace);
    stats.sim_secs += (s.clock - st.created_at).unsigned_abs();
    if let Err(e) = d {
        return bad("progress", e);
    }
    check_model(&st, &lib, 0, &msg, &s.trace, stats)?;
    if let Err(e) = s.stays_ended() {
        return bad("end", e);
    }
    Ok(())
}
