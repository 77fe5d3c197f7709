//! Reproductions of the recorded findings: each entry of known-findings.txt is
//! a fixed script, message and host, and is only reported while the code still
//! shows it.

use crate::mail;
use crate::seam;
use crate::tape::Tape;
use crate::world::compiler;
use sieve::{Compiler, Event, Input, Runtime, Script};
use std::panic::{catch_unwind, AssertUnwindSafe};

const MSG: &str = "From: anna@a.example\r\nTo: u1@u.example\r\nSubject: a-b\r\nMessage-ID: <m1@mail.example>\r\n\r\nhello\r\n";

fn events_with(c: &Compiler, src: &str, raw: &str, shape: impl FnOnce(Runtime) -> Runtime) -> Result<Vec<Event>, String> {
    seam::set_secs(1_700_000_000);
    let s = c.compile(src.as_bytes()).map_err(|e| format!("compile: {e}"))?;
    let r = shape(Runtime::new().with_functions(&mut crate::world::functions()).with_capability("vnd.stalwart.expressions").with_capability("vnd.stalwart.while"));
    let mut ctx = r.filter(raw.as_bytes()).with_user_address("u1@u.example").with_envelope(sieve::Envelope::From, "anna@a.example").with_envelope(sieve::Envelope::To, "u1@u.example");
    let mut out = Vec::new();
    let mut input = Input::script(Script::Personal("main".into()), std::sync::Arc::new(s));
    while let Some(e) = ctx.run(input) {
        match e {
            Ok(e) => {
                input = match e {
                    Event::DuplicateId { .. } | Event::MailboxExists { .. } | Event::ListContains { .. } => Input::False,
                    _ => Input::True,
                };
                out.push(e);
            }
            Err(e) => {
                out.push(Event::Reject { extended: false, reason: format!("error {}", crate::world::err_text(&e)) });
                input = Input::True;
            }
        }
        if out.len() > 200 {
            break;
        }
    }
    Ok(out)
}

fn events(src: &str) -> Vec<Event> {
    events_with(&compiler(), src, MSG, |r| r).unwrap_or_default()
}

/// Folder of the first fileinto.
fn folder(ev: &[Event]) -> Option<&str> {
    ev.iter().find_map(|e| match e {
        Event::FileInto { folder, .. } => Some(folder.as_str()),
        _ => None,
    })
}

fn filed(src: &str) -> bool {
    folder(&events(src)).is_some()
}

fn dup_ids(src: &str, raw: &str) -> Vec<String> {
    events_with(&compiler(), src, raw, |r| r)
        .unwrap_or_default()
        .into_iter()
        .filter_map(|e| match e {
            Event::DuplicateId { id, .. } => Some(id),
            _ => None,
        })
        .collect()
}

fn panics(f: impl FnOnce()) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}

/// Does the code still show the finding?
pub fn still_fails(key: &str) -> bool {
    match key {
        "string-several-keys" => !filed("require [\"variables\", \"fileinto\"]; if string :is \"a\" [\"a\", \"b\"] { fileinto \"x\"; }"),
        "environment-several-keys" => {
            let e = events_with(&compiler(), "require [\"environment\", \"fileinto\"]; if environment :is \"domain\" [\"x.example\", \"nothing\"] { fileinto \"x\"; }", MSG, |mut r| {
                r.set_env_variable("domain", "x.example");
                r
            });
            folder(&e.unwrap_or_default()).is_none()
        }
        "hasflag-regex" => !filed("require [\"imap4flags\", \"regex\", \"fileinto\", \"variables\"]; setflag \"v\" \"work\"; if hasflag :regex \"v\" \"w.r.\" { fileinto \"x\"; }"),
        "date-regex" => !filed("require [\"date\", \"regex\", \"fileinto\"]; if currentdate :regex \"year\" \"2[0-9]+\" { fileinto \"x\"; }"),
        "captures-in-capturing-test" => !filed("require [\"variables\", \"fileinto\"]; if header :matches \"Subject\" \"*-*\" { if string :matches \"a\" \"${1}\" { fileinto \"x\"; } }"),
        "captures-after-inner-test" => {
            let e = events("require [\"variables\", \"fileinto\"]; if header :matches \"Subject\" \"*-*\" { if header :matches \"Subject\" \"?-?\" { stop; } fileinto \"in-${1}\"; }");
            let f = events("require [\"variables\", \"fileinto\"]; if header :matches \"Subject\" \"*-*\" { if header :matches \"Subject\" \"nothing*\" { stop; } fileinto \"in-${2}\"; }");
            folder(&e).is_some() || folder(&f) != Some("in-b")
        }
        "zone-minutes" => !filed("require [\"date\", \"fileinto\"]; if currentdate :zone \"+0530\" \"zone\" \"+0530\" { fileinto \"x\"; }"),
        "generated-id-brackets" => dup_ids("require [\"replace\", \"duplicate\"]; replace \"new\"; if duplicate { keep; }", MSG).first().is_some_and(|i| i.starts_with('<')),
        "folded-identifiers" => {
            let raw = MSG.replace("Subject: a-b", "X-Id: one\r\n two");
            dup_ids("require \"duplicate\"; if duplicate :header \"X-Id\" { keep; }", &raw).first().is_some_and(|i| i.contains('\r'))
        }
        "ambiguous-identifiers" => {
            let i = dup_ids("require \"duplicate\"; if anyof(duplicate :handle \"a\" :uniqueid \"bc\", duplicate :handle \"ab\" :uniqueid \"c\") { keep; }", MSG);
            i.len() == 2 && i[0] == i[1]
        }
        "ambiguous-replies" => {
            let a = dup_ids("require \"vacation\"; vacation :handle \"x\" \"one\";", MSG);
            let b = dup_ids("require \"vacation\"; vacation \"x\";", MSG);
            a.len() == 1 && a == b
        }
        "glob-wildcards" => panics(|| {
            let _ = events(&format!("require [\"variables\", \"fileinto\"]; if header :matches \"Subject\" \"{}\" {{ fileinto \"${{1}}\"; }}", "*".repeat(70)));
        }),
        "parser-nesting" => {
            // The first generated message the parser cannot read.
            let raw = mail::unreadable(&mut Tape::fresh(1, "unreadable", 0));
            raw.is_some_and(|raw| {
                panics(|| {
                    let _ = Runtime::new().filter(&raw);
                })
            })
        }
        "stale-locals" => {
            let e = events("require [\"variables\", \"fileinto\", \"vnd.stalwart.expressions\", \"vnd.stalwart.while\"]; let \"i\" \"0\"; while \"i < 2\" { let \"i\" \"i + 1\"; if true { set \"x\" \"${x}a\"; fileinto \"is-${x}\"; continue; } }");
            e.iter().any(|e| matches!(e, Event::FileInto { folder, .. } if folder == "is-aa"))
        }
        "backslash-end" => folder(&events("require \"fileinto\"; fileinto \"a\\\\\";")) != Some("a\\"),
        "edited-doubling" => {
            let src = "require [\"replace\", \"foreverypart\", \"variables\", \"vnd.stalwart.expressions\", \"vnd.stalwart.while\"]; let \"i\" \"0\"; while \"i < 12\" { let \"i\" \"i + 1\"; replace \"${part.text}${part.text}\"; }";
            let e = events_with(&compiler(), src, &MSG.replace("hello", &"hello".repeat(10)), |r| r.with_max_variable_size(100)).unwrap_or_default();
            e.iter().any(|e| matches!(e, Event::CreatedMessage { message, .. } if message.len() > 100_000))
        }
        "enclose-trace-fields" => {
            let raw = format!("Received: from a by b; Mon, 1 Jan 2024 10:00:00 +0000\r\n{MSG}");
            let e = events_with(&compiler(), "require \"enclose\"; enclose \"note\"; redirect \"bob@b.example\";", &raw, |r| r).unwrap_or_default();
            e.iter().any(|e| matches!(e, Event::CreatedMessage { message, .. } if !message.starts_with(b"Received")))
        }
        "replace-automatic-mark" => {
            let raw = format!("Auto-Submitted: auto-notified\r\n{MSG}");
            let e = events_with(&compiler(), "require [\"replace\", \"enotify\"]; replace \"note\"; notify \"mailto:bob@b.example\";", &raw, |r| r).unwrap_or_default();
            e.iter().any(|e| matches!(e, Event::SendMessage { .. }))
        }
        _ => false,
    }
}

pub const KEYS: [&str; 18] = [
    "string-several-keys",
    "environment-several-keys",
    "hasflag-regex",
    "date-regex",
    "captures-in-capturing-test",
    "captures-after-inner-test",
    "zone-minutes",
    "generated-id-brackets",
    "folded-identifiers",
    "ambiguous-identifiers",
    "ambiguous-replies",
    "glob-wildcards",
    "parser-nesting",
    "stale-locals",
    "backslash-end",
    "edited-doubling",
    "enclose-trace-fields",
    "replace-automatic-mark",
];
