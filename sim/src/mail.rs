//! Mail messages of the simulation: a tree of parts that is rendered to the
//! bytes the crate receives, and that the reference model edits by itself to
//! predict the bytes of every announced version.

use crate::tape::Tape;

#[derive(Clone, Debug, PartialEq)]
pub struct Hdr {
    pub name: String,
    /// Unfolded text value.
    pub value: std::sync::Arc<str>,
    /// Complete original bytes of the field (name, colon, value, line ends);
    /// None for a field that was inserted by a script.
    pub raw: Option<Vec<u8>>,
    /// Addresses in an address field: (display name, addr-spec).
    pub addrs: Vec<(Option<String>, String)>,
    /// The crate keeps a text value of this header (unstructured header).
    pub text: bool,
}

#[derive(Clone, Debug)]
pub enum Body {
    Text { text: String, raw: Vec<u8> },
    Html { text: String, raw: Vec<u8> },
    Bin { raw: Vec<u8> },
    /// Raw message/rfc822 content; a leaf of the outer message.
    Rfc822 { raw: Vec<u8> },
    /// Parts with the bytes before, between and after them.
    Multi { kids: Vec<usize>, seps: Vec<Vec<u8>> },
    /// Content supplied by a script (replace, convert).
    New { text: String, html: bool, blank: bool },
    /// The message wrapped by enclose; a leaf of the new message.
    Inner(std::sync::Arc<Msg>),
}

#[derive(Clone, Debug)]
pub struct Part {
    pub hdrs: Vec<Hdr>,
    pub ctype: (String, String),
    pub body: Body,
}

#[derive(Clone, Debug, Default)]
pub struct Msg {
    /// Preorder; 0 is the message itself.
    pub parts: Vec<Part>,
    pub edited: bool,
}

pub fn hdr(name: &str, value: &str) -> Hdr {
    Hdr { name: name.into(), value: value.into(), raw: Some(format!("{name}: {value}\r\n").into_bytes()), addrs: vec![], text: true }
}

pub fn inserted(name: &str, value: &str) -> Hdr {
    Hdr { name: name.into(), value: value.into(), raw: None, addrs: vec![], text: true }
}

impl Hdr {
    /// The text the parser keeps: fields without a known structure are kept
    /// as they were written, folding included.
    /// The value without decoding encoded words.
    pub fn undecoded(&self) -> String {
        match &self.raw {
            Some(r) if r.windows(5).any(|w| w == b": =?u") => {
                let v = String::from_utf8_lossy(r);
                v[v.find(':').map_or(0, |p| p + 1)..].trim().to_string()
            }
            _ => self.value.to_string(),
        }
    }

    pub fn kept_text(&self) -> String {
        match &self.raw {
            Some(r) if self.name.len() > 2 && self.name[..2].eq_ignore_ascii_case("x-") => {
                let v = String::from_utf8_lossy(r);
                v[v.find(':').map_or(0, |p| p + 1)..].trim().to_string()
            }
            _ => self.value.to_string(),
        }
    }
}

impl Msg {
    pub fn render(&self) -> Vec<u8> {
        let mut o = Vec::new();
        if !self.parts.is_empty() {
            self.render_part(0, &mut o);
        }
        o
    }

    fn render_part(&self, id: usize, o: &mut Vec<u8>) {
        let p = &self.parts[id];
        for h in &p.hdrs {
            match &h.raw {
                Some(r) => o.extend_from_slice(r),
                None => o.extend_from_slice(format!("{}: {}\r\n", h.name, h.value).as_bytes()),
            }
        }
        match &p.body {
            Body::Text { raw, .. } | Body::Html { raw, .. } | Body::Bin { raw } | Body::Rfc822 { raw } => {
                o.extend_from_slice(b"\r\n");
                o.extend_from_slice(raw);
            }
            Body::Multi { kids, seps } => {
                o.extend_from_slice(b"\r\n");
                for (i, k) in kids.iter().enumerate() {
                    o.extend_from_slice(&seps[i]);
                    self.render_part(*k, o);
                }
                o.extend_from_slice(&seps[kids.len()]);
            }
            Body::New { text, blank, .. } => {
                if *blank {
                    o.extend_from_slice(b"\r\n");
                }
                o.extend_from_slice(text.as_bytes());
            }
            Body::Inner(m) => {
                o.extend_from_slice(b"\r\n");
                m.render_part(0, o);
            }
        }
    }

    /// Bytes after the blank line of a part.
    pub fn body_bytes(&self, id: usize) -> Vec<u8> {
        let mut o = Vec::new();
        self.render_part(id, &mut o);
        let mut h = 0;
        for x in &self.parts[id].hdrs {
            h += x.raw.as_ref().map_or(x.name.len() + x.value.len() + 4, |r| r.len());
        }
        o.drain(..(h + 2).min(o.len()));
        o
    }

    pub fn kids(&self, id: usize) -> Vec<usize> {
        match &self.parts[id].body {
            Body::Multi { kids, .. } => kids.clone(),
            _ => vec![],
        }
    }

    /// id and every part nested in it, in order (message/rfc822 is one leaf).
    pub fn subtree(&self, id: usize) -> Vec<usize> {
        let mut o = vec![id];
        for k in self.kids(id) {
            o.extend(self.subtree(k));
        }
        o
    }

    pub fn top(&self, name: &str) -> impl Iterator<Item = &Hdr> {
        let name = name.to_string();
        self.parts[0].hdrs.iter().filter(move |h| h.name.eq_ignore_ascii_case(&name))
    }

    /// Text of the part if it is a text or html part.
    pub fn text_of(&self, id: usize) -> Option<String> {
        match &self.parts[id].body {
            Body::Text { text, .. } | Body::Html { text, .. } | Body::New { text, .. } => Some(text.clone()),
            Body::Bin { raw } => Some(String::from_utf8_lossy(raw).into_owned()),
            _ => None,
        }
    }
}

pub fn b64(data: &[u8]) -> Vec<u8> {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = Vec::new();
    for c in data.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                o.push(A[(n >> (18 - 6 * i)) as usize & 63]);
            } else {
                o.push(b'=');
            }
        }
    }
    o
}

pub const ADDRS: [&str; 10] = [
    "anna@a.example",
    "bob@b.example",
    "carl+list@c.example",
    "Dora@D.example",
    "eve.e@sub.e.example",
    "friend@f.example",
    "owner-team@lists.example",
    "mailer-daemon@a.example",
    "news-request@b.example",
    "gus@g.example",
];
const NAMES: [&str; 4] = ["Anna", "Bob Builder", "Carl C", "Dora"];
pub const WORDS: [&str; 20] = [
    "alpha", "beta", "Gamma", "42", "7", "report", "Re: meeting", "hello world", "URGENT", "10.5", "naïve", "x", "invoice 17", "a b c", "0", "-3", "spam?", "*star*", "zz.top", "long value with several words in it",
];
pub const XNAMES: [&str; 4] = ["X-Foo", "X-Bar", "X-Part", "Comments"];

#[derive(Clone)]
pub struct MailCfg {
    pub hostile: usize,
    pub calm: bool,
    pub user: String,
    pub max_depth: usize,
    pub multi: bool,
    /// Percent chance that a header relevant to automatic replies appears.
    pub auto_hdrs: usize,
    /// Percent chance that To/Cc contain the user.
    pub to_user: usize,
    pub weird: bool,
}

fn addr_hdr(t: &mut Tape, name: &str, must: Option<&str>) -> Hdr {
    let n = t.range(1, 3);
    let mut addrs = Vec::new();
    for _ in 0..n {
        let a = t.pick(&ADDRS).to_string();
        let d = if t.chance(1, 3) { Some(t.pick(&NAMES).to_string()) } else { None };
        addrs.push((d, a));
    }
    if let Some(m) = must {
        let at = t.below(addrs.len() + 1);
        // (letter case does not matter in addresses)
        let m = match t.below(8) {
            0 => m.to_uppercase(),
            1 => m.chars().enumerate().map(|(i, c)| if i == 0 { c.to_ascii_uppercase() } else { c }).collect(),
            _ => m.to_string(),
        };
        addrs.insert(at, (None, m));
    }
    let parts: Vec<String> = addrs
        .iter()
        .map(|(d, a)| match d {
            Some(d) => format!("{d} <{a}>"),
            None => a.clone(),
        })
        .collect();
    let sep = if t.chance(1, 5) { ",\r\n " } else { ", " };
    let body = parts.join(sep);
    let value = parts.join(", ");
    Hdr { name: name.into(), value: value.into(), raw: Some(format!("{name}: {body}\r\n").into_bytes()), addrs, text: false }
}

/// "name: value" with an occasional odd but harmless layout.
fn text_hdr(t: &mut Tape, name: &str, value: &str) -> Hdr {
    let mut h = hdr(name, value);
    let nm = if t.chance(1, 6) { name.to_uppercase() } else { name.to_string() };
    let raw = match t.below(8) {
        1 => format!("{nm}:{value}\r\n"),
        2 => format!("{nm}:  {value}\r\n"),
        3 if value.contains(' ') => format!("{nm}: {}\r\n", value.replacen(' ', "\r\n ", 1)),
        _ => format!("{nm}: {value}\r\n"),
    };
    h.raw = Some(raw.into_bytes());
    h
}

pub fn gen(t: &mut Tape, c: &MailCfg, tag: usize) -> Msg {
    let mut hdrs = Vec::new();
    for i in 0..t.weighted(&[4, 3, 2, 1]) {
        let from = *t.pick(&["", "", " (h.example [192.0.2.7])", " ([192.0.2.9])", " (unknown [2001:db8::1])"]);
        let with = *t.pick(&["", "", " with ESMTP id Q1", " with ESMTPS id abc-7 for <u1@u.example>", " (Mailer) with LMTP id 42", " (using TLSv1.3 with cipher TLS_AES_256_GCM_SHA384) with SMTP id z for a@b.example"]);
        let host = if t.chance(1, 6) { "[192.0.2.1]".to_string() } else { format!("h{i}.example") };
        let mut h = hdr("Received", &format!("from {host}{from} by mx.example{with}; Mon, 1 Jan 2024 10:0{i}:00 +0000"));
        h.text = false;
        hdrs.push(h);
    }
    let mut rest = Vec::new();
    if !t.chance(1, 20) {
        rest.push(addr_hdr(t, "From", None));
    }
    let to_user = c.calm || t.chance(c.to_user, 100);
    let which = t.below(3);
    let names = *t.pick(&[["To", "Cc", "Bcc"], ["To", "Cc", "Bcc"], ["To", "Resent-To", "Resent-Cc"], ["To", "Resent-Bcc", "Cc"]]);
    if !t.chance(1, 12) {
        let m = if to_user && which == 0 { Some(c.user.as_str()) } else { None };
        rest.push(addr_hdr(t, "To", m));
    }
    if to_user && which > 0 {
        rest.push(addr_hdr(t, names[which], Some(&c.user)));
    } else if t.chance(1, 4) {
        rest.push(addr_hdr(t, "Cc", None));
    }
    if t.chance(1, 5) {
        rest.push(addr_hdr(t, "X-Original-From", None));
    }
    if !t.chance(1, 8) {
        let v = t.pick(&WORDS).to_string();
        let mut h = text_hdr(t, "Subject", &v);
        if t.chance(1, 20) {
            // Around the length at which subjects of generated mail are cut.
            let n = t.range(245, 262);
            let mut v: String = "a long subject ".repeat(20);
            v.truncate(n);
            v = v.replace(' ', "_");
            h = hdr("Subject", &v);
            h.raw = Some(format!("Subject: {v}\r\n").into_bytes());
            if t.chance(1, 3) {
                let v = v.replace("long", "l\u{f6}ng");
                h = hdr("Subject", &v);
                h.raw = Some([b"Subject: =?utf-8?B?".to_vec(), b64(v.as_bytes()), b"?=\r\n".to_vec()].concat());
            }
        }
        if t.chance(c.hostile, 100) {
            let v = t.pick(&crate::gen::HOSTILE).to_string();
            h = hdr("Subject", &v);
            h.raw = Some([b"Subject: =?utf-8?B?".to_vec(), b64(v.as_bytes()), b"?=\r\n".to_vec()].concat());
        }
        rest.push(h);
    }
    if !t.chance(1, 8) {
        let mut h = hdr("Message-ID", &format!("<m{}.{}@mail.example>", tag, t.below(6)));
        h.text = false;
        rest.push(h);
    }
    if t.chance(3, 4) {
        let mut h = hdr("Date", "Tue, 14 Nov 2023 22:13:20 +0000");
        h.text = false;
        rest.push(h);
    }
    for _ in 0..t.weighted(&[2, 3, 2, 2, 1]) {
        let n = t.pick(&XNAMES).to_string();
        let v = t.pick(&WORDS).to_string();
        rest.push(text_hdr(t, &n, &v));
    }
    let autos = if !c.calm && t.chance(c.auto_hdrs, 100) { if t.chance(1, 5) { 2 } else { 1 } } else { 0 };
    for _ in 0..autos {
        let (n, v) = *t.pick(&[
            ("Auto-Submitted", "auto-generated"),
            ("Auto-Submitted", "no"),
            ("Auto-Submitted", "auto-replied"),
            ("List-Id", "<team.lists.example>"),
            ("List-Unsubscribe", "<mailto:leave@lists.example>"),
            ("List-Help", "<mailto:help@lists.example>"),
            ("List-Post", "<mailto:post@lists.example>"),
            ("List-Owner", "<mailto:own@lists.example>"),
            ("List-Subscribe", "<mailto:join@lists.example>"),
            ("List-Archive", "<http://lists.example/a>"),
            ("X-Auto-Response-Suppress", "All"),
            ("X-Auto-Response-Suppress", "OOF, AutoReply"),
            ("X-Auto-Response-Suppress", "DR"),
            ("Precedence", "bulk"),
            ("Precedence", "first-class"),
            ("Auto-Submitted", "No"),
            ("Precedence", "BULK"),
            ("X-Auto-Response-Suppress", "dr,all"),
        ]);
        let n = match t.below(8) {
            1 => n.to_ascii_lowercase(),
            2 => n.to_ascii_uppercase(),
            _ => n.to_string(),
        };
        let mut h = hdr(&n, v);
        h.raw = match t.below(8) {
            1 => Some(format!("{n}:{v}\r\n").into_bytes()),
            2 => Some(format!("{n}:\r\n {v}\r\n").into_bytes()),
            _ => h.raw,
        };
        h.text = false;
        rest.push(h);
    }
    if t.chance(1, 3) {
        // Other fields with addresses, not always others' ones.
        let n = *t.pick(&["Sender", "Reply-To", "Resent-From", "Reply-To", "Resent-Sender", "Sender"]);
        let from = rest.iter().find(|h| h.name == "From").and_then(|h| h.addrs.first()).map(|a| a.1.clone());
        let must = if t.chance(1, 2) { from } else { None };
        rest.push(addr_hdr(t, n, must.as_deref()));
    }
    if t.chance(1, 6) {
        let v = *t.pick(&["<m0.0@mail.example>", "<r2@x.example> <r3@x.example>"]);
        let mut h = hdr("In-Reply-To", v);
        h.text = false;
        rest.push(h);
    }
    if t.chance(1, 6) {
        let mut h = hdr("References", "<r1@x.example> <r2@x.example>");
        h.text = false;
        rest.push(h);
    }
    // Shuffle a little: rotate.
    if !rest.is_empty() {
        let k = t.below(rest.len());
        rest.rotate_left(k);
    }
    hdrs.extend(rest);
    let mut m = Msg { parts: vec![], edited: false };
    gen_part(t, c, &mut m, hdrs.clone(), 0, &mut 0);
    let bytes = m.render();
    if m.parts.len() > 1 && std::panic::catch_unwind(|| mail_parser::MessageParser::default().parse(&bytes).is_some()).is_err() {
        // The parser cannot read some nestings of multipart/alternative (a
        // defect of the dependency, see known-findings.txt).
        m = Msg { parts: vec![], edited: false };
        let c = MailCfg { multi: false, ..(*c).clone() };
        gen_part(t, &c, &mut m, hdrs, 0, &mut 0);
    }
    m
}

fn gen_part(t: &mut Tape, c: &MailCfg, m: &mut Msg, mut hdrs: Vec<Hdr>, depth: usize, counter: &mut usize) -> usize {
    let id = m.parts.len();
    *counter += 1;
    let tag = *counter;
    if depth > 0 {
        if t.chance(1, 2) {
            hdrs.push(hdr("X-Part", &format!("p{tag}")));
        }
        if t.chance(1, 3) {
            let v = t.pick(&WORDS).to_string();
            hdrs.push(text_hdr(t, "X-Foo", &v));
        }
    }
    let kind = if c.multi && depth < c.max_depth && m.parts.len() < 8 {
        // zero = plain text
        match t.below(if depth == 0 { 6 } else { 9 }) {
            0 => 0,
            1 | 2 | 3 => 4,
            4 => 1,
            5 => 2,
            6 => 3,
            7 => 0,
            _ => 5,
        }
    } else {
        *t.pick(&[0usize, 0, 1, 2, 5])
    };
    let line = |t: &mut Tape| format!("Body {tag} {}", t.pick(&WORDS));
    let ct = |hdrs: &mut Vec<Hdr>, v: String| {
        let mut h = hdr("Content-Type", &v);
        h.text = false;
        hdrs.push(h);
    };
    match kind {
        0 | 5 => {
            let text = if t.chance(1, 8) { String::new() } else { format!("{}\r\nsecond line", line(t)) };
            let implicit = kind == 5;
            if !implicit {
                ct(&mut hdrs, "text/plain; charset=utf-8".into());
            }
            let raw = if t.chance(1, 5) && !text.is_empty() {
                let mut h = hdr("Content-Transfer-Encoding", "base64");
                h.text = true;
                hdrs.push(h);
                b64(text.as_bytes())
            } else {
                text.clone().into_bytes()
            };
            // The blank header/body separator needs at least one header.
            if hdrs.is_empty() {
                hdrs.push(hdr("X-Part", &format!("p{tag}")));
            }
            m.parts.push(Part { hdrs, ctype: if implicit { (String::new(), String::new()) } else { ("text".into(), "plain".into()) }, body: Body::Text { text, raw } });
        }
        1 => {
            ct(&mut hdrs, "text/html; charset=utf-8".into());
            let text = format!("<p>Body {tag} <b>bold</b></p>");
            m.parts.push(Part { hdrs, ctype: ("text".into(), "html".into()), body: Body::Html { raw: text.clone().into_bytes(), text } });
        }
        2 => {
            ct(&mut hdrs, format!("application/octet-stream; name=\"f{tag}.bin\""));
            m.parts.push(Part { hdrs, ctype: ("application".into(), "octet-stream".into()), body: Body::Bin { raw: format!("binary-{tag}").into_bytes() } });
        }
        3 => {
            ct(&mut hdrs, "message/rfc822".into());
            let raw = format!("From: inner@x.example\r\nSubject: inner {tag}\r\nX-Foo: nested\r\n\r\ninner body {tag}").into_bytes();
            m.parts.push(Part { hdrs, ctype: ("message".into(), "rfc822".into()), body: Body::Rfc822 { raw } });
        }
        _ => {
            let b = format!("b{tag}");
            let sub = *t.pick(&["mixed", "alternative", "related"]);
            ct(&mut hdrs, format!("multipart/{sub}; boundary=\"{b}\""));
            m.parts.push(Part { hdrs, ctype: ("multipart".into(), sub.into()), body: Body::Bin { raw: vec![] } });
            let n = t.range(1, 3);
            let mut kids = Vec::new();
            let mut seps = Vec::new();
            for i in 0..n {
                seps.push(if i == 0 {
                    if t.chance(1, 4) {
                        format!("preamble {tag}\r\n--{b}\r\n").into_bytes()
                    } else {
                        format!("--{b}\r\n").into_bytes()
                    }
                } else {
                    format!("\r\n--{b}\r\n").into_bytes()
                });
                kids.push(gen_part(t, c, m, vec![], depth + 1, counter));
            }
            seps.push(format!("\r\n--{b}--\r\n").into_bytes());
            m.parts[id].body = Body::Multi { kids, seps };
        }
    }
    id
}

/// A message mail-parser panics on (see known-findings.txt).
pub fn unreadable(t: &mut Tape) -> Option<Vec<u8>> {
    for _ in 0..20_000 {
        let c = MailCfg { hostile: 0, calm: true, user: "u1@u.example".into(), max_depth: 3, multi: true, auto_hdrs: 0, to_user: 0, weird: false };
        let mut m = Msg { parts: vec![], edited: false };
        gen_part(t, &c, &mut m, vec![hdr("From", "anna@a.example")], 0, &mut 0);
        let b = m.render();
        if std::panic::catch_unwind(|| mail_parser::MessageParser::default().parse(&b).is_some()).is_err() {
            return Some(b);
        }
    }
    None
}
