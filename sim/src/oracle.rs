//! Small independent oracles used by the reference model: wildcard and regular
//! expression matching, calendar arithmetic, mailto URIs, address clean-up.

use crate::ast::{Cmp, DPart, MType};
use crate::val::Val;

// ------------------------------------------------------------------ matching

#[derive(Clone, Copy, PartialEq)]
enum G {
    Ch(char),
    One,
    Many,
}

/// Match `value` against a Sieve wildcard pattern; captures are
/// [whole, wildcard 1, ...], each `*` matching as little as possible.
pub fn glob(pattern: &str, value: &str, fold: bool) -> Option<Vec<String>> {
    let mut pat = Vec::new();
    let mut it = pattern.chars();
    while let Some(c) = it.next() {
        match c {
            '\\' => {
                if let Some(c) = it.next() {
                    pat.push(G::Ch(c));
                }
            }
            '*' => pat.push(G::Many),
            '?' => pat.push(G::One),
            c => pat.push(G::Ch(c)),
        }
    }
    let low = |c: char| -> char {
        if fold {
            c.to_lowercase().next().unwrap_or(c)
        } else {
            c
        }
    };
    let v: Vec<char> = value.chars().collect();
    // can[p][i]: pat[p..] matches v[i..]
    let (n, m) = (pat.len(), v.len());
    let mut can = vec![vec![false; m + 1]; n + 1];
    can[n][m] = true;
    for p in (0..n).rev() {
        for i in (0..=m).rev() {
            can[p][i] = match pat[p] {
                G::Ch(c) => i < m && low(c) == low(v[i]) && can[p + 1][i + 1],
                G::One => i < m && can[p + 1][i + 1],
                G::Many => can[p + 1][i] || (i < m && can[p][i + 1]),
            };
        }
    }
    if !can[0][0] {
        return None;
    }
    let mut caps = vec![value.to_string()];
    let mut i = 0;
    for p in 0..n {
        match pat[p] {
            G::Ch(_) => i += 1,
            G::One => {
                caps.push(v[i].to_string());
                i += 1;
            }
            G::Many => {
                let s = i;
                while !can[p + 1][i] {
                    i += 1;
                }
                caps.push(v[s..i].iter().collect());
            }
        }
    }
    Some(caps)
}

/// The subset of regular expressions the generator uses: literals, `.`,
/// greedy `*`/`+` after one of these, capturing groups, `^` and `$`.
pub fn regex(pattern: &str, value: &str) -> Option<Vec<String>> {
    let p: Vec<char> = pattern.chars().collect();
    let v: Vec<char> = value.chars().collect();
    // A pattern of a variable may have been cut at its size limit; what is no
    // expression any more matches nothing.
    if p.iter().filter(|c| **c == '(').count() != p.iter().filter(|c| **c == ')').count() {
        return None;
    }
    let ngroups = p.iter().filter(|c| **c == '(').count();
    for start in 0..=v.len() {
        let mut caps = vec![None; ngroups + 1];
        if let Some(end) = re(&p, 0, &v, start, &mut caps, 0) {
            let mut out = vec![v[start..end].iter().collect::<String>()];
            for c in &caps[1..] {
                out.push(match c {
                    Some((a, b)) => v[*a..*b].iter().collect(),
                    None => String::new(),
                });
            }
            return Some(out);
        }
    }
    None
}

fn re(p: &[char], pi: usize, v: &[char], vi: usize, caps: &mut Vec<Option<(usize, usize)>>, open: usize) -> Option<usize> {
    if pi == p.len() {
        return Some(vi);
    }
    match p[pi] {
        '^' => return if vi == 0 { re(p, pi + 1, v, vi, caps, open) } else { None },
        '$' => return if vi == v.len() { re(p, pi + 1, v, vi, caps, open) } else { None },
        '(' => {
            let g = p[..=pi].iter().filter(|c| **c == '(').count();
            let save = caps[g];
            caps[g] = Some((vi, vi));
            let r = re(p, pi + 1, v, vi, caps, g);
            if r.is_none() {
                caps[g] = save;
            }
            return r;
        }
        ')' => {
            let save = caps[open];
            caps[open] = caps[open].map(|(a, _)| (a, vi));
            let r = re(p, pi + 1, v, vi, caps, 0);
            if r.is_none() {
                caps[open] = save;
            }
            return r;
        }
        _ => (),
    }
    let (atom, next): (Option<char>, usize) = match p[pi] {
        '.' => (None, pi + 1),
        '\\' => (Some(p[pi + 1]), pi + 2),
        c => (Some(c), pi + 1),
    };
    let ok = |i: usize| -> bool {
        i < v.len()
            && match atom {
                Some(c) => v[i] == c,
                None => v[i] != '\n',
            }
    };
    match p.get(next) {
        Some(q @ ('*' | '+')) => {
            let mut k = vi;
            while ok(k) {
                k += 1;
            }
            let min = vi + (*q == '+') as usize;
            loop {
                if k < min {
                    return None;
                }
                if let Some(e) = re(p, next + 1, v, k, caps, open) {
                    return Some(e);
                }
                if k == 0 {
                    return None;
                }
                k -= 1;
            }
        }
        _ => {
            if ok(vi) {
                re(p, next, v, vi + 1, caps, open)
            } else {
                None
            }
        }
    }
}

/// Numeric reading of a script value (not a number: positive infinity).
pub fn number(v: &Val) -> f64 {
    match v {
        Val::I(i) => *i as f64,
        Val::F(f) => *f,
        Val::S(s) if s.contains('.') => s.parse().unwrap_or(f64::INFINITY),
        Val::S(s) => s.parse::<i64>().map(|i| i as f64).unwrap_or(f64::INFINITY),
        Val::A(_) => f64::INFINITY,
    }
}

/// Numeric reading of message text.
pub fn text_number(s: &str) -> f64 {
    s.parse::<f64>().unwrap_or(0.0)
}

/// One source/key comparison. `num` is the numeric reading of the source.
pub fn matches(mt: MType, cmp: Cmp, src: &str, num: f64, key: &Val) -> Option<Vec<String>> {
    let k = key.text_joined();
    let yes = |b: bool| if b { Some(vec![]) } else { None };
    match mt {
        MType::Is => yes(match cmp {
            Cmp::Octet => src == k,
            Cmp::Numeric => num == number(key),
            _ => src.to_lowercase() == k.to_lowercase(),
        }),
        MType::Contains => yes(match cmp {
            Cmp::Octet => src.contains(&k),
            _ => src.to_lowercase().contains(&k.to_lowercase()),
        }),
        MType::Matches => glob(&k, src, !matches!(cmp, Cmp::Octet | Cmp::Numeric)),
        MType::Regex => regex(&k, src),
        MType::Value(r) => yes(match cmp {
            Cmp::Octet => r.holds(src.cmp(&k)),
            Cmp::Numeric => num.partial_cmp(&number(key)).map(|o| r.holds(o)).unwrap_or(false),
            _ => r.holds(src.to_lowercase().cmp(&k.to_lowercase())),
        }),
        MType::Count(_) | MType::List => None,
    }
}

// ------------------------------------------------------------------ calendar

pub struct Civil {
    pub y: i64,
    pub mo: i64,
    pub d: i64,
    pub h: i64,
    pub mi: i64,
    pub s: i64,
    pub wd: i64,
    pub days: i64,
}

pub fn civil(secs: i64) -> Civil {
    let days = secs.div_euclid(86400);
    let rem = secs.rem_euclid(86400);
    let z = days + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let mo = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = yoe + era * 400 + (mo <= 2) as i64;
    Civil { y, mo, d, h: rem / 3600, mi: rem / 60 % 60, s: rem % 60, wd: (days + 4).rem_euclid(7), days }
}

const DOW: [&str; 7] = ["Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"];
const MON: [&str; 12] = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];

pub fn rfc822(secs: i64, zone_min: i64) -> String {
    let c = civil(secs + zone_min * 60);
    format!(
        "{}, {} {} {:04} {:02}:{:02}:{:02} {}",
        DOW[c.wd as usize],
        c.d,
        MON[c.mo as usize - 1],
        c.y,
        c.h,
        c.mi,
        c.s,
        crate::ast::zone_text(zone_min)
    )
}

pub fn date_part(p: DPart, secs: i64, zone_min: i64) -> String {
    let c = civil(secs + zone_min * 60);
    match p {
        DPart::Year => format!("{:04}", c.y),
        DPart::Month => format!("{:02}", c.mo),
        DPart::Day => format!("{:02}", c.d),
        DPart::Date => format!("{:04}-{:02}-{:02}", c.y, c.mo, c.d),
        DPart::Julian => (c.days + 40587).to_string(),
        DPart::Hour => format!("{:02}", c.h),
        DPart::Minute => format!("{:02}", c.mi),
        DPart::Second => format!("{:02}", c.s),
        DPart::Time => format!("{:02}:{:02}:{:02}", c.h, c.mi, c.s),
        DPart::Iso8601 => {
            let z = if zone_min == 0 {
                "Z".to_string()
            } else {
                let a = zone_min.abs();
                format!("{}{:02}:{:02}", if zone_min < 0 { '-' } else { '+' }, a / 60, a % 60)
            };
            format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}{}", c.y, c.mo, c.d, c.h, c.mi, c.s, z)
        }
        DPart::Std11 => rfc822(secs, zone_min),
        DPart::Zone => crate::ast::zone_text(zone_min),
        DPart::Weekday => c.wd.to_string(),
    }
}

// ------------------------------------------------------------------- mailto

#[derive(Default, Debug, Clone)]
pub struct Mailto {
    pub to: Vec<String>,
    pub cc: Vec<String>,
    pub bcc: Vec<String>,
    pub body: Option<String>,
    pub hdrs: Vec<(String, String)>,
}

fn pct(s: &str) -> Option<String> {
    let b = s.as_bytes();
    let mut o = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            let h = |c: u8| (c as char).to_digit(16);
            let (a, c) = (h(*b.get(i + 1)?)?, h(*b.get(i + 2)?)?);
            o.push((a * 16 + c) as u8);
            i += 3;
        } else {
            if !b[i].is_ascii_whitespace() {
                o.push(b[i]);
            }
            i += 1;
        }
    }
    String::from_utf8(o).ok()
}

/// The URIs the generator produces (well-formed, or without an address).
pub fn mailto(rest: &str) -> Option<Mailto> {
    let mut m = Mailto::default();
    let (addrs, params) = match rest.split_once('?') {
        Some((a, p)) => (a, Some(p)),
        None => (rest, None),
    };
    let mut seen: Vec<String> = Vec::new();
    let mut add = |list: &mut Vec<String>, s: &str| -> Option<()> {
        // An encoded separator or at sign counts as one.
        for a in pct(s)?.split(',').filter(|a| !a.is_empty()) {
            let a: String = a.chars().filter(|c| !c.is_ascii_control()).collect();
            if a.matches('@').count() != 1 {
                return None;
            }
            if !seen.iter().any(|x| x.eq_ignore_ascii_case(&a)) {
                seen.push(a.clone());
                list.push(a);
            }
        }
        Some(())
    };
    add(&mut m.to, addrs)?;
    let mut params = params.into_iter().flat_map(|p| p.split('&')).peekable();
    while let Some(p) = params.next() {
        if p.is_empty() {
            continue;
        }
        let Some((k, v)) = p.split_once('=') else {
            // A name alone, only at the end
            if params.peek().is_none() && p.bytes().all(|c| c.is_ascii_alphanumeric() || b"-_%".contains(&c)) {
                pct(p)?;
                break;
            }
            return None;
        };
        let k = pct(k)?;
        let lk = k.to_ascii_lowercase();
        match lk.as_str() {
            "to" => add(&mut m.to, v)?,
            "cc" => add(&mut m.cc, v)?,
            "bcc" => add(&mut m.bcc, v)?,
            "body" => {
                let v = pct(v)?;
                if !v.is_empty() {
                    m.body = Some(v);
                }
            }
            _ => {
                let v = pct(v)?;
                if !v.is_empty() {
                    m.hdrs.push((k, v));
                }
            }
        }
    }
    if m.to.is_empty() && m.cc.is_empty() && m.bcc.is_empty() {
        None
    } else {
        Some(m)
    }
}

/// Redirect target as the system would address it, if it is usable at all.
pub fn redirect_target(s: &str) -> Option<String> {
    let mut r = String::new();
    let (mut quoted, mut last, mut at, mut dot) = (false, '\n', false, false);
    for c in s.chars() {
        match c {
            '"' => {
                if !quoted {
                    quoted = true;
                } else if last != '\\' {
                    quoted = false;
                }
            }
            '@' if !quoted => {
                if at || r.is_empty() {
                    return None;
                }
                at = true;
                r.push(c);
            }
            '.' if !quoted && at => {
                dot = true;
                r.push(c);
            }
            '<' => {
                r.clear();
                at = false;
                dot = false;
            }
            '>' => (),
            c => {
                if quoted || !c.is_ascii_whitespace() {
                    r.push(c);
                }
            }
        }
        last = c;
    }
    if at && dot && !r.is_empty() {
        Some(r)
    } else {
        None
    }
}

/// Drop every control character and collapse nothing else.
pub fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace() && !c.is_control()).collect()
}
