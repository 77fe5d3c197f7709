mod ast;
mod gen;
mod known;
mod mail;
mod model;
mod net;
mod oracle;
mod profiles;
mod scen;
mod seam;
mod sup;
mod tape;
mod val;
mod world;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    sup::install_hook();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => sup::check(&a[2], &a[3], &a[4]),
        Some("work") => {
            sup::work(&a[2..]);
            0
        }
        Some("replay") => sup::replay(&a[2]),
        Some("known") => {
            for k in known::KEYS {
                println!("{k}: {}", if known::still_fails(k) { "still fails" } else { "not seen" });
            }
            0
        }
        Some("triage") => triage(&a[2..]),
        _ => {
            eprintln!("usage: sieve-sim check ID quick|thorough DIR | replay FILE | triage ID FROM N MAX [min]");
            1
        }
    };
    std::process::exit(code);
}

/// Development aid: list failing runs, optionally minimised.
fn triage(a: &[String]) -> i32 {
    let prop = a[0].as_str();
    let (from, n, max): (u64, u64, usize) = (a[1].parse().unwrap(), a[2].parse().unwrap(), a[3].parse().unwrap());
    let min = a.get(4).is_some();
    let mut total = world::Stats::default();
    let mut bad = 0;
    for run in from..from + n {
        let mut stats = world::Stats::default();
        let mut t = tape::Tape::fresh(std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1), prop, run);
        let r = sup::run_once(prop, &mut t, &mut stats);
        for (k, v) in &stats.counts {
            total.add(k, *v);
        }
        if n == 1 && r.is_ok() && max == 0 {
            profiles::ACCOUNT.with(|a| println!("{}", a.borrow()));
        }
        if let Err(mut v) = r {
            bad += 1;
            if min {
                let k = sup::key(&v);
                let (_, sv, _) = sup::minimise(prop, t.rec.clone(), &k, 15_000);
                if let Some(sv) = sv {
                    v = sv;
                }
            }
            println!("==== run {run}: {} {}", v.oracle, v.detail);
            if min || n == 1 {
                profiles::ACCOUNT.with(|a| println!("{}", a.borrow()));
            }
            if bad >= max {
                break;
            }
        }
    }
    eprintln!("bad {bad}; {:?}", total.counts);
    0
}
