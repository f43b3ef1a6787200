#[cfg(feature = "hooks")]
mod alloc;
#[cfg(feature = "hooks")]
mod codec;
#[cfg(feature = "hooks")]
mod oracle;
mod rng;
mod search;
mod connect;
mod limits;
mod session;
#[cfg(feature = "hooks")]
mod tree;

pub use search::Search;

/// A failing input and what it did.
#[derive(Clone, Debug)]
pub struct Found {
    pub case: String,
    pub what: String,
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

const SESSION: [&str; 11] = ["P13", "P14", "P15", "P16", "P17", "P18", "P19", "P20", "P21", "P22", "P23"];

fn replay(case: &str) -> Result<(), String> {
    if case.starts_with("session ") {
        return session::replay(case);
    }
    if case.starts_with("limits ") {
        return limits::run(case);
    }
    if let Some(c) = connect::read(case) {
        return connect::run(&c);
    }
    #[cfg(feature = "hooks")]
    {
        if case.starts_with("ids ") {
            let (max, ops) = alloc::read(case);
            return alloc::seen(max, &ops);
        }
        if let Some(c) = codec::Case::read(case) {
            return session::under_watch(60, || case.to_string(), || c.run());
        }
    }
    Err(format!("not a case: {}", case))
}

fn show(s: &Search) -> String {
    let found = match &s.found {
        Some(f) => format!("{{\"case\":{},\"what\":{}}}", json(&f.case), json(&f.what)),
        None => "null".into(),
    };
    format!(
        "{{\"evaluations\":{},\"distinct\":{},\"samples\":[{}],\"found\":{}}}",
        s.evals, s.distinct.len(), s.samples.iter().map(|x| json(x)).collect::<Vec<_>>().join(","), found
    )
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    match a.get(1).map(|s| s.as_str()) {
        // search PROP SEED SECONDS
        Some("search") => {
            let (prop, seed, secs) = (&a[2], a[3].parse::<u64>().unwrap(), a[4].parse::<f64>().unwrap());
            session::watch(|c| {
                let mut s = Search::new();
                s.note(c);
                s.found = Some(Found { case: c.to_string(), what: "the client never gives control back".into() });
                println!("{}", show(&s));
            });
            let s = match prop.as_str() {
                "P24" => connect::search(seed, secs),
                p if SESSION.contains(&p) => session::search(p, seed, secs),
                "P11" => {
                    let mut s = limits::search(seed, secs / 4.0);
                    #[cfg(feature = "hooks")]
                    if s.found.is_none() {
                        let t = codec::search("P11", seed, secs * 3.0 / 4.0);
                        s.evals += t.evals;
                        s.distinct.extend(t.distinct);
                        s.samples.extend(t.samples);
                        s.found = t.found;
                    }
                    s
                }
                #[cfg(feature = "hooks")]
                "P12" => alloc::search(seed, secs),
                #[cfg(feature = "hooks")]
                p => codec::search(p, seed, secs),
                #[cfg(not(feature = "hooks"))]
                _ => Search::new(),
            };
            println!("{}", show(&s));
        }
        // replay FILE: a `case:` line of it, run again
        Some("replay") => {
            session::watch(|c| {
                println!("fails: {}\n  the client never gives control back", c);
                std::process::exit(1);
            });
            let t = std::fs::read_to_string(&a[2]).expect("replay file");
            let mut bad = false;
            for l in t.lines() {
                if let Some(c) = l.strip_prefix("case: ") {
                    match replay(c) {
                        Ok(()) => println!("holds: {}", c),
                        Err(e) => {
                            bad = true;
                            println!("fails: {}\n  {}", c, e)
                        }
                    }
                }
            }
            std::process::exit(bad as i32);
        }
        _ => {
            eprintln!("usage: search PROP SEED SECONDS | replay FILE");
            std::process::exit(2);
        }
    }
}
