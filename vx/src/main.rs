//! Mechanical extraction: /repo/src -> one Verus file. See /verif/DESIGN.md for what each rule drops.
mod contracts;
mod edits;
mod extract;
mod inline;
mod norm;

use std::collections::BTreeSet;
use std::path::PathBuf;

/// A line `@A,B text` of a contract file counts for the views A and B only (and for `all`).
fn select(text: &str, view: &str) -> String {
    let mut out = String::new();
    for l in text.lines() {
        let mut l = l;
        if let Some(r) = l.strip_prefix('@') {
            let (vs, t) = r.split_once(' ').unwrap_or((r, ""));
            if view != "all" && !vs.split(',').any(|v| v == view) {
                continue;
            }
            l = t;
        }
        out.push_str(l);
        out.push('\n');
    }
    out
}

fn main() {
    let mut src = PathBuf::from("/repo/src");
    let mut cdir = PathBuf::from("/verif/contracts");
    let mut out = PathBuf::from("out.rs");
    let mut map = PathBuf::from("map.json");
    let mut view = String::from("all");
    let mut opts = extract::Opts::default();
    let mut args = std::env::args().skip(1);
    while let Some(a) = args.next() {
        let mut v = || args.next().expect("value expected");
        match a.as_str() {
            "--src" => src = v().into(),
            "--contracts" => cdir = v().into(),
            "--out" => out = v().into(),
            "--map" => map = v().into(),
            // function kept with its contract, body not verified
            "--no-body" => {
                opts.no_body.insert(v());
            }
            // function kept without contract and body
            "--no-contract" => {
                opts.no_contract.insert(v());
            }
            // proof hints of this function dropped
            "--no-hints" => {
                opts.no_hints.insert(v());
            }
            // the part of the contracts this verification is about
            "--view" => view = v(),
            "--drop-use" => {
                opts.drop_use.insert(v());
            }
            // old=new, and KEY:old=new for the local names of one function (see extract::Opts)
            "--rename" => {
                let t = v();
                let (a, b) = t.split_once('=').expect("old=new");
                opts.rename.push((a.into(), b.into()));
            }
            "--rename-in" => {
                let t = v();
                let (k, p) = t.rsplit_once('|').expect("KEY|old=new");
                let (a, b) = p.split_once('=').expect("old=new");
                opts.rename_in.entry(k.into()).or_default().push((a.into(), b.into()));
            }
            "--inline" => {
                opts.inline.insert(v());
            }
            "--drop-inject" => {
                opts.drop_inject.insert(v());
            }
            _ => panic!("unknown argument {}", a),
        }
    }
    let read = |p: &PathBuf| std::fs::read_to_string(p).unwrap_or_default();
    let mut files = vec![];
    let mut names: BTreeSet<PathBuf> = BTreeSet::new();
    for e in std::fs::read_dir(&cdir).expect("contracts directory") {
        let p = e.unwrap().path();
        if p.extension().map_or(false, |e| e == "vx") {
            names.insert(p);
        }
    }
    for p in names {
        files.push((p.display().to_string(), select(&read(&p), &view)));
    }
    let contracts = match contracts::parse(&files) {
        Ok(c) => c,
        Err(e) => {
            eprintln!("vx: {}", e);
            std::process::exit(3);
        }
    };
    for l in read(&cdir.join("drop.txt")).lines() {
        let l = l.split('#').next().unwrap().trim();
        if !l.is_empty() {
            opts.drop.push(l.to_string());
        }
    }
    let prelude = read(&cdir.join("prelude.rs")) + &read(&cdir.join("specs.rs")) + &read(&cdir.join("session.rs")) + &read(&cdir.join("lemmas.rs"));
    match extract::run(&src, contracts, opts, &prelude) {
        Ok((text, json)) => {
            std::fs::write(&out, text).unwrap();
            std::fs::write(&map, json).unwrap();
        }
        Err(e) => {
            eprintln!("vx: {}", e);
            std::process::exit(2);
        }
    }
}
