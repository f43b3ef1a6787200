//! Contract files: line oriented, `#` in column 0 starts a directive.
//!
//!   #fn KEY               contract of one function; sections below until the next #fn/#impl/...
//!     #ret NAME           name of the returned value
//!     #attr TEXT          verifier attribute put before the function
//!     #spec               requires / ensures / decreases
//!     #entry              proof text at the start of the body
//!     #exit               proof text before the tail expression (or the closing brace)
//!     #leave              proof text at every place the function returns (`return`, end of the body)
//!     #loop N             invariant / decreases of the N-th loop (source order, from 0)
//!     #loop-start N       proof text at the start of the loop body
//!     #loop-end N         proof text at the end of the loop body
//!     #before-loop N      proof text before the statement holding the loop
//!     #after-loop N       proof text after it
//!     #after-let NAME [K] proof text after the K-th (from 0) statement binding NAME
//!     #before-let NAME [K] proof text before it
//!   #impl KEY             items put at the start of an impl or trait
//!   #mod PATH             items put at the end of a module (`crate` for the root)
//!   #super TRAIT SPEC     the specification functions of TRAIT live in the trait SPEC (text below:
//!                         items for implementations which no contract file mentions)

use std::collections::BTreeMap;

#[derive(Default, Debug, Clone)]
pub struct FnContract {
    pub ret: Option<String>,
    pub attrs: Vec<String>,
    pub spec: String,
    pub entry: String,
    pub exit: String,
    pub leave: String,
    pub loops: BTreeMap<usize, String>,
    pub loop_start: BTreeMap<usize, String>,
    pub loop_end: BTreeMap<usize, String>,
    pub before_loop: BTreeMap<usize, String>,
    pub after_loop: BTreeMap<usize, String>,
    pub after_let: BTreeMap<(String, usize), String>,
    pub before_let: BTreeMap<(String, usize), String>,
}

#[derive(Default, Debug)]
pub struct Contracts {
    pub fns: BTreeMap<String, FnContract>,
    pub impls: BTreeMap<String, String>,
    pub mods: BTreeMap<String, String>,
    pub supers: BTreeMap<String, (String, String)>,
}

/// Expand `#def NAME` .. `#end` templates: `#use NAME a=x b=y` gives the template's lines with
/// `$a` replaced by `x` and `$b` by `y`.
fn expand(files: &[(String, String)]) -> Result<Vec<(String, String)>, String> {
    let mut defs: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let mut rest: Vec<(String, Vec<String>)> = vec![];
    for (name, text) in files {
        let mut out = vec![];
        let mut cur: Option<(String, Vec<String>)> = None;
        for line in text.lines() {
            if let Some(n) = line.strip_prefix("#def ") {
                cur = Some((n.trim().to_string(), vec![]));
            } else if line.trim_end() == "#end" {
                let (n, l) = cur.take().ok_or_else(|| format!("{}: #end without #def", name))?;
                defs.insert(n, l);
            } else if let Some(c) = &mut cur {
                c.1.push(line.to_string());
            } else {
                out.push(line.to_string());
            }
        }
        rest.push((name.clone(), out));
    }
    let mut res = vec![];
    for (name, lines) in rest {
        let mut text = String::new();
        for l in lines {
            if let Some(u) = l.strip_prefix("#use ") {
                let mut w = u.split_whitespace();
                let n = w.next().unwrap_or("");
                let d = defs.get(n).ok_or_else(|| format!("{}: no template {}", name, n))?;
                let mut body = d.join("\n");
                let mut args: Vec<(&str, &str)> = w.filter_map(|a| a.split_once('=')).collect();
                args.sort_by_key(|a| std::cmp::Reverse(a.0.len()));
                for (k, v) in args {
                    body = body.replace(&format!("${}", k), &v.replace('~', " "));
                }
                text.push_str(&body);
            } else {
                text.push_str(&l);
            }
            text.push('\n');
        }
        res.push((name, text));
    }
    Ok(res)
}

pub fn parse(files: &[(String, String)]) -> Result<Contracts, String> {
    let mut c = Contracts::default();
    let files = &expand(files)?;
    for (name, text) in files {
        let mut sink: Option<Sink> = None;
        let mut cur_fn: Option<String> = None;
        for (i, line) in text.lines().enumerate() {
            if !line.starts_with('#') || line.starts_with("#[") {
                if let Some(s) = &sink {
                    let buf = s.get(&mut c);
                    buf.push_str(line);
                    buf.push('\n');
                } else if !line.trim().is_empty() && !line.trim_start().starts_with("//") {
                    return Err(format!("{}:{}: text outside a section", name, i + 1));
                }
                continue;
            }
            let mut w = line[1..].splitn(2, ' ');
            let kw = w.next().unwrap_or("");
            let rest = w.next().unwrap_or("").trim().to_string();
            let mut args = rest.split_whitespace();
            let err = |m: &str| format!("{}:{}: {}", name, i + 1, m);
            let f = |c: &Option<String>| c.clone().ok_or_else(|| err("no #fn"));
            let num = |s: Option<&str>| -> Result<usize, String> {
                match s {
                    None => Ok(0),
                    Some(s) => s.parse().map_err(|_| err("number expected")),
                }
            };
            match kw {
                "#" => {}
                "fn" => {
                    if c.fns.contains_key(&rest) {
                        return Err(err("second contract for this function"));
                    }
                    c.fns.insert(rest.clone(), FnContract::default());
                    cur_fn = Some(rest);
                    sink = None;
                }
                "impl" => {
                    c.impls.entry(rest.clone()).or_default();
                    sink = Some(Sink::Impl(rest));
                    cur_fn = None;
                }
                "super" => {
                    let t = args.next().ok_or_else(|| err("name expected"))?.to_string();
                    let n = args.next().ok_or_else(|| err("name expected"))?.to_string();
                    c.supers.insert(t.clone(), (n, String::new()));
                    sink = Some(Sink::Super(t));
                    cur_fn = None;
                }
                "mod" => {
                    c.mods.entry(rest.clone()).or_default();
                    sink = Some(Sink::Mod(rest));
                    cur_fn = None;
                }
                "ret" => {
                    c.fns.get_mut(&f(&cur_fn)?).unwrap().ret = Some(rest);
                    sink = None;
                }
                "attr" => {
                    c.fns.get_mut(&f(&cur_fn)?).unwrap().attrs.push(rest);
                    sink = None;
                }
                "spec" => sink = Some(Sink::Spec(f(&cur_fn)?)),
                "entry" => sink = Some(Sink::Entry(f(&cur_fn)?)),
                "exit" => sink = Some(Sink::Exit(f(&cur_fn)?)),
                "leave" => sink = Some(Sink::Leave(f(&cur_fn)?)),
                "loop" | "loop-start" | "loop-end" | "before-loop" | "after-loop" => {
                    sink = Some(Sink::Loop(kw.to_string(), f(&cur_fn)?, num(args.next())?))
                }
                "after-let" | "before-let" => {
                    let n = args.next().ok_or_else(|| err("name expected"))?.to_string();
                    sink = Some(Sink::Let(kw.to_string(), f(&cur_fn)?, n, num(args.next())?))
                }
                _ => return Err(err("unknown directive")),
            }
        }
    }
    Ok(c)
}

enum Sink {
    Impl(String),
    Mod(String),
    Super(String),
    Spec(String),
    Entry(String),
    Exit(String),
    Leave(String),
    Loop(String, String, usize),
    Let(String, String, String, usize),
}

impl Sink {
    fn get<'a>(&self, c: &'a mut Contracts) -> &'a mut String {
        match self {
            Sink::Impl(k) => c.impls.get_mut(k).unwrap(),
            Sink::Super(k) => &mut c.supers.get_mut(k).unwrap().1,
            Sink::Mod(k) => c.mods.get_mut(k).unwrap(),
            Sink::Spec(k) => &mut c.fns.get_mut(k).unwrap().spec,
            Sink::Entry(k) => &mut c.fns.get_mut(k).unwrap().entry,
            Sink::Exit(k) => &mut c.fns.get_mut(k).unwrap().exit,
            Sink::Leave(k) => &mut c.fns.get_mut(k).unwrap().leave,
            Sink::Loop(w, k, n) => {
                let f = c.fns.get_mut(k).unwrap();
                match w.as_str() {
                    "loop" => f.loops.entry(*n),
                    "loop-start" => f.loop_start.entry(*n),
                    "loop-end" => f.loop_end.entry(*n),
                    "before-loop" => f.before_loop.entry(*n),
                    _ => f.after_loop.entry(*n),
                }
                .or_default()
            }
            Sink::Let(w, k, n, i) => {
                let f = c.fns.get_mut(k).unwrap();
                if w == "after-let" {
                    f.after_let.entry((n.clone(), *i)).or_default()
                } else {
                    f.before_let.entry((n.clone(), *i)).or_default()
                }
            }
        }
    }
}

/// Whole words replaced; with `local` set, only where the word can stand for a local name.
pub fn rename(text: &str, by: &[(String, String)], local: bool) -> String {
    if by.is_empty() {
        return text.to_string();
    }
    let w = |c: char| c.is_alphanumeric() || c == '_';
    let cs: Vec<char> = text.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < cs.len() {
        if !w(cs[i]) {
            out.push(cs[i]);
            i += 1;
            continue;
        }
        let mut j = i;
        while j < cs.len() && w(cs[j]) {
            j += 1;
        }
        let word: String = cs[i..j].iter().collect();
        let field = i > 0 && cs[i - 1] == '.' && !(i > 1 && cs[i - 2] == '.');
        let path = (i > 1 && cs[i - 1] == ':' && cs[i - 2] == ':') || (j + 1 < cs.len() && cs[j] == ':' && cs[j + 1] == ':');
        let call = j < cs.len() && cs[j] == '(';
        match by.iter().find(|(a, _)| *a == word) {
            Some((_, b)) if !(local && (field || path || call)) => out.push_str(b),
            _ => out.push_str(&word),
        }
        i = j;
    }
    out
}

impl FnContract {
    fn rename(&mut self, by: &[(String, String)], local: bool) {
        let f = |t: &mut String| *t = rename(t, by, local);
        if let Some(r) = &mut self.ret {
            f(r);
        }
        for t in [&mut self.spec, &mut self.entry, &mut self.exit, &mut self.leave] {
            f(t);
        }
        for m in [&mut self.loops, &mut self.loop_start, &mut self.loop_end, &mut self.before_loop, &mut self.after_loop] {
            m.values_mut().for_each(f);
        }
        for m in [&mut self.after_let, &mut self.before_let] {
            *m = std::mem::take(m).into_iter().map(|((n, k), t)| ((rename(&n, by, local), k), rename(&t, by, local))).collect();
        }
    }
}

impl Contracts {
    pub fn rename(&mut self, by: &[(String, String)], within: &BTreeMap<String, Vec<(String, String)>>) {
        for (k, c) in &mut self.fns {
            c.rename(by, false);
            if let Some(l) = within.get(k) {
                c.rename(l, true);
            }
        }
        self.impls.values_mut().chain(self.mods.values_mut()).for_each(|t| *t = rename(t, by, false));
        self.supers.values_mut().for_each(|t| *t = (rename(&t.0, by, false), rename(&t.1, by, false)));
    }
}
