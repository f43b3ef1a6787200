use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

use quote::ToTokens;
use syn::punctuated::Punctuated;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};
use syn::*;

use crate::contracts::{Contracts, FnContract};
use crate::edits::Edits;

#[derive(Default)]
pub struct Opts {
    pub drop: Vec<String>,
    pub no_body: BTreeSet<String>,
    pub no_contract: BTreeSet<String>,
    pub no_hints: BTreeSet<String>,
    pub drop_use: BTreeSet<String>,
    pub drop_inject: BTreeSet<String>,
    /// names of the whole crate which the contracts know under an old name: (old, new)
    pub rename: Vec<(String, String)>,
    /// local names of one function which its contract knows under an old name
    pub rename_in: BTreeMap<String, Vec<(String, String)>>,
    /// functions whose calls are replaced by their bodies (see inline.rs)
    pub inline: BTreeSet<String>,
}

type Res<T> = std::result::Result<T, String>;

#[derive(Default, Debug)]
struct FnInfo {
    has_contract: bool,
    derived: bool,
    no_body: bool,
    loops: usize,
    loops_without_invariant: usize,
    lost: Vec<String>,
    unsupported: Vec<String>,
    calls: BTreeSet<String>,
    file: String,
    line: usize,
    hash: u64,
    literals: Vec<String>,
    locals: Vec<String>,
    tokens: Vec<String>,
}

struct Ctx {
    contracts: Contracts,
    opts: Opts,
    fns: BTreeMap<String, FnInfo>,
    rewrites: BTreeMap<String, usize>,
    dropped: Vec<String>,
    used_impls: BTreeSet<String>,
    default_impls: Vec<String>,
    used_mods: BTreeSet<String>,
    uses: Vec<(String, String)>,
    words: Vec<(String, Vec<String>)>,
    pre: Pre,
    inlined: BTreeSet<String>,
    /// the texts of the files, where they differ from what is on disk
    texts: BTreeMap<PathBuf, String>,
}

/// What the rules need to know about the whole crate.
#[derive(Default)]
struct Pre {
    /// async functions: called without `.await` they give a future
    async_fns: BTreeSet<String>,
    /// functions (by name, when all of that name agree) giving a Result or an Option
    kinds: BTreeMap<String, Kind>,
    /// projection types of `pin_project` -> the type projected
    proj: BTreeMap<String, String>,
}

impl Pre {
    fn scan(dir: &Path) -> Pre {
        let mut pre = Pre::default();
        let mut todo = vec![dir.to_path_buf()];
        while let Some(d) = todo.pop() {
            for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
                let p = e.path();
                if p.is_dir() {
                    todo.push(p);
                } else if p.extension().map_or(false, |x| x == "rs") {
                    if let Ok(f) = std::fs::read_to_string(&p).map_err(drop).and_then(|t| syn::parse_file(&t).map_err(drop)) {
                        pre.visit_file(&f);
                    }
                }
            }
        }
        pre
    }
    fn proj(&mut self, attrs: &[Attribute], name: &Ident) {
        for a in attrs {
            let t = squeeze(a);
            if let Some(r) = t.strip_prefix("#[pin_project(project=") {
                let n: String = r.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                self.proj.insert(n, name.to_string());
            }
        }
    }
}

impl<'a> Visit<'a> for Pre {
    fn visit_signature(&mut self, s: &'a Signature) {
        let n = s.ident.to_string();
        if s.asyncness.is_some() {
            self.async_fns.insert(n.clone());
        }
        let k = match &s.output {
            ReturnType::Type(_, t) => kind_of_type(t),
            _ => Kind::Unknown,
        };
        if self.kinds.get(&n).map_or(false, |o| *o != k) {
            self.kinds.insert(n, Kind::Unknown);
        } else {
            self.kinds.insert(n, k);
        }
    }
    fn visit_item_struct(&mut self, i: &'a ItemStruct) {
        self.proj(&i.attrs, &i.ident);
    }
    fn visit_item_enum(&mut self, i: &'a ItemEnum) {
        self.proj(&i.attrs, &i.ident);
    }
    fn visit_item_mod(&mut self, i: &'a ItemMod) {
        if !has_cfg_off(&i.attrs) {
            visit::visit_item_mod(self, i);
        }
    }
}

fn kind_of_type(t: &Type) -> Kind {
    match t {
        Type::Path(p) => match last_seg(&p.path).as_str() {
            "Result" | "IOResult" | "AnyResult" => Kind::Result,
            "Option" => Kind::Option,
            "Poll" => Kind::Poll,
            _ => Kind::Unknown,
        },
        _ => Kind::Unknown,
    }
}

/// Parts of std with a model of their own in `vxm`.
const STD_MODELS: &[(&str, &str)] = &[("io", "std_io"), ("convert", "convert"), ("task", "task"), ("future", "futures")];

fn flatten_use(t: &UseTree, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    match t {
        UseTree::Path(p) => {
            at.push(p.ident.to_string());
            flatten_use(&p.tree, at, out);
            at.pop();
        }
        UseTree::Name(n) => {
            let mut v = at.clone();
            v.push(n.ident.to_string());
            out.push(v);
        }
        UseTree::Rename(r) => {
            let mut v = at.clone();
            v.push(format!("{} as {}", r.ident, r.rename));
            out.push(v);
        }
        UseTree::Glob(_) => {
            let mut v = at.clone();
            v.push("*".into());
            out.push(v);
        }
        UseTree::Group(g) => {
            for t in &g.items {
                flatten_use(t, at, out);
            }
        }
    }
}

fn model_path(p: &[String]) -> Option<String> {
    if EXTERNAL.contains(&p[0].as_str()) {
        return Some(format!("crate::vxm::{}", p.join("::")));
    }
    if (p[0] == "std" || p[0] == "core") && p.len() > 1 {
        let (head, as_) = p[1].split_once(" as ").map(|(h, a)| (h, format!(" as {}", a))).unwrap_or((&p[1], String::new()));
        if let Some((_, m)) = STD_MODELS.iter().find(|(n, _)| *n == head) {
            let mut v = vec!["crate::vxm".to_string()];
            if p.len() == 2 && as_.is_empty() && *m != head {
                v.push(format!("{} as {}", m, head));
            } else {
                v.push(format!("{}{}", m, as_));
            }
            v.extend(p[2..].iter().cloned());
            // `self` inside a group
            if v.last().map_or(false, |l| l == "self") {
                v.pop();
                let l = v.len() - 1;
                v[l] = format!("{} as {}", m, head);
            }
            return Some(v.join("::"));
        }
    }
    if p.last().map_or(false, |l| l == "self") {
        return Some(p[..p.len() - 1].join("::"));
    }
    None
}

const EXTERNAL: &[&str] = &["bytes", "tokio", "tokio_util", "futures", "anyhow"];

pub fn run(src: &Path, mut contracts: Contracts, opts: Opts, prelude: &str) -> Res<(String, String)> {
    let (texts, inlined) = crate::inline::texts(src, &opts.inline);
    contracts.rename(&opts.rename, &opts.rename_in);
    let renamed = crate::contracts::rename(prelude, &opts.rename, false);
    let prelude = &renamed;
    let mut ctx = Ctx {
        contracts,
        opts,
        fns: BTreeMap::new(),
        rewrites: BTreeMap::new(),
        dropped: vec![],
        used_impls: BTreeSet::new(),
        default_impls: vec![],
        used_mods: BTreeSet::new(),
        uses: vec![],
        words: vec![],
        inlined,
        texts,
        pre: Pre::scan(src),
    };
    let root = src.join("lib.rs");
    let body = module_file(&mut ctx, &root, src, "")?;
    let mut text = String::new();
    text.push_str(prelude);
    text.push_str("\nverus! {\n");
    text.push_str(&body);
    text.push_str("\n} // verus!\nfn main() {}\n");
    let json = map_json(&ctx, &text);
    Ok((text, json))
}

fn module_file(ctx: &mut Ctx, file: &Path, dir: &Path, modpath: &str) -> Res<String> {
    let src = match ctx.texts.get(file) {
        Some(t) => t.clone(),
        None => std::fs::read_to_string(file).map_err(|e| format!("{}: {}", file.display(), e))?,
    };
    let ast = syn::parse_file(&src).map_err(|e| {
        let s = e.span().start();
        format!("{}:{}:{}: {}", file.display(), s.line, s.column, e)
    })?;
    let len = src.len();
    let mut x = Extract {
        ctx,
        ed: Edits::new(src),
        file: file.to_path_buf(),
        dir: dir.to_path_buf(),
        modpath: modpath.to_string(),
        fstack: vec![],
        stmts: vec![],
        err: None,
        awaited: None,
    };
    let mut words = vec![];
    for i in &ast.items {
        if !is_test(i) {
            tokens(i.to_token_stream(), &mut words);
        }
    }
    x.ctx.words.push((modpath.to_string(), words));
    x.items(&ast.items);
    if let Some(e) = x.err.take() {
        return Err(e);
    }
    // inner attributes of the file (#![..]) do not survive inlining
    for a in &ast.attrs {
        let r = a.span().byte_range();
        x.ed.replace(r.start, r.end, String::new());
    }
    let body = x.ed.render(0, len);
    let tail = x.mod_tail(modpath);
    Ok(format!("{}{}{}", header(modpath), body, tail))
}

fn header(modpath: &str) -> String {
    if modpath.is_empty() {
        "use vstd::prelude::*;\n#[allow(unused_imports)] use crate::vxs::*; #[allow(unused_imports)] use crate::vxm::{VxBe, VxExtend, VxBuf};\nbroadcast use crate::vxs::lib::session_std;\n".into()
    } else {
        "\n#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::vxs::*; #[allow(unused_imports)] use crate::vxm::{VxBe, VxExtend, VxBuf};\nbroadcast use crate::vxs::lib::wire;\n".into()
    }
}

struct Frame {
    contract: Option<FnContract>,
    loops: BTreeMap<usize, usize>,
    lets: BTreeMap<String, usize>,
    used_anchors: BTreeSet<String>,
    info: FnInfo,
    is_async: bool,
    mut_self: bool,
    /// the receiver is a `Pin<&mut Self>`
    pinned: bool,
    /// parameters of a generic type
    generic: BTreeSet<String>,
    /// which local names hold an Option or a Result
    kinds: BTreeMap<String, Kind>,
}

struct Extract<'c> {
    ctx: &'c mut Ctx,
    ed: Edits,
    file: PathBuf,
    dir: PathBuf,
    modpath: String,
    fstack: Vec<Frame>,
    stmts: Vec<(usize, usize)>,
    err: Option<String>,
    /// the call a future is made by, where it is awaited at once
    awaited: Option<(usize, usize)>,
}

fn range<T: Spanned>(t: &T) -> (usize, usize) {
    let r = t.span().byte_range();
    (r.start, r.end)
}

/// Characters of a string literal.
fn lit_len(l: &str) -> usize {
    syn::parse_str::<LitStr>(l).map(|s| s.value().chars().count()).unwrap_or(0)
}

fn squeeze<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}

fn type_name(t: &Type) -> String {
    let mut s = t.to_token_stream().to_string().replace(' ', "");
    if let Some(r) = s.strip_prefix("&'static") {
        s = format!("&{}", r);
    }
    s
}

fn last_seg(p: &syn::Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}

fn is_test(i: &Item) -> bool {
    match i {
        Item::Mod(m) => has_cfg_off(&m.attrs),
        Item::Fn(m) => has_cfg_off(&m.attrs),
        Item::Impl(m) => has_cfg_off(&m.attrs),
        Item::Use(m) => has_cfg_off(&m.attrs),
        _ => false,
    }
}

fn has_cfg_off(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = squeeze(a);
        s == "#[test]" || s.starts_with("#[cfg(test") || s.contains("cfg(ruq_verif)") || s.contains("cfg(all(test")
    })
}

fn glob(pat: &str, s: &str) -> bool {
    let parts: Vec<&str> = pat.split('*').collect();
    if parts.len() == 1 {
        return pat == s;
    }
    let mut rest = s;
    for (i, p) in parts.iter().enumerate() {
        if i == 0 {
            match rest.strip_prefix(p) {
                Some(r) => rest = r,
                None => return false,
            }
        } else if i + 1 == parts.len() {
            return rest.ends_with(p);
        } else {
            match rest.find(p) {
                Some(k) => rest = &rest[k + p.len()..],
                None => return false,
            }
        }
    }
    true
}

fn hash(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

impl<'c> Extract<'c> {
    fn count(&mut self, rule: &str) {
        *self.ctx.rewrites.entry(rule.to_string()).or_insert(0) += 1;
    }

    fn path(&self, name: &str) -> String {
        if self.modpath.is_empty() {
            name.to_string()
        } else {
            format!("{}::{}", self.modpath, name)
        }
    }

    /// `path`, in the names the contracts know.
    fn kpath(&self, name: &str) -> String {
        self.known(self.path(name))
    }

    fn mod_tail(&mut self, modpath: &str) -> String {
        let key = if modpath.is_empty() { "crate" } else { modpath };
        self.ctx.used_mods.insert(key.to_string());
        match self.ctx.contracts.mods.get(key) {
            Some(t) if !self.ctx.opts.drop_inject.contains(&format!("mod {}", key)) => {
                format!("\n/*@I mod {key} @*/\n{t}\n/*@J mod {key} @*/\n")
            }
            _ => String::new(),
        }
    }

    fn drop_item(&mut self, key: &str, r: (usize, usize)) {
        self.ctx.dropped.push(key.to_string());
        self.ed.replace(r.0, r.1, String::new());
    }

    fn is_dropped(&self, key: &str) -> bool {
        self.ctx.opts.drop.iter().any(|p| glob(p, key))
    }

    fn items(&mut self, items: &[Item]) {
        for it in items {
            self.item(it);
        }
    }

    fn vis(&mut self, v: &Visibility, at: usize) {
        match v {
            Visibility::Inherited => self.ed.insert(at, "pub ".into()),
            v => {
                let (s, e) = range(v);
                self.ed.replace(s, e, "pub".into());
            }
        }
    }

    fn attrs(&mut self, attrs: &[Attribute]) -> Vec<String> {
        let mut derives = vec![];
        for a in attrs {
            let (s, e) = range(a);
            if a.path().is_ident("derive") {
                if let Ok(l) = a.parse_args_with(Punctuated::<syn::Path, Token![,]>::parse_terminated) {
                    derives.extend(l.iter().map(last_seg));
                }
                self.ed.replace(s, e, String::new());
            } else if a.path().is_ident("repr") || a.path().is_ident("doc") {
                if a.path().is_ident("doc") {
                    self.ed.replace(s, e, String::new());
                }
            } else {
                self.ed.replace(s, e, String::new());
            }
        }
        derives
    }

    fn derive_text(&mut self, derives: &[String], name: &str, item: &Item) -> (String, String) {
        let mut keep: Vec<&str> = vec![];
        let mut after = String::new();
        let fieldless = match item {
            Item::Enum(e) => e.variants.iter().all(|v| v.fields.is_empty()),
            _ => false,
        };
        for d in derives {
            match d.as_str() {
                "Debug" | "Hash" | "Ord" => self.count("derive dropped (Debug, Hash, Ord)"),
                "Clone" => keep.push("Clone"),
                "Copy" => keep.push("Copy"),
                "Eq" => {}
                "PartialEq" => {
                    if fieldless {
                        keep.extend(["PartialEq", "Eq"]);
                        self.count("derive(PartialEq) on a fieldless enum taken as equality of values");
                        after.push_str(&format!("\nimpl vstd::std_specs::cmp::PartialEqSpecImpl for {name} {{\n    open spec fn obeys_eq_spec() -> bool {{ true }}\n    open spec fn eq_spec(&self, o: &Self) -> bool {{ *self == *o }}\n}}\n"));
                    } else {
                        keep.extend(["PartialEq", "Eq"]);
                    }
                }
                "PartialOrd" => {
                    if let (true, Item::Enum(e)) = (fieldless, item) {
                        self.count("derive(PartialOrd) on a fieldless enum written out");
                        let arms: Vec<String> = e
                            .variants
                            .iter()
                            .enumerate()
                            .map(|(i, v)| format!("{}::{} => {}", name, v.ident, i))
                            .collect();
                        let arms = arms.join(", ");
                        after.push_str(&format!(
                            "
impl {name} {{ pub open spec fn vx_ord(&self) -> int {{ match self {{ {arms} }} }} }}
impl PartialOrd for {name} {{
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {{
        let a: u8 = match self {{ {arms} }};
        let b: u8 = match o {{ {arms} }};
        if a < b {{ Some(std::cmp::Ordering::Less) }} else if a == b {{ Some(std::cmp::Ordering::Equal) }} else {{ Some(std::cmp::Ordering::Greater) }}
    }}
}}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for {name} {{
    open spec fn obeys_partial_cmp_spec() -> bool {{ true }}
    open spec fn partial_cmp_spec(&self, o: &Self) -> Option<std::cmp::Ordering> {{
        Some(if self.vx_ord() < o.vx_ord() {{ std::cmp::Ordering::Less }} else if self.vx_ord() == o.vx_ord() {{ std::cmp::Ordering::Equal }} else {{ std::cmp::Ordering::Greater }})
    }}
}}
"
                        ));
                    }
                }
                "Default" => {
                    if let Item::Struct(s) = item {
                        self.count("derive(Default) written out");
                        let key = self.kpath(&format!("<{} as Default>::default", name));
                        let mut fields = vec![];
                        for f in &s.fields {
                            let v = match &f.ty {
                                Type::Path(p) => match last_seg(&p.path).as_str() {
                                    "Option" => "None",
                                    "Vec" => "Vec::new()",
                                    "String" => "String::new()",
                                    "bool" => "false",
                                    "u8" | "u16" | "u32" | "u64" | "usize" => "0",
                                    _ => "Default::default()",
                                },
                                _ => "Default::default()",
                            };
                            if let Some(id) = &f.ident {
                                fields.push(format!("{}: {}", id, v));
                            }
                        }
                        let (ret, spec) = match self.ctx.contracts.fns.get(&key) {
                            Some(c) => (c.ret.clone().unwrap_or("r".into()), c.spec.clone()),
                            None => ("r".into(), String::new()),
                        };
                        let has = !spec.is_empty();
                        after.push_str(&format!(
                            "\nimpl Default for {name} {{\n/*@F {key} @*/\nfn default() -> ({ret}: Self)\n{spec}\n{{ Self {{ {} }} }}\n/*@E {key} @*/\n}}\n",
                            fields.join(", ")
                        ));
                        self.ctx.fns.insert(
                            key,
                            FnInfo { has_contract: has, file: self.file.display().to_string(), ..Default::default() },
                        );
                    }
                }
                _ => {}
            }
        }
        let t = if keep.is_empty() {
            String::new()
        } else {
            format!("#[derive({})] ", keep.join(", "))
        };
        (t, after)
    }

    fn fields(&mut self, f: &Fields) {
        for f in f {
            for a in &f.attrs {
                let (s, e) = range(a);
                self.ed.replace(s, e, String::new());
            }
            let at = f.ident.as_ref().map(|i| range(i).0).unwrap_or(range(&f.ty).0);
            self.vis(&f.vis, at);
            self.visit_type(&f.ty);
        }
    }

    fn item(&mut self, it: &Item) {
        match it {
            Item::Mod(m) => {
                let (s, e) = range(m);
                let name = m.ident.to_string();
                if has_cfg_off(&m.attrs) {
                    return self.drop_item(&format!("mod {}", self.path(&name)), (s, e));
                }
                self.attrs(&m.attrs);
                self.vis(&m.vis, range(&m.mod_token).0);
                match &m.content {
                    Some((brace, items)) => {
                        let old = self.modpath.clone();
                        self.modpath = self.path(&name);
                        self.items(items);
                        self.ed.insert(brace.span.open().byte_range().end, header(&self.modpath));
                        let mp = self.modpath.clone();
                        let tail = self.mod_tail(&mp);
                        self.ed.insert(brace.span.close().byte_range().start, tail);
                        self.modpath = old;
                    }
                    None => {
                        let mut cands = vec![
                            (self.dir.join(format!("{}.rs", name)), self.dir.join(&name)),
                            (self.dir.join(&name).join("mod.rs"), self.dir.join(&name)),
                        ];
                        cands.retain(|c| c.0.exists());
                        let (f, d) = match cands.pop() {
                            Some(c) => c,
                            None => {
                                self.err = Some(format!("module file of {} not found", name));
                                return;
                            }
                        };
                        let mp = self.path(&name);
                        match module_file(self.ctx, &f, &d, &mp) {
                            Ok(t) => {
                                let semi = m.semi.map(|s| range(&s)).unwrap_or((e, e));
                                self.ed.replace(semi.0, semi.1, format!(" {{\n{}\n}}", t));
                            }
                            Err(er) => self.err = Some(er),
                        }
                    }
                }
            }
            Item::Use(u) => {
                let (s, e) = range(u);
                if has_cfg_off(&u.attrs) {
                    return self.drop_item("use", (s, e));
                }
                let key = format!("{}|{}", self.modpath, squeeze(&u.tree));
                let root = match &u.tree {
                    UseTree::Path(p) => p.ident.to_string(),
                    UseTree::Name(n) => n.ident.to_string(),
                    _ => String::new(),
                };
                if root == "log" || root == "pin_project" || self.ctx.opts.drop_use.contains(&key) {
                    return self.drop_item(&format!("use {}", key), (s, e));
                }
                self.attrs(&u.attrs);
                let mut flat = vec![];
                flatten_use(&u.tree, &mut vec![], &mut flat);
                if flat.iter().any(|f| model_path(f).is_some()) {
                    self.count("use of an external crate or a modelled part of std -> its model");
                    let parts: Vec<String> = flat.iter().map(|f| model_path(f).unwrap_or_else(|| f.join("::"))).collect();
                    let (ts, te) = range(&u.tree);
                    self.ed.replace(ts, te, format!("{{{}}}", parts.join(", ")));
                }
                let n = self.ctx.uses.len();
                self.ctx.uses.push((format!("u{}", n), key));
                self.ed.insert_front(s, format!("\n/*@U u{} @*/\n#[allow(unused_imports)] ", n));
                self.ed.insert(e, format!("\n/*@V u{} @*/\n", n));
            }
            Item::Struct(i) => {
                let (s, e) = range(i);
                let name = i.ident.to_string();
                let key = format!("struct {}", self.kpath(&name));
                if has_cfg_off(&i.attrs) || self.is_dropped(&key) {
                    return self.drop_item(&key, (s, e));
                }
                let d = self.attrs(&i.attrs);
                let (dt, after) = self.derive_text(&d, &name, it);
                let at = match &i.vis {
                    Visibility::Inherited => range(&i.struct_token).0,
                    v => range(v).0,
                };
                self.vis(&i.vis, range(&i.struct_token).0);
                self.ed.insert_front(at, dt);
                self.fields(&i.fields);
                self.ed.insert(e, after);
            }
            Item::Enum(i) => {
                let (s, e) = range(i);
                let name = i.ident.to_string();
                let key = format!("enum {}", self.kpath(&name));
                if has_cfg_off(&i.attrs) || self.is_dropped(&key) {
                    return self.drop_item(&key, (s, e));
                }
                let d = self.attrs(&i.attrs);
                let (dt, after) = self.derive_text(&d, &name, it);
                let at = match &i.vis {
                    Visibility::Inherited => range(&i.enum_token).0,
                    v => range(v).0,
                };
                self.vis(&i.vis, range(&i.enum_token).0);
                self.ed.insert_front(at, dt);
                for v in &i.variants {
                    for a in &v.attrs {
                        let (s, e) = range(a);
                        self.ed.replace(s, e, String::new());
                    }
                    for f in &v.fields {
                        for a in &f.attrs {
                            let (s, e) = range(a);
                            self.ed.replace(s, e, String::new());
                        }
                        self.visit_type(&f.ty);
                    }
                }
                self.ed.insert(e, after);
            }
            Item::Type(t) => {
                self.attrs(&t.attrs);
                self.vis(&t.vis, range(&t.type_token).0);
                self.visit_type(&t.ty);
            }
            Item::Const(c) => {
                if has_cfg_off(&c.attrs) {
                    return self.drop_item("const", range(c));
                }
                self.attrs(&c.attrs);
                self.vis(&c.vis, range(&c.const_token).0);
                self.visit_type(&c.ty);
                self.visit_expr(&c.expr);
            }
            Item::Trait(t) => {
                let (s, e) = range(t);
                let name = t.ident.to_string();
                let key = format!("trait {}", self.kpath(&name));
                if has_cfg_off(&t.attrs) || self.is_dropped(&key) {
                    return self.drop_item(&key, (s, e));
                }
                self.attrs(&t.attrs);
                self.vis(&t.vis, range(&t.trait_token).0);
                // a Debug supertrait has no model
                let sup: Vec<String> = t
                    .supertraits
                    .iter()
                    .filter(|b| !squeeze(*b).ends_with("Debug"))
                    .map(|b| b.to_token_stream().to_string())
                    .collect();
                let mut sup = sup;
                if sup.len() != t.supertraits.len() {
                    self.count("Debug supertrait dropped");
                }
                if let Some((n, _)) = self.ctx.contracts.supers.get(&name) {
                    sup.push(format!("crate::vxs::{}", n));
                }
                let txt = if sup.is_empty() { String::new() } else { format!(": {}", sup.join(" + ")) };
                match &t.colon_token {
                    Some(c) => {
                        let a = range(c).0;
                        self.ed.replace(a, range(&t.supertraits).1.max(range(c).1), txt)
                    }
                    None => {
                        let at = range(&t.ident).1.max(if t.generics.params.is_empty() { 0 } else { range(&t.generics).1 });
                        self.ed.insert(at, txt)
                    }
                }
                let open = t.brace_token.span.open().byte_range().end;
                let k = self.kpath(&name);
                self.inject(&k, open);
                for ti in &t.items {
                    if let TraitItem::Fn(f) = ti {
                        let fk = self.known(format!("{}::{}", k, f.sig.ident));
                        self.attrs(&f.attrs);
                        self.function(&fk, &f.sig, f.default.as_ref(), range(f), f.semi_token.map(|s| range(&s).0));
                    }
                }
            }
            Item::Impl(i) => self.item_impl(i),
            Item::Fn(f) => {
                let r = range(f);
                let key = self.kpath(&f.sig.ident.to_string());
                if has_cfg_off(&f.attrs) || self.is_dropped(&format!("fn {}", key)) {
                    return self.drop_item(&format!("fn {}", key), r);
                }
                self.attrs(&f.attrs);
                let at = f.sig.asyncness.map(|a| range(&a).0).unwrap_or(sig_start(&f.sig));
                self.vis(&f.vis, at);
                self.function(&key, &f.sig, Some(&f.block), r, None);
            }
            other => {
                let r = range(other);
                self.count("item of another kind dropped");
                self.drop_item(&squeeze(other).chars().take(60).collect::<String>(), r);
            }
        }
    }

    fn inject(&mut self, key: &str, at: usize) {
        self.ctx.used_impls.insert(key.to_string());
        if self.ctx.opts.drop_inject.contains(&format!("impl {}", key)) {
            return;
        }
        if let Some(t) = self.ctx.contracts.impls.get(key) {
            let t = format!("\n/*@I impl {key} @*/\n{t}\n/*@J impl {key} @*/\n");
            self.ed.insert(at, t);
        }
    }

    fn item_impl(&mut self, i: &ItemImpl) {
        let (s, e) = range(i);
        let ty = type_name(&i.self_ty);
        let name = match &i.trait_ {
            None => self.kpath(&ty),
            Some((_, p, _)) => {
                let mut t = String::new();
                let seg = p.segments.last().unwrap();
                t.push_str(&seg.ident.to_string());
                t.push_str(&squeeze(&seg.arguments));
                self.kpath(&format!("<{} as {}>", ty, t))
            }
        };
        let auto = match &i.trait_ {
            Some((_, p, _)) => matches!(last_seg(p).as_str(), "Debug" | "Display"),
            None => false,
        };
        if has_cfg_off(&i.attrs) || auto || self.is_dropped(&format!("impl {}", name)) {
            return self.drop_item(&format!("impl {}", name), (s, e));
        }
        self.attrs(&i.attrs);
        self.visit_type(&i.self_ty);
        if let Some((_, p, _)) = &i.trait_ {
            self.visit_path(p);
        }
        let open = i.brace_token.span.open().byte_range().end;
        let sup = match &i.trait_ {
            Some((_, p, _)) => self.ctx.contracts.supers.get(&last_seg(p)).cloned(),
            None => None,
        };
        match (sup, &i.trait_) {
            (Some((spec_trait, default)), Some((_, p, _))) => {
                self.ctx.used_impls.insert(name.clone());
                let items = match self.ctx.contracts.impls.get(&name) {
                    Some(t) if !self.ctx.opts.drop_inject.contains(&format!("impl {}", name)) => t.clone(),
                    _ => {
                        self.ctx.default_impls.push(name.clone());
                        default
                    }
                };
                let head = self.ed.render(range(&i.impl_token).0, range(p).0);
                let tail = self.ed.render(range(p).1, open - 1);
                let t = format!("\n/*@I impl {name} @*/\n{head}crate::vxs::{spec_trait}{tail}{{\n{items}\n}}\n/*@J impl {name} @*/\n");
                self.ed.insert(e, t);
            }
            _ => self.inject(&name, open),
        }
        if let Some((_, p, _)) = &i.trait_ {
            if last_seg(p) == "From" {
                let sp = |t: &str| {
                    let mut r = String::new();
                    let mut skip = false;
                    for c in t.chars() {
                        if c == '\'' {
                            skip = true;
                        } else if !(skip && (c.is_alphanumeric() || c == '_')) {
                            skip = false;
                            if !c.is_whitespace() {
                                r.push(c);
                            }
                        }
                    }
                    r
                };
                let seg = p.segments.last().unwrap();
                let want = sp(&format!("FromSpecImpl{}for{}{{", squeeze(&seg.arguments), squeeze(&i.self_ty)));
                if !self.ctx.contracts.mods.values().any(|m| sp(m).contains(&want)) {
                    let gen = self.ed.render(range(&i.impl_token).0, range(p).0);
                    let arg = self.ed.render(range(&seg.arguments).0, range(&seg.arguments).1);
                    let tail = self.ed.render(range(p).1, open - 1);
                    let a = arg.trim_start_matches('<').trim_end_matches('>').to_string();
                    let t = format!("\n{gen}vstd::std_specs::convert::FromSpecImpl{arg}{tail}{{\n    open spec fn obeys_from_spec() -> bool {{ false }}\n    open spec fn from_spec(v: {a}) -> Self {{ arbitrary() }}\n}}\n");
                    self.ed.insert(e, t);
                }
            }
        }
        for ii in &i.items {
            match ii {
                ImplItem::Fn(f) => {
                    let key = self.known(format!("{}::{}", name, f.sig.ident));
                    let r = range(f);
                    if has_cfg_off(&f.attrs) || self.is_dropped(&format!("fn {}", key)) {
                        self.drop_item(&format!("fn {}", key), r);
                        continue;
                    }
                    self.attrs(&f.attrs);
                    if i.trait_.is_none() {
                        let at = f.sig.asyncness.map(|a| range(&a).0).unwrap_or(sig_start(&f.sig));
                        self.vis(&f.vis, at);
                    }
                    self.function(&key, &f.sig, Some(&f.block), r, None);
                }
                ImplItem::Type(t) => self.visit_type(&t.ty),
                ImplItem::Const(c) => {
                    self.vis(&c.vis, range(&c.const_token).0);
                    self.visit_expr(&c.expr);
                }
                _ => {}
            }
        }
    }

    /// The name the contracts know.
    fn known(&self, key: String) -> String {
        let back: Vec<(String, String)> = self.ctx.opts.rename.iter().map(|(a, b)| (b.clone(), a.clone())).collect();
        crate::contracts::rename(&key, &back, false)
    }

    fn function(&mut self, key: &str, sig: &Signature, body: Option<&Block>, r: (usize, usize), semi: Option<usize>) {
        let no_contract = self.ctx.opts.no_contract.contains(key);
        let no_body = self.ctx.opts.no_body.contains(key) || no_contract;
        let mut contract = self.ctx.contracts.fns.get(key).cloned();
        if no_contract {
            contract = None;
        }
        let mut derived = false;
        if contract.is_none() && !no_body && !key.contains(" as ") && !self.ctx.contracts.fns.contains_key(key) {
            if let Some(e) = body.and_then(|b| value_of(sig, b)) {
                self.count("contract of a new function: its result is the expression it consists of");
                derived = true;
                contract = Some(crate::contracts::FnContract { ret: Some("vx_r".into()), spec: format!("    ensures vx_r == ({}),", e), ..Default::default() });
            }
        }
        if self.ctx.opts.no_hints.contains(key) {
            if let Some(c) = &mut contract {
                c.entry.clear();
                c.exit.clear();
                c.leave.clear();
                c.loop_start.clear();
                c.loop_end.clear();
                c.before_loop.clear();
                c.after_loop.clear();
                c.after_let.clear();
                c.before_let.clear();
            }
        }
        let mut info = FnInfo {
            has_contract: contract.is_some(),
            derived,
            no_body,
            file: self.file.display().to_string(),
            line: sig.fn_token.span.start().line,
            ..Default::default()
        };
        info.hash = hash(&format!(
            "{} {}",
            sig.to_token_stream(),
            body.map(|b| b.to_token_stream().to_string()).unwrap_or_default()
        ));
        let mut lo = Locals { out: vec![] };
        lo.visit_signature(sig);
        tokens(sig.to_token_stream(), &mut info.tokens);
        if let Some(b) = body {
            lo.visit_block(b);
            tokens(b.to_token_stream(), &mut info.tokens);
        }
        info.locals = lo.out;
        for i in &sig.inputs {
            if let FnArg::Typed(t) = i {
                self.visit_type(&t.ty);
            }
        }
        if let ReturnType::Type(_, t) = &sig.output {
            self.visit_type(t);
        }
        if let Some(a) = sig.asyncness {
            self.count("async/.await erased, ghost world threaded");
            let (s, e) = range(&a);
            self.ed.replace(s, e, String::new());
            let close = sig.paren_token.span.close().byte_range().start;
            let comma = if sig.inputs.is_empty() || sig.inputs.trailing_punct() { "" } else { ", " };
            self.ed.insert(close, format!("{}Tracked(vx_w): Tracked<&mut crate::vxm::World>", comma));
        }
        if let (Some(c), ReturnType::Type(_, t)) = (&contract, &sig.output) {
            if let Some(n) = &c.ret {
                let (ts, te) = range(t);
                let txt = self.ed.render(ts, te);
                self.ed.replace(ts, te, format!("({}: {})", n, txt));
            }
        }
        let mut mut_self = false;
        let mut pinned = false;
        let mut kinds = BTreeMap::new();
        let params: BTreeSet<String> = sig.generics.type_params().map(|p| p.ident.to_string()).collect();
        let mut generic = BTreeSet::new();
        for i in &sig.inputs {
            if let FnArg::Typed(t) = i {
                if let Pat::Ident(n) = &*t.pat {
                    kinds.insert(n.ident.to_string(), kind_of_type(&t.ty));
                    if params.contains(&squeeze(&t.ty)) {
                        generic.insert(n.ident.to_string());
                    }
                }
            }
        }
        if let Some(FnArg::Receiver(rc)) = sig.inputs.first() {
            if rc.colon_token.is_some() && squeeze(&rc.ty).ends_with("Pin<&mutSelf>") {
                self.count("Pin<&mut Self> receiver -> &mut self");
                pinned = true;
                let (rs, re) = range(rc);
                self.ed.replace(rs, re, "&mut self".into());
            } else if let (None, Some(m), true) = (&rc.reference, &rc.mutability, body.is_some()) {
                self.count("`mut self` rebound in the body");
                mut_self = true;
                let (ms, me) = range(m);
                self.ed.replace(ms, me, String::new());
                if !no_body {
                    let at = body.unwrap().brace_token.span.open().byte_range().end;
                    self.ed.insert(at, " let mut vx_self = self; ".into());
                }
            }
        }
        let mut pre = format!("\n/*@F {} @*/\n", key);
        if let Some(c) = &contract {
            for a in &c.attrs {
                pre.push_str(a);
                pre.push('\n');
            }
        }
        if no_body && body.is_some() {
            pre.push_str("#[verifier::external_body] ");
        }
        let start = r.0;
        self.ed.insert_front(start, pre);
        let spec = contract.as_ref().map(|c| c.spec.clone()).unwrap_or_default();
        match body {
            Some(b) => {
                let open = b.brace_token.span.open().byte_range();
                let close = b.brace_token.span.close().byte_range();
                if !spec.trim().is_empty() {
                    self.ed.insert(open.start, format!("\n{}\n", spec.trim_end()));
                }
                if no_body {
                    self.ed.replace(open.start + 1, close.start, " loop {} ".into());
                    self.ctx.fns.insert(key.to_string(), info);
                } else {
                    let mut lf = LoopFinder { at: vec![] };
                    lf.visit_block(b);
                    lf.at.sort();
                    info.loops = lf.at.len();
                    let loops: BTreeMap<usize, usize> = lf.at.iter().enumerate().map(|(i, p)| (*p, i)).collect();
                    for (_, i) in &loops {
                        let has = contract.as_ref().map_or(false, |c| c.loops.contains_key(i));
                        if !has {
                            info.loops_without_invariant += 1;
                        }
                    }
                    if let Some(c) = &contract {
                        for k in c.loops.keys() {
                            if *k >= info.loops {
                                info.lost.push(format!("loop {}", k));
                            }
                        }
                    }
                    let c = contract.clone();
                    self.fstack.push(Frame {
                        contract,
                        loops,
                        lets: BTreeMap::new(),
                        used_anchors: BTreeSet::new(),
                        info,
                        is_async: sig.asyncness.is_some(),
                        mut_self,
                        pinned,
                        generic,
                        kinds,
                    });
                    let saved = std::mem::take(&mut self.stmts);
                    self.visit_block(b);
                    self.stmts = saved;
                    let fr = self.fstack.pop().unwrap();
                    let mut info = fr.info;
                    if let Some(c) = c {
                        let mut want = vec![];
                        for (n, k) in c.after_let.keys() {
                            want.push(format!("after-let {} {}", n, k));
                        }
                        for (n, k) in c.before_let.keys() {
                            want.push(format!("before-let {} {}", n, k));
                        }
                        for w in want {
                            if !fr.used_anchors.contains(&w) {
                                info.lost.push(w);
                            }
                        }
                        if !c.entry.trim().is_empty() {
                            let lits: String = info
                                .literals
                                .iter()
                                .map(|l| format!("assert({}@.len() == {}) by {{ reveal_strlit({}); }} ", l, lit_len(l), l))
                                .collect();
                            let t = c.entry.trim_end().replace("$literals", &format!("proof {{ {} }}", lits));
                            self.ed.insert(open.end, format!("\n{}\n", t));
                        }
                        if !c.exit.trim().is_empty() {
                            let pos = match b.stmts.last() {
                                Some(Stmt::Expr(e, None)) => range(e).0,
                                _ => close.start,
                            };
                            self.ed.insert(pos, format!("\n{}\n", c.exit.trim_end()));
                        }
                        if !c.leave.trim().is_empty() {
                            let t = c.leave.trim_end();
                            let unit = matches!(sig.output, ReturnType::Default);
                            match b.stmts.last() {
                                Some(Stmt::Expr(Expr::Return(_), _)) => {}
                                Some(Stmt::Expr(e, None)) if !unit => {
                                    let (s, e) = range(e);
                                    self.ed.insert_front(s, "let vx_ret = ".into());
                                    self.ed.insert(e, format!(";\n{}\nvx_ret\n", t));
                                }
                                _ => self.ed.insert_front(close.start, format!("\n;{}\n", t)),
                            }
                        }
                    }
                    self.ctx.fns.insert(key.to_string(), info);
                }
                self.ed.insert(r.1, format!("\n/*@E {} @*/\n", key));
            }
            None => {
                if !spec.trim().is_empty() {
                    self.ed.insert(semi.unwrap_or(r.1), format!("\n{}\n", spec.trim_end()));
                }
                self.ctx.fns.insert(key.to_string(), info);
                self.ed.insert(r.1, format!("\n/*@E {} @*/\n", key));
            }
        }
    }

    fn info(&mut self) -> Option<&mut FnInfo> {
        self.fstack.last_mut().map(|f| &mut f.info)
    }

    fn unsupported(&mut self, what: String) {
        if let Some(i) = self.info() {
            i.unsupported.push(what);
        }
    }

    fn loop_texts(&mut self, at: usize) -> (usize, String, String, String) {
        let (n, inv, s, e, before, after) = match self.fstack.last() {
            None => return (0, String::new(), String::new(), String::new()),
            Some(f) => {
                let n = *f.loops.get(&at).unwrap_or(&usize::MAX);
                match &f.contract {
                    None => (n, String::new(), String::new(), String::new(), String::new(), String::new()),
                    Some(c) => {
                        let it = format!("vx_it{}", n);
                        let g = |m: &BTreeMap<usize, String>| m.get(&n).cloned().unwrap_or_default().replace("$it", &it);
                        (n, g(&c.loops), g(&c.loop_start), g(&c.loop_end), g(&c.before_loop), g(&c.after_loop))
                    }
                }
            }
        };
        if let Some((ss, se)) = self.stmts.last().copied() {
            if !before.trim().is_empty() {
                self.ed.insert(ss, format!("\n{}\n", before.trim_end()));
            }
            if !after.trim().is_empty() {
                self.ed.insert(se, format!("\n{}\n", after.trim_end()));
            }
        }
        (n, inv, s, e)
    }

    fn decorate_loop(&mut self, at: usize, body: &Block, iter: Option<&Expr>) {
        let (n, inv, s, e) = self.loop_texts(at);
        let open = body.brace_token.span.open().byte_range();
        let close = body.brace_token.span.close().byte_range();
        if let Some(it) = iter {
            let (is, _) = range(it);
            self.ed.insert(is, format!("vx_it{}: ", n));
        }
        if !inv.trim().is_empty() {
            self.ed.insert(open.start, format!("\n{}\n", inv.trim_end()));
        } else {
            self.count("loop without a contract");
        }
        if !s.trim().is_empty() {
            self.ed.insert(open.end, format!("\n{}\n", s.trim_end()));
        }
        if !e.trim().is_empty() {
            self.ed.insert(close.start, format!("\n{}\n", e.trim_end()));
        }
    }

    fn format_args(&mut self, m: &Macro) -> Option<Vec<Expr>> {
        m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated)
            .ok()
            .map(|p| p.into_iter().collect())
    }

    /// Text of the macro call's replacement, or None to leave it alone.
    fn macro_text(&mut self, m: &Macro) -> Option<String> {
        let name = last_seg(&m.path);
        match name.as_str() {
            "select" => {
                let t = self.select(m);
                if t.is_none() {
                    self.unsupported("select!".into());
                }
                t
            }
            "format" => {
                let args = self.format_args(m)?;
                for a in &args {
                    self.visit_expr(a);
                }
                let lit = args.first().map(squeeze).unwrap_or_default();
                let vals: Vec<String> = args[1..].iter().map(|a| self.arg_text(a)).collect();
                // `{x:?}`
                let inline = lit.strip_prefix("\"{").and_then(|l| l.strip_suffix(":?}\"")).filter(|n| !n.is_empty() && n.chars().all(|c| c.is_alphanumeric() || c == '_'));
                if let (Some(n), true) = (inline, vals.is_empty()) {
                    self.count("format!(\"{:?}\", x) -> debug text of x");
                    return Some(format!("crate::vxm::vx_debug(&({}))", n));
                }
                if lit == "\"{:?}\"" && vals.len() == 1 {
                    self.count("format!(\"{:?}\", x) -> debug text of x");
                    return Some(format!("crate::vxm::vx_debug(&({}))", vals[0]));
                }
                self.count("format! -> arbitrary string (arguments evaluated)");
                Some(format!("{{ {} crate::vxm::vx_string() }}", uses(&vals)))
            }
            "info" | "warn" | "error" | "debug" | "trace" | "println" | "eprintln" | "print" | "eprint" => {
                let args = self.format_args(m)?;
                for a in &args {
                    self.visit_expr(a);
                }
                let from = if args.is_empty() { 0 } else { 1 };
                let vals: Vec<String> = args[from..].iter().map(|a| self.arg_text(a)).collect();
                self.count("log macro -> evaluation of its arguments");
                Some(format!("{{ {} }}", uses(&vals)))
            }
            "panic" | "todo" | "unimplemented" | "unreachable" => {
                self.count("panic macro -> call that must be unreachable");
                Some("crate::vxm::vx_panic()".into())
            }
            "assert" | "debug_assert" => {
                let args = self.format_args(m)?;
                self.visit_expr(&args[0]);
                let t = self.arg_text(&args[0]);
                Some(format!("crate::vxm::vx_assert({})", t))
            }
            "assert_eq" | "debug_assert_eq" | "assert_ne" | "debug_assert_ne" => {
                let args = self.format_args(m)?;
                self.visit_expr(&args[0]);
                self.visit_expr(&args[1]);
                let op = if name.contains("_eq") { "==" } else { "!=" };
                let (a, b) = (self.arg_text(&args[0]), self.arg_text(&args[1]));
                Some(format!("crate::vxm::vx_assert(({}) {} ({}))", a, op, b))
            }
            "anyhow" | "bail" => {
                let args = self.format_args(m)?;
                for a in &args {
                    self.visit_expr(a);
                }
                let vals: Vec<String> = args[1..].iter().map(|a| self.arg_text(a)).collect();
                self.count("anyhow!, bail! -> arbitrary error (arguments evaluated)");
                let t = format!("{{ {} crate::vxm::anyhow::vx_anyhow() }}", uses(&vals));
                Some(if name == "bail" { format!("return Err({})", t) } else { t })
            }
            "ready" => {
                let args = self.format_args(m)?;
                self.visit_expr(&args[0]);
                let t = self.arg_text(&args[0]);
                self.count("ready! written out");
                Some(format!("(match {t} {{ crate::vxm::task::Poll::Ready(vx_v) => vx_v, crate::vxm::task::Poll::Pending => return crate::vxm::task::Poll::Pending }})"))
            }
            "vec" | "matches" => {
                if let Some(args) = self.format_args(m) {
                    for a in &args {
                        self.visit_expr(a);
                    }
                }
                None
            }
            _ => {
                self.unsupported(format!("macro {}!", name));
                None
            }
        }
    }

    fn arg_text(&self, e: &Expr) -> String {
        let e = match e {
            // named format argument `name = value`
            Expr::Assign(a) => &*a.right,
            e => e,
        };
        let (s, t) = range(e);
        self.ed.render(s, t)
    }

    fn select(&mut self, m: &Macro) -> Option<String> {
        let sel: Sel = m.parse_body().ok()?;
        if sel.branches.is_empty() {
            return None;
        }
        self.count("select! -> nondeterministic choice among enabled branches");
        let mut out = String::from("{ ");
        let n = sel.branches.len();
        let mut conds = vec![];
        for b in &sel.branches {
            if let Some(c) = &b.cond {
                self.visit_expr(c);
                conds.push(self.arg_text(c));
            } else {
                conds.push("true".into());
            }
        }
        let arr: Vec<String> = conds.iter().map(|c| format!("({})", c)).collect();
        let srcs: Vec<String> = sel.branches.iter().map(|b| self.source(&b.fut)).collect();
        out.push_str(&format!(
            "let vx_sel: usize = crate::vxm::vx_select([{}], [{}], {}, Tracked(vx_w));\n",
            arr.join(", "),
            srcs.join(", "),
            !sel.biased
        ));
        for (i, b) in sel.branches.iter().enumerate() {
            self.awaited = Some(range(&b.fut));
            self.visit_expr(&b.fut);
            self.visit_pat(&b.pat);
            self.visit_expr(&b.body);
            let fut = self.arg_text(&b.fut);
            let call = match await_call(&fut) {
                Some(c) => c,
                None => {
                    self.unsupported("select! branch that is not a call".into());
                    fut
                }
            };
            let (ps, pe) = range(&b.pat);
            let pat = self.ed.render(ps, pe);
            let body = self.arg_text(&b.body);
            if i + 1 < n {
                out.push_str(&format!("if vx_sel == {} {{ let {} = {}; {} }} else ", i, pat, call, body));
            } else {
                out.push_str(&format!("{{ let {} = {}; {} }} ", pat, call, body));
            }
        }
        out.push_str("}");
        Some(out)
    }

    /// What a branch of a `select!` waits for: told by the type of the receiver of its call.
    fn source(&mut self, fut: &Expr) -> String {
        match fut {
            Expr::MethodCall(m) => {
                let (s, e) = range(&m.receiver);
                let r = self.ed.render(s, e);
                match &*m.receiver {
                    Expr::Path(_) | Expr::Field(_) => format!("crate::vxm::vx_src(&{})", r),
                    _ => "0u8".into(),
                }
            }
            Expr::Paren(p) => self.source(&p.expr),
            _ => "0u8".into(),
        }
    }

    /// Calls on pinned places: `Pin<&mut T>` is `&mut T` here, projections are places.
    fn pin_rewrite(&mut self, m: &ExprMethodCall) -> Option<String> {
        let is_self = |e: &Expr| matches!(e, Expr::Path(p) if p.path.is_ident("self"));
        let is_path = |e: &Expr| matches!(e, Expr::Path(_));
        let (base, again) = match un_mut(&m.receiver) {
            Some(b) => (b, true),
            None => (&*m.receiver, false),
        };
        let t = self.arg_text(base);
        Some(match (m.method.to_string().as_str(), m.args.len()) {
            ("project", 0) | ("get_mut", 0) if is_self(base) && !again => t,
            ("project", 0) | ("get_mut", 0) if is_path(base) => format!("(&mut *{})", t),
            ("project", 0) | ("get_mut", 0) => format!("(&mut {})", t),
            ("set", 1) => {
                let a = self.arg_text(&m.args[0]);
                format!("{}{} = {}", if is_path(base) { "*" } else { "" }, t, a)
            }
            ("poll", 1) if again => {
                let a = self.arg_text(&m.args[0]);
                format!("{}.poll({})", t, a)
            }
            _ => return None,
        })
    }

    fn kind(&self, e: &Expr) -> Kind {
        kind_of(e, &self.ctx.pre, self.fstack.last().map(|f| &f.kinds))
    }

    fn closure_rewrite(&mut self, m: &ExprMethodCall) -> Option<String> {
        let name = m.method.to_string();
        let (init, f) = match (m.args.len(), name.as_str()) {
            (1, _) => (None, m.args.first()?),
            (2, "map_or") => (m.args.first(), m.args.last()?),
            _ => return None,
        };
        let (pat, body) = match f {
            Expr::Closure(c) if c.inputs.len() <= 1 => (
                match c.inputs.first() {
                    Some(p) => {
                        let (s, e) = range(p);
                        self.ed.render(s, e)
                    }
                    None => String::new(),
                },
                self.arg_text(&c.body),
            ),
            Expr::Path(p) => {
                let t = self.arg_text(f);
                let none = name == "ok_or_else" || (name == "unwrap_or_else" && self.kind(&m.receiver) == Kind::Option) || (name == "or_else" && self.kind(&m.receiver) == Kind::Option);
                let body = match squeeze(&p.path).as_str() {
                    _ if none => format!("{}()", t),
                    "From::from" | "Into::into" => "vx_x.into()".into(),
                    _ => format!("{}(vx_x)", t),
                };
                ("vx_x".into(), body)
            }
            _ => return None,
        };
        let recv = self.arg_text(&m.receiver);
        let init = init.map(|e| self.arg_text(e)).unwrap_or_default();
        let kind = self.kind(&m.receiver);
        let t = match (name.as_str(), kind) {
            ("map_err", Kind::Poll) => format!("(match {recv} {{ crate::vxm::task::Poll::Ready(Ok(vx_v)) => crate::vxm::task::Poll::Ready(Ok(vx_v)), crate::vxm::task::Poll::Ready(Err({pat})) => crate::vxm::task::Poll::Ready(Err({body})), crate::vxm::task::Poll::Pending => crate::vxm::task::Poll::Pending }})"),
            ("map_ok", Kind::Poll) => format!("(match {recv} {{ crate::vxm::task::Poll::Ready(Ok({pat})) => crate::vxm::task::Poll::Ready(Ok({body})), crate::vxm::task::Poll::Ready(Err(vx_e)) => crate::vxm::task::Poll::Ready(Err(vx_e)), crate::vxm::task::Poll::Pending => crate::vxm::task::Poll::Pending }})"),
            ("map", Kind::Poll) => format!("(match {recv} {{ crate::vxm::task::Poll::Ready({pat}) => crate::vxm::task::Poll::Ready({body}), crate::vxm::task::Poll::Pending => crate::vxm::task::Poll::Pending }})"),
            ("map_err", _) => format!("(match {recv} {{ Ok(vx_v) => Ok(vx_v), Err({pat}) => Err({body}) }})"),
            ("map", Kind::Result) => format!("(match {recv} {{ Ok({pat}) => Ok({body}), Err(vx_e) => Err(vx_e) }})"),
            ("and_then", Kind::Result) => format!("(match {recv} {{ Ok({pat}) => {body}, Err(vx_e) => Err(vx_e) }})"),
            ("or_else", Kind::Result) => format!("(match {recv} {{ Ok(vx_v) => Ok(vx_v), Err({pat}) => {body} }})"),
            ("unwrap_or_else", Kind::Result) => format!("(match {recv} {{ Ok(vx_v) => vx_v, Err({pat}) => {body} }})"),
            ("map", Kind::Option) => format!("(match {recv} {{ Some({pat}) => Some({body}), None => None }})"),
            ("and_then", Kind::Option) => format!("(match {recv} {{ Some({pat}) => {body}, None => None }})"),
            ("ok_or_else", _) => format!("(match {recv} {{ Some(vx_v) => Ok(vx_v), None => Err({body}) }})"),
            ("or_else", Kind::Option) => format!("(match {recv} {{ Some(vx_v) => Some(vx_v), None => {body} }})"),
            ("filter", Kind::Option) => format!("(match {recv} {{ Some(vx_v) => {{ let {pat} = &vx_v; if {body} {{ Some(vx_v) }} else {{ None }} }} None => None }})"),
            ("map_or", Kind::Option) => format!("{{ let vx_d = {init}; match {recv} {{ Some({pat}) => {body}, None => vx_d }} }}"),
            ("map_or", Kind::Result) => format!("{{ let vx_d = {init}; match {recv} {{ Ok({pat}) => {body}, Err(_) => vx_d }} }}"),
            ("is_some_and", _) => format!("(match {recv} {{ Some({pat}) => {body}, None => false }})"),
            ("is_none_or", _) => format!("(match {recv} {{ Some({pat}) => {body}, None => true }})"),
            ("is_ok_and", _) => format!("(match {recv} {{ Ok({pat}) => {body}, Err(_) => false }})"),
            ("unwrap_or_else", Kind::Option) => format!("(match {recv} {{ Some(vx_v) => vx_v, None => {body} }})"),
            _ => return None,
        };
        self.count("Option/Result combinator with a closure -> match");
        Some(t)
    }

    fn iter_rewrite(&mut self, m: &ExprMethodCall) -> Option<String> {
        let name = m.method.to_string();
        if !ITER_FNS.contains(&name.as_str()) {
            return None;
        }
        let c = match m.args.first() {
            Some(Expr::Closure(c)) if m.args.len() == 1 && c.inputs.len() == 1 => c,
            _ => return None,
        };
        let (coll, recv) = match &*m.receiver {
            Expr::MethodCall(r) if (r.method == "iter" || r.method == "into_iter" || r.method == "iter_mut") && r.args.is_empty() => {
                (self.arg_text(&r.receiver), self.arg_text(&m.receiver))
            }
            _ => {
                self.unsupported(format!("iterator chain .{}()", name));
                return None;
            }
        };
        let at = range(&m.method).0;
        let (n, inv, s, e) = self.loop_texts(at);
        let (ps, pe) = range(&c.inputs[0]);
        let pat = self.ed.render(ps, pe);
        let body = self.arg_text(&c.body);
        self.count("iterator method with a closure -> for loop");
        // `ensures` clauses of the contract go in a second section after `invariant`
        let has_inv = inv.contains("invariant");
        let auto = |base: &str| -> String {
            if has_inv {
                let i = inv.find("invariant").unwrap() + "invariant".len();
                format!("{} {} {}", &inv[..i], base, &inv[i..])
            } else {
                format!("invariant {} {}", base, inv)
            }
        };
        let t = match name.as_str() {
            "for_each" => format!("for {pat} in vx_it{n}: {recv}\n{inv}\n{{ {s}\n{body};\n{e} }}"),
            "any" => {
                let inv = if inv.trim().is_empty() { inv.clone() } else { inv.clone() };
                format!("{{ let mut vx_any: bool = false; for {pat} in vx_it{n}: {recv}\n{inv}\n{{ {s}\nif !vx_any {{ if {body} {{ vx_any = true; }} }}\n{e} }} vx_any }}")
            }
            "all" => format!("{{ let mut vx_all: bool = true; for {pat} in vx_it{n}: {recv}\n{inv}\n{{ {s}\nif vx_all {{ if !({body}) {{ vx_all = false; }} }}\n{e} }} vx_all }}"),
            _ => {
                let inv = auto(&format!(
                    "vx_n == vx_it{n}.index@, vx_it{n}.seq().len() == vx_len, vx_n <= vx_len, vx_pos is Some ==> vx_pos->0 < vx_n,\n"
                ));
                format!("{{ let vx_len = (&({coll})).len(); let mut vx_n: usize = 0; let mut vx_pos: Option<usize> = None; for {pat} in vx_it{n}: {recv}\n{inv}\n{{ {s}\nif vx_pos.is_none() {{ if {body} {{ vx_pos = Some(vx_n); }} }} vx_n = vx_n + 1;\n{e} }} vx_pos }}")
            }
        };
        Some(t)
    }
}

/// The place behind `place.as_mut()`.
fn un_mut(e: &Expr) -> Option<&Expr> {
    match e {
        Expr::MethodCall(m) if m.method == "as_mut" && m.args.is_empty() => Some(&m.receiver),
        Expr::Paren(p) => un_mut(&p.expr),
        _ => None,
    }
}

fn uses(vals: &[String]) -> String {
    vals.iter().map(|v| format!("crate::vxm::vx_use(&({}));", v)).collect::<Vec<_>>().join(" ")
}

/// `f(args)` -> `f(args, Tracked(vx_w))`
fn await_call(text: &str) -> Option<String> {
    let t = text.trim_end();
    if !t.ends_with(')') {
        return None;
    }
    // matching open parenthesis of the last call
    let mut depth = 0i32;
    let mut open = None;
    for (i, ch) in t.char_indices().rev() {
        match ch {
            ')' => depth += 1,
            '(' => {
                depth -= 1;
                if depth == 0 {
                    open = Some(i);
                    break;
                }
            }
            _ => {}
        }
    }
    let open = open?;
    let inner = t[open + 1..t.len() - 1].trim();
    let comma = if inner.is_empty() || inner.ends_with(',') { "" } else { ", " };
    Some(format!("{}{}Tracked(vx_w))", &t[..t.len() - 1], comma))
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Option,
    Result,
    Poll,
    Unknown,
}

/// Which of Option/Result an expression is, judged by the calls it is built of.
fn kind_of(e: &Expr, pre: &Pre, locals: Option<&BTreeMap<String, Kind>>) -> Kind {
    let rec = |e: &Expr| kind_of(e, pre, locals);
    match e {
        Expr::Paren(p) => rec(&p.expr),
        Expr::Await(a) => rec(&a.base),
        Expr::Reference(r) => rec(&r.expr),
        Expr::MethodCall(m) => match m.method.to_string().as_str() {
            "map" | "and_then" | "or_else" | "copied" | "cloned" | "as_ref" | "as_mut" | "as_deref" | "filter" | "or" | "clone" | "take" if rec(&m.receiver) != Kind::Unknown => rec(&m.receiver),
            "ok_or" | "ok_or_else" | "map_err" | "try_into" | "try_send" | "decode" | "encode" | "with_context" | "context" => Kind::Result,
            "get" | "get_mut" | "next_id" | "pktid" | "first" | "last" | "ok" | "err" | "position" | "pop" | "pop_front" | "pop_back"
            | "front" | "back" | "take" | "split_first" | "checked_sub" | "checked_add" | "checked_mul" | "find" => Kind::Option,
            "poll" => Kind::Poll,
            n => pre.kinds.get(n).copied().unwrap_or(Kind::Unknown),
        },
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) => match last_seg(&p.path).as_str() {
                "Ok" | "Err" | "convert_from_mqtt" | "from_utf8" | "try_from" | "parse_fixed_header" | "parse_pkt" => Kind::Result,
                "Some" => Kind::Option,
                n => pre.kinds.get(n).copied().unwrap_or(Kind::Unknown),
            },
            _ => Kind::Unknown,
        },
        Expr::Match(m) => m.arms.iter().map(|a| rec(&a.body)).find(|k| *k != Kind::Unknown).unwrap_or(Kind::Unknown),
        Expr::If(i) => match i.then_branch.stmts.last() {
            Some(Stmt::Expr(e, None)) => rec(e),
            _ => Kind::Unknown,
        },
        Expr::Block(b) => match b.block.stmts.last() {
            Some(Stmt::Expr(e, None)) => rec(e),
            _ => Kind::Unknown,
        },
        Expr::Path(p) => match p.path.get_ident().map(|i| i.to_string()) {
            Some(n) if n == "None" => Kind::Option,
            Some(n) => locals.and_then(|l| l.get(&n)).copied().unwrap_or(Kind::Unknown),
            None => Kind::Unknown,
        },
        _ => Kind::Unknown,
    }
}

const ITER_FNS: &[&str] = &["for_each", "any", "all", "position"];

fn sig_start(s: &Signature) -> usize {
    if let Some(c) = s.constness {
        return range(&c).0;
    }
    if let Some(c) = s.unsafety {
        return range(&c).0;
    }
    range(&s.fn_token).0
}

struct LoopFinder {
    at: Vec<usize>,
}

impl<'a> Visit<'a> for LoopFinder {
    fn visit_expr_for_loop(&mut self, l: &'a ExprForLoop) {
        self.at.push(range(&l.for_token).0);
        visit::visit_expr_for_loop(self, l);
    }
    fn visit_expr_while(&mut self, l: &'a ExprWhile) {
        self.at.push(range(&l.while_token).0);
        visit::visit_expr_while(self, l);
    }
    fn visit_expr_loop(&mut self, l: &'a ExprLoop) {
        self.at.push(range(&l.loop_token).0);
        visit::visit_expr_loop(self, l);
    }
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        if ITER_FNS.contains(&m.method.to_string().as_str()) && matches!(m.args.first(), Some(Expr::Closure(_))) {
            self.at.push(range(&m.method).0);
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        // loops inside select! branches and the arguments of other macros
        struct Any;
        let _ = Any;
        if last_seg(&m.path) == "select" {
            let toks: proc_macro2::TokenStream = m.tokens.clone();
            self.tokens(toks);
        }
    }
}

impl LoopFinder {
    /// Loops inside a token stream: brace groups parse as blocks.
    fn tokens(&mut self, ts: proc_macro2::TokenStream) {
        for t in ts {
            if let proc_macro2::TokenTree::Group(g) = t {
                if g.delimiter() == proc_macro2::Delimiter::Brace {
                    let wrapped: proc_macro2::TokenStream =
                        std::iter::once(proc_macro2::TokenTree::Group(g.clone())).collect();
                    if let Ok(b) = syn::parse2::<Block>(wrapped) {
                        self.visit_block(&b);
                        continue;
                    }
                }
                self.tokens(g.stream());
            }
        }
    }
}

impl<'a, 'c> Visit<'a> for Extract<'c> {
    fn visit_stmt(&mut self, st: &'a Stmt) {
        let r = range(st);
        self.stmts.push(r);
        match st {
            Stmt::Macro(m) => {
                if let Some(t) = self.macro_text(&m.mac) {
                    let semi = if m.semi_token.is_some() { ";" } else { "" };
                    self.ed.replace(r.0, r.1, format!("{}{}", t, semi));
                }
            }
            Stmt::Item(i) => {
                if let Item::Fn(_) = i {
                    self.unsupported("nested function".into());
                } else {
                    visit::visit_stmt(self, st)
                }
            }
            Stmt::Local(l) => {
                let mut names = vec![];
                pat_names(&l.pat, &mut names);
                visit::visit_stmt(self, st);
                let pat = match &l.pat {
                    Pat::Type(t) => &*t.pat,
                    p => p,
                };
                if let (Pat::Ident(n), Some(i)) = (pat, &l.init) {
                    let k = match &l.pat {
                        Pat::Type(t) => kind_of_type(&t.ty),
                        _ => kind_of(&i.expr, &self.ctx.pre, self.fstack.last().map(|f| &f.kinds)),
                    };
                    if let Some(f) = self.fstack.last_mut() {
                        f.kinds.insert(n.ident.to_string(), k);
                    }
                }
                for n in names {
                    let mut ins = vec![];
                    if let Some(f) = self.fstack.last_mut() {
                        let k = f.lets.entry(n.clone()).or_insert(0);
                        let key = (n.clone(), *k);
                        *k += 1;
                        if let Some(c) = &f.contract {
                            if let Some(t) = c.before_let.get(&key) {
                                ins.push((r.0, t.clone()));
                                f.used_anchors.insert(format!("before-let {} {}", key.0, key.1));
                            }
                            if let Some(t) = c.after_let.get(&key) {
                                ins.push((r.1, t.clone()));
                                f.used_anchors.insert(format!("after-let {} {}", key.0, key.1));
                            }
                        }
                    }
                    for (p, t) in ins {
                        self.ed.insert(p, format!("\n{}\n", t.trim_end()));
                    }
                }
            }
            _ => visit::visit_stmt(self, st),
        }
        self.stmts.pop();
    }

    fn visit_expr_lit(&mut self, l: &'a ExprLit) {
        if let (Lit::Str(s), Some(i)) = (&l.lit, self.info()) {
            let t = s.to_token_stream().to_string();
            if t.starts_with('"') && !i.literals.contains(&t) {
                i.literals.push(t);
            }
        }
    }

    fn visit_expr_macro(&mut self, m: &'a ExprMacro) {
        let (s, e) = range(m);
        if let Some(t) = self.macro_text(&m.mac) {
            self.ed.replace(s, e, t);
        }
    }

    fn visit_expr_return(&mut self, r: &'a ExprReturn) {
        visit::visit_expr_return(self, r);
        let t = match self.fstack.last().and_then(|f| f.contract.as_ref()) {
            Some(c) if !c.leave.trim().is_empty() => c.leave.trim_end().to_string(),
            _ => return,
        };
        let (s, e) = range(r);
        match &r.expr {
            None => self.ed.insert_front(s, format!("{{\n{}\n", t)),
            Some(x) => {
                let (xs, xe) = range(&**x);
                let v = self.ed.render(xs, xe);
                self.ed.replace(s, e, format!("{{ let vx_ret = {};\n{}\nreturn vx_ret", v, t));
            }
        }
        self.ed.insert(e, " }".into());
    }

    fn visit_expr_await(&mut self, a: &'a ExprAwait) {
        self.awaited = Some(range(&a.base));
        visit::visit_expr_await(self, a);
        let (s, e) = range(a);
        if let Expr::Call(c) = &*a.base {
            // a time limit: either it has run out, or the call has had its effect
            let f = squeeze(&c.func);
            if (f == "timeout" || f.ends_with("time::timeout")) && c.args.len() == 2 && matches!(&c.args[1], Expr::Call(_) | Expr::MethodCall(_)) {
                let (limit, what) = (self.arg_text(&c.args[0]), self.arg_text(&c.args[1]));
                if let Some(t) = await_call(&what) {
                    self.count("timeout: the call, or the error");
                    return self.ed.replace(s, e, format!("(if crate::vxm::tokio::time::vx_elapsed({}) {{ Err(crate::vxm::tokio::time::error::Elapsed {{ }}) }} else {{ Ok({}) }})", limit, t));
                }
            }
        }
        let base = self.arg_text(&a.base);
        if !self.fstack.last().map_or(false, |f| f.is_async) {
            self.unsupported("await outside an async fn".into());
        }
        match await_call(&base) {
            Some(t) => self.ed.replace(s, e, t),
            None => self.unsupported("await of something that is not a call".into()),
        }
    }

    fn visit_expr_async(&mut self, a: &'a ExprAsync) {
        if let [Stmt::Expr(Expr::Await(w), None)] = &a.block.stmts[..] {
            if matches!(&*w.base, Expr::Call(_)) {
                self.count("async block of one awaited call -> the future of that call");
                self.visit_expr(&w.base);
                let t = self.arg_text(&w.base);
                let (s, e) = range(a);
                return self.ed.replace(s, e, t);
            }
        }
        self.unsupported("async block".into());
        visit::visit_expr_async(self, a);
    }

    fn visit_type(&mut self, t: &'a Type) {
        let txt = squeeze(t);
        if let Some(r) = txt.strip_prefix("Pin<Box<dyn").or_else(|| txt.strip_prefix("std::pin::Pin<Box<dyn")) {
            if r.contains("Future<Output=") {
                // the output type, as written
                struct Out(Option<(usize, usize)>);
                impl<'b> Visit<'b> for Out {
                    fn visit_assoc_type(&mut self, a: &'b AssocType) {
                        if a.ident == "Output" && self.0.is_none() {
                            self.0 = Some(range(&a.ty));
                        }
                    }
                }
                let mut o = Out(None);
                o.visit_type(t);
                if let Some((s, e)) = o.0 {
                    self.count("Pin<Box<dyn Future>> -> model of a boxed future");
                    let t2 = self.ed.render(s, e);
                    let (s, e) = range(t);
                    return self.ed.replace(s, e, format!("crate::vxm::Async<{}>", t2));
                }
            }
        }
        if txt == "implTCPConnectFuture" {
            self.count("impl TCPConnectFuture -> model of tokio's connect future");
            let (s, e) = range(t);
            return self.ed.replace(s, e, "crate::vxm::tokio::net::Connect<A::Owned>".into());
        }
        visit::visit_type(self, t);
    }

    fn visit_pat(&mut self, p: &'a Pat) {
        // a projected enum is matched through `&mut`, its fields are references already
        let path = match p {
            Pat::Struct(s) => Some(&s.path),
            Pat::TupleStruct(s) => Some(&s.path),
            _ => None,
        };
        if let Some(path) = path {
            if let Some(o) = self.ctx.pre.proj.get(&path.segments[0].ident.to_string()).cloned() {
                self.count("pin projection -> the projected type behind &mut");
                let (s, e) = range(&path.segments[0].ident);
                self.ed.replace(s, e, o);
                struct Muts(Vec<(usize, usize)>);
                impl<'b> Visit<'b> for Muts {
                    fn visit_pat_ident(&mut self, i: &'b PatIdent) {
                        if let Some(m) = &i.mutability {
                            self.0.push(range(m));
                        }
                    }
                }
                let mut m = Muts(vec![]);
                m.visit_pat(p);
                for (s, e) in m.0 {
                    self.ed.replace(s, e, String::new());
                }
                return;
            }
        }
        visit::visit_pat(self, p);
    }

    fn visit_expr_field(&mut self, x: &'a ExprField) {
        visit::visit_expr_field(self, x);
        if self.fstack.last().map_or(false, |f| f.pinned) {
            if let Some(b) = un_mut(&x.base) {
                let t = self.arg_text(b);
                let (s, e) = range(&*x.base);
                self.ed.replace(s, e, t);
            }
        }
    }

    fn visit_expr_for_loop(&mut self, l: &'a ExprForLoop) {
        visit::visit_expr_for_loop(self, l);
        self.decorate_loop(range(&l.for_token).0, &l.body, Some(&l.expr));
    }

    fn visit_expr_while(&mut self, l: &'a ExprWhile) {
        visit::visit_expr_while(self, l);
        self.decorate_loop(range(&l.while_token).0, &l.body, None);
    }

    fn visit_expr_loop(&mut self, l: &'a ExprLoop) {
        visit::visit_expr_loop(self, l);
        self.decorate_loop(range(&l.loop_token).0, &l.body, None);
    }

    fn visit_expr_match(&mut self, m: &'a ExprMatch) {
        // `x => ..` binds the whole scrutinee
        let k = self.kind(&m.expr);
        for a in &m.arms {
            if let (Pat::Ident(n), Some(f)) = (&a.pat, self.fstack.last_mut()) {
                f.kinds.insert(n.ident.to_string(), k);
            }
        }
        visit::visit_expr_match(self, m)
    }

    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        visit::visit_expr_method_call(self, m);
        let name = m.method.to_string();
        if let Some(i) = self.info() {
            i.calls.insert(name.clone());
        }
        let (s, e) = range(m);
        if name == "try_next" && m.args.is_empty() && self.fstack.last().map_or(false, |f| f.is_async) && self.awaited != Some((s, e)) {
            let close = m.paren_token.span.close().byte_range().start;
            self.ed.insert(close, "Tracked(vx_w)".into());
        }
        if self.fstack.last().map_or(false, |f| f.pinned) {
            if let Some(t) = self.pin_rewrite(m) {
                self.count("pin projection -> the projected type behind &mut");
                return self.ed.replace(s, e, t);
            }
        }
        if name == "to_owned" && m.args.is_empty() {
            if let Expr::Path(p) = &*m.receiver {
                if p.path.get_ident().map_or(false, |i| self.fstack.last().map_or(false, |f| f.generic.contains(&i.to_string()))) {
                    self.count("to_owned of a generic value -> trusted wrapper");
                    return self.ed.replace(s, e, format!("crate::vxm::vx_to_owned(&{})", squeeze(&p.path)));
                }
            }
        }
        if let Some(t) = self.iter_rewrite(m) {
            return self.ed.replace(s, e, t);
        }
        if let Some(t) = self.closure_rewrite(m) {
            return self.ed.replace(s, e, t);
        }
        if m.args.iter().any(|a| matches!(a, Expr::Closure(_))) && name != "with_context" {
            self.unsupported(format!("closure passed to .{}()", name));
        }
        let (ms, me) = range(&m.method);
        if name == "to_be_bytes" {
            self.count("to_be_bytes -> trusted wrapper");
            self.ed.replace(ms, me, "vx_to_be_bytes".into());
        }
        if name == "extend" && m.args.len() == 1 {
            self.count("extend -> trusted wrapper");
            self.ed.replace(ms, me, "vx_extend".into());
            let mut a = &m.args[0];
            let mut stripped = false;
            while let Expr::MethodCall(c) = a {
                if c.args.is_empty() && (c.method == "iter" || (c.method == "copied" || c.method == "cloned")) {
                    stripped |= c.method == "iter";
                    a = &c.receiver;
                } else {
                    break;
                }
            }
            if stripped {
                let t = format!("(&{})", self.arg_text(a));
                let (s, e) = range(&m.args[0]);
                self.ed.replace(s, e, t);
            }
        }
    }

    fn visit_expr_binary(&mut self, b: &'a ExprBinary) {
        visit::visit_expr_binary(self, b);
        if matches!(b.op, BinOp::BitAnd(_) | BinOp::BitOr(_) | BinOp::BitXor(_) | BinOp::Shl(_) | BinOp::Shr(_)) {
            for side in [&b.left, &b.right] {
                let plain = match &**side {
                    Expr::Path(_) | Expr::Index(_) => true,
                    Expr::Field(_) => true,
                    _ => false,
                };
                if plain {
                    self.count("operand of a bit operation passed by value (references to integers read)");
                    let (s, e) = range(&**side);
                    self.ed.insert_front(s, "crate::vxm::VxVal::vx_val(".into());
                    self.ed.insert(e, ")".into());
                }
            }
        }
    }

    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        let awaited = self.awaited == Some(range(c));
        visit::visit_expr_call(self, c);
        if let Expr::Path(p) = &*c.func {
            let n = last_seg(&p.path);
            if let Some(i) = self.info() {
                i.calls.insert(n.clone());
            }
            if !awaited && p.path.get_ident().is_some() && self.ctx.pre.async_fns.contains(&n) {
                self.count("async fn called without await -> its future");
                let (s, e) = range(&c.func);
                self.ed.replace(s, e, format!("vx_async_{}", n));
            }
            let two: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            if c.args.len() == 1 && two.len() >= 2 && two[two.len() - 1] == (if two[two.len() - 2] == "Pin" { "new" } else { "pin" }) && matches!(two[two.len() - 2].as_str(), "Pin" | "Box") {
                self.count("Pin::new, Box::pin -> the value itself");
                let t = self.arg_text(&c.args[0]);
                let (s, e) = range(c);
                return self.ed.replace(s, e, format!("({})", t));
            }
            if n == "from_be_bytes" && p.path.segments.len() == 2 {
                self.count("from_be_bytes -> trusted wrapper");
                let ty = p.path.segments[0].ident.to_string();
                let (s, e) = range(&c.func);
                self.ed.replace(s, e, format!("crate::vxm::{}_from_be_bytes", ty));
            }
        }
    }

    fn visit_expr_path(&mut self, p: &'a ExprPath) {
        // functions passed as values
        if let Some(i) = self.info() {
            i.calls.insert(last_seg(&p.path));
        }
        if p.path.is_ident("self") && self.fstack.last().map_or(false, |f| f.mut_self) {
            let (s, e) = range(p);
            self.ed.replace(s, e, "vx_self".into());
            return;
        }
        visit::visit_expr_path(self, p);
    }

    fn visit_path(&mut self, p: &'a syn::Path) {
        if p.leading_colon.is_none() && p.segments.len() >= 2 {
            let root = p.segments[0].ident.to_string();
            let (s, e) = range(&p.segments[0].ident);
            if EXTERNAL.contains(&root.as_str()) {
                self.count("path into an external crate -> its model");
                self.ed.replace(s, e, format!("crate::vxm::{}", root));
            } else if root == "std" || root == "core" {
                let second = p.segments[1].ident.to_string();
                if let Some((_, m)) = STD_MODELS.iter().find(|(n, _)| *n == second) {
                    self.count("path into a modelled part of std -> its model");
                    let e2 = range(&p.segments[1].ident).1;
                    self.ed.replace(s, e2, format!("crate::vxm::{}", m));
                }
            }
        }
        visit::visit_path(self, p);
    }
}

/// All tokens of a piece of code, in order.
fn tokens(ts: proc_macro2::TokenStream, out: &mut Vec<String>) {
    for t in ts {
        match t {
            proc_macro2::TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                    proc_macro2::Delimiter::Brace => ("{", "}"),
                    proc_macro2::Delimiter::Bracket => ("[", "]"),
                    proc_macro2::Delimiter::None => ("", ""),
                };
                out.push(a.into());
                tokens(g.stream(), out);
                out.push(b.into());
            }
            t => out.push(t.to_string()),
        }
    }
}

/// Names bound by the patterns of a function, those inside macros included.
struct Locals {
    out: Vec<String>,
}

impl<'a> Visit<'a> for Locals {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.out.push(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        let mut ts = vec![];
        tokens(m.tokens.clone(), &mut ts);
        for i in 0..ts.len() {
            let t = &ts[i];
            let prev = if i > 0 { ts[i - 1].as_str() } else { "" };
            let next = ts.get(i + 1).map(|s| s.as_str()).unwrap_or("");
            let word = t.chars().next().map_or(false, |c| c.is_ascii_lowercase() || c == '_');
            if word && prev != "." && prev != ":" && !matches!(next, "(" | "!" | ":") {
                self.out.push(t.clone());
            }
        }
    }
}

fn pat_names(p: &Pat, out: &mut Vec<String>) {
    match p {
        Pat::Ident(i) => out.push(i.ident.to_string()),
        Pat::Tuple(t) => t.elems.iter().for_each(|p| pat_names(p, out)),
        Pat::Type(t) => pat_names(&t.pat, out),
        Pat::TupleStruct(t) => t.elems.iter().for_each(|p| pat_names(p, out)),
        Pat::Struct(t) => t.fields.iter().for_each(|f| pat_names(&f.pat, out)),
        Pat::Reference(r) => pat_names(&r.pat, out),
        Pat::Paren(r) => pat_names(&r.pat, out),
        _ => {}
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list<'a, I: IntoIterator<Item = &'a String>>(i: I) -> String {
    format!("[{}]", i.into_iter().map(|s| esc(s)).collect::<Vec<_>>().join(","))
}

fn map_json(ctx: &Ctx, text: &str) -> String {
    // line ranges from the markers
    let mut fr: BTreeMap<String, (usize, usize)> = BTreeMap::new();
    let mut ir: BTreeMap<String, (usize, usize)> = BTreeMap::new();
    let mut ur: BTreeMap<String, (usize, usize)> = BTreeMap::new();
    for (i, l) in text.lines().enumerate() {
        let get = |tag: &str| -> Option<String> {
            let p = format!("/*@{} ", tag);
            let s = l.find(&p)? + p.len();
            let e = l[s..].find(" @*/")? + s;
            Some(l[s..e].to_string())
        };
        for (a, b, m) in [("F", "E", &mut fr), ("I", "J", &mut ir), ("U", "V", &mut ur)] {
            if let Some(k) = get(a) {
                m.insert(k, (i + 1, i + 1));
            } else if let Some(k) = get(b) {
                if let Some(v) = m.get_mut(&k) {
                    v.1 = i + 1;
                }
            }
        }
    }
    let back: Vec<(String, String)> = ctx.opts.rename.iter().map(|(a, b)| (b.clone(), a.clone())).collect();
    let mut o = String::from("{\n\"fns\": {\n");
    let mut first = true;
    for (k, f) in &ctx.fns {
        if !first {
            o.push_str(",\n");
        }
        first = false;
        let (a, b) = fr.get(k).copied().unwrap_or((0, 0));
        o.push_str(&format!(
            "{}: {{\"lines\":[{},{}],\"contract\":{},\"derived\":{},\"no_body\":{},\"loops\":{},\"loops_without_invariant\":{},\"lost\":{},\"unsupported\":{},\"calls\":{},\"file\":{},\"line\":{},\"hash\":\"{:016x}\",\"locals\":{},\"tokens\":{}}}",
            esc(k), a, b, f.has_contract && !f.derived, f.derived, f.no_body, f.loops, f.loops_without_invariant,
            list(&f.lost), list(&f.unsupported), list(f.calls.iter().map(|c| crate::contracts::rename(c, &back, false)).collect::<Vec<_>>().iter()), esc(&f.file), f.line, f.hash,
            list(&f.locals), list(&f.tokens)
        ));
    }
    o.push_str("\n},\n\"inlined\": ");
    o.push_str(&list(ctx.inlined.iter()));
    o.push_str(",\n\"missing_fns\": ");
    o.push_str(&list(ctx.contracts.fns.keys().filter(|k| !ctx.fns.contains_key(*k))));
    o.push_str(",\n\"default_impls\": ");
    o.push_str(&list(ctx.default_impls.iter()));
    o.push_str(",\n\"missing_impls\": ");
    o.push_str(&list(ctx.contracts.impls.keys().filter(|k| !ctx.used_impls.contains(*k))));
    o.push_str(",\n\"missing_mods\": ");
    o.push_str(&list(ctx.contracts.mods.keys().filter(|k| !ctx.used_mods.contains(*k))));
    o.push_str(",\n\"dropped\": ");
    o.push_str(&list(&ctx.dropped));
    o.push_str(",\n\"rewrites\": {");
    o.push_str(&ctx.rewrites.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","));
    o.push_str("},\n\"words\": {");
    o.push_str(&ctx.words.iter().map(|(k, v)| format!("{}:{}", esc(k), list(v))).collect::<Vec<_>>().join(","));
    o.push_str("},\n\"injects\": {");
    o.push_str(&ir.iter().map(|(k, v)| format!("{}:[{},{}]", esc(k), v.0, v.1)).collect::<Vec<_>>().join(","));
    o.push_str("},\n\"uses\": {");
    o.push_str(
        &ctx.uses
            .iter()
            .map(|(u, k)| {
                let v = ur.get(&u.to_string()).copied().unwrap_or((0, 0));
                format!("{}:[{},{}]", esc(k), v.0, v.1)
            })
            .collect::<Vec<_>>()
            .join(","),
    );
    o.push_str("}\n}\n");
    o
}

/// The branches of a `tokio::select!`.
pub struct Branch {
    pub pat: Pat,
    pub fut: Expr,
    pub cond: Option<Expr>,
    pub body: Expr,
}
pub struct Sel {
    pub biased: bool,
    pub branches: Vec<Branch>,
}
impl parse::Parse for Sel {
    fn parse(input: parse::ParseStream) -> syn::Result<Self> {
        let mut branches = vec![];
        let biased = input.peek(Ident) && input.peek2(Token![;]);
        if biased {
            input.parse::<Ident>()?;
            input.parse::<Token![;]>()?;
        }
        while !input.is_empty() {
            let pat = Pat::parse_multi(input)?;
            input.parse::<Token![=]>()?;
            let fut: Expr = input.parse()?;
            let cond = if input.peek(Token![,]) {
                input.parse::<Token![,]>()?;
                input.parse::<Token![if]>()?;
                Some(input.parse()?)
            } else {
                None
            };
            input.parse::<Token![=>]>()?;
            let body: Expr = if input.peek(token::Brace) {
                Expr::Block(ExprBlock { attrs: vec![], label: None, block: input.parse()? })
            } else {
                input.parse()?
            };
            if input.peek(Token![,]) {
                input.parse::<Token![,]>()?;
            }
            branches.push(Branch { pat, fut, cond, body });
        }
        Ok(Sel { biased, branches })
    }
}


/// The expression a function consists of, if it means the same in a contract: no call, no arithmetic, nothing changed.
fn value_of(sig: &Signature, b: &Block) -> Option<String> {
    if sig.asyncness.is_some() || sig.unsafety.is_some() || matches!(sig.output, ReturnType::Default) {
        return None;
    }
    for i in &sig.inputs {
        match i {
            FnArg::Receiver(r) if r.mutability.is_some() || r.colon_token.is_some() => return None,
            FnArg::Typed(t) => {
                if !matches!(&*t.pat, Pat::Ident(p) if p.mutability.is_none() && p.by_ref.is_none()) || matches!(&*t.ty, Type::Reference(r) if r.mutability.is_some()) {
                    return None;
                }
            }
            _ => {}
        }
    }
    fn block(b: &Block) -> bool {
        matches!(b.stmts.as_slice(), [Stmt::Expr(e, None)] if value(e))
    }
    fn value(e: &Expr) -> bool {
        match e {
            Expr::Path(p) => p.qself.is_none() && p.path.segments.iter().all(|s| s.arguments.is_none()),
            Expr::Lit(l) => matches!(l.lit, Lit::Bool(_) | Lit::Int(_)),
            Expr::Field(f) => value(&f.base),
            Expr::Paren(p) => value(&p.expr),
            Expr::Reference(r) => r.mutability.is_none() && value(&r.expr),
            Expr::Unary(u) => matches!(u.op, UnOp::Not(_) | UnOp::Deref(_)) && value(&u.expr),
            Expr::Binary(b) => {
                matches!(b.op, BinOp::And(_) | BinOp::Or(_) | BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_))
                    && value(&b.left)
                    && value(&b.right)
            }
            Expr::MethodCall(m) => m.args.is_empty() && ["is_some", "is_none", "is_ok", "is_err", "len"].iter().any(|n| m.method == n) && value(&m.receiver),
            Expr::If(i) => {
                !matches!(&*i.cond, Expr::Let(_)) && value(&i.cond) && block(&i.then_branch) && i.else_branch.as_ref().map_or(false, |e| value(&e.1))
            }
            Expr::Block(x) => x.label.is_none() && block(&x.block),
            Expr::Match(m) => value(&m.expr) && m.arms.iter().all(|a| a.guard.is_none() && value(&a.body)),
            Expr::Macro(m) => m.mac.path.is_ident("matches") && !m.mac.tokens.to_string().contains(" if "),
            _ => false,
        }
    }
    fn ends(e: &mut Expr, ty: &str) {
        match e {
            Expr::Lit(l) => {
                if let Lit::Int(n) = &l.lit {
                    if n.suffix().is_empty() {
                        l.lit = Lit::Int(LitInt::new(&format!("{}{}", n.base10_digits(), ty), n.span()));
                    }
                }
            }
            Expr::Paren(p) => ends(&mut p.expr, ty),
            Expr::If(i) => {
                in_block(&mut i.then_branch, ty);
                if let Some(b) = &mut i.else_branch {
                    ends(&mut b.1, ty);
                }
            }
            Expr::Block(b) => in_block(&mut b.block, ty),
            Expr::Match(m) => m.arms.iter_mut().for_each(|a| ends(&mut a.body, ty)),
            _ => {}
        }
    }
    fn in_block(b: &mut Block, ty: &str) {
        if let [Stmt::Expr(e, None)] = b.stmts.as_mut_slice() {
            ends(e, ty);
        }
    }
    match b.stmts.as_slice() {
        [Stmt::Expr(e, None)] if value(e) => {
            let mut e = e.clone();
            if let ReturnType::Type(_, t) = &sig.output {
                let t = t.to_token_stream().to_string();
                if ["u8", "u16", "u32", "u64", "usize", "i32", "i64"].contains(&t.as_str()) {
                    ends(&mut e, &t);
                }
            }
            Some(e.to_token_stream().to_string())
        }
        _ => None,
    }
}
