//! Values as the crate's `Debug` text shows them, and a comparison that does not depend on the names of
//! types or on the order in which a struct lists its fields.

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    /// a number, a boolean, a unit variant
    Leaf(String),
    Str(String),
    /// a tuple or tuple variant
    Tup(String, Vec<T>),
    Rec(String, Vec<(String, T)>),
    List(Vec<T>),
    /// one entry of a table of names; only the names of *other* entries are wrong here
    Code(&'static [(u8, &'static str)], u8),
    /// not compared
    Any,
}

pub fn leaf<S: ToString>(s: S) -> T {
    T::Leaf(s.to_string())
}
pub fn tup(n: &str, v: Vec<T>) -> T {
    T::Tup(n.into(), v)
}
pub fn rec(n: &str, v: Vec<(&str, T)>) -> T {
    T::Rec(n.into(), v.into_iter().map(|(a, b)| (a.into(), b)).collect())
}
pub fn bytes(b: &[u8]) -> T {
    T::List(b.iter().map(|x| leaf(*x)).collect())
}

struct P<'a> {
    s: &'a [char],
    i: usize,
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && self.s[self.i].is_whitespace() {
            self.i += 1
        }
    }
    fn peek(&mut self) -> Option<char> {
        self.ws();
        self.s.get(self.i).copied()
    }
    fn eat(&mut self, c: char) -> Option<()> {
        if self.peek()? == c {
            self.i += 1;
            Some(())
        } else {
            None
        }
    }
    fn seq(&mut self, end: char) -> Option<Vec<T>> {
        let mut v = vec![];
        loop {
            if self.peek()? == end {
                self.i += 1;
                return Some(v);
            }
            v.push(self.val()?);
            if self.peek()? == ',' {
                self.i += 1
            }
        }
    }
    fn string(&mut self) -> Option<String> {
        self.eat('"')?;
        let mut o = String::new();
        loop {
            let c = *self.s.get(self.i)?;
            self.i += 1;
            match c {
                '"' => return Some(o),
                '\\' => {
                    let e = *self.s.get(self.i)?;
                    self.i += 1;
                    match e {
                        'n' => o.push('\n'),
                        'r' => o.push('\r'),
                        't' => o.push('\t'),
                        '0' => o.push('\0'),
                        'u' => {
                            self.i += 1;
                            let mut h = String::new();
                            while *self.s.get(self.i)? != '}' {
                                h.push(self.s[self.i]);
                                self.i += 1;
                            }
                            self.i += 1;
                            o.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                        }
                        e => o.push(e),
                    }
                }
                c => o.push(c),
            }
        }
    }
    fn word(&mut self) -> String {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_alphanumeric() || "_-.:#".contains(self.s[self.i])) {
            self.i += 1
        }
        self.s[st..self.i].iter().collect()
    }
    fn val(&mut self) -> Option<T> {
        match self.peek()? {
            '"' => Some(T::Str(self.string()?)),
            '[' => {
                self.i += 1;
                Some(T::List(self.seq(']')?))
            }
            '(' => {
                self.i += 1;
                Some(T::Tup(String::new(), self.seq(')')?))
            }
            'b' if self.s.get(self.i + 1) == Some(&'"') => None,
            _ => {
                let w = self.word();
                if w.is_empty() {
                    return None;
                }
                match self.peek() {
                    Some('(') => {
                        self.i += 1;
                        Some(T::Tup(w, self.seq(')')?))
                    }
                    Some('{') => {
                        self.i += 1;
                        let mut v = vec![];
                        loop {
                            if self.peek()? == '}' {
                                self.i += 1;
                                return Some(T::Rec(w, v));
                            }
                            let mut k = self.word();
                            if k.ends_with(':') {
                                k.pop();
                            } else {
                                self.eat(':')?;
                            }
                            v.push((k, self.val()?));
                            if self.peek()? == ',' {
                                self.i += 1
                            }
                        }
                    }
                    _ => Some(T::Leaf(w)),
                }
            }
        }
    }
}

pub fn parse(s: &str) -> Option<T> {
    let s: Vec<char> = s.chars().collect();
    let mut p = P { s: &s, i: 0 };
    let t = p.val()?;
    p.ws();
    if p.i == s.len() {
        Some(t)
    } else {
        None
    }
}

fn leaves<'a>(t: &'a T, out: &mut Vec<&'a T>) {
    match t {
        T::Rec(_, v) => v.iter().for_each(|(_, x)| leaves(x, out)),
        T::Leaf(s) if s.chars().next().map_or(false, |c| c.is_uppercase()) && !KNOWN.contains(&s.as_str()) => {}
        t => out.push(t),
    }
}

/// Unit variants that carry meaning (any other capitalised leaf may be a field-less struct).
const KNOWN: &[&str] = &["None"];

pub fn same(want: &T, got: &T) -> bool {
    match (want, got) {
        (T::Any, _) => true,
        (T::Code(table, code), T::Leaf(g)) => !table.iter().any(|(c, n)| c != code && *n == g && !table.iter().any(|(c2, n2)| c2 == code && n2 == n)),
        (T::Leaf(a), T::Leaf(b)) => a == b,
        (T::Str(a), T::Str(b)) => a == b,
        (T::Tup(a, x), T::Tup(b, y)) => a == b && x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q)),
        (T::List(x), T::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q)),
        (T::Rec(_, x), T::Rec(_, y)) => {
            let mut a: Vec<_> = x.iter().map(|p| &p.0).collect();
            let mut b: Vec<_> = y.iter().map(|p| &p.0).collect();
            a.sort();
            b.sort();
            if a == b {
                x.iter().all(|(k, v)| y.iter().any(|(l, w)| k == l && same(v, w)))
            } else {
                // other field names or nesting: the same values, in any order
                let (mut p, mut q) = (vec![], vec![]);
                leaves(want, &mut p);
                leaves(got, &mut q);
                let mut used = vec![false; q.len()];
                p.iter().all(|w| {
                    match (0..q.len()).find(|i| !used[*i] && same(w, q[*i])) {
                        Some(i) => {
                            used[i] = true;
                            true
                        }
                        None => matches!(w, T::Code(..)),
                    }
                })
            }
        }
        (T::Rec(_, x), T::Leaf(_)) => x.is_empty(),
        (T::Leaf(_), T::Rec(_, y)) => y.is_empty(),
        _ => false,
    }
}
