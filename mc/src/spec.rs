//! A reader of the documented peg notation, written by hand from the documentation (README, peg2code text),
//! and a printer of rule sets to it. Nothing of the code under test is used here.

use crate::model::*;

struct R<'a> {
    t: &'a [char],
    /// the fatal error of the notation (missing parenthesis)
    fatal: bool,
    /// goals entered: (part of the notation, position), as a mask per position
    seen: Vec<u16>,
    entries: u64,
}

thread_local! {
    static STEPS: std::cell::Cell<(u64, u64)> = std::cell::Cell::new((0, 0));
}
/// (states, transitions) of the reader since the last time it was asked
pub fn take_steps() -> (u64, u64) {
    STEPS.with(|s| s.replace((0, 0)))
}

/// None: the text is not a grammar. Otherwise its definitions, in the order they are added:
/// (name, expression, module depth)
pub fn read(text: &str) -> Option<Vec<Def>> {
    let t: Vec<char> = text.chars().collect();
    let mut r = R { t: &t, fatal: false, seen: vec![0; t.len() + 1], entries: 0 };
    let mut out = vec![];
    let p = r.grammar(0, &mut out);
    STEPS.with(|s| {
        let (a, b) = s.get();
        s.set((a + r.seen.iter().map(|m| m.count_ones() as u64).sum::<u64>(), b + r.entries));
    });
    let p = p?;
    if p == t.len() && !r.fatal {
        Some(out)
    } else {
        None
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Def {
    Rule(String, E),
    Module(Vec<Def>),
}

/// the map of names to expressions the definitions mean
pub fn to_rules(d: &[Def]) -> Rules {
    let mut r: Rules = vec![];
    for x in d {
        match x {
            Def::Rule(n, e) => match r.iter_mut().find(|y| y.0 == *n) {
                Some(y) => y.1 = e.clone(),
                None => r.push((n.clone(), e.clone())),
            },
            Def::Module(v) => {
                for (n, e) in to_rules(v) {
                    if !r.iter().any(|y| y.0 == n) {
                        r.push((n, e));
                    }
                }
            }
        }
    }
    r
}

/// some name is defined more than once
pub fn has_duplicates(d: &[Def]) -> bool {
    fn names<'a>(d: &'a [Def], v: &mut Vec<&'a str>) {
        for x in d {
            match x {
                Def::Rule(n, _) => v.push(n),
                Def::Module(m) => names(m, v),
            }
        }
    }
    let mut v = vec![];
    names(d, &mut v);
    v.sort();
    v.windows(2).any(|w| w[0] == w[1])
}

fn sym_first(c: char) -> bool {
    c == '_' || c.is_ascii_alphanumeric()
}
fn sym_next(c: char) -> bool {
    sym_first(c) || c == '\'' || c == '"'
}

impl<'a> R<'a> {
    fn enter(&mut self, what: u16, p: usize) {
        self.entries += 1;
        self.seen[p] |= 1 << what;
    }
    fn at(&self, p: usize) -> Option<char> {
        self.t.get(p).cloned()
    }
    fn ch(&self, p: usize, c: char) -> Option<usize> {
        if self.at(p) == Some(c) {
            Some(p + 1)
        } else {
            None
        }
    }
    fn word(&self, p: usize, w: &str) -> Option<usize> {
        let mut q = p;
        for c in w.chars() {
            q = self.ch(q, c)?;
        }
        Some(q)
    }
    fn eol(&self, p: usize) -> Option<usize> {
        self.word(p, "\r\n").or_else(|| self.ch(p, '\n')).or_else(|| self.ch(p, '\r'))
    }
    fn comment(&self, p: usize) -> Option<usize> {
        if let Some(mut q) = self.word(p, "//") {
            while q < self.t.len() && self.eol(q).is_none() {
                q += 1;
            }
            return Some(q);
        }
        let mut q = self.word(p, "/*")?;
        loop {
            if let Some(e) = self.word(q, "*/") {
                return Some(e);
            }
            if q >= self.t.len() {
                return None;
            }
            q += 1;
        }
    }
    /// `_`
    fn ws(&self, mut p: usize) -> usize {
        loop {
            match self.ch(p, ' ').or_else(|| self.eol(p)).or_else(|| self.comment(p)) {
                Some(q) => p = q,
                None => return p,
            }
        }
    }
    /// `_eol`
    fn end_line(&self, mut p: usize) -> Option<usize> {
        while let Some(q) = self.ch(p, ' ').or_else(|| self.comment(p)) {
            p = q;
        }
        self.eol(p)
    }

    fn grammar(&mut self, mut p: usize, out: &mut Vec<Def>) -> Option<usize> {
        self.enter(0, p);
        let mut some = false;
        loop {
            if let Some((q, d)) = self.rule(p) {
                out.push(d);
                p = q;
            } else if self.fatal {
                return None;
            } else if let Some((q, d)) = self.module(p) {
                out.push(d);
                p = q;
            } else if self.fatal || !some {
                return None;
            } else {
                return Some(p);
            }
            some = true;
        }
    }
    fn rule(&mut self, p: usize) -> Option<(usize, Def)> {
        self.enter(1, p);
        let p = self.ws(p);
        let (p, name) = self.rule_name(p)?;
        let p = self.ch(self.ws(p), '=')?;
        let (p, e) = self.or(self.ws(p))?;
        let p = self.end_line(p)?;
        Some((self.ws(p), Def::Rule(name, e)))
    }
    fn module(&mut self, p: usize) -> Option<(usize, Def)> {
        self.enter(2, p);
        let (p, _) = self.symbol(self.ws(p))?;
        let p = self.ch(self.ws(p), '{')?;
        let p = self.ws(p);
        let mut v = vec![];
        let p = self.grammar(p, &mut v)?;
        let p = self.ch(self.ws(p), '}')?;
        let p = self.end_line(p)?;
        Some((self.ws(p), Def::Module(v)))
    }
    fn symbol(&self, p: usize) -> Option<(usize, String)> {
        let mut s = String::new();
        let c = self.at(p)?;
        if !sym_first(c) {
            return None;
        }
        s.push(c);
        let mut p = p + 1;
        while let Some(c) = self.at(p) {
            if !sym_next(c) {
                break;
            }
            s.push(c);
            p += 1;
        }
        Some((p, s))
    }
    fn rule_name(&self, p: usize) -> Option<(usize, String)> {
        let mut name = String::new();
        let mut p = p;
        if let Some(q) = self.ch(p, '.') {
            name.push('.');
            p = q;
        }
        let (q, s) = self.symbol(p)?;
        name.push_str(&s);
        p = q;
        while let Some(q) = self.ch(p, '.') {
            match self.symbol(q) {
                Some((q, s)) => {
                    name.push('.');
                    name.push_str(&s);
                    p = q;
                }
                None => break,
            }
        }
        Some((p, name))
    }
    /// `or`: the choices, loosest
    fn or(&mut self, p: usize) -> Option<(usize, E)> {
        self.enter(3, p);
        let (mut good, e) = self.and(p)?;
        let mut v = vec![e];
        while let Some(q) = self.ch(self.ws(good), '/') {
            match self.and(self.ws(q)) {
                Some((q, e)) => {
                    v.push(e);
                    good = q;
                }
                None if self.fatal => return None,
                None => break,
            }
        }
        Some((good, if v.len() == 1 { v.pop().unwrap() } else { E::Or(v) }))
    }
    fn and(&mut self, p: usize) -> Option<(usize, E)> {
        self.enter(4, p);
        let mut v = vec![];
        let p = self.and_items(p, &mut v)?;
        Some((p, if v.len() == 1 { v.pop().unwrap() } else { E::And(v) }))
    }
    fn and_items(&mut self, p: usize, v: &mut Vec<E>) -> Option<usize> {
        self.enter(5, p);
        if let Some((q, e)) = self.error(p) {
            v.push(e);
            return Some(q);
        }
        let (mut good, e) = self.rep_or_neg(p)?;
        v.push(e);
        // separator: a space or an end of line, and then anything that is not significant
        while let Some(q) = self.ch(good, ' ').or_else(|| self.eol(good)) {
            let q = self.ws(q);
            if let Some((q, _)) = self.rule_name(q) {
                let q = self.ws(q);
                if self.ch(q, '=').or_else(|| self.ch(q, '{')).is_some() {
                    break; // next definition
                }
            }
            match self.and_items(q, v) {
                Some(q) => good = q,
                None if self.fatal => return None,
                None => break,
            }
        }
        Some(good)
    }
    fn error(&mut self, p: usize) -> Option<(usize, E)> {
        self.enter(6, p);
        let p = self.word(p, "error")?;
        let p = self.ch(self.ws(p), '(')?;
        let (p, s) = self.literal(self.ws(p))?;
        let p = self.ch(self.ws(p), ')')?;
        Some((p, E::Err(s)))
    }
    fn rep_or_neg(&mut self, p: usize) -> Option<(usize, E)> {
        self.enter(7, p);
        if let Some((p, e)) = self.atom_or_par(p) {
            return Some(match self.at(p) {
                Some('*') => (p + 1, star(e)),
                Some('+') => (p + 1, plus(e)),
                Some('?') => (p + 1, opt(e)),
                _ => (p, e),
            });
        }
        if self.fatal {
            return None;
        }
        let p = self.ch(p, '!')?;
        let (p, e) = self.atom_or_par(p)?;
        Some((p, not(e)))
    }
    fn atom_or_par(&mut self, p: usize) -> Option<(usize, E)> {
        self.enter(8, p);
        if let Some((p, s)) = self.literal(p) {
            return Some((p, E::Lit(s)));
        }
        if let Some(x) = self.set(p) {
            return Some(x);
        }
        if let Some((p, n)) = self.rule_name(p) {
            return Some((p, E::Ref(n)));
        }
        if let Some(p) = self.ch(p, '.') {
            return Some((p, E::Dot));
        }
        let p = self.ch(p, '(')?;
        let (p, e) = self.or(self.ws(p))?;
        match self.ch(self.ws(p), ')') {
            Some(p) => Some((p, e)),
            None => {
                self.fatal = true;
                None
            }
        }
    }
    fn literal(&self, p: usize) -> Option<(usize, String)> {
        let mut s = String::new();
        if let Some(mut p) = self.ch(p, '\'') {
            loop {
                let c = self.at(p)?;
                p += 1;
                if c == '\'' {
                    return Some((p, s));
                }
                s.push(c);
            }
        }
        let mut p = self.ch(p, '"')?;
        loop {
            match self.at(p)? {
                '"' => return Some((p + 1, s)),
                '\\' => {
                    let (c, n) = match self.at(p + 1) {
                        Some('r') => ('\r', 2),
                        Some('n') => ('\n', 2),
                        Some('t') => ('\t', 2),
                        Some('\\') => ('\\', 2),
                        Some('"') => ('"', 2),
                        Some('0') if self.at(p + 2) == Some('x') => {
                            let hex = |c: Option<char>| match c {
                                Some(c @ '0'..='9') => Some(c as u32 - '0' as u32),
                                Some(c @ 'A'..='F') => Some(c as u32 - 'A' as u32 + 10),
                                _ => None,
                            };
                            match (hex(self.at(p + 3)), hex(self.at(p + 4))) {
                                (Some(a), Some(b)) => (std::char::from_u32(a * 16 + b).unwrap(), 5),
                                _ => ('\\', 1),
                            }
                        }
                        _ => ('\\', 1),
                    };
                    s.push(c);
                    p += n;
                }
                c => {
                    s.push(c);
                    p += 1;
                }
            }
        }
    }
    /// `match`
    fn set(&self, p: usize) -> Option<(usize, E)> {
        let mut p = self.ch(p, '[')?;
        let mut chars = String::new();
        let mut ranges = vec![];
        loop {
            match self.at(p) {
                None | Some(']') => break,
                Some(_) if self.at(p + 1) == Some('-') => break,
                Some(c) => chars.push(c),
            }
            p += 1;
        }
        while let (Some(a), Some('-'), Some(b)) = (self.at(p), self.at(p + 1), self.at(p + 2)) {
            ranges.push((a, b));
            p += 3;
        }
        if chars.is_empty() && ranges.is_empty() {
            return None;
        }
        Some((self.ch(p, ']')?, E::Class(chars, ranges)))
    }
}

// ---------------------------------------------------------------------- printing

#[derive(Clone, Copy, PartialEq)]
pub enum Quote {
    Single,
    Double,
}

fn quote(s: &str, q: Quote) -> Option<String> {
    if q == Quote::Single && !s.contains('\'') {
        return Some(format!("'{}'", s));
    }
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (0x7f..0x100).contains(&(c as u32)) => {
                o.push_str(&format!("\\0x{:02X}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
    Some(o)
}

fn print_set(s: &str, r: &[(char, char)]) -> Option<String> {
    let o = format!("[{}{}]", s, r.iter().map(|(a, b)| format!("{}-{}", a, b)).collect::<String>());
    // only the sets the notation can express
    let t: Vec<char> = o.chars().collect();
    let rd = R { t: &t, fatal: false, seen: vec![], entries: 0 };
    match rd.set(0) {
        Some((n, E::Class(s2, r2))) if n == t.len() && s2 == s && r2 == r => Some(o),
        _ => None,
    }
}

/// level 0: choice allowed, 1: sequence allowed, 2: only atoms
pub fn print(e: &E, level: u8, q: Quote) -> Option<String> {
    let par = |s: String, need: bool| if need { format!("({})", s) } else { s };
    Some(match e {
        E::Lit(s) => quote(s, q)?,
        E::Class(s, r) => print_set(s, r)?,
        E::Dot => ".".into(),
        E::Eof => return None,
        E::Err(s) => par(format!("error({})", quote(s, q)?), level > 1),
        E::And(v) if v.len() >= 2 => {
            let mut items = vec![];
            for x in v {
                items.push(print(x, 2, q)?);
            }
            par(items.join(" "), level > 1)
        }
        E::Or(v) if v.len() >= 2 => {
            let mut items = vec![];
            for x in v {
                items.push(print(x, 1, q)?);
            }
            par(items.join(" / "), level > 0)
        }
        E::And(_) | E::Or(_) => return None,
        E::Not(x) => par(format!("!{}", print_atom(x, q)?), level > 2),
        E::Rep(x, 0, Some(1)) => format!("{}?", print_atom(x, q)?),
        E::Rep(x, 0, None) => format!("{}*", print_atom(x, q)?),
        E::Rep(x, 1, None) => format!("{}+", print_atom(x, q)?),
        E::Rep(..) => return None,
        E::Ref(s) => s.clone(),
    })
}
fn print_atom(e: &E, q: Quote) -> Option<String> {
    Some(match e {
        E::Lit(_) | E::Class(..) | E::Dot | E::Ref(_) => print(e, 2, q)?,
        _ => format!("({})", print(e, 0, q)?),
    })
}
pub fn print_rules(r: &Rules, q: Quote) -> Option<String> {
    let mut o = String::new();
    for (n, e) in r {
        o.push_str(&format!("{} = {}\n", n, print(e, 0, q)?));
    }
    Some(o)
}
