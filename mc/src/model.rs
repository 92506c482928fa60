//! The reference machine: PEG semantics over chars, written from the properties, not from the code under test.
//!
//! States are goals (expression occurrence, position); a transition is the entry to a goal. A run on a
//! (rule set, text) pair is a trace whose observables (acceptance, tree, error, rules walked) are compared
//! with the implementation.

use dynparser::parser::atom::{Atom, MatchRules};
use dynparser::parser::expression::{Expression, MultiExpr, RepInfo, SetOfRules};
use std::collections::HashMap;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum E {
    Lit(String),
    Class(String, Vec<(char, char)>),
    Dot,
    Eof,
    Err(String),
    And(Vec<E>),
    Or(Vec<E>),
    Not(Box<E>),
    Rep(Box<E>, usize, Option<usize>),
    Ref(String),
}

pub type Rules = Vec<(String, E)>;

pub fn lit(s: &str) -> E {
    E::Lit(s.to_string())
}
pub fn class(s: &str, r: &[(char, char)]) -> E {
    E::Class(s.to_string(), r.to_vec())
}
pub fn err(s: &str) -> E {
    E::Err(s.to_string())
}
pub fn and(v: Vec<E>) -> E {
    E::And(v)
}
pub fn or(v: Vec<E>) -> E {
    E::Or(v)
}
pub fn not(e: E) -> E {
    E::Not(Box::new(e))
}
pub fn rep(e: E, min: usize, max: Option<usize>) -> E {
    E::Rep(Box::new(e), min, max)
}
pub fn opt(e: E) -> E {
    rep(e, 0, Some(1))
}
pub fn star(e: E) -> E {
    rep(e, 0, None)
}
pub fn plus(e: E) -> E {
    rep(e, 1, None)
}
pub fn rf(s: &str) -> E {
    E::Ref(s.to_string())
}
pub fn rules1(e: E) -> Rules {
    vec![("main".to_string(), e)]
}
pub fn rules(v: Vec<(&str, E)>) -> Rules {
    v.into_iter().map(|(n, e)| (n.to_string(), e)).collect()
}

// ---------------------------------------------------------------------- to the real types

pub fn to_real_expr(e: &E) -> Expression {
    match e {
        E::Lit(s) => Expression::Simple(Atom::Literal(s.clone())),
        E::Class(s, r) => Expression::Simple(Atom::Match(MatchRules::init(s, r.clone()))),
        E::Dot => Expression::Simple(Atom::Dot),
        E::Eof => Expression::Simple(Atom::EOF),
        E::Err(s) => Expression::Simple(Atom::Error(s.clone())),
        E::And(v) => Expression::And(MultiExpr::new(v.iter().map(to_real_expr).collect())),
        E::Or(v) => Expression::Or(MultiExpr::new(v.iter().map(to_real_expr).collect())),
        E::Not(e) => Expression::Not(Box::new(to_real_expr(e))),
        E::Rep(e, min, max) => Expression::Repeat(RepInfo::new(Box::new(to_real_expr(e)), *min, *max)),
        E::Ref(s) => Expression::RuleName(s.clone()),
    }
}

pub fn to_real(rules: &Rules) -> SetOfRules {
    let mut s = SetOfRules::new(HashMap::new());
    for (n, e) in rules {
        s = s.add(n, to_real_expr(e));
    }
    s
}

/// what `dump` gives for these rules
pub fn dump_rules(rules: &Rules) -> String {
    fn go(e: &E, o: &mut String) {
        let list = |tag: &str, v: &[E], o: &mut String| {
            o.push_str(tag);
            o.push('(');
            for x in v {
                go(x, o);
                o.push(';');
            }
            o.push(')');
        };
        match e {
            E::Lit(s) => o.push_str(&format!("L{:?}", s)),
            E::Err(s) => o.push_str(&format!("E{:?}", s)),
            E::Class(s, r) => o.push_str(&format!("M{:?}{:?}", s, r)),
            E::Dot => o.push('.'),
            E::Eof => o.push('$'),
            E::And(v) => list("A", v, o),
            E::Or(v) => list("O", v, o),
            E::Not(x) => {
                o.push_str("!(");
                go(x, o);
                o.push(')');
            }
            E::Rep(x, min, max) => {
                o.push_str("R(");
                go(x, o);
                o.push_str(&format!(",{},", min));
                if let Some(m) = max {
                    o.push_str(&m.to_string());
                }
                o.push(')');
            }
            E::Ref(n) => o.push_str(&format!("N{:?}", n)),
        }
    }
    // of the same name, the last one
    let last: HashMap<&String, &E> = rules.iter().map(|(n, e)| (n, e)).collect();
    let mut v: Vec<String> = last
        .into_iter()
        .map(|(n, e)| {
            let mut o = format!("{:?}=", n);
            go(e, &mut o);
            o
        })
        .collect();
    v.sort();
    v.join("\n")
}

// ---------------------------------------------------------------------- display

pub fn show(e: &E) -> String {
    match e {
        E::Lit(s) => format!("lit!({:?})", s),
        E::Class(s, r) => format!("ematch!({:?},{:?})", s, r),
        E::Dot => "dot!()".into(),
        E::Eof => "eof!()".into(),
        E::Err(s) => format!("error!({:?})", s),
        E::And(v) => format!("and!({})", v.iter().map(show).collect::<Vec<_>>().join(", ")),
        E::Or(v) => format!("or!({})", v.iter().map(show).collect::<Vec<_>>().join(", ")),
        E::Not(e) => format!("not!({})", show(e)),
        E::Rep(e, min, None) => format!("rep!({}, {})", show(e), min),
        E::Rep(e, min, Some(max)) => format!("rep!({}, {}, {})", show(e), min, max),
        E::Ref(s) => format!("ref_rule!({:?})", s),
    }
}
pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        format!("{}…({} chars)", s.chars().take(n).collect::<String>(), s.chars().count())
    }
}
pub fn show_rules(r: &Rules) -> String {
    let mut o = String::from("rules!{");
    for (i, (n, e)) in r.iter().enumerate() {
        let _ = write!(o, "{}{:?} => {}", if i == 0 { "" } else { ", " }, n, clip(&show(e), 3000));
        if i == 40 {
            o.push_str(" …");
            break;
        }
    }
    o.push('}');
    o
}

// ---------------------------------------------------------------------- trees

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Val(String),
    Rule(String, Vec<T>),
    Eof,
}

impl T {
    pub fn same(&self, n: &dynparser::ast::Node) -> bool {
        use dynparser::ast::Node;
        match (self, n) {
            (T::Val(a), Node::Val(b)) => a == b,
            (T::Eof, Node::EOF) => true,
            (T::Rule(a, v), Node::Rule((b, w))) => {
                a == b && v.len() == w.len() && v.iter().zip(w).all(|(x, y)| x.same(y))
            }
            _ => false,
        }
    }
    pub fn to_real(&self) -> dynparser::ast::Node {
        use dynparser::ast::Node;
        match self {
            T::Val(a) => Node::Val(a.clone()),
            T::Eof => Node::EOF,
            T::Rule(a, v) => Node::Rule((a.clone(), v.iter().map(|x| x.to_real()).collect())),
        }
    }
    pub fn from_real(n: &dynparser::ast::Node) -> T {
        use dynparser::ast::Node;
        match n {
            Node::Val(v) => T::Val(v.clone()),
            Node::EOF => T::Eof,
            Node::Rule((n, v)) => T::Rule(n.clone(), v.iter().map(T::from_real).collect()),
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        fn go(t: &T, s: &mut String) {
            match t {
                T::Val(v) => s.push_str(v),
                T::Eof => (),
                T::Rule(_, v) => v.iter().for_each(|x| go(x, s)),
            }
        }
        go(self, &mut s);
        s
    }
    pub fn show(&self) -> String {
        match self {
            T::Val(v) => format!("{:?}", v),
            T::Eof => "EOF".into(),
            T::Rule(n, v) => format!("{}({})", n, v.iter().map(|x| x.show()).collect::<Vec<_>>().join(" ")),
        }
    }
}

// ---------------------------------------------------------------------- the machine

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    /// the leaf (expression id) that failed
    Leaf(usize),
    Not,
    EmptyOr,
    Text(String),
    Missing(String),
    /// only a prefix matched
    Prefix,
}

#[derive(Clone, Debug)]
pub struct MErr {
    pub n: usize,
    pub crit: bool,
    pub kind: Kind,
    pub trace: Vec<u32>,
}

enum Op {
    Lit(Vec<char>, String),
    Class(Vec<char>, Vec<(char, char)>),
    Dot,
    Eof,
    Err(String),
    And(Vec<usize>),
    Or(Vec<usize>),
    Not(usize),
    Rep(usize, usize, Option<usize>),
    Ref(u32),
}

pub struct Machine {
    ops: Vec<Op>,
    pub leaves: Vec<Option<E>>,
    pub names: Vec<String>,
    bodies: Vec<Option<usize>>,
    main: u32,
    seen: Vec<u64>,
    pub states: u64,
    pub transitions: u64,
    /// steps allowed to `steps_of`
    pub budget: u64,
    limit: u64,
    /// rules entered are not noted
    pub untraced: bool,
    /// expressions inside of others being evaluated
    depth: u64,
    /// the most since it was last set to 0
    pub deepest: u64,
}

pub enum Out {
    Ok(T),
    Err(MErr),
}

struct Run<'a> {
    t: &'a [char],
    nodes: Vec<T>,
    trace: Vec<u32>,
    pot: Option<MErr>,
}

impl Machine {
    pub fn new(rules: &Rules) -> Machine {
        let mut m = Machine {
            ops: vec![],
            leaves: vec![],
            names: vec![],
            bodies: vec![],
            main: 0,
            seen: vec![],
            states: 0,
            transitions: 0,
            budget: u64::MAX,
            limit: u64::MAX,
            untraced: false,
            depth: 0,
            deepest: 0,
        };
        for (n, _) in rules {
            m.names.push(n.clone());
            m.bodies.push(None);
        }
        let mut ix: HashMap<String, u32> = rules.iter().enumerate().map(|(i, r)| (r.0.clone(), i as u32)).collect();
        for (i, (_, e)) in rules.iter().enumerate() {
            let id = m.compile(e, &mut ix);
            m.bodies[i] = Some(id);
        }
        m.main = m.name_ix("main", &mut ix);
        m
    }
    fn name_ix(&mut self, n: &str, ix: &mut HashMap<String, u32>) -> u32 {
        if let Some(i) = ix.get(n) {
            return *i;
        }
        let i = self.names.len() as u32;
        self.names.push(n.to_string());
        self.bodies.push(None);
        ix.insert(n.to_string(), i);
        i
    }
    fn compile(&mut self, e: &E, ix: &mut HashMap<String, u32>) -> usize {
        let mut leaf = None;
        let op = match e {
            E::Lit(s) => {
                leaf = Some(e.clone());
                Op::Lit(s.chars().collect(), s.clone())
            }
            E::Class(s, r) => {
                leaf = Some(e.clone());
                Op::Class(s.chars().collect(), r.clone())
            }
            E::Dot => {
                leaf = Some(e.clone());
                Op::Dot
            }
            E::Eof => {
                leaf = Some(e.clone());
                Op::Eof
            }
            E::Err(s) => Op::Err(s.clone()),
            E::And(v) => Op::And(v.iter().map(|x| self.compile(x, ix)).collect()),
            E::Or(v) => Op::Or(v.iter().map(|x| self.compile(x, ix)).collect()),
            E::Not(x) => Op::Not(self.compile(x, ix)),
            E::Rep(x, min, max) => Op::Rep(self.compile(x, ix), *min, *max),
            E::Ref(s) => Op::Ref(self.name_ix(s, ix)),
        };
        self.ops.push(op);
        self.leaves.push(leaf);
        self.ops.len() - 1
    }

    /// Some rule reachable from main can call itself without consuming (conservative)
    pub fn left_recursive(&self) -> bool {
        let n = self.names.len();
        let mut nullable = vec![false; n];
        loop {
            let mut ch = false;
            for r in 0..n {
                if let (false, Some(b)) = (nullable[r], self.bodies[r]) {
                    if self.null(b, &nullable) {
                        nullable[r] = true;
                        ch = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let calls: Vec<Vec<u32>> = (0..n)
            .map(|r| {
                let mut v = vec![];
                if let Some(b) = self.bodies[r] {
                    self.left(b, &nullable, &mut v);
                }
                v
            })
            .collect();
        // a cycle of left calls, anywhere (reachable or not)
        let mut col = vec![0u8; n];
        fn dfs(r: usize, calls: &[Vec<u32>], col: &mut [u8]) -> bool {
            col[r] = 1;
            for &c in &calls[r] {
                match col[c as usize] {
                    1 => return true,
                    0 => {
                        if dfs(c as usize, calls, col) {
                            return true;
                        }
                    }
                    _ => (),
                }
            }
            col[r] = 2;
            false
        }
        (0..n).any(|r| col[r] == 0 && dfs(r, &calls, &mut col))
    }
    fn null(&self, id: usize, nl: &[bool]) -> bool {
        match &self.ops[id] {
            Op::Lit(c, _) => c.is_empty(),
            Op::Class(..) | Op::Dot | Op::Err(_) => false,
            Op::Eof | Op::Not(_) => true,
            Op::And(v) => v.iter().all(|&x| self.null(x, nl)),
            Op::Or(v) => v.iter().any(|&x| self.null(x, nl)),
            Op::Rep(x, min, max) => *min == 0 || *max == Some(0) || self.null(*x, nl),
            Op::Ref(r) => nl[*r as usize],
        }
    }
    fn left(&self, id: usize, nl: &[bool], out: &mut Vec<u32>) {
        match &self.ops[id] {
            Op::Lit(..) | Op::Class(..) | Op::Dot | Op::Err(_) | Op::Eof => (),
            Op::Not(x) | Op::Rep(x, _, _) => self.left(*x, nl, out),
            Op::And(v) => {
                for &x in v {
                    self.left(x, nl, out);
                    if !self.null(x, nl) {
                        break;
                    }
                }
            }
            Op::Or(v) => v.iter().for_each(|&x| self.left(x, nl, out)),
            Op::Ref(r) => out.push(*r),
        }
    }

    pub fn run(&mut self, t: &[char]) -> Out {
        let words = (self.ops.len() * (t.len() + 1) + 63) / 64;
        self.seen.clear();
        self.seen.resize(words, 0);
        let mut r = Run { t, nodes: vec![], trace: vec![], pot: None };
        let out = self.rule(self.main, 0, &mut r);
        match out {
            Err(e) => Out::Err(e),
            Ok(n) if n == t.len() => Out::Ok(r.nodes.pop().unwrap()),
            Ok(n) => Out::Err(match r.pot.take() {
                Some(e) => e,
                None => MErr { n, crit: false, kind: Kind::Prefix, trace: r.trace },
            }),
        }
    }

    /// the steps of a run, if they are within the budget
    pub fn steps_of(&mut self, t: &[char]) -> Option<u64> {
        let (s, tr) = (self.states, self.transitions);
        self.limit = tr + self.budget;
        self.run(t);
        self.limit = u64::MAX;
        let n = self.transitions - tr;
        self.states = s;
        self.transitions = tr;
        if n > self.budget {
            None
        } else {
            Some(n)
        }
    }

    fn rule(&mut self, name: u32, p: usize, r: &mut Run) -> Result<usize, MErr> {
        if !self.untraced {
            r.trace.push(name);
        }
        match self.bodies[name as usize] {
            None => {
                Err(MErr { n: p, crit: true, kind: Kind::Missing(self.names[name as usize].clone()), trace: r.trace.clone() })
            }
            Some(b) => {
                let k = r.nodes.len();
                let q = self.eval(b, p, r)?;
                let ch = r.nodes.split_off(k);
                r.nodes.push(T::Rule(self.names[name as usize].clone(), ch));
                Ok(q)
            }
        }
    }

    fn eval(&mut self, id: usize, p: usize, r: &mut Run) -> Result<usize, MErr> {
        self.depth += 1;
        self.deepest = self.deepest.max(self.depth);
        let x = self.eval_in(id, p, r);
        self.depth -= 1;
        x
    }

    fn eval_in(&mut self, id: usize, p: usize, r: &mut Run) -> Result<usize, MErr> {
        self.transitions += 1;
        if self.transitions > self.limit {
            // over the budget: unwind as with a critical error
            return Err(MErr { n: p, crit: true, kind: Kind::EmptyOr, trace: vec![] });
        }
        let bit = id * (r.t.len() + 1) + p;
        if self.seen[bit / 64] >> (bit % 64) & 1 == 0 {
            self.seen[bit / 64] |= 1 << (bit % 64);
            self.states += 1;
        }
        let me: *mut Machine = self;
        // the table of operations is not changed by a run
        let op: &Op = unsafe { &(&*me).ops[id] };
        let fail = |n: usize, r: &Run| Err(MErr { n, crit: false, kind: Kind::Leaf(id), trace: r.trace.clone() });
        match op {
            Op::Lit(cs, s) => {
                let mut q = p;
                for c in cs {
                    match r.t.get(q) {
                        Some(x) if x == c => q += 1,
                        Some(_) => return fail(q + 1, r),
                        None => return fail(q, r),
                    }
                }
                r.nodes.push(T::Val(s.clone()));
                Ok(q)
            }
            Op::Class(cs, rs) => match r.t.get(p) {
                None => fail(p, r),
                Some(&c) => {
                    if cs.contains(&c) || rs.iter().any(|&(a, b)| a <= c && c <= b) {
                        r.nodes.push(T::Val(c.to_string()));
                        Ok(p + 1)
                    } else {
                        fail(p + 1, r)
                    }
                }
            },
            Op::Dot => match r.t.get(p) {
                None => fail(p, r),
                Some(c) => {
                    r.nodes.push(T::Val(c.to_string()));
                    Ok(p + 1)
                }
            },
            Op::Eof => {
                if p == r.t.len() {
                    r.nodes.push(T::Eof);
                    Ok(p)
                } else {
                    fail(p + 1, r)
                }
            }
            Op::Err(s) => Err(MErr { n: p, crit: true, kind: Kind::Text(s.clone()), trace: r.trace.clone() }),
            Op::And(v) => {
                let mut q = p;
                for &x in v {
                    q = self.eval(x, q, r)?;
                }
                Ok(q)
            }
            Op::Or(v) => {
                let (k, w, pot) = (r.nodes.len(), r.trace.len(), r.pot.clone());
                let mut best: Option<MErr> = None;
                for &x in v {
                    match self.eval(x, p, r) {
                        Ok(q) => return Ok(q),
                        Err(e) if e.crit => return Err(e),
                        Err(e) => {
                            best = match best {
                                Some(b) if b.n > e.n => Some(b),
                                _ => Some(e),
                            }
                        }
                    }
                    r.nodes.truncate(k);
                    r.trace.truncate(w);
                    r.pot = pot.clone();
                }
                Err(best.unwrap_or(MErr { n: p, crit: false, kind: Kind::EmptyOr, trace: r.trace.clone() }))
            }
            Op::Not(x) => {
                let (k, w, pot) = (r.nodes.len(), r.trace.len(), r.pot.clone());
                let res = self.eval(*x, p, r);
                r.nodes.truncate(k);
                r.trace.truncate(w);
                r.pot = pot;
                match res {
                    Ok(_) => Err(MErr { n: p, crit: false, kind: Kind::Not, trace: r.trace.clone() }),
                    Err(_) => Ok(p),
                }
            }
            Op::Rep(x, min, max) => {
                let mut q = p;
                let mut count = 0usize;
                loop {
                    if Some(count) == *max {
                        return Ok(q);
                    }
                    let (k, w, pot) = (r.nodes.len(), r.trace.len(), r.pot.clone());
                    match self.eval(*x, q, r) {
                        Ok(n) => {
                            count += 1;
                            if n == q && max.is_none() && count >= *min {
                                return Ok(q);
                            }
                            q = n;
                        }
                        Err(e) if e.crit || count < *min => return Err(e),
                        Err(e) => {
                            r.nodes.truncate(k);
                            r.trace.truncate(w);
                            let _ = pot;
                            r.pot = Some(e);
                            return Ok(q);
                        }
                    }
                }
            }
            Op::Ref(n) => self.rule(*n, p, r),
        }
    }
}
