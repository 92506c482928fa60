//! Trees: compact, prune, pass_through_except, flatten (P19–P22) and navigation (P23)

use crate::frame::*;
use crate::gen::{nth_seq, seqs};
use crate::model::{clip, T};
use crate::more::NAMES;
use dynparser::ast::{self, flat, Node};

// ---------------------------------------------------------------------- all trees up to a size

pub struct Trees {
    leaves: Vec<T>,
    names: Vec<&'static str>,
    /// trees of exactly n nodes; forests of exactly n nodes
    t: Vec<u64>,
    f: Vec<u64>,
    max: usize,
}

impl Trees {
    pub fn new(leaves: Vec<T>, names: Vec<&'static str>, max: usize) -> Trees {
        let mut s = Trees { leaves, names, t: vec![0; max + 1], f: vec![0; max + 1], max };
        s.f[0] = 1;
        for n in 1..=max {
            s.t[n] = s.names.len() as u64 * s.f[n - 1] + if n == 1 { s.leaves.len() as u64 } else { 0 };
            s.f[n] = (1..=n).map(|k| s.t[k] * s.f[n - k]).sum();
        }
        s
    }
    pub fn total(&self) -> u64 {
        self.t.iter().sum()
    }
    pub fn nth(&self, mut i: u64) -> T {
        for n in 1..=self.max {
            if i < self.t[n] {
                return self.tree(n, i);
            }
            i -= self.t[n];
        }
        panic!("out of the trees")
    }
    fn tree(&self, n: usize, mut i: u64) -> T {
        if n == 1 {
            if i < self.leaves.len() as u64 {
                return self.leaves[i as usize].clone();
            }
            i -= self.leaves.len() as u64;
        }
        let k = self.names.len() as u64;
        let mut ch = vec![];
        self.forest(n - 1, i / k, &mut ch);
        T::Rule(self.names[(i % k) as usize].to_string(), ch)
    }
    fn forest(&self, n: usize, mut i: u64, out: &mut Vec<T>) {
        if n == 0 {
            return;
        }
        for k in 1..=n {
            let c = self.t[k] * self.f[n - k];
            if i < c {
                out.push(self.tree(k, i / self.f[n - k]));
                return self.forest(n - k, i % self.f[n - k], out);
            }
            i -= c;
        }
    }
}

fn val(s: &str) -> T {
    T::Val(s.to_string())
}
fn rule(n: &str, v: Vec<T>) -> T {
    T::Rule(n.to_string(), v)
}

// ---------------------------------------------------------------------- definitions

fn d_compact(t: &T) -> T {
    match t {
        T::Rule(n, v) => {
            let mut out: Vec<T> = vec![];
            let mut i = 0;
            while i < v.len() {
                if let T::Val(_) = v[i] {
                    let mut s = String::new();
                    while let Some(T::Val(x)) = v.get(i) {
                        s.push_str(x);
                        i += 1;
                    }
                    out.push(T::Val(s));
                } else {
                    out.push(d_compact(&v[i]));
                    i += 1;
                }
            }
            T::Rule(n.clone(), out)
        }
        x => x.clone(),
    }
}
fn d_prune(t: &T, names: &[&str]) -> T {
    match t {
        T::Rule(n, v) => T::Rule(
            n.clone(),
            v.iter()
                .filter(|x| !matches!(x, T::Rule(m, _) if names.contains(&m.as_str())))
                .map(|x| d_prune(x, names))
                .collect(),
        ),
        x => x.clone(),
    }
}
fn d_pass(t: &T, keep: &[&str]) -> T {
    fn go(v: &[T], keep: &[&str], out: &mut Vec<T>) {
        for x in v {
            match x {
                T::Rule(n, w) if keep.contains(&n.as_str()) => {
                    let mut o = vec![];
                    go(w, keep, &mut o);
                    out.push(T::Rule(n.clone(), o));
                }
                T::Rule(_, w) => go(w, keep, out),
                x => out.push(x.clone()),
            }
        }
    }
    match t {
        T::Rule(n, v) => {
            let mut o = vec![];
            go(v, keep, &mut o);
            T::Rule(n.clone(), o)
        }
        x => x.clone(),
    }
}
fn d_flat(t: &T, out: &mut Vec<flat::Node>) {
    match t {
        T::Val(s) => out.push(flat::Node::Val(s.clone())),
        T::Eof => out.push(flat::Node::EOF),
        T::Rule(n, v) => {
            out.push(flat::Node::BeginRule(n.clone()));
            v.iter().for_each(|x| d_flat(x, out));
            out.push(flat::Node::EndRule(n.clone()));
        }
    }
}
fn unflat(v: &[flat::Node]) -> Option<T> {
    let mut st: Vec<(String, Vec<T>)> = vec![("".into(), vec![])];
    for n in v {
        match n {
            flat::Node::Val(s) => st.last_mut()?.1.push(T::Val(s.clone())),
            flat::Node::EOF => st.last_mut()?.1.push(T::Eof),
            flat::Node::BeginRule(n) => st.push((n.clone(), vec![])),
            flat::Node::EndRule(n) => {
                let (m, ch) = st.pop()?;
                if m != *n || st.is_empty() {
                    return None;
                }
                st.last_mut()?.1.push(T::Rule(m, ch));
            }
        }
    }
    if st.len() == 1 && st[0].1.len() == 1 {
        st[0].1.pop()
    } else {
        None
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Op {
    Compact,
    Prune,
    Pass,
    Flat,
}

fn check_tree(ctx: &mut Ctx, op: Op, t: &T, names: &[&str]) {
    let n = t.to_real();
    let what = || {
        format!(
            "{} on {}",
            match op {
                Op::Compact => "compact()".to_string(),
                Op::Prune => format!("prune({:?})", names),
                Op::Pass => format!("pass_through_except({:?})", names),
                Op::Flat => "flatten()".to_string(),
            },
            clip(&t.show(), 2000)
        )
    };
    if op == Op::Flat {
        let got = match ctx.real(what, || n.flatten()) {
            Some(g) => g,
            None => return,
        };
        let mut want = vec![];
        d_flat(t, &mut want);
        ctx.nontrivial(want.len() > 1);
        ctx.outcome(if t.text().is_empty() { "no text" } else { "with text" });
        if got != want || unflat(&got).as_ref() != Some(t) {
            ctx.fail(format!("{}\ngives    {:?}\nexpected {:?}\nrebuilt: {:?}", what(), got, want, unflat(&got).map(|t| t.show())));
        } else if !t.same(&n) {
            ctx.fail(format!("{}\nmodifies the tree", what()));
        }
        return;
    }
    let f = |n: &Node| match op {
        Op::Compact => n.compact(),
        Op::Prune => n.prune(names),
        _ => n.pass_through_except(names),
    };
    let got = match ctx.real(what, || f(&n)) {
        Some(g) => g,
        None => return,
    };
    let want = match op {
        Op::Compact => d_compact(t),
        Op::Prune => d_prune(t, names),
        _ => d_pass(t, names),
    };
    let changes = want != *t;
    ctx.nontrivial(changes);
    ctx.outcome(if changes { "changes the tree" } else { "changes nothing" });
    if !want.same(&got) {
        ctx.fail(format!("{}\ngives    {}\nexpected {}", what(), clip(&T::from_real(&got).show(), 2000), clip(&want.show(), 2000)));
        return;
    }
    if !t.same(&n) {
        ctx.fail(format!("{}\nmodifies the tree", what()));
        return;
    }
    if changes {
        if let Some(again) = ctx.real(what, || f(&got)) {
            if again != got {
                ctx.fail(format!("{}\napplied again gives {}\ninstead of {}", what(), clip(&T::from_real(&again).show(), 2000), clip(&want.show(), 2000)));
            }
        }
    }
}

fn lists(names: &[&'static str], max: u32) -> Vec<Vec<&'static str>> {
    let k = names.len() as u64;
    (0..seqs(k, max)).map(|i| nth_seq(k, i).into_iter().map(|j| names[j]).collect()).collect()
}

pub fn transform(op: Op, tier: Tier) -> Vec<Family> {
    let mut out = vec![];
    let with_names = matches!(op, Op::Prune | Op::Pass);
    let ls = if with_names { lists(&["r", "rs", "s", "a"], 2) } else { vec![vec![]] };
    let ts = Trees::new(
        vec![val("a"), val("r"), val(""), T::Eof],
        vec!["r", "rs", "s"],
        if with_names { tier.pick(6, 7) } else { tier.pick(7, 8) },
    );
    let total = ts.total();
    let chunk = 500u64;
    out.push(family(
        "all-trees",
        format!("all {} trees of up to {} nodes over rules r, rs, s and leaves \"a\", \"r\", \"\", EOF x {} lists of names (all of up to 2 from r, rs, s, a; with repetitions)", total, ts.max, ls.len()),
        (total + chunk - 1) / chunk,
        move |b, ctx| {
            for i in b * chunk..((b + 1) * chunk).min(total) {
                let t = ts.nth(i);
                for l in &ls {
                    if !ctx.next() {
                        if ctx.stop() {
                            return;
                        }
                        continue;
                    }
                    check_tree(ctx, op, &t, l);
                    ctx.sample(|| format!("{} {:?}", t.show(), l));
                }
            }
        },
    ));
    // narrow and deep: fewer kinds, more nodes
    let ts = Trees::new(
        if op == Op::Compact { vec![val("a"), T::Eof] } else { vec![val("a")] },
        vec!["r", "s"],
        if with_names { tier.pick(8, 10) } else { tier.pick(9, 10) },
    );
    let total = ts.total();
    let ls = if with_names { lists(&["r", "s"], 2) } else { vec![vec![]] };
    out.push(family(
        "bigger-trees",
        format!("all {} trees of up to {} nodes over rules r, s x {} lists of names", total, ts.max, ls.len()),
        (total + chunk - 1) / chunk,
        move |b, ctx| {
            for i in b * chunk..((b + 1) * chunk).min(total) {
                let t = ts.nth(i);
                for l in &ls {
                    if !ctx.next() {
                        if ctx.stop() {
                            return;
                        }
                        continue;
                    }
                    check_tree(ctx, op, &t, l);
                }
            }
        },
    ));
    let ns = crate::spaces::sizes(tier.pick(40, 100), tier.pick(1100, 4200));
    out.push(family(
        "scale-trees",
        "trees with n children, n levels, runs of n values, n different rules, values of n chars, lists of n names (first, last, none in the tree), for n up to 40/100 and around powers of two",
        ns.len() as u64,
        move |b, ctx| {
            let n = ns[b as usize];
            let name = |i: usize| format!("n{}", i);
            let mut ts = vec![];
            let kinds: Vec<Box<dyn Fn(usize) -> T>> = vec![
                Box::new(|_| val("a")),
                Box::new(|i| val(&i.to_string())),
                Box::new(|i| if i % 2 == 0 { val("é") } else { rule("r", vec![val("x")]) }),
                Box::new(|i| if i % 3 == 0 { T::Eof } else { val("") }),
                Box::new(|i| rule("r", vec![val(&i.to_string()), val("y")])),
                Box::new(|i| rule(&format!("n{}", i), vec![val("a"), val("b"), rule("k", vec![])])),
            ];
            for k in &kinds {
                ts.push(rule("main", (0..n).map(k).collect()));
                ts.push(rule("main", vec![val("p"), rule("k", (0..n).map(k).collect()), val("q")]));
            }
            let deep = n.min(300);
            ts.push((0..deep).fold(val("a"), |t, i| rule(&name(i), vec![val("x"), t, val("y"), val("z")])));
            ts.push((0..deep).fold(val("a"), |t, i| rule(["r", "k", "s"][i % 3], vec![t, val("y"), val("z")])));
            ts.push((0..deep).fold(T::Eof, |t, _| rule("r", vec![t])));
            ts.push(rule("r", vec![val(&"aé".repeat(n)), val(&"z".repeat(n))]));
            let long: Vec<String> = (0..n).map(name).collect();
            let mut ls: Vec<Vec<String>> = vec![vec![]];
            if with_names {
                ls.push(vec!["r".into()]);
                ls.push(vec!["k".into(), "main".into()]);
                ls.push(long.clone());
                ls.push(long.iter().cloned().rev().chain(vec!["k".to_string()]).collect());
                ls.push(vec![name(n.saturating_sub(1))]);
                ls.push((0..n).map(|_| "zz".to_string()).chain(vec!["k".to_string()]).collect());
            }
            for t in &ts {
                for l in &ls {
                    if !ctx.next() {
                        if ctx.stop() {
                            return;
                        }
                        continue;
                    }
                    let l: Vec<&str> = l.iter().map(|s| s.as_str()).collect();
                    check_tree(ctx, op, t, &l);
                }
            }
        },
    ));
    let ds: Vec<usize> = crate::spaces::sizes(tier.pick(40, 100), tier.pick(300, 1100));
    out.push(family(
        "profiles",
        "n levels of rules r over m levels of rules k (and 0, 1 or 3 of s between) over each of 7 bottoms (values, empty values, end of file, an empty rule, a rule k, values between rules, a wide rule), the nested rule being the only child, the first, the last or in the middle of values or of rules; n up to 40/100 and around powers of two, m in 0, 1, 2, 5, n",
        ds.len() as u64,
        move |b, ctx| {
            let n = ds[b as usize];
            let bottoms: Vec<Vec<T>> = vec![
                vec![val("a"), val("b")],
                vec![val(""), val("é"), val("")],
                vec![T::Eof],
                vec![rule("r", vec![])],
                vec![rule("k", vec![val("a"), val("b")])],
                vec![val("a"), rule("r", vec![val("b")]), val("c"), rule("k", vec![]), val("d"), T::Eof],
                vec![rule("s", (0..n.min(60)).map(|i| if i % 4 == 3 { rule("k", vec![val("x")]) } else { val("y") }).collect())],
            ];
            let mut ms = vec![0, 1, 2, 5, n];
            ms.dedup();
            let around: Vec<Box<dyn Fn(T) -> Vec<T>>> = vec![
                Box::new(|t| vec![t]),
                Box::new(|t| vec![t, val("y"), val("z")]),
                Box::new(|t| vec![val("x"), val("w"), t]),
                Box::new(|t| vec![val("x"), t, val("y")]),
                Box::new(|t| vec![rule("r", vec![val("x")]), t, rule("k", vec![]), val("z")]),
            ];
            let ls: Vec<Vec<&str>> = if with_names { vec![vec![], vec!["r"], vec!["k"], vec!["s"], vec!["k", "s"]] } else { vec![vec![]] };
            for m in ms {
                for mid in [0, 1, 3] {
                    for bt in &bottoms {
                        for ar in &around {
                            let mut t = bt.clone();
                            for (k, name) in [(m, "k"), (mid, "s"), (n, "r")] {
                                for _ in 0..k {
                                    t = ar(rule(name, t));
                                }
                            }
                            let t = rule("main", t);
                            for l in &ls {
                                if !ctx.next() {
                                    if ctx.stop() {
                                        return;
                                    }
                                    continue;
                                }
                                check_tree(ctx, op, &t, l);
                            }
                        }
                    }
                }
            }
        },
    ));
    let nn = NAMES.len() as u64;
    out.push(family(
        "names",
        format!("5 trees with rules and values named x, y for all ordered pairs of {} names (empty, blanks, dots, case, patterns, other alphabets, words of the notation, long){}", nn, if with_names { " x 9 lists of names with them" } else { "" }),
        nn,
        move |b, ctx| {
            let x = NAMES[b as usize];
            for y in NAMES {
                let xr = |v| rule(x, v);
                let yr = |v| rule(y, v);
                let ts = vec![
                    rule("main", vec![val(x), xr(vec![val(y), yr(vec![val(x), val(y)]), T::Eof]), val(y), val(x)]),
                    rule("main", vec![xr(vec![]), yr(vec![]), val(x), xr(vec![val("a")]), yr(vec![val("b")])]),
                    xr(vec![val("a"), yr(vec![xr(vec![val("b"), val("c")]), val("d")]), val("e"), yr(vec![]), val(y)]),
                    xr(vec![xr(vec![xr(vec![yr(vec![yr(vec![val(x)]), val("")]), val("z")])])]),
                    yr(vec![rule("k", vec![yr(vec![val(x), val(""), val(y)]), xr(vec![T::Eof, T::Eof])])]),
                ];
                let ls: Vec<Vec<&str>> = if with_names { vec![vec![], vec![x], vec![y], vec![x, y], vec![y, x], vec![x, x], vec!["k", x], vec!["main", "", x], vec!["zz", "a"]] } else { vec![vec![]] };
                for t in &ts {
                    for l in &ls {
                        if !ctx.next() {
                            if ctx.stop() {
                                return;
                            }
                            continue;
                        }
                        check_tree(ctx, op, t, l);
                    }
                }
            }
        },
    ));
    if with_names {
        let lens = crate::more::similar_lens(tier);
        out.push(family(
            "similar-names",
            format!("trees with rules named x and y that differ in one place (each char changed, its case, two swapped, one less or more, turned round), x of {:?} chars, in both orders x 5 lists of names", lens),
            lens.len() as u64 * 3,
            move |b, ctx| {
                let (w, ws) = crate::more::similar_words(crate::more::SIMILAR[b as usize % 3], lens[b as usize / 3]);
                for (x, y) in ws.iter().flat_map(|v| vec![(w.as_str(), v.as_str()), (v.as_str(), w.as_str())]) {
                    let t = rule("main", vec![val(x), rule(x, vec![val(y), rule(y, vec![val(x), val(y)]), T::Eof]), val(y), rule(y, vec![rule(x, vec![val("a")]), val("b")])]);
                    for l in [vec![x], vec![y], vec![x, "zz"], vec!["a", y, "b"], vec![x, y]] {
                        if !ctx.next() {
                            if ctx.stop() {
                                return;
                            }
                            continue;
                        }
                        check_tree(ctx, op, &t, &l);
                    }
                }
            },
        ));
    }
    let blocks = crate::more::char_blocks(tier);
    out.push(family(
        "every-char",
        format!("for {}: trees with it as value, between values, twice, next to an empty value or a rule, and as the name of a rule", if tier == Tier::Thorough { "every Unicode char" } else { "every char of the first plane and of the ends of the others" }),
        blocks.len() as u64,
        move |b, ctx| {
            let k = blocks[b as usize] * crate::more::CH;
            for c in (k..k + crate::more::CH).filter_map(std::char::from_u32) {
                if !ctx.next() {
                    if ctx.stop() {
                        return;
                    }
                    continue;
                }
                let s = c.to_string();
                let t = rule("main", vec![
                    val("a"), val(&s), val("b"),
                    rule("r", vec![val(&s)]),
                    val(&s), val(&s), val(""),
                    rule(&s, vec![val(&format!("{}x", s)), val(&format!("x{}", s)), val(&s)]),
                    T::Eof, val(&s), val("z"),
                ]);
                let l: Vec<&str> = if with_names { vec![if c as u32 % 2 == 0 { "r" } else { s.as_str() }] } else { vec![] };
                check_tree(ctx, op, &t, &l);
            }
        },
    ));
    out
}

// ---------------------------------------------------------------------- P23: navigation

/// what a helper must return: None is an error
#[derive(PartialEq, Debug)]
struct Ret<'a> {
    text: Option<&'a str>,
    /// (address, length) of the lists returned
    rest: Option<(*const u8, usize)>,
    sub: Option<(*const u8, usize)>,
    node: Option<*const u8>,
}

impl<'a> Ret<'a> {
    fn none() -> Ret<'a> {
        Ret { text: None, rest: None, sub: None, node: None }
    }
}
fn sl<X>(v: &[X]) -> Option<(*const u8, usize)> {
    if v.is_empty() {
        return Some((std::ptr::null(), 0)); // nothing to share
    }
    Some((v.as_ptr() as *const u8, v.len()))
}
fn pt<X>(v: &X) -> Option<*const u8> {
    Some(v as *const X as *const u8)
}

const ARGS: &[&str] = &["a", "", "r", "rs", "é"];

/// every call on a list of nodes: (name of the call, what it returns, what it must return)
fn calls<'a>(v: &'a [Node]) -> Vec<(String, Result<Ret<'a>, ()>, Result<Ret<'a>, ()>)> {
    let mut o = vec![];
    let first = v.first();
    let n = || Ret::none();
    let get = |r: Result<Ret<'a>, ast::Error>| r.map_err(|_| ());
    if let Some(f) = first {
        o.push((
            "get_nodename_and_nodes".to_string(),
            get(ast::get_nodename_and_nodes(f).map(|(t, s)| Ret { text: Some(t), sub: sl(s), ..n() })),
            match f {
                Node::Rule((t, s)) => Ok(Ret { text: Some(t), sub: sl(s), ..n() }),
                _ => Err(()),
            },
        ));
        o.push((
            "get_node_val".to_string(),
            get(ast::get_node_val(f).map(|t| Ret { text: Some(t), ..n() })),
            match f {
                Node::Val(t) => Ok(Ret { text: Some(t), ..n() }),
                _ => Err(()),
            },
        ));
    }
    o.push((
        "get_nodes_unique_val".to_string(),
        get(ast::get_nodes_unique_val(v).map(|t| Ret { text: Some(t), ..n() })),
        match v {
            [Node::Val(t)] => Ok(Ret { text: Some(t), ..n() }),
            _ => Err(()),
        },
    ));
    o.push((
        "consume_val".to_string(),
        get(ast::consume_val(v).map(|(t, r)| Ret { text: Some(t), rest: sl(r), ..n() })),
        match first {
            Some(Node::Val(t)) => Ok(Ret { text: Some(t), rest: sl(&v[1..]), ..n() }),
            _ => Err(()),
        },
    ));
    o.push((
        "split_first_nodes".to_string(),
        get(ast::split_first_nodes(v).map(|(x, r)| Ret { node: pt(x), rest: sl(r), ..n() })),
        match first {
            Some(x) => Ok(Ret { node: pt(x), rest: sl(&v[1..]), ..n() }),
            None => Err(()),
        },
    ));
    o.push((
        "peek_first_node".to_string(),
        get(ast::peek_first_node(v).map(|x| Ret { node: pt(x), ..n() })),
        match first {
            Some(x) => Ok(Ret { node: pt(x), ..n() }),
            None => Err(()),
        },
    ));
    o.push((
        "check_empty_nodes".to_string(),
        get(ast::check_empty_nodes(v).map(|_| n())),
        if v.is_empty() { Ok(n()) } else { Err(()) },
    ));
    for a in ARGS {
        o.push((
            format!("consume_this_value({:?})", a),
            get(ast::consume_this_value(a, v).map(|r| Ret { rest: sl(r), ..n() })),
            match first {
                Some(Node::Val(t)) if t == a => Ok(Ret { rest: sl(&v[1..]), ..n() }),
                _ => Err(()),
            },
        ));
        o.push((
            format!("consume_node_get_subnodes_for_rule_name_is({:?})", a),
            get(ast::consume_node_get_subnodes_for_rule_name_is(a, v).map(|(r, s)| Ret { rest: sl(r), sub: sl(s), ..n() })),
            match first {
                Some(Node::Rule((t, s))) if t == a => Ok(Ret { rest: sl(&v[1..]), sub: sl(s), ..n() }),
                _ => Err(()),
            },
        ));
    }
    o
}

fn flat_calls<'a>(v: &'a [flat::Node]) -> Vec<(String, Result<Ret<'a>, ()>, Result<Ret<'a>, ()>)> {
    use flat::Node as F;
    let mut o = vec![];
    let first = v.first();
    let n = || Ret::none();
    let get = |r: Result<Ret<'a>, ast::Error>| r.map_err(|_| ());
    if let Some(f) = first {
        o.push((
            "flat::get_node_val".to_string(),
            get(flat::get_node_val(f).map(|t| Ret { text: Some(t), ..n() })),
            match f {
                F::Val(t) => Ok(Ret { text: Some(t), ..n() }),
                _ => Err(()),
            },
        ));
        o.push((
            "flat::get_nodename".to_string(),
            get(flat::get_nodename(f).map(|t| Ret { text: Some(t), ..n() })),
            match f {
                F::BeginRule(t) | F::EndRule(t) => Ok(Ret { text: Some(t), ..n() }),
                _ => Err(()),
            },
        ));
    }
    o.push((
        "flat::consume_val".to_string(),
        get(flat::consume_val(v).map(|(t, r)| Ret { text: Some(t), rest: sl(r), ..n() })),
        match first {
            Some(F::Val(t)) => Ok(Ret { text: Some(t), rest: sl(&v[1..]), ..n() }),
            _ => Err(()),
        },
    ));
    o.push((
        "flat::split_first_nodes".to_string(),
        get(flat::split_first_nodes(v).map(|(x, r)| Ret { node: pt(x), rest: sl(r), ..n() })),
        match first {
            Some(x) => Ok(Ret { node: pt(x), rest: sl(&v[1..]), ..n() }),
            None => Err(()),
        },
    ));
    o.push((
        "flat::peek_first_node".to_string(),
        get(flat::peek_first_node(v).map(|x| Ret { node: pt(x), ..n() })),
        match first {
            Some(x) => Ok(Ret { node: pt(x), ..n() }),
            None => Err(()),
        },
    ));
    for a in ARGS {
        o.push((
            format!("flat::consume_this_value({:?})", a),
            get(flat::consume_this_value(a, v).map(|r| Ret { rest: sl(r), ..n() })),
            match first {
                Some(F::Val(t)) if t == a => Ok(Ret { rest: sl(&v[1..]), ..n() }),
                _ => Err(()),
            },
        ));
        o.push((
            format!("flat::consume_node_start_rule_name({:?})", a),
            get(flat::consume_node_start_rule_name(a, v).map(|r| Ret { rest: sl(r), ..n() })),
            match first {
                Some(F::BeginRule(t)) if t == a => Ok(Ret { rest: sl(&v[1..]), ..n() }),
                _ => Err(()),
            },
        ));
        o.push((
            format!("flat::consume_node_end_rule_name({:?})", a),
            get(flat::consume_node_end_rule_name(a, v).map(|r| Ret { rest: sl(r), ..n() })),
            match first {
                Some(F::EndRule(t)) if t == a => Ok(Ret { rest: sl(&v[1..]), ..n() }),
                _ => Err(()),
            },
        ));
    }
    o
}

/// follows every chain of successful calls over the list and over the children they return
fn walk<'a, N>(
    ctx: &mut Ctx,
    v: &'a [N],
    depth: usize,
    path: &mut Vec<String>,
    calls: &dyn Fn(&'a [N]) -> Vec<(String, Result<Ret<'a>, ()>, Result<Ret<'a>, ()>)>,
    sub: &dyn Fn(&'a N) -> Option<&'a [N]>,
    show: &dyn Fn() -> String,
) {
    ctx.stats.states += 1;
    let p = path.clone();
    let cs = match ctx.real(|| format!("list: {}\ncalls before: {:?}", show(), p), || calls(v)) {
        Some(c) => c,
        None => return,
    };
    let (mut go_rest, mut go_sub) = (false, false);
    for (name, got, want) in cs {
        ctx.stats.transitions += 1;
        if got != want {
            ctx.fail(format!(
                "list: {}\ncalls before: {:?}\n{} on the {} nodes left returns {:?}\nexpected {:?}",
                show(), path, name, v.len(), got, want
            ));
            return;
        }
        if let Ok(r) = got {
            go_rest |= r.rest.is_some();
            go_sub |= r.sub.is_some();
        }
    }
    if depth == 0 {
        return;
    }
    if go_rest {
        path.push("rest".into());
        walk(ctx, &v[1..], depth - 1, path, calls, sub, show);
        path.pop();
    }
    if go_sub {
        if let Some(s) = sub(&v[0]) {
            path.push("children".into());
            walk(ctx, s, depth - 1, path, calls, sub, show);
            path.pop();
        }
    }
}

pub fn navigation(tier: Tier) -> Vec<Family> {
    let mut out = vec![];
    let items = vec![
        val("a"),
        val(""),
        val("r"),
        val("rs"),
        val("é"),
        T::Eof,
        rule("r", vec![]),
        rule("rs", vec![val("a")]),
        rule("a", vec![val("r"), T::Eof]),
        rule("", vec![rule("r", vec![val("é")]), val("")]),
    ];
    let k = items.len() as u64;
    let max = tier.pick(4, 5);
    let n = seqs(k, max);
    let chunk = 200;
    out.push(family(
        "node-lists",
        format!("all {} lists of up to {} nodes from {} x every helper with every argument of {:?}, then again on every rest and list of children returned", n, max, k, ARGS),
        (n + chunk - 1) / chunk,
        move |b, ctx| {
            for i in b * chunk..((b + 1) * chunk).min(n) {
                if !ctx.next() {
                    if ctx.stop() {
                        return;
                    }
                    continue;
                }
                let l: Vec<Node> = nth_seq(k, i).into_iter().map(|j| items[j].to_real()).collect();
                ctx.nontrivial(!l.is_empty());
                ctx.outcome(&format!("{} nodes", l.len()));
                ctx.sample(|| format!("{:?}", l));
                walk(ctx, &l, 8, &mut vec![], &|v| calls(v), &|x| if let Node::Rule((_, s)) = x { Some(s) } else { None }, &|| format!("{:?}", l));
            }
        },
    ));
    let fl = || {
        use flat::Node as F;
        let s = |x: &str| x.to_string();
        vec![
            F::Val(s("a")),
            F::Val(s("")),
            F::Val(s("r")),
            F::Val(s("é")),
            F::EOF,
            F::BeginRule(s("r")),
            F::EndRule(s("r")),
            F::BeginRule(s("rs")),
            F::EndRule(s("rs")),
            F::BeginRule(s("")),
            F::EndRule(s("a")),
        ]
    };
    let k = fl().len() as u64;
    let n = seqs(k, max);
    out.push(family(
        "flat-lists",
        format!("all {} lists of up to {} flat nodes from {} x every helper with every argument of {:?}, then again on every rest", n, max, k, ARGS),
        (n + chunk - 1) / chunk,
        move |b, ctx| {
            for i in b * chunk..((b + 1) * chunk).min(n) {
                if !ctx.next() {
                    if ctx.stop() {
                        return;
                    }
                    continue;
                }
                let l: Vec<flat::Node> = nth_seq(k, i).into_iter().map(|j| fl().swap_remove(j)).collect();
                ctx.nontrivial(!l.is_empty());
                ctx.outcome(&format!("{} nodes", l.len()));
                ctx.sample(|| format!("{:?}", l));
                walk(ctx, &l, 8, &mut vec![], &|v| flat_calls(v), &|_| None, &|| format!("{:?}", l));
            }
        },
    ));
    let ns = crate::spaces::sizes(tier.pick(40, 100), tier.pick(600, 2100));
    out.push(family(
        "scale-lists",
        "lists of n nodes (plain and flattened from a tree), consumed one by one with every helper; names and values of n chars, equal or different in one char",
        ns.len() as u64,
        move |b, ctx| {
            let n = ns[b as usize];
            if !ctx.next() {
                return;
            }
            ctx.nontrivial(n > 0);
            let t = rule("main", (0..n).map(|i| if i % 3 == 2 { rule("r", vec![val("a")]) } else { val(["a", "r"][i % 2]) }).collect());
            let r = t.to_real();
            let l: &[Node] = if let Node::Rule((_, v)) = &r { v } else { &[] };
            walk(ctx, l, n + 2, &mut vec![], &|v| calls(v), &|_| None, &|| format!("{} nodes", n));
            let f = r.flatten();
            walk(ctx, &f, f.len() + 2, &mut vec![], &|v| flat_calls(v), &|_| None, &|| format!("{} flat nodes", n));
            // long names
            let a = "é".repeat(n);
            let mut others = vec![format!("{}x", a), a.chars().skip(1).collect::<String>()];
            if n > 0 {
                others.push(a.chars().take(n - 1).chain("e".chars()).collect());
                others.push(format!("e{}", a.chars().skip(1).collect::<String>()));
            }
            let v = vec![val(&a).to_real()];
            let w = vec![rule(&a, vec![]).to_real()];
            let fw = w[0].flatten();
            for o in others.iter().chain(vec![&a]) {
                let same = *o == a;
                let got = [
                    ast::consume_this_value(o, &v).is_ok(),
                    ast::consume_node_get_subnodes_for_rule_name_is(o, &w).is_ok(),
                    flat::consume_node_start_rule_name(o, &fw).is_ok(),
                    flat::consume_node_end_rule_name(o, &fw[1..]).is_ok(),
                    flat::consume_this_value(o, &[flat::Node::Val(a.clone())]).is_ok(),
                ];
                if got.iter().any(|&g| g != (same || *o == a)) {
                    ctx.fail(format!("name or value {:?} asked, {:?} in the list: (consume_this_value, subnodes, start, end, flat value) = {:?}", o, a, got));
                    return;
                }
            }
        },
    ));
    // long lists of every kind, whole and then every rest
    let top = tier.pick(310, 1100);
    let kinds = 5u64;
    let pats: Vec<Vec<usize>> = (1..seqs(kinds, 3)).map(|i| nth_seq(kinds, i)).collect();
    let lasts = kinds as usize;
    out.push(family(
        "long-lists",
        format!("lists of {} to {} nodes, plain and flat: every pattern of up to 3 of {} kinds of node again and again, and ending in each kind; every helper on the list and on every rest of it", top - 2, top, kinds),
        pats.len() as u64,
        move |b, ctx| {
            let p = &pats[b as usize];
            for d in 0..p.len() {
                for last in 0..=lasts {
                    if p.len() > 1 && last < lasts {
                        continue;
                    }
                    if !ctx.next() {
                        if ctx.stop() {
                            return;
                        }
                        continue;
                    }
                    ctx.nontrivial(true);
                    let n = top - d;
                    let ks: Vec<usize> = (0..n).map(|i| if i + 1 == n && last < lasts { last } else { p[i % p.len()] }).collect();
                    let what = || format!("{} nodes: kinds {:?} again and again (0 value, 1 other value, 2 end of input, 3 rule or begin of rule, 4 other rule or end of rule), the last of kind {}", n, p, ks[n - 1]);
                    ctx.sample(what);
                    ctx.outcome(if last < lasts { "one kind and a last one" } else { "a pattern" });
                    let plain: Vec<Node> = ks
                        .iter()
                        .map(|k| match k {
                            0 => val("a").to_real(),
                            1 => val("é").to_real(),
                            2 => T::Eof.to_real(),
                            3 => rule("r", vec![val("a")]).to_real(),
                            _ => rule("rs", vec![]).to_real(),
                        })
                        .collect();
                    walk(ctx, &plain, n + 1, &mut vec![], &|v| calls(v), &|_| None, &what);
                    let f: Vec<flat::Node> = ks
                        .iter()
                        .map(|k| match k {
                            0 => flat::Node::Val("a".into()),
                            1 => flat::Node::Val("é".into()),
                            2 => flat::Node::EOF,
                            3 => flat::Node::BeginRule("r".into()),
                            _ => flat::Node::EndRule("r".into()),
                        })
                        .collect();
                    walk(ctx, &f, n + 1, &mut vec![], &|v| flat_calls(v), &|_| None, &what);
                }
            }
        },
    ));
    let al = ["a", "A", "b", " ", "\n", "é", ".", "_", "\0"];
    let mut strs = crate::gen::strings_upto(&al, tier.pick(3, 4));
    strs.extend(NAMES.iter().map(|s| s.to_string()));
    let strs = std::sync::Arc::new(strs);
    let ns = strs.len() as u64;
    let s2 = strs.clone();
    let lists = |s: &str| {
        let v = vec![val(s).to_real(), val("x").to_real()];
        let w = vec![rule(s, vec![val("k")]).to_real(), T::Eof.to_real()];
        let f = vec![flat::Node::Val(s.to_string()), flat::Node::EOF];
        let g = vec![flat::Node::BeginRule(s.to_string()), flat::Node::EndRule(s.to_string())];
        (v, w, f, g)
    };
    fn asked(o: &str, l: &(Vec<Node>, Vec<Node>, Vec<flat::Node>, Vec<flat::Node>)) -> [bool; 5] {
        [
            ast::consume_this_value(o, &l.0).is_ok(),
            ast::consume_node_get_subnodes_for_rule_name_is(o, &l.1).is_ok(),
            flat::consume_this_value(o, &l.2).is_ok(),
            flat::consume_node_start_rule_name(o, &l.3).is_ok(),
            flat::consume_node_end_rule_name(o, &l.3[1..]).is_ok(),
        ]
    }
    out.push(family(
        "strings",
        format!("all ordered pairs of {} strings (all of up to {} chars over {:?}, and odd names): one on the list, as value and as name, the other asked", ns, tier.pick(3, 4), al),
        ns,
        move |b, ctx| {
            let s = &s2[b as usize];
            let l = lists(s);
            for o in s2.iter() {
                if !ctx.next() {
                    if ctx.stop() {
                        return;
                    }
                    continue;
                }
                ctx.nontrivial(true);
                ctx.stats.states += 5;
                ctx.stats.transitions += 5;
                ctx.outcome(if o == s { "the same" } else { "another" });
                match ctx.real(|| format!("{:?} on the list, {:?} asked", s, o), || asked(o, &l)) {
                    Some(g) if g != [o == s; 5] => {
                        ctx.fail(format!("{:?} on the list, {:?} asked: (consume_this_value, consume_node_get_subnodes_for_rule_name_is, flat::consume_this_value, flat::consume_node_start_rule_name, flat::consume_node_end_rule_name) succeed {:?}", s, o, g));
                        return;
                    }
                    _ => (),
                }
            }
        },
    ));
    let blocks = crate::more::char_blocks(tier);
    out.push(family(
        "every-char",
        format!("for {}: it on the list, alone and next to others, and it, its case variants, its neighbours, and nothing asked", if tier == Tier::Thorough { "every Unicode char" } else { "every char of the first plane and of the ends of the others" }),
        blocks.len() as u64,
        move |b, ctx| {
            let k = blocks[b as usize] * crate::more::CH;
            for c in (k..k + crate::more::CH).filter_map(std::char::from_u32) {
                if !ctx.next() {
                    if ctx.stop() {
                        return;
                    }
                    continue;
                }
                ctx.nontrivial(true);
                let mut os: Vec<String> = vec!["".into(), " ".into(), format!("{}{}", c, c), format!("a{}", c), format!("{}a", c), "a".into(), c.to_string()];
                os.extend(crate::more::relatives(c).into_iter().map(|c| c.to_string()));
                for s in [c.to_string(), format!("a{}", c), format!("{}a", c)] {
                    let l = lists(&s);
                    for o in &os {
                        ctx.stats.states += 5;
                        ctx.stats.transitions += 5;
                        match ctx.real(|| format!("{:?} on the list, {:?} asked", s, o), || asked(o, &l)) {
                            Some(g) if g != [*o == s; 5] => {
                                ctx.fail(format!("{:?} on the list, {:?} asked: (consume_this_value, consume_node_get_subnodes_for_rule_name_is, flat::consume_this_value, flat::consume_node_start_rule_name, flat::consume_node_end_rule_name) succeed {:?}", s, o, g));
                                return;
                            }
                            _ => (),
                        }
                    }
                }
                ctx.outcome("as asked");
            }
        },
    ));
    out
}

// ---------------------------------------------------------------------- only calling (P12)

pub fn small_trees(max: usize) -> Trees {
    Trees::new(vec![val("a"), val(""), T::Eof], vec!["a", "b"], max)
}
/// every helper on the children of every node, and on its flat list: how many succeed
pub fn touch(n: &Node) -> usize {
    fn go(v: &[Node]) -> usize {
        let mut k = calls(v).iter().filter(|c| c.1.is_ok()).count();
        for x in v {
            if let Node::Rule((_, s)) = x {
                k += go(s);
            }
        }
        k
    }
    let f = n.flatten();
    go(std::slice::from_ref(n)) + (0..=f.len()).map(|i| flat_calls(&f[i..]).iter().filter(|c| c.1.is_ok()).count()).sum::<usize>()
}
