//! Oracles of the parsing properties (P01–P09, P12, P24)

use crate::frame::*;
use crate::gen::*;
use crate::model::*;
use crate::spaces::*;
use dynparser::ast;
use dynparser::parser::{ErrPriority, Error};
use dynparser::{parse, parse_debug};
use std::collections::HashMap;
use std::cell::RefCell;
use std::sync::OnceLock;

fn case(p: &Prep, t: &str) -> String {
    format!("rules: {}\ntext: {:?}", show_rules(&p.rules), clip(t, 2000))
}
pub fn show_err(e: &Error) -> String {
    format!(
        "Err(n={} row={} col={} start_line={} priority={:?} descr={:?} before={:?} after={:?} rules={:?})",
        e.pos.n, e.pos.row, e.pos.col, e.pos.start_line, e.priority, clip(&e.descr, 300), clip(&e.line_before, 300), clip(&e.line_after, 300), e.parsing_rules
    )
}
pub fn show_res(r: &Result<ast::Node, Error>) -> String {
    match r {
        Ok(n) => format!("Ok({})", clip(&T::from_real(n).show(), 1500)),
        Err(e) => show_err(e),
    }
}
fn show_out(m: &Machine, o: &Out) -> String {
    match o {
        Out::Ok(t) => format!("Ok({})", clip(&t.show(), 1500)),
        Out::Err(e) => format!(
            "Err(n={} {} {:?}{} rules={:?})",
            e.n,
            if e.crit { "Critical" } else { "Normal" },
            e.kind,
            if let Kind::Leaf(i) = e.kind { format!(" {}", m.leaves[i].as_ref().map(show).unwrap_or_default()) } else { String::new() },
            e.trace.iter().map(|&i| m.names[i as usize].clone()).collect::<Vec<_>>()
        ),
    }
}

pub fn real(ctx: &mut Ctx, p: &Prep, t: &str) -> Option<Result<ast::Node, Error>> {
    ctx.real(|| case(p, t), || parse(t, &p.real))
}

fn disagree(ctx: &mut Ctx, p: &Prep, t: &str, r: &Result<ast::Node, Error>, o: &Out, why: &str) {
    ctx.fail(format!("{}\nreal:  {}\nmodel: {}\n{}", case(p, t), show_res(r), show_out(&p.m, o), why));
}

// ---------------------------------------------------------------------- P01

pub fn o_accept(ctx: &mut Ctx, p: &mut Prep, t: &str, cs: &[char]) {
    let r = match real(ctx, p, t) {
        Some(r) => r,
        None => return,
    };
    let o = p.m.run(cs);
    let acc = matches!(o, Out::Ok(_));
    ctx.outcome(if acc { "accepted" } else { "rejected" });
    ctx.nontrivial(acc || matches!(&o, Out::Err(e) if e.n > 1));
    if r.is_ok() != acc {
        disagree(ctx, p, t, &r, &o, "acceptance differs");
    }
}

// ---------------------------------------------------------------------- P02

pub fn o_tree(ctx: &mut Ctx, p: &mut Prep, t: &str, cs: &[char]) {
    let r = match real(ctx, p, t) {
        Some(r) => r,
        None => return,
    };
    if let Ok(n) = &r {
        let o = p.m.run(cs);
        if let Out::Ok(mt) = &o {
            ctx.outcome("tree");
            ctx.nontrivial(matches!(mt, T::Rule(_, v) if !v.is_empty()));
            if !mt.same(n) {
                disagree(ctx, p, t, &r, &o, "the tree differs");
            }
            return;
        }
        ctx.outcome("accepted by the implementation only");
        return;
    }
    ctx.outcome("rejected");
}

// ---------------------------------------------------------------------- P03

pub fn flat_text(v: &[ast::flat::Node]) -> String {
    v.iter().map(|n| if let ast::flat::Node::Val(s) = n { s.as_str() } else { "" }).collect()
}
fn rule_names(n: &ast::Node, out: &mut Vec<String>) {
    if let ast::Node::Rule((name, v)) = n {
        if !out.contains(name) {
            out.push(name.clone());
        }
        v.iter().for_each(|x| rule_names(x, out));
    }
}

pub fn o_leaves(ctx: &mut Ctx, p: &mut Prep, t: &str, _cs: &[char]) {
    let r = match real(ctx, p, t) {
        Some(r) => r,
        None => return,
    };
    let n = match r {
        Ok(n) => n,
        Err(_) => {
            ctx.outcome("rejected");
            return;
        }
    };
    ctx.outcome("tree");
    ctx.nontrivial(!t.is_empty());
    let text = |n: &ast::Node| T::from_real(n).text();
    let res = ctx.real(
        || format!("{}\ntransforming the tree", case(p, t)),
        || {
            let mut v: Vec<(String, String)> = vec![("tree".into(), text(&n))];
            let c = n.compact();
            v.push(("compact".into(), text(&c)));
            v.push(("flatten".into(), flat_text(&n.flatten())));
            v.push(("compact, flatten".into(), flat_text(&c.flatten())));
            let mut names = vec![];
            rule_names(&n, &mut names);
            let names: Vec<&str> = names.iter().map(|s| s.as_str()).take(4).collect();
            for mask in 0..1u32 << names.len() {
                let keep: Vec<&str> = names.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, s)| *s).collect();
                let q = n.pass_through_except(&keep);
                v.push((format!("pass_through_except {:?}", keep), text(&q)));
                v.push((format!("pass_through_except {:?}, compact", keep), text(&q.compact())));
                v.push((format!("pass_through_except {:?}, flatten", keep), flat_text(&q.flatten())));
            }
            v
        },
    );
    if let Some(v) = res {
        for (what, s) in v {
            if s != t {
                ctx.fail(format!("{}\ntree: {}\nleaves after {}: {:?}", case(p, t), T::from_real(&n).show(), what, clip(&s, 2000)));
                return;
            }
        }
    }
}

// ---------------------------------------------------------------------- P05

/// None if the coordinates of the error are consistent with the text
pub fn bad_coords(e: &Error, cs: &[char]) -> Option<String> {
    let n = e.pos.n;
    if n > cs.len() {
        return Some(format!("position {} after the end of the text ({} chars)", n, cs.len()));
    }
    let row = cs[..n].iter().filter(|&&c| c == '\n').count();
    let start = cs[..n].iter().rposition(|&c| c == '\n').map_or(0, |i| i + 1);
    let col = n - cs[..n].iter().rposition(|&c| c == '\n' || c == '\r').map_or(0, |i| i + 1);
    let before: String = cs[start..n].iter().collect();
    let after: String = cs[n..].iter().take_while(|&&c| c != '\n' && c != '\r').collect();
    let want = (row, col, start, before, after);
    let got = (e.pos.row, e.pos.col, e.pos.start_line, e.line_before.clone(), e.line_after.clone());
    if want == got {
        None
    } else {
        Some(format!("at n={} (row, col, start_line, before, after)\n  are      {:?}\n  expected {:?}", n, got, want))
    }
}

pub fn o_coords(ctx: &mut Ctx, p: &mut Prep, t: &str, cs: &[char]) {
    // the cost of tracing grows with the square of the rules walked
    for &dbg in if cs.len() > 3000 { &[false][..] } else { &[false, true] } {
        let r = match ctx.real(|| case(p, t), || if dbg { parse_debug(t, &p.real) } else { parse(t, &p.real) }) {
            Some(r) => r,
            None => return,
        };
        if let Err(e) = &r {
            if !dbg {
                ctx.outcome(if e.pos.row > 0 { "error after the first line" } else { "error on the first line" });
                ctx.nontrivial(e.pos.n > 0);
            }
            if let Some(w) = bad_coords(e, cs) {
                ctx.fail(format!("{}\nreal: {}\n{}", case(p, t), show_err(e), w));
                return;
            }
        } else if !dbg {
            ctx.outcome("accepted");
        }
    }
}

// ---------------------------------------------------------------------- P06, P07

pub fn o_errors(ctx: &mut Ctx, p: &mut Prep, t: &str, cs: &[char]) {
    critical(ctx, p, t, cs, false)
}
pub fn o_missing(ctx: &mut Ctx, p: &mut Prep, t: &str, cs: &[char]) {
    critical(ctx, p, t, cs, true)
}

fn critical(ctx: &mut Ctx, p: &mut Prep, t: &str, cs: &[char], missing: bool) {
    let r = match real(ctx, p, t) {
        Some(r) => r,
        None => return,
    };
    let o = p.m.run(cs);
    let why = match (&o, &r) {
        (Out::Ok(_), Ok(_)) => {
            ctx.outcome("accepted");
            None
        }
        (Out::Ok(_), Err(e)) => {
            if e.priority == ErrPriority::Critical {
                Some("critical error, but none was reached outside a negation")
            } else {
                Some("rejected, but nothing that was reached outside a negation fails")
            }
        }
        (Out::Err(m), _) if m.crit => {
            ctx.nontrivial(true);
            ctx.outcome("critical");
            match &r {
                Ok(_) => Some("accepted, but a critical error was reached"),
                Err(e) if e.priority != ErrPriority::Critical => Some("the error is not critical"),
                Err(e) if e.pos.n != m.n => Some("position of the critical error"),
                Err(e) => match &m.kind {
                    Kind::Text(s) if *s != e.descr => Some("description of the error"),
                    Kind::Missing(s) if !names_rule(&e.descr, s) => Some("the description does not name the missing rule"),
                    _ => None,
                },
            }
        }
        (Out::Err(_), Ok(_)) => Some("accepted, but it should be rejected"),
        (Out::Err(_), Err(e)) => {
            ctx.outcome("normal error");
            if e.priority == ErrPriority::Critical {
                Some("critical error, but none was reached outside a negation")
            } else {
                None
            }
        }
    };
    let _ = missing;
    if let Some(w) = why {
        disagree(ctx, p, t, &r, &o, w);
    }
}

/// the name, as a whole word
fn names_rule(d: &str, name: &str) -> bool {
    let sep = |c: char| !(c.is_alphanumeric() || c == '_' || c == '.');
    let mut from = 0;
    while let Some(i) = d[from..].find(name) {
        let (s, e) = (from + i, from + i + name.len());
        let l = d[..s].chars().next_back().map_or(true, sep);
        let r = d[e..].chars().next().map_or(true, |c| sep(c) || c == '.');
        if l && r {
            return true;
        }
        from = s + d[s..].chars().next().map_or(1, |c| c.len_utf8());
    }
    false
}

// ---------------------------------------------------------------------- P08

/// the description the implementation gives for a leaf that fails alone
fn learned(e: Option<&E>) -> String {
    thread_local!(static C: RefCell<HashMap<String, String>> = RefCell::new(HashMap::new()));
    let key = e.map_or("prefix".to_string(), show);
    if let Some(s) = C.with(|c| c.borrow().get(&key).cloned()) {
        return s;
    }
    // a text the expression does not match
    let (r, t) = match e {
        None => (rules1(lit("")), "a".to_string()),
        Some(E::Eof) => (rules1(E::Eof), "a".to_string()),
        Some(x) => (rules1(x.clone()), String::new()),
    };
    let d = match parse(&t, &to_real(&r)) {
        Err(e) => e.descr,
        Ok(_) => String::new(),
    };
    C.with(|c| {
        let mut g = c.borrow_mut();
        if g.len() < 5000 {
            g.insert(key, d.clone());
        }
    });
    d
}

pub fn o_deepest(ctx: &mut Ctx, p: &mut Prep, t: &str, cs: &[char]) {
    let r = match real(ctx, p, t) {
        Some(r) => r,
        None => return,
    };
    let o = p.m.run(cs);
    let why = match (&o, &r) {
        (Out::Err(m), Err(e)) if !m.crit => {
            ctx.nontrivial(m.n > 1);
            ctx.outcome(match m.kind {
                Kind::Prefix => "prefix only",
                Kind::Not => "negation",
                Kind::EmptyOr => "empty choice",
                _ => "leaf",
            });
            if e.priority != ErrPriority::Normal {
                Some("the error should be normal".to_string())
            } else if e.pos.n != m.n {
                Some("the error is not the furthest one".to_string())
            } else {
                let want = match &m.kind {
                    Kind::Leaf(i) => p.m.leaves[*i].as_ref().map(|x| learned(Some(x))),
                    Kind::Prefix => Some(learned(None)),
                    _ => None,
                };
                match want {
                    Some(w) if !w.is_empty() && w != e.descr => {
                        Some(format!("the error is of another expression (it should be described {:?})", w))
                    }
                    _ => None,
                }
            }
        }
        (Out::Ok(_), _) => {
            ctx.outcome("accepted");
            None
        }
        _ => {
            ctx.outcome("critical");
            None
        }
    };
    if let Some(w) = why {
        disagree(ctx, p, t, &r, &o, &w);
    }
}

// ---------------------------------------------------------------------- P09

fn debug_prefix() -> &'static str {
    static C: OnceLock<String> = OnceLock::new();
    C.get_or_init(|| match parse_debug("b", &to_real(&rules1(lit("a")))) {
        Err(e) => e.parsing_rules.get(0).and_then(|s| s.strip_suffix("main")).unwrap_or("?").to_string(),
        Ok(_) => "?".into(),
    })
}

pub fn o_debug(ctx: &mut Ctx, p: &mut Prep, t: &str, cs: &[char]) {
    let r = match real(ctx, p, t) {
        Some(r) => r,
        None => return,
    };
    let d = match ctx.real(|| case(p, t), || parse_debug(t, &p.real)) {
        Some(r) => r,
        None => return,
    };
    let why = match (&r, &d) {
        (Ok(a), Ok(b)) => {
            ctx.outcome("tree");
            if a == b {
                None
            } else {
                Some("the trees differ".to_string())
            }
        }
        (Err(a), Err(b)) => {
            ctx.outcome(if a.priority == ErrPriority::Critical { "critical error" } else { "normal error" });
            if a.pos != b.pos || a.descr != b.descr || a.line_before != b.line_before || a.line_after != b.line_after || a.priority != b.priority {
                Some("the errors differ".to_string())
            } else if !a.parsing_rules.is_empty() {
                Some("list of rules without debug".to_string())
            } else {
                let o = p.m.run(cs);
                match o {
                    Out::Err(m) => {
                        ctx.nontrivial(m.trace.len() > 1);
                        let want: Vec<String> = m.trace.iter().map(|&i| format!("{}{}", debug_prefix(), p.m.names[i as usize])).collect();
                        if want == b.parsing_rules {
                            None
                        } else {
                            Some(format!("rules walked, expected {:?}", want))
                        }
                    }
                    Out::Ok(_) => None,
                }
            }
        }
        _ => Some("one succeeds, the other fails".to_string()),
    };
    if let Some(w) = why {
        ctx.fail(format!("{}\nplain: {}\ndebug: {}\n{}", case(p, t), show_res(&r), show_res(&d), w));
    }
}

// ---------------------------------------------------------------------- P12 (parsing)

pub fn o_returns(ctx: &mut Ctx, p: &mut Prep, t: &str, cs: &[char]) {
    let r = match real(ctx, p, t) {
        Some(r) => r,
        None => return,
    };
    if cs.len() <= 3000 {
        let _ = ctx.real(|| case(p, t), || parse_debug(t, &p.real).is_ok());
    }
    match r {
        Ok(n) => {
            ctx.outcome("tree");
            ctx.nontrivial(!t.is_empty());
            let _ = ctx.real(
                || format!("{}\ntransforming the tree", case(p, t)),
                || {
                    let c = n.compact().prune(&["r"]).pass_through_except(&["s", "r"]);
                    c.flatten().len() + n.flatten().len()
                },
            );
        }
        Err(e) => {
            ctx.outcome("error");
            ctx.nontrivial(e.pos.n > 0);
        }
    }
}

// ---------------------------------------------------------------------- more spaces

/// P04: bounds x expressions x number of matches x what follows
pub fn reps(tier: Tier) -> Vec<Space> {
    let top = tier.pick(12usize, 24);
    let mut v = vec![];
    v.push(Space {
        name: "bounds".into(),
        descr: format!("e repeated (min,max), 0<=min<=max<={} or unbounded, e in literal, set, dot, rule, group, choice with two lengths, nullable, empty, negation, nested repetition, error; 0..=max+2 matches, followed by nothing, another char or the unit cut; rest of the rule absorbs nothing, the same chars or anything", top),
        batches: ((top + 1) * (top + 2)) as u64,
        hang_s: 20,
        gen: Box::new(move |b, f| {
            let (min, mx) = (b as usize / (top + 2), b as usize % (top + 2));
            let max = if mx == top + 1 { None } else { Some(mx) };
            if max.map_or(false, |m| m < min) {
                return;
            }
            let units: Vec<(E, &str)> = vec![
                (lit("a"), "a"),
                (lit("ab"), "ab"),
                (class("x", &[('a', 'c')]), "b"),
                (E::Dot, "é"),
                (rf("r"), "a"),
                (and(vec![lit("a"), opt(lit("b"))]), "ab"),
                (or(vec![lit("aa"), lit("a")]), "a"),
                (opt(lit("a")), "a"),
                (star(lit("a")), "a"),
                (lit(""), ""),
                (not(lit("b")), ""),
                (and(vec![not(lit("b")), E::Dot]), "a"),
                (rep(lit("a"), 2, Some(2)), "aa"),
                (or(vec![lit("a"), err("stop")]), "a"),
                (E::Eof, ""),
                (rf("s"), "a"),
            ];
            for (e, u) in units {
                let hi = max.unwrap_or(min + 2) + 2;
                let mut ts = vec![];
                for k in 0..=hi {
                    for tail in ["", "b", "c", "a", "ac"] {
                        ts.push(format!("{}{}", u.repeat(k), tail));
                    }
                }
                ts.sort();
                ts.dedup();
                for after in [None, Some(star(lit("a"))), Some(lit("a")), Some(star(E::Dot)), Some(rf("r")), Some(opt(lit("b")))] {
                    let x = rep(e.clone(), min, max);
                    let m = match after {
                        None => x,
                        Some(y) => and(vec![x, y]),
                    };
                    f(rules(vec![("main", m), ("r", or(vec![lit("b"), lit("a")])), ("s", opt(rf("r")))]), &ts);
                }
            }
        }),
    });
    let bs: Vec<(usize, Option<usize>)> = {
        let mut v = vec![];
        let t = tier.pick(3, 4);
        for min in 0..=t {
            for max in min..=t {
                v.push((min, Some(max)));
            }
            v.push((min, None));
        }
        v
    };
    let nb = bs.len() as u64;
    let tx = strings_upto(&["a", "b"], tier.pick(6, 7));
    v.push(Space {
        name: "nested-bounds".into(),
        descr: format!("repetition of a repetition, alone, in a sequence and in a choice: all {}x{} pairs of bounds x 6 shapes x {} texts", nb, nb, tx.len()),
        batches: nb * nb,
        hang_s: 20,
        gen: Box::new(move |b, f| {
            let (i, j) = (bs[(b / nb) as usize], bs[(b % nb) as usize]);
            let r = |e, x: (usize, Option<usize>)| rep(e, x.0, x.1);
            let shapes = vec![
                r(r(lit("a"), i), j),
                and(vec![r(r(lit("a"), i), j), star(E::Dot)]),
                and(vec![r(lit("a"), i), r(lit("a"), j)]),
                and(vec![r(lit("a"), i), r(or(vec![lit("b"), lit("ab")]), j)]),
                r(and(vec![r(lit("a"), i), lit("b")]), j),
                or(vec![and(vec![r(lit("a"), i), lit("b")]), r(class("ab", &[]), j)]),
            ];
            for s in shapes {
                f(rules1(s), &tx);
            }
        }),
    });
    v
}

/// P04: the number of nodes, directly
pub fn o_count(ctx: &mut Ctx, p: &mut Prep, t: &str, cs: &[char]) {
    let r = match real(ctx, p, t) {
        Some(r) => r,
        None => return,
    };
    let o = p.m.run(cs);
    match (&o, &r) {
        (Out::Ok(m), Ok(n)) => {
            ctx.outcome("matched");
            ctx.nontrivial(true);
            if !m.same(n) {
                disagree(ctx, p, t, &r, &o, "the matches differ");
            }
        }
        (Out::Err(_), Err(_)) => ctx.outcome("not matched"),
        _ => disagree(ctx, p, t, &r, &o, "acceptance differs"),
    }
}

/// shapes no peg text gives: empty choices and sequences, min > max, huge bounds
pub fn odd_space(tier: Tier) -> Space {
    let leaves = vec![lit(""), lit("a"), E::Or(vec![]), E::And(vec![]), E::Eof, class("", &[]), class("", &[('b', 'a')]), rf("r"), rf("nope"), err("")];
    let un = vec![
        Un::Not,
        Un::Rep(0, Some(0)),
        Un::Rep(0, None),
        Un::Rep(1, None),
        Un::Rep(3, Some(1)),
        Un::Rep(1, Some(0)),
        Un::Rep(5, None),
        Un::Rep(0, Some(7)),
    ];
    let p = Pool::new(leaves, un, tier.pick(4, 5), false);
    let n = p.total();
    let texts = strings_upto(&["a", "é"], 3);
    let chunk = 200;
    Space {
        name: "odd".into(),
        descr: format!("{} trees with empty choices and sequences, empty sets, inverted ranges and bounds, nullable loops x {} texts", n, texts.len()),
        batches: (n + chunk - 1) / chunk,
        hang_s: 20,
        gen: Box::new(move |b, f| {
            for i in b * chunk..((b + 1) * chunk).min(n) {
                let mut r = rules1(p.nth(i));
                r.push(("r".into(), or(vec![and(vec![lit("a"), rf("r")]), star(opt(E::Eof))])));
                f(r, &texts);
            }
        }),
    }
}

/// missing main, and long chains to a missing rule
pub fn missing_more() -> Space {
    Space {
        name: "missing-main".into(),
        descr: "no main (empty rule set, other rules, names that differ in case or spaces), references inside every operator".into(),
        batches: 1,
        hang_s: 20,
        gen: Box::new(|_, f| {
            let ts: Vec<String> = strings_upto(&["a", "b"], 2);
            f(vec![], &ts);
            for n in ["Main", "MAIN", " main", "main ", "mai", "mainn", "r", ""] {
                f(vec![(n.to_string(), lit("a"))], &ts);
            }
            for n in ["x", "é", "a.b", ".a", "x y", "<r>", "", "r'", "{}", "mainx", "MAIN"] {
                for e in [rf(n), and(vec![opt(lit("a")), rf(n)]), or(vec![lit("b"), rf(n), lit("a")]), star(or(vec![lit("a"), rf(n)])), and(vec![not(rf(n)), star(E::Dot)]), opt(rf(n)), and(vec![lit("a"), not(not(rf(n)))])] {
                    f(vec![("main".to_string(), e)], &ts);
                }
            }
        }),
    }
}

// ---------------------------------------------------------------------- P24

pub fn unicode(tier: Tier) -> Vec<Family> {
    const CH: u32 = 0x400;
    let mut v = vec![];
    v.push(family(
        "every-char",
        "every Unicode scalar value c: dot, literal c, sets [c], [c-c], [pred-succ], and literals/sets of its neighbours (c-1, c+1), eof, with texts c, c c, 'x' c, c 'x', and its case variants and chars with the same low bits; position, tree and columns",
        (0x110000 / CH) as u64,
        |b, ctx| {
            let dot = to_real(&rules1(E::Dot));
            let dots = to_real(&rules1(star(E::Dot)));
            let eof = to_real(&rules1(E::Eof));
            let doteof = to_real(&rules1(and(vec![E::Dot, E::Eof])));
            let xdot = to_real(&rules1(and(vec![lit("x"), E::Dot, lit("x")])));
            for u in b as u32 * CH..(b as u32 + 1) * CH {
                let c = match std::char::from_u32(u) {
                    Some(c) => c,
                    None => continue,
                };
                if !ctx.next() {
                    if ctx.stop() {
                        return;
                    }
                    continue;
                }
                ctx.nontrivial(true);
                let near = |d: i64| {
                    let mut k = u as i64 + d;
                    while k >= 0 && k < 0x110000 {
                        if let Some(x) = std::char::from_u32(k as u32) {
                            return Some(x);
                        }
                        k += d;
                    }
                    None
                };
                let (pred, succ) = (near(-1), near(1));
                let s = c.to_string();
                let r = ctx.real(|| format!("char {:?} (U+{:04X})", c, u), || one_char(c, &s, pred, succ, &dot, &dots, &eof, &doteof, &xdot));
                match r {
                    Some(Some(w)) => ctx.fail(format!("char {:?} (U+{:04X}): {}", c, u, w)),
                    Some(None) => ctx.outcome(["1 byte", "2 bytes", "3 bytes", "4 bytes"][c.len_utf8() - 1]),
                    None => (),
                }
            }
        },
    ));
    // all pairs over a list of chars chosen to collide: ends of ranges, same low bits, case, normal forms
    let list: Vec<char> = {
        let mut v: Vec<u32> = vec![0, 1, 9, 10, 13, 0x1f, 0x20, 0x7e, 0x7f, 0x80, 0x81, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x10ffff];
        v.extend("aAbBzZ09eéèEÉêÿ_-[]'\"\\\u{301}\u{df}\u{1e9e}\u{131}\u{130}KK\u{2028}😀😁".chars().map(|c| c as u32));
        for base in ['a' as u32, 'é' as u32] {
            for k in [0x100u32, 0x200, 0x1000, 0x10000, 0x20000] {
                v.push(base + k);
            }
        }
        v.sort();
        v.dedup();
        v.into_iter().filter_map(std::char::from_u32).collect()
    };
    let n = list.len() as u64;
    let l2 = list.clone();
    v.push(family(
        "pairs-of-chars",
        format!("all triples (x, y, z) of {} chars chosen to collide (ends of blocks, same low bits, case pairs, normal forms, ends of line): literal x, set [x], sets [x-y], [z x-y], list xy, on the text z; literal xy on z y and x z", n),
        n,
        move |b, ctx| {
            let x = l2[b as usize];
            for &y in &l2 {
                let sets: Vec<(String, Box<dyn Fn(char) -> bool>, _)> = vec![
                    (format!("[{:?}]", x), Box::new(move |z| z == x), to_real(&rules1(class(&x.to_string(), &[])))),
                    (format!("[{:?}-{:?}]", x, y), Box::new(move |z| x <= z && z <= y), to_real(&rules1(class("", &[(x, y)])))),
                    (format!("[{:?} {:?}]", x, y), Box::new(move |z| z == x || z == y), to_real(&rules1(class(&format!("{}{}", x, y), &[])))),
                    (format!("[{:?} {:?}-{:?}]", x, 'a', y), Box::new(move |z| z == x || ('a' <= z && z <= y)), to_real(&rules1(class(&x.to_string(), &[('a', y)])))),
                    (format!("[{:?}-{:?} {:?}-{:?}]", x, x, y, y), Box::new(move |z| z == x || z == y), to_real(&rules1(class("", &[(x, x), (y, y)])))),
                    (format!("{:?}", x), Box::new(move |z| z == x), to_real(&rules1(lit(&x.to_string())))),
                ];
                let two = to_real(&rules1(lit(&format!("{}{}", x, y))));
                for &z in &l2 {
                    if !ctx.next() {
                        if ctx.stop() {
                            return;
                        }
                        continue;
                    }
                    ctx.nontrivial(true);
                    let t = z.to_string();
                    for (w, f, r) in &sets {
                        let got = match ctx.real(|| format!("{} on {:?}", w, z), || parse(&t, r).is_ok()) {
                            Some(g) => g,
                            None => return,
                        };
                        if got != f(z) {
                            ctx.fail(format!("{} on {:?}: matches {}, expected {}", w, z, got, f(z)));
                            return;
                        }
                    }
                    for (t, want) in [(format!("{}{}", z, y), z == x), (format!("{}{}", x, z), z == y)] {
                        let got = match ctx.real(|| format!("literal {:?}{:?} on {:?}", x, y, t), || parse(&t, &two).is_ok()) {
                            Some(g) => g,
                            None => return,
                        };
                        if got != want {
                            ctx.fail(format!("literal {:?} {:?} on {:?}: matches {}, expected {}", x, y, t, got, want));
                            return;
                        }
                    }
                    ctx.outcome(if z == x { "same char" } else { "other char" });
                }
            }
        },
    ));
    v.extend(crate::more::sets(tier));
    v
}

#[allow(clippy::too_many_arguments)]
fn one_char(
    c: char,
    s: &str,
    pred: Option<char>,
    succ: Option<char>,
    dot: &dynparser::parser::expression::SetOfRules,
    dots: &dynparser::parser::expression::SetOfRules,
    eof: &dynparser::parser::expression::SetOfRules,
    doteof: &dynparser::parser::expression::SetOfRules,
    xdot: &dynparser::parser::expression::SetOfRules,
) -> Option<String> {
    let leafs = |v: Vec<T>| T::Rule("main".into(), v);
    let val = |x: char| T::Val(x.to_string());
    let ok = |t: &str, r, want: T, what: &str| match parse(t, r) {
        Ok(n) if want.same(&n) => None,
        x => Some(format!("{} on {:?}: {}, expected {}", what, t, show_res(&x), want.show())),
    };
    let fails = |t: &str, r, n: usize, what: &str| match parse(t, r) {
        Err(e) if e.pos.n == n && bad_coords(&e, &t.chars().collect::<Vec<_>>()).is_none() => None,
        x => Some(format!("{} on {:?}: {}, expected an error at {}", what, t, show_res(&x), n)),
    };
    let lc = to_real(&rules1(lit(s)));
    let set = to_real(&rules1(class(s, &[])));
    let rng = to_real(&rules1(class("", &[(c, c)])));
    let (lo, hi) = (pred.unwrap_or(c), succ.unwrap_or(c));
    let wide = to_real(&rules1(class("", &[(lo, hi)])));
    let cc = format!("{}{}", c, c);
    let xcx = format!("x{}x", c);
    let mut r = ok(s, dot, leafs(vec![val(c)]), "dot")
        .or_else(|| ok(&cc, dots, leafs(vec![val(c), val(c)]), "dot*"))
        .or_else(|| fails(&cc, dot, 1, "dot"))
        .or_else(|| fails(s, eof, 1, "eof"))
        .or_else(|| ok(s, doteof, leafs(vec![val(c), T::Eof]), "dot eof"))
        .or_else(|| fails(&cc, doteof, 2, "dot eof"))
        .or_else(|| ok(&xcx, xdot, leafs(vec![val('x'), val(c), val('x')]), "'x' . 'x'"))
        .or_else(|| ok(s, &lc, leafs(vec![val(c)]), "literal"))
        .or_else(|| fails(&cc, &lc, 1, "literal"))
        .or_else(|| ok(s, &set, leafs(vec![val(c)]), "set"))
        .or_else(|| ok(s, &rng, leafs(vec![val(c)]), "range c-c"))
        .or_else(|| ok(s, &wide, leafs(vec![val(c)]), "range around"));
    for o in [pred, succ].iter().flatten() {
        let t = o.to_string();
        r = r
            .or_else(|| fails(&t, &lc, 1, "literal of the neighbour"))
            .or_else(|| fails(&t, &set, 1, "set of the neighbour"))
            .or_else(|| fails(&t, &rng, 1, "range of the neighbour"))
            .or_else(|| ok(&t, &wide, leafs(vec![val(*o)]), "end of the range"));
    }
    for o in crate::more::relatives(c) {
        let t = o.to_string();
        r = r
            .or_else(|| fails(&t, &lc, 1, "literal of another char"))
            .or_else(|| fails(&t, &set, 1, "set of another char"))
            .or_else(|| fails(&t, &rng, 1, "range of another char"));
    }
    for (end, d) in [(lo, -1i64), (hi, 1)] {
        if end != c {
            let mut k = end as i64 + d;
            while (0..0x110000).contains(&k) {
                if let Some(x) = std::char::from_u32(k as u32) {
                    r = r.or_else(|| fails(&x.to_string(), &wide, 1, "out of the range"));
                    break;
                }
                k += d;
            }
        }
    }
    r
}
