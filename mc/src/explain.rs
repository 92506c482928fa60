//! P29: what the errors say

use crate::frame::*;
use crate::gen::strings_upto;
use crate::model::*;
use crate::parsing::*;
use crate::spaces::*;
use crate::peg::{self, *};
use dynparser::parser::{self, ErrPriority};
use dynparser::{ast, parse, peg::Error as PegError, rules_from_peg};

fn says(d: &str, c: char) -> bool {
    d.contains(c) || d.contains(&c.escape_debug().to_string())
}

/// what is missing on the description of an expression that failed
fn missing(e: &E, d: &str) -> Option<String> {
    match e {
        E::Lit(s) if !d.contains(s.as_str()) => Some(format!("it doesn't say the literal {:?}", s)),
        E::Class(s, r) => {
            if !d.contains(s.as_str()) {
                return Some(format!("it doesn't say the chars {:?}", s));
            }
            r.iter().flat_map(|(a, b)| vec![*a, *b]).find(|c| !says(d, *c)).map(|c| format!("it doesn't say {:?}", c))
        }
        _ if d.is_empty() => Some("it says nothing".into()),
        _ => None,
    }
}

/// the description says what was expected
pub fn o_says(ctx: &mut Ctx, p: &mut Prep, t: &str, cs: &[char]) {
    let r = match real(ctx, p, t) {
        Some(r) => r,
        None => return,
    };
    let e = match &r {
        Ok(_) => return ctx.outcome("accepted"),
        Err(e) => e,
    };
    let m = match p.m.run(cs) {
        Out::Err(m) => m,
        _ => return,
    };
    let why = match &m.kind {
        Kind::Leaf(i) if e.priority == ErrPriority::Normal => {
            ctx.nontrivial(true);
            match p.m.leaves[*i].clone() {
                Some(x) => {
                    ctx.outcome(match x {
                        E::Lit(_) => "literal",
                        E::Class(..) => "set",
                        _ => "another leaf",
                    });
                    missing(&x, &e.descr)
                }
                None => None,
            }
        }
        Kind::Text(_) => {
            ctx.outcome("error constructor");
            None
        }
        _ => {
            ctx.outcome("other");
            missing(&E::Dot, &e.descr)
        }
    };
    if let Some(w) = why {
        ctx.fail(format!("{} on {:?}\nreal: {}\n{}", clip(&show_rules(&p.rules), 2000), clip(t, 500), show_err(e), w));
    }
}

/// as shown with {:?}, without the quotes
fn inner(s: &str) -> String {
    let t = format!("{:?}", s);
    t[1..t.len() - 1].to_string()
}

#[derive(Clone, PartialEq, Debug)]
enum Link {
    Says(String),
    Parser(String),
    Ast(String, Option<String>),
}

fn links(e: &PegError) -> Vec<Link> {
    match e {
        PegError::Peg((s, None)) => vec![Link::Says(s.clone())],
        PegError::Peg((s, Some(b))) => {
            let mut v = vec![Link::Says(s.clone())];
            v.extend(links(b));
            v
        }
        PegError::Parser(e) => vec![Link::Parser(format!("{:?}", e))],
        PegError::Ast(ast::Error(a, b)) => vec![Link::Ast(a.clone(), b.clone())],
    }
}

/// what the display of an error has to show
fn shown(v: &[Link], text: &str, data: &[String]) -> Option<String> {
    let mut at = 0;
    let mut first = true;
    for l in v {
        let parts: Vec<String> = match l {
            Link::Says(s) if first => {
                if !text.starts_with(s.as_str()) {
                    return Some(format!("it doesn't start by {:?}", s));
                }
                vec![s.clone()]
            }
            Link::Says(s) => vec![" > ".into(), s.clone()],
            Link::Parser(_) => vec![],
            Link::Ast(a, b) => vec![a.clone()].into_iter().chain(b.clone()).map(|x| inner(&x)).collect(),
        };
        for p in parts {
            match text[at..].find(p.as_str()) {
                Some(i) => at += i + p.len(),
                None => return Some(format!("it doesn't show {:?} after {:?}", p, &text[..at])),
            }
        }
        first = false;
    }
    data.iter().find(|d| !text[at..].contains(d.as_str()) && !text[at..].contains(inner(d).as_str())).map(|d| format!("it doesn't show {:?} after {:?}", d, &text[..at]))
}

fn data(e: &parser::Error) -> Vec<String> {
    vec![e.descr.clone(), e.pos.n.to_string(), e.pos.row.to_string(), e.pos.col.to_string(), e.line_before.clone(), e.line_after.clone()]
}

/// all chains of up to n descriptions over each kind of cause
fn chains(tier: Tier) -> Family {
    let words: Vec<&'static str> = vec!["", "a", "b c", " > ", "é\n\"", "Parser(", "{}"];
    let max = tier.pick(4, 5);
    let causes = 8u64;
    family("chains", format!("all chains of up to {} descriptions from {:?} pushed on {} causes: descriptions, errors of the parser (rows, multibyte, quotes) and of trees", max, words, causes), causes, move |b, ctx| {
        let parsing = |t: &str, r: &Rules| parse(t, &to_real(r)).unwrap_err();
        let says = |s: &str| PegError::Peg((s.to_string(), None));
        let cause = || -> (PegError, Link, Vec<String>) {
            let (p, a) = match b {
                0 => return (says(""), Link::Says("".into()), vec![]),
                1 => return (says("first"), Link::Says("first".into()), vec![]),
                2 => return (says(" > x\n"), Link::Says(" > x\n".into()), vec![]),
                3 => (Some(parsing("b", &rules1(lit("a")))), None),
                4 => (Some(parsing("é\né\n\"q\n", &rules1(rep(class("é\n\"", &[]), 0, None)))), None),
                5 => (Some(parsing("", &rules1(rf("gone")))), None),
                6 => (None, Some(ast::error("no node", None))),
                _ => (None, Some(ast::error("no \"node\"", Some("ctx\n")))),
            };
            match (p, a) {
                (Some(p), _) => {
                    let (l, d) = (Link::Parser(format!("{:?}", p)), data(&p));
                    (p.into(), l, d)
                }
                (_, Some(a)) => {
                    let l = Link::Ast(a.0.clone(), a.1.clone());
                    (a.into(), l, vec![])
                }
                _ => unreachable!(),
            }
        };
        for n in 0..=max {
            for i in 0..words.len().pow(n) {
                if !ctx.next() {
                    if ctx.stop() {
                        return;
                    }
                    continue;
                }
                let pushed: Vec<&str> = (0..n).map(|k| words[i / words.len().pow(k) % words.len()]).collect();
                let (e, l, d) = cause();
                let what = || format!("{:?} pushed on {:?}", pushed, l);
                ctx.sample(what);
                ctx.nontrivial(n > 0);
                ctx.outcome(match l {
                    Link::Says(_) => "description",
                    Link::Parser(_) => "error of the parser",
                    Link::Ast(..) => "error of a tree",
                });
                let mut want: Vec<Link> = pushed.iter().rev().map(|s| Link::Says(s.to_string())).collect();
                want.push(l.clone());
                let got = ctx.real(what, || {
                    let e = pushed.iter().fold(e, |e, s| e.ipush(s));
                    (links(&e), format!("{}", e), format!("{:?}", e))
                });
                if let Some((got, text, _debug)) = got {
                    if got != want {
                        return ctx.fail(format!("{}: the chain is {:?}", what(), got));
                    }
                    if let Some(w) = shown(&want, &text, &d) {
                        return ctx.fail(format!("{}: displayed {:?}: {}", what(), text, w));
                    }
                }
            }
        }
    })
}

/// long chains
fn long_chains() -> Family {
    family("long-chains", "chains of up to 1000 descriptions, and descriptions of up to 70000 chars", 1, |_, ctx| {
        for n in (0..70).chain(vec![100, 127, 128, 129, 255, 256, 257, 500, 1000]) {
            for long in [false, true] {
                if !ctx.next() {
                    continue;
                }
                ctx.nontrivial(true);
                let word = |i: usize| if long && i == n / 2 { "é1".repeat(n * 35) } else { format!("step {}", i) };
                let what = || format!("{} descriptions", n);
                let mut want: Vec<Link> = (0..n).rev().map(|i| Link::Says(word(i))).collect();
                let got = ctx.real(what, || {
                    let e = rules_from_peg("main = 'a").unwrap_err();
                    let l = links(&e);
                    let e = (0..n).fold(e, |e, i| e.ipush(&word(i)));
                    (l, links(&e), format!("{}", e))
                });
                if let Some((l, got, text)) = got {
                    want.extend(l);
                    if got != want {
                        return ctx.fail(format!("{}: the chain is {}", what(), clip(&format!("{:?}", got), 2000)));
                    }
                    if let Some(w) = shown(&want, &text, &[]) {
                        return ctx.fail(format!("{}: displayed {}: {}", what(), clip(&text, 2000), clip(&w, 500)));
                    }
                }
            }
        }
    })
}

/// the error of a wrong peg text has the cause, and shows it
fn o_rejected(ctx: &mut Ctx, t: &str) {
    let what = || format!("peg: {:?}", clip(t, 3000));
    let e = match ctx.real(what, || rules_from_peg(t)) {
        Some(Err(e)) => e,
        Some(Ok(_)) => return ctx.outcome("accepted"),
        None => return,
    };
    ctx.outcome("rejected");
    ctx.nontrivial(true);
    let (v, text) = (links(&e), format!("{}", e));
    let mut c = &e;
    while let PegError::Peg((_, Some(b))) = c {
        c = b;
    }
    let p = match c {
        PegError::Parser(p) => p,
        _ => return ctx.fail(format!("{}\nrejected without the error of the parser: {}", what(), text)),
    };
    let n = t.chars().count();
    if p.pos.n > n {
        return ctx.fail(format!("{}\nthe error is at {} and the text has {} chars", what(), p.pos.n, n));
    }
    if p.descr.is_empty() {
        return ctx.fail(format!("{}\nthe error says nothing", what()));
    }
    if let Some(w) = shown(&v, &text, &data(p)) {
        return ctx.fail(format!("{}\ndisplayed {}: {}", what(), clip(&text, 2000), clip(&w, 500)));
    }
}

/// failures of different kinds say different things
fn kinds() -> Family {
    family("kinds", "every pair of the failures of: any char, end of file, negation, text after the rules, literals and sets of one and two chars", 1, |_, ctx| {
        let mut v: Vec<(String, Rules, &str)> = vec![
            ("any char".into(), rules1(E::Dot), ""),
            ("end of file".into(), rules1(E::Eof), "a"),
            ("negation".into(), rules1(not(lit("a"))), "a"),
            ("rest of the text".into(), rules1(lit("")), "a"),
            ("missing rule".into(), rules1(rf("gone")), "a"),
            ("missing rule".into(), rules1(rf("gone2")), "a"),
        ];
        for s in strings_upto(&["x", "y", "é"], 2) {
            if s.is_empty() {
                continue;
            }
            v.push((format!("literal {}", s), rules1(lit(&s)), ""));
            v.push((format!("set {}", s), rules1(class(&s, &[])), ""));
            v.push((format!("set {} x-y", s), rules1(class(&s, &[('x', 'y')])), ""));
        }
        v.push(("set x-é".into(), rules1(class("", &[('x', 'é')])), ""));
        v.push(("set a-é".into(), rules1(class("", &[('a', 'é')])), ""));
        for i in 0..v.len() {
            for j in 0..i {
                if !ctx.next() {
                    continue;
                }
                ctx.nontrivial(true);
                let what = || format!("{} {}", v[i].0, v[j].0);
                let d = ctx.real(what, || [i, j].iter().map(|&k| parse(v[k].2, &to_real(&v[k].1)).map(|_| ()).map_err(|e| e.descr)).collect::<Vec<_>>());
                if let Some(d) = d {
                    if d[0].is_err() && d[0] == d[1] {
                        return ctx.fail(format!("{} and {} give the same description: {:?}", v[i].0, v[j].0, d[0]));
                    }
                }
            }
        }
    })
}

pub fn families(tier: Tier) -> Vec<Family> {
    let mut v = vec![chains(tier), long_chains(), kinds()];
    v.extend(peg::wrong_texts(tier).into_iter().chain(peg::notation_spaces(tier, false).into_iter().filter(|t| matches!(t.name.as_str(), "expression-tokens" | "every-char" | "words" | "names"))).map(|t| explore_texts(t, o_rejected)));
    v
}
