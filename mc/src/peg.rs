//! Peg texts: what the notation accepts (P14), what it means (P13, P15, P16), errors (P05), totality (P12)

use crate::dump::dump;
use crate::frame::*;
use crate::gen::*;
use crate::model::*;
use crate::parsing::bad_coords;
use crate::spec::{self, Quote};
use dynparser::parser::expression::SetOfRules;
use dynparser::{parse, peg, rules_from_peg};
use std::sync::Arc;

pub struct Texts {
    pub name: String,
    pub descr: String,
    pub batches: u64,
    pub hang_s: u64,
    pub gen: Box<dyn Fn(u64, &mut dyn FnMut(&str)) + Send + Sync>,
}

pub type TextOracle = fn(&mut Ctx, &str);

pub fn explore_texts(t: Texts, oracle: TextOracle) -> Family {
    let Texts { name, descr, batches, hang_s, gen } = t;
    let mut f = family(name, descr, batches, move |b, ctx| {
        gen(b, &mut |text| {
            if ctx.stop() || !ctx.next() {
                return;
            }
            ctx.sample(|| format!("{:?}", clip(text, 300)));
            spec::take_steps();
            oracle(ctx, text);
            let (s, t) = spec::take_steps();
            ctx.stats.states += s;
            ctx.stats.transitions += t;
        })
    });
    f.hang_s = hang_s;
    f
}

// ---------------------------------------------------------------------- comparing rules

/// some short texts that tell apart rules with these atoms
fn probe_texts(r: &Rules) -> Vec<String> {
    let mut lits: Vec<String> = vec![];
    let mut chars: Vec<char> = vec![];
    fn go(e: &E, l: &mut Vec<String>, c: &mut Vec<char>) {
        match e {
            E::Lit(s) => {
                l.push(s.clone());
                c.extend(s.chars().take(2));
            }
            E::Class(s, v) => {
                c.extend(s.chars().take(4));
                for (a, b) in v.iter().take(4) {
                    c.push(*a);
                    c.push(*b);
                    c.extend(std::char::from_u32((*b as u32).wrapping_add(1)));
                }
            }
            E::And(v) | E::Or(v) => v.iter().for_each(|x| go(x, l, c)),
            E::Not(x) | E::Rep(x, _, _) => go(x, l, c),
            _ => (),
        }
    }
    for (_, e) in r {
        go(e, &mut lits, &mut chars);
    }
    chars.push('z');
    let mut alpha: Vec<String> = vec![];
    for c in chars {
        let s = c.to_string();
        if !alpha.contains(&s) && alpha.len() < 6 {
            alpha.push(s);
        }
    }
    for l in lits {
        if !alpha.contains(&l) && !l.is_empty() && alpha.len() < 9 {
            alpha.push(l);
        }
    }
    let a: Vec<&str> = alpha.iter().map(|s| s.as_str()).collect();
    let mut v = strings_upto(&a, if a.len() <= 5 { 5 } else { 4 });
    v.truncate(4000);
    v
}

fn names(s: &SetOfRules) -> Vec<String> {
    let mut v: Vec<String> = s.0.keys().cloned().collect();
    v.sort();
    v
}

/// Do the rules built from `text` mean `want`? The same structure is enough; otherwise they are compared
/// parsing from each of the rules.
pub fn same_meaning(text: &str, got: &SetOfRules, want: &Rules) -> Result<&'static str, String> {
    let w = to_real(want);
    if dump(got) == dump_rules(want) {
        return Ok("same structure");
    }
    let diff = || format!("built:\n{}\nexpected:\n{}", clip(&dump(got), 3000), clip(&dump_rules(want), 3000));
    if names(got) != names(&w) {
        return Err(format!("other rule names\n{}", diff()));
    }
    if Machine::new(want).left_recursive() {
        return Ok("skipped: left recursion");
    }
    for start in names(&w) {
        let mut want2 = want.clone();
        let got2 = match rules_from_peg(text) {
            Ok(g) => g,
            Err(_) => return Err("built once, and rejected the second time".into()),
        };
        let got2 = if start == "main" {
            got2
        } else {
            want2.retain(|x| x.0 != "main");
            want2.push(("main".into(), rf(&start)));
            got2.add("main", to_real_expr(&rf(&start)))
        };
        if Machine::new(&want2).left_recursive() {
            continue;
        }
        let w2 = to_real(&want2);
        for t in probe_texts(want) {
            let same = match (parse(&t, &got2), parse(&t, &w2)) {
                (Ok(a), Ok(b)) => T::from_real(&a) == T::from_real(&b),
                (Err(a), Err(b)) => a.pos.n == b.pos.n && format!("{:?}", a.priority) == format!("{:?}", b.priority),
                _ => false,
            };
            if !same {
                return Err(format!(
                    "parsing {:?} from {:?}:\n  {}\n  by hand: {}\n{}",
                    t,
                    start,
                    crate::parsing::show_res(&parse(&t, &got2)),
                    crate::parsing::show_res(&parse(&t, &w2)),
                    diff()
                ));
            }
        }
    }
    Ok("same results on texts")
}

fn case(t: &str) -> String {
    format!("peg text {:?}", clip(t, 4000))
}
fn show_peg(e: &peg::Error) -> String {
    clip(&format!("{:?}", e), 1500)
}

// ---------------------------------------------------------------------- oracles

/// P13
pub fn o_means(ctx: &mut Ctx, t: &str) {
    let d = match spec::read(t) {
        Some(d) => d,
        None => {
            ctx.stats.evals -= 1;
            return ctx.outcome("not in the notation");
        }
    };
    let again = spec::has_duplicates(&d);
    let want = spec::to_rules(&d);
    ctx.nontrivial(true);
    let r = ctx.real(
        || case(t),
        || match rules_from_peg(t) {
            Ok(g) => same_meaning(t, &g, &want),
            Err(e) => Err(format!("rejected: {}", show_peg(&e))),
        },
    );
    match r {
        Some(Ok(_)) if again => ctx.outcome("a rule defined again"),
        Some(Ok(w)) => ctx.outcome(w),
        Some(Err(w)) => ctx.fail(format!("{}\n{}", case(t), w)),
        None => (),
    }
}

/// P14
pub fn o_accepts(ctx: &mut Ctx, t: &str) {
    let d = spec::read(t);
    ctx.nontrivial(t.len() > 3);
    let r = ctx.real(
        || case(t),
        || match (&d, rules_from_peg(t)) {
            (None, Err(_)) => Ok("not in the notation, rejected"),
            (None, Ok(g)) => Err(format!("is not in the notation, but it is read as\n{}", clip(&dump(&g), 2000))),
            (Some(_), Err(e)) => Err(format!("is in the notation, but it is rejected: {}", show_peg(&e))),
            (Some(d), Ok(g)) => {
                // never read as some other grammar
                same_meaning(t, &g, &spec::to_rules(d)).map(|_| "accepted")
            }
        },
    );
    match r {
        Some(Ok(w)) => ctx.outcome(w),
        Some(Err(w)) => ctx.fail(format!("{}\n{}", case(t), w)),
        None => (),
    }
}

/// P15: literals, sets and texts of errors
pub fn o_atoms(ctx: &mut Ctx, t: &str) {
    let d = match spec::read(t) {
        Some(d) if !spec::has_duplicates(&d) => d,
        _ => {
            ctx.stats.evals -= 1;
            return ctx.outcome("not in the notation");
        }
    };
    let want = spec::to_rules(&d);
    ctx.nontrivial(true);
    let r = ctx.real(
        || case(t),
        || {
            let g = match rules_from_peg(t) {
                Ok(g) => g,
                Err(e) => return Err(format!("rejected: {}", show_peg(&e))),
            };
            let how = same_meaning(t, &g, &want)?;
            // and it matches what it denotes
            let mut m = Machine::new(&want);
            if m.left_recursive() {
                return Ok(how);
            }
            for s in atom_texts(&want) {
                let cs: Vec<char> = s.chars().collect();
                let o = m.run(&cs);
                let same = match (&o, parse(&s, &g)) {
                    (Out::Ok(t), Ok(n)) => t.same(&n),
                    (Out::Err(m), Err(e)) => match &m.kind {
                        Kind::Text(d) if m.crit => *d == e.descr,
                        _ => true,
                    },
                    _ => false,
                };
                if !same {
                    return Err(format!("on the text {:?}: {}, expected {}", s, crate::parsing::show_res(&parse(&s, &g)), match o {
                        Out::Ok(t) => format!("Ok({})", t.show()),
                        Out::Err(e) => format!("a failure {:?}", e.kind),
                    }));
                }
            }
            Ok(how)
        },
    );
    match r {
        Some(Ok(w)) => ctx.outcome(w),
        Some(Err(w)) => ctx.fail(format!("{}\n{}", case(t), w)),
        None => (),
    }
}

/// texts around what the atoms of the rules match
fn atom_texts(r: &Rules) -> Vec<String> {
    let mut v: Vec<String> = vec!["".into(), "a".into(), "\\".into(), "n".into(), "\n".into(), "-".into(), "é".into()];
    fn go(e: &E, v: &mut Vec<String>) {
        match e {
            E::Lit(s) => {
                v.push(s.clone());
                v.push(format!("{}a", s));
                let n = s.chars().count();
                if n > 0 {
                    v.push(s.chars().take(n - 1).collect());
                    v.push(s.chars().skip(1).collect());
                    v.push(s.chars().take(n - 1).chain("\u{1}".chars()).collect());
                }
            }
            E::Class(s, rs) => {
                v.extend(s.chars().take(300).map(|c| c.to_string()));
                for (a, b) in rs.iter().take(300) {
                    for c in [*a, *b] {
                        for d in [-1i64, 0, 1] {
                            if let Some(c) = std::char::from_u32((c as i64 + d).max(0) as u32) {
                                v.push(c.to_string());
                            }
                        }
                    }
                }
                for c in "abcxzAZ09-]['\"^\\ n".chars() {
                    v.push(c.to_string());
                }
                v.push("aa".into());
            }
            E::And(w) | E::Or(w) => w.iter().for_each(|x| go(x, v)),
            E::Not(x) | E::Rep(x, _, _) => go(x, v),
            _ => (),
        }
    }
    for (_, e) in r {
        go(e, &mut v);
    }
    v.sort();
    v.dedup();
    v
}

/// P05
pub fn o_peg_coords(ctx: &mut Ctx, t: &str) {
    let r = match ctx.real(|| case(t), || rules_from_peg(t)) {
        Some(r) => r,
        None => return,
    };
    match r {
        Ok(_) => ctx.outcome("peg accepted"),
        Err(peg::Error::Parser(e)) => {
            ctx.outcome(if e.pos.row > 0 { "peg error after the first line" } else { "peg error on the first line" });
            ctx.nontrivial(e.pos.n > 0);
            let cs: Vec<char> = t.chars().collect();
            if let Some(w) = bad_coords(&e, &cs) {
                ctx.fail(format!("{}\nreal: {}\n{}", case(t), crate::parsing::show_err(&e), w));
            }
        }
        Err(_) => ctx.outcome("peg error not of the parser"),
    }
}

/// P12
pub fn o_peg_returns(ctx: &mut Ctx, t: &str) {
    let r = ctx.real(|| case(t), || match rules_from_peg(t) {
        Ok(g) => {
            let _ = peg::gcode::rust_from_rules(&g).len();
            true
        }
        Err(e) => {
            let _ = format!("{} {:?}", e, e).len();
            false
        }
    });
    if let Some(ok) = r {
        ctx.nontrivial(!t.is_empty());
        ctx.outcome(if ok { "peg accepted" } else { "peg rejected" });
    }
}

// ---------------------------------------------------------------------- spaces

/// all sequences of exactly/up to n tokens between a prefix and a suffix
fn token_space(name: &str, pre: &'static str, toks: &[&'static str], post: &'static str, max: u32) -> Texts {
    let toks: Vec<&'static str> = toks.to_vec();
    let k = toks.len() as u64;
    let n = seqs(k, max);
    let chunk = 2000;
    Texts {
        name: name.into(),
        descr: format!("{:?} + all {} sequences of up to {} tokens of {:?} + {:?}", pre, n, max, toks, post),
        batches: (n + chunk - 1) / chunk,
        hang_s: 30,
        gen: Box::new(move |b, f| {
            let mut s = String::new();
            for i in b * chunk..((b + 1) * chunk).min(n) {
                s.clear();
                s.push_str(pre);
                for j in nth_seq(k, i) {
                    s.push_str(toks[j]);
                }
                s.push_str(post);
                f(&s);
            }
        }),
    }
}

const EXPR: &[&str] = &["'a'", "r", ".", "[a-b]", " ", "/", "(", ")", "?", "*", "!", "error('e')", "\n", "="];
const DEFS: &[&str] = &["r", "main", " ", "=", "\n", "{", "}", "'a'", ".", "//c", "/*c*/", "/"];
const CHARS: &[&str] = &[
    "a", "'", "\"", "[", "]", "-", ".", "=", "/", "(", ")", "?", "*", "+", "!", "{", "}", "\n", " ", "\\", "0", "_", "é", "\t", "\r", ":", ",",
];
/// tokens already separated: reaches longer expressions
const SPACED: &[&str] = &["'a' ", "r ", "( ", ") ", ")? ", ")* ", "/ ", "!", "error(\"e\") ", "'a'+ "];

/// the tokens of some grammars
pub fn seeds() -> Vec<Vec<&'static str>> {
    vec![
        vec!["main", " ", "=", " ", "'a'", " ", "r", "\n", "r", " ", "=", " ", "'b'", " ", "/", " ", "[a-z0]", "+", "\n"],
        vec!["main", "=", "(", "'a'", "/", "\"b\"", ")", "*", " ", "!", ".", "\n"],
        vec![" ", "\n", "main", " ", "=", " ", "m", ".", "r", "\n", "m", " ", "{", "\n", "m", ".", "r", " ", "=", "'x'", "?", "\n", "}", "\n"],
        vec!["main", " ", "=", " ", "'('", " ", "main", " ", "(", "')'", " ", "/", " ", "error", "(", "\"no\"", ")", ")", "\n", "/", "''", "\n"],
        vec!["/*c*/", "main", " ", "=", " ", "'a'", " ", "//c", "\n", "//d", "\n", "r", "/*e*/", "=", "/*f*/", "!", "[ab]", " ", ".", "\r\n"],
        vec!["a", "{", "b", "{", "c", "=", "'c'", "\n", "}", "\n", "d", "=", "c", "\n", "}", "\n", "main", "=", "c", "/", "d", "\n"],
        vec!["main", " ", "=", " ", "error", "(", " ", "'e'", " ", ")", "\n", "r", "=", "'a'", " ", "error", "(", "'f'", ")", " ", "'b'", "\n"],
    ]
}
const EDIT: &[&str] = &[
    "", " ", "\n", "'a'", "\"b\"", "r", "main", ".", "[a-z]", "/", "(", ")", "?", "*", "+", "!", "=", "{", "}", "//c", "/*c*/", "error", "error('e')", "'", "\"", "[", "]", "\\", "é", "\r",
];

/// all texts at one edit (delete, insert, replace, swap of tokens) of the seeds; thorough: two edits
fn edits(two: bool) -> Texts {
    let mut items: Vec<(usize, usize)> = vec![];
    for (k, s) in seeds().iter().enumerate() {
        for p in 0..=s.len() {
            items.push((k, p));
        }
    }
    let n = items.len() as u64;
    Texts {
        name: if two { "two-edits" } else { "edits" }.into(),
        descr: format!("all texts {} (insert or replace by one of {} tokens, delete, swap, truncate) from {} grammars", if two { "at up to two edits" } else { "at one edit" }, EDIT.len(), seeds().len()),
        batches: n,
        hang_s: 60,
        gen: Box::new(move |b, f| {
            let (k, p) = items[b as usize];
            let seed: Vec<&str> = seeds()[k].clone();
            fn one<'a>(s: &[&'a str], p: usize, emit: &mut dyn FnMut(Vec<&'a str>)) {
                for e in EDIT {
                    let mut v = s.to_vec();
                    v.insert(p, e);
                    emit(v);
                    if p < s.len() {
                        let mut v = s.to_vec();
                        v[p] = e;
                        emit(v);
                    }
                }
                if p + 1 < s.len() {
                    let mut v = s.to_vec();
                    v.swap(p, p + 1);
                    emit(v);
                }
                emit(s[..p].to_vec());
                emit(s[p..].to_vec());
            }
            one(&seed, p, &mut |v| {
                f(&v.concat());
                if two {
                    for q in p + 1..=v.len() {
                        one(&v, q, &mut |w| f(&w.concat()));
                    }
                }
            });
        }),
    }
}

/// every char in every context
fn char_contexts(upto: u32) -> Texts {
    const CH: u32 = 64;
    const CTX: &[(&str, &str)] = &[
        ("main = ", "\n"), ("main =", "'a'\n"), ("main", " = 'a'\n"), ("", "main = 'a'\n"), ("main = 'a'", "\n"), ("main = 'a'//", "\n"),
        ("main = 'a'/*", "*/\n"), ("main = '", "'\n"), ("main = \"", "\"\n"), ("main = [", "]\n"), ("main = [a-", "]\n"), ("main = [", "-z]\n"),
        ("main = error('", "')\n"), ("main = 'a'\n", "\nr = 'b'\n"), ("main = r", "\n"), ("m", " {\nmain = 'a'\n}\n"), ("main = 'a' ", " 'b'\n"), ("main = ('a'", ")\n"),
        ("main = \"\\", "\"\n"), ("main = \"\\0x4", "\"\n"), ("main = \"\\0", "41\"\n"), ("main = 'a' /", "/ 'b'\n"), ("main = a.", "\n"), ("main = 'a'", ""),
    ];
    Texts {
        name: "every-char".into(),
        descr: format!("every char up to U+{:X} in {} places of a grammar", upto, CTX.len()),
        batches: ((upto + CH) / CH) as u64,
        hang_s: 30,
        gen: Box::new(move |b, f| {
            for u in b as u32 * CH..(b as u32 + 1) * CH {
                if let Some(c) = std::char::from_u32(u) {
                    for (x, y) in CTX {
                        f(&format!("{}{}{}", x, c, y));
                    }
                }
            }
        }),
    }
}

/// trees of the notation printed in several styles
fn printed(size: usize) -> Texts {
    let leaves = vec![lit("a"), lit("b'\\"), class("a_", &[('0', '9')]), E::Dot, rf("r"), rf(".r.s'"), err("e")];
    let unary = vec![Un::Not, Un::Rep(0, Some(1)), Un::Rep(0, None), Un::Rep(1, None)];
    let p = Pool::new(leaves, unary, size, true);
    let n = p.total();
    let chunk = 200;
    Texts {
        name: "printed-trees".into(),
        descr: format!("all {} expression trees of up to {} nodes over 7 atoms, ! ? * + and sequences/choices of 2 and 3, printed in the notation with the needed parentheses, with all the parentheses, without optional spaces, one item per line", n, size),
        batches: (n + chunk - 1) / chunk,
        hang_s: 30,
        gen: Box::new(move |b, f| {
            for i in b * chunk..((b + 1) * chunk).min(n) {
                let e = p.nth(i);
                for style in 0..4 {
                    if let Some(s) = styled(&e, style) {
                        f(&format!("main = {}\n", s));
                    }
                }
            }
        }),
    }
}

fn styled(e: &E, style: u8) -> Option<String> {
    match style {
        0 => spec::print(e, 0, Quote::Single),
        1 => Some(full_par(e)),
        2 => spec::print(e, 0, Quote::Double).map(|s| s.replace(" / ", "/")),
        _ => spec::print(e, 0, Quote::Single).map(|s| s.replace(" / ", "\n   / ").replace(") ", ")\n  ").replace('(', "(\n")),
    }
}
fn full_par(e: &E) -> String {
    match e {
        E::And(v) | E::Or(v) => {
            let sep = if let E::And(_) = e { " " } else { " / " };
            let w: Vec<String> = v.iter().map(|x| match x {
                E::Not(_) => full_par(x),
                _ => format!("({})", full_par(x)),
            }).collect();
            w.join(sep)
        }
        E::Not(x) => format!("!({})", full_par(x)),
        E::Rep(x, 0, Some(1)) => format!("({})?", full_par(x)),
        E::Rep(x, 0, None) => format!("({})*", full_par(x)),
        E::Rep(x, _, _) => format!("({})+", full_par(x)),
        x => spec::print(x, 0, Quote::Double).unwrap_or_default(),
    }
}

/// definitions and modules
fn definitions(tier: Tier) -> Vec<Texts> {
    let mut v = vec![token_space(
        "definitions",
        "",
        &["main = 'a' r\n", "r = 'b'\n", "r = [d] / m.r\n", "m.r = main / 'c'\n", ".r.s = .\n", "m {\n", "}\n", "n {", "}\n\n", "r' = m.r\n", " //c\n"],
        "",
        tier.pick(5, 6),
    )];
    // names
    let al = ["_", "a", "Z", "0", "'", "\"", ".", "é", "-"];
    let ns = strings_upto(&al, tier.pick(4, 5));
    let chunk = 200;
    let ns = Arc::new(ns);
    let (n1, l) = (ns.clone(), ns.len() as u64);
    v.push(Texts {
        name: "names".into(),
        descr: format!("all {} strings over {:?} as the name of a rule defined and referred, next to other rules, inside a module, and as the name of a module", l, al),
        batches: (l + chunk - 1) / chunk,
        hang_s: 30,
        gen: Box::new(move |b, f| {
            for i in b * chunk..((b + 1) * chunk).min(l) {
                let n = &n1[i as usize];
                f(&format!("main = {} 'x'\n{} = 'a'\n", n, n));
                f(&format!("main = 'x'{}*\nm {{\n{} = 'a'\n}}\n", "", n));
                f(&format!("{} {{\nmain = 'a'\n}}\n", n));
                f(&format!("main = (!{}){}? / {}.r\n", n, n, n));
            }
        }),
    });
    v.push(far_definitions(tier));
    v
}

/// definitions of a name with others between them
fn far_definitions(tier: Tier) -> Texts {
    let ns: Vec<usize> = crate::spaces::sizes(tier.pick(24, 80), tier.pick(300, 600));
    let l = ns.len() as u64;
    Texts {
        name: "far-definitions".into(),
        descr: format!("a name defined two or three times, in rules and in modules, with n other rules (or modules of 1 or of 5 rules) before, between and after them, n in {:?}", ns),
        batches: l * 3,
        hang_s: 60,
        gen: Box::new(move |b, f| {
            let n = ns[(b % l) as usize];
            let others = |from: usize| -> String {
                (0..n)
                    .map(|i| match b / l {
                        0 => format!("r{} = '{}'\n", from + i, i),
                        1 => format!("m{} {{\nr{} = '{}' main\n}}\n", i, from + i, i),
                        _ => format!("m{} {{\n{}}}\n", i, (0..5).map(|k| format!("r{}_{} = .\n", from + i, k)).collect::<String>()),
                    })
                    .collect()
            };
            let rule = |k: usize| format!("main = '{}' r0\n", ["x", "y", "z"][k]);
            let module = |k: usize| format!("m {{\nmain = '{}' r1\n}}\n", ["x", "y", "z"][k]);
            let both = |k: usize| format!("m {{\n{}n {{\n{}}}\n}}\n", rule(k), rule(k + 1));
            let d: Vec<&dyn Fn(usize) -> String> = vec![&rule, &module, &both];
            for x in &d {
                for y in &d {
                    f(&format!("{}{}{}", x(0), others(0), y(1)));
                    f(&format!("{}{}{}", others(0), x(0), y(1)));
                    f(&format!("{}{}{}{}", x(0), others(0), y(1), others(n)));
                    f(&format!("{}{}{}{}{}", others(0), x(0), others(n), y(1), others(0)));
                }
            }
            f(&format!("{}{}{}{}{}", rule(0), others(0), rule(1), others(n), rule(2)));
            // the others, again
            f(&format!("{}{}{}", others(0), rule(0), others(0)));
            f(&format!("m {{\n{}{}{}}}\n{}", rule(0), others(0), rule(1), rule(2)));
        }),
    }
}

/// texts that are not grammars, with long lines and long parts
fn broken(tier: Tier) -> Texts {
    let ns: Vec<usize> = crate::spaces::sizes(tier.pick(24, 100), tier.pick(300, 600));
    let l = ns.len() as u64;
    let al = "aé'😀\u{301}日";
    Texts {
        name: "broken".into(),
        descr: format!("grammars with an error, and n chars (in 8 orders of chars of 1 to 4 bytes, or one of them again and again) after it, before it in its line, and in the line before and the one after; n in {:?}", ns),
        batches: l,
        hang_s: 60,
        gen: Box::new(move |b, f| {
            for s in crate::more::rotations(al, ns[b as usize]) {
                let q = s.replace('\'', "b");
                for off in ["", "c", "cc", "ccc"] {
                    f(&format!("main = %{}{}\n", off, s));
                    f(&format!("main = '{}{}' % 'a'\n", off, q));
                }
                f(&format!("main = '{}\n", q));
                f(&format!("main = \"{}\n", s));
                f(&format!("main = ('a' error('{}'\nr = 'b'\n", q));
                f(&format!("main = ('{}' / [{}]\n", q, q));
                f(&format!("// {}\nmain = %\n// {}\n", s, s));
                f(&format!("main = 'a'\n{} = 'b'\n", s));
                f(&format!("{}", s));
            }
        }),
    }
}

fn scale_pegs(tier: Tier) -> Texts {
    let ns: Vec<usize> = tier.pick(vec![1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 257, 300], {
        let mut v: Vec<usize> = (1..=140).collect();
        v.extend([199, 200, 255, 256, 257, 300, 400, 511, 512, 513]);
        v
    });
    let l = ns.len() as u64;
    const KINDS: u64 = 14;
    Texts {
        name: "scale-pegs".into(),
        descr: format!("{} kinds of grammars (rules, alternatives, sequence, parentheses, modules inside modules, rules in a module, long literals, long names, dotted names, sets, suffixes over parentheses, blank lines and comments, negations, errors) with n in {:?}", KINDS, ns),
        batches: l * KINDS,
        hang_s: 60,
        gen: Box::new(move |b, f| {
            let n = ns[(b / KINDS) as usize];
            let deep = n.min(130);
            let join = |sep: &str, g: &dyn Fn(usize) -> String| (0..n).map(|i| g(i)).collect::<Vec<_>>().join(sep);
            match b % KINDS {
                0 => {
                    let r = join("", &|i| format!("r{} = 'a{}' r{}?\n", i, i, (i + 1) % n));
                    f(&format!("{}main = r0 / 'z'\n", r));
                    f(&format!("main = r0 / 'z'\n{}", r));
                }
                1 => f(&format!("main = {}\n", join(" / ", &|i| format!("'{}'", i)))),
                2 => f(&format!("main = {}\n", join(" ", &|i| format!("[{}b]?", (b'a' + (i % 26) as u8) as char)))),
                3 => {
                    f(&format!("main = {}'a'{}\n", "(".repeat(deep), ")".repeat(deep)));
                    f(&format!("main = {}'a'{}\n", "(".repeat(deep), ")".repeat(deep - 1)));
                    f(&format!("main = {}'a'{}\n", "(".repeat(deep), ")".repeat(deep + 1)));
                    f(&format!("main = {}'a'{}\n", "('b' / ".repeat(deep), " 'c')".repeat(deep)));
                    f(&format!("main = {}'a'{}\n", "!(".repeat(deep), ")".repeat(deep)));
                    f(&format!("main = {}'a'{}\n", "(".repeat(deep), ")?".repeat(deep)));
                }
                4 => {
                    let open: String = (0..deep).map(|i| format!("m{} {{\nr{} = 'a{}'\n", i, i, i)).collect();
                    let close: String = (0..deep).map(|i| format!("s{} = r{}\n}}\n", i, i)).collect();
                    f(&format!("{}{}", open, close));
                    f(&format!("main = 'x'\n{}{}", open, close));
                    f(&format!("{}{}", open, "}\n".repeat(deep)));
                    f(&format!("{}{}", open, "}\n".repeat(deep - 1)));
                    f(&format!("{}{}", open, "}\n".repeat(deep + 1)));
                }
                5 => {
                    f(&format!("m {{\n{}}}\nmain = r0\n", join("", &|i| format!("r{} = 'b'\n", i))));
                    f(&format!("{}main = r0\n", join("", &|i| format!("m{} {{\nr{} = 'b'\n}}\n", i, i))));
                }
                6 => {
                    f(&format!("main = '{}'\n", join("", &|i| ["a", "\\", "\"", "é", " ", "/"][i % 6].to_string())));
                    f(&format!("main = \"{}\"\n", join("", &|i| ["a", "\\n", "\\\\", "\\0x41", "é", "\\\"", "\\x", "/*"][i % 8].to_string())));
                    f(&format!("main = '{}' / \"{}\"\n", "a".repeat(n), "b".repeat(n)));
                }
                7 => {
                    let name = join("", &|i| ["a", "_", "Z", "'", "9", "\""][i % 6].to_string());
                    f(&format!("main = {}\n{} = 'a'\n", name, name));
                }
                8 => {
                    let name = join(".", &|i| format!("m{}", i));
                    f(&format!("main = {} .{}\n{} = 'a'\n.{} = 'b'\n", name, name, name, name));
                }
                9 => {
                    f(&format!("main = [{}]\n", join("", &|i| std::char::from_u32(0x100 + i as u32).unwrap().to_string())));
                    f(&format!("main = [{}]\n", join("", &|i| format!("{}-{}", std::char::from_u32(0x100 + i as u32).unwrap(), std::char::from_u32(0x200 + i as u32).unwrap()))));
                    f(&format!("main = [{}a-b]\n", join("", &|i| std::char::from_u32(0x100 + i as u32).unwrap().to_string())));
                }
                10 => f(&format!("main = {}\n", join(" ", &|i| format!("('a' / r){}", ["?", "*", "+", ""][i % 4])))),
                11 => {
                    f(&format!("{}main = 'a'{}{}\nr = 'b'\n{}", "\n".repeat(n), " ".repeat(n), "//".repeat(n), "// c\n".repeat(n)));
                    f(&format!("{}main = 'a' /*{}*/\n", "/*c*/".repeat(n), "*".repeat(n)));
                    f(&format!("main ={}'a'{}'b'\n", "\r\n".repeat(n), " \n".repeat(n)));
                }
                12 => f(&format!("main = {} .\n", join(" ", &|i| format!("!'{}'", i)))),
                _ => {
                    f(&format!("main = {}\n", join(" / ", &|i| format!("'{}' error('{}')", i, i))));
                    f(&format!("main = {}\n", join(" / ", &|i| format!("error(\"{}\")", i))));
                }
            }
        }),
    }
}

/// words somebody could think of reserving
const WORDS: &[&str] = &[
    "eof", "EOF", "Eof", "error", "errors", "err", "Error", "ERROR", "error1", "error_", "error'", "xerror", "errorerror", "any", "dot", "not", "and", "or", "main", "Main", "MAIN", "main1", "main_", "mainmain", "start", "mod", "module", "use", "import", "include", "rule", "rules", "grammar",
    "expr", "expression", "literal", "lit", "lit_esc", "match", "mchars", "mbetween", "symbol", "rule_name", "mod_name", "parenth", "atom", "atom_or_par", "rep_or_neg", "eol", "_eol", "_1", "comment", "line_comment", "mline_comment", "hex_char", "esc_char", "end", "begin",
    "true", "false", "null", "none", "None", "nil", "self", "Self", "super", "crate", "fn", "pub", "let", "if", "else", "for", "while", "loop", "in", "as", "return", "struct", "enum", "public", "private", "empty", "epsilon", "space", "ws", "_", "__", "___", "digit", "alpha", "newline", "skip", "token", "default",
    "0", "00", "1", "007", "0x", "0x41", "1a", "a1", "A", "Z9", "ab'", "a'b", "a\"", "a\"\"", "a''", "_'", "_\"", "id", "name", "test", "rep", "ref", "ref_rule", "ematch", "chlist", "from", "to", "SetOfRules", "Val", "Rule", "root", "top", "S", "Start", "extern", "macro", "type", "where", "yield", "async", "dyn", "abstract", "virtual", "try",
];

/// names, and words inside of literals and comments
fn words(tier: Tier) -> Texts {
    let lower: Vec<String> = (b'a'..=b'z').map(|c| (c as char).to_string()).collect();
    let l: Vec<&str> = lower.iter().map(|s| s.as_str()).collect();
    let all: Vec<String> = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_".chars().map(|c| c.to_string()).collect();
    let a: Vec<&str> = all.iter().map(|s| s.as_str()).collect();
    let mut ws: Vec<String> = WORDS.iter().map(|s| s.to_string()).collect();
    ws.extend(strings_upto(&a, 2).into_iter().skip(1));
    ws.extend(strings_upto(&l, 3).into_iter().skip(1));
    if tier == Tier::Thorough {
        ws.extend(strings_upto(&["e", "r", "o", "f", "a", "n", "m", "i", "t"], 5).into_iter().skip(1));
    }
    ws.sort();
    ws.dedup();
    let n = ws.len() as u64;
    let chunk = 100;
    Texts {
        name: "words".into(),
        descr: format!("{} words (all of up to 2 letters, digits and _, all of up to 3 lower case letters, and words of the notation, of Rust and of grammars) as name of a rule, of a module, of a part of a dotted name, and inside of literals, sets, errors and comments", n),
        batches: (n + chunk - 1) / chunk,
        hang_s: 30,
        gen: Box::new(move |b, f| {
            for w in &ws[(b * chunk) as usize..((b + 1) * chunk).min(n) as usize] {
                f(&format!("{} = 'a'\n", w));
                f(&format!("main = {}\n{} = {}_ / 'x'\n", w, w, w));
                f(&format!("main = {}? ({} / !{} .)* {}.r r.{} .{}\nr.{} = {}\n", w, w, w, w, w, w, w, w));
                f(&format!("{} {{\n{}.r = {}\n}}\n", w, w, w));
                f(&format!("main = {}\n('a') {} ('b')\n", w, w));
                f(&format!("main = '{}' \"{}b\" error('{}') // {}\n/* {} */r = [{}]\n", w.replace('\'', ""), w.replace('"', ""), w.replace('\'', ""), w, w, w));
            }
        }),
    }
}

/// names, literals and sets that differ in one place only
fn similar(tier: Tier) -> Texts {
    let lens = crate::more::similar_lens(tier);
    let n = lens.len() as u64;
    Texts {
        name: "similar".into(),
        descr: format!("pairs (x, y) of words that differ in one place (each char changed, its case, two swapped, one less or more, turned round), x of {:?} chars, in both orders: as names of rules, of modules, literals, sets, error texts, comments and references", lens),
        batches: n * 2,
        hang_s: 30,
        gen: Box::new(move |b, f| {
            let (w, ws) = crate::more::similar_words(["abcdefghijklmnop", "aaaab_10"][(b / n) as usize], lens[(b % n) as usize]);
            for (x, y) in ws.iter().flat_map(|v| vec![(w.as_str(), v.as_str()), (v.as_str(), w.as_str())]) {
                f(&format!("main = {} / {}\n{} = 'a'\n{} = 'b'\n", x, y, x, y));
                f(&format!("main = ({} {} / {})* .\n{} {{\n{} = '1'\n}}\n.{}.{} = '2'\n", x, y, x, x, y, y, x));
                f(&format!("main = '{}' / \"{}\" / error('{}') / '{}'\n", x, y, y, x));
                f(&format!("/* {} */main = [{}] [{}] // {}\n[{}]\n", x, x, y, y, x));
            }
        }),
    }
}

pub fn notation_spaces(tier: Tier, meaning: bool) -> Vec<Texts> {
    // the meaning is only checked on texts of the notation: deeper for the same cost
    let d = if meaning { 1 } else { 0 };
    let mut v = vec![
        token_space("expression-tokens", "main = ", EXPR, "\n", tier.pick(4 + d, 5 + d)),
        token_space("expression-tokens-r", "r='b'\nmain='a'", &["'c'", "r", " ", "/", "(", ")", "?", "+", "!", ".", "error(\"e\")", "\n"], " 'd'\nm{\ns=.\n}\n", tier.pick(4 + d, 5 + d)),
        token_space("spaced-tokens", "main = ", SPACED, "\n", tier.pick(5 + d, 6 + d)),
        token_space("definition-tokens", "", DEFS, "", tier.pick(5, 6)),
        token_space("definition-tokens-2", "main = 'a'\n", DEFS, "\n", tier.pick(4, 5 + d)),
        token_space("chars-of-expression", "main = ", CHARS, "\n", tier.pick(3, 4)),
        token_space("chars-of-text", "", CHARS, "", tier.pick(3, 4)),
        edits(false),
        char_contexts(tier.pick(0x24f, 0x2fff)),
        printed(tier.pick(4, 5)),
        scale_pegs(tier),
        words(tier),
        similar(tier),
    ];
    if tier == Tier::Thorough {
        v.push(edits(true));
    }
    v.extend(definitions(tier));
    v
}

/// wrong texts for P05 and any text for P12
pub fn wrong_texts(tier: Tier) -> Vec<Texts> {
    vec![
        token_space("wrong-chars", "\n//é\n", &["a", "'", "\n", "\r", "é", "=", " ", "("], "", tier.pick(4, 6)),
        token_space("wrong-chars-2", "main = 'a'\r\nr = ", &["a", "'", "\n", "\r", "é", "=", " ", "(", "//", "/*"], "", tier.pick(3, 5)),
        token_space("definition-tokens", "main = 'a'\n", DEFS, "", tier.pick(4, 5)),
        edits(false),
        scale_pegs(tier),
        broken(tier),
    ]
}
pub fn any_texts(tier: Tier) -> Vec<Texts> {
    let mut v = vec![
        token_space("any-chars", "", &["a", "'", "\"", "[", "]", "-", ".", "=", "/", "(", ")", "*", "!", "{", "}", "\n", " ", "\\", "é", "\r", "0", "\u{0}", "😀"], "", tier.pick(4, 5)),
        token_space("any-chars-expression", "main = ", &["a", "'", "\"", "[", "]", "-", ".", "=", "/", "(", ")", "*", "!", "\n", " ", "\\", "0x", "F", "é", "error"], "\n", tier.pick(4, 5)),
        token_space("definition-tokens", "", DEFS, "", tier.pick(4, 5)),
        token_space("definitions", "", &["main = 'a' r\n", "r = 'b'\n", "r = [d] / m.r\n", "m.r = main / 'c'\n", ".r.s = .\n", "m {\n", "}\n", "n {", "}\n\n", "r' = m.r\n", " //c\n"], "", tier.pick(4, 5)),
        edits(false),
        char_contexts(tier.pick(0x24f, 0x2fff)),
        scale_pegs(tier),
        notation_edits(tier),
        broken(tier),
        far_definitions(tier),
    ];
    if tier == Tier::Thorough {
        v.push(edits(true));
    }
    v
}

/// the grammar of the notation itself, cut or changed at every char
fn notation_edits(tier: Tier) -> Texts {
    let chars: Vec<char> = NOTATION.chars().collect();
    let n = chars.len() as u64;
    let with: Vec<&'static str> = tier.pick(vec!["", "'"], vec!["", "'", "\"", "(", ")", "\n", "é", "/", "[", "{", "="]);
    let chunk = 8;
    Texts {
        name: "notation-edits".into(),
        descr: format!("a grammar of the notation ({} chars): cut at every char, and with every char replaced by each of {:?}", n, with),
        batches: (n + chunk - 1) / chunk,
        hang_s: 60,
        gen: Box::new(move |b, f| {
            for i in b * chunk..((b + 1) * chunk).min(n) {
                let i = i as usize;
                f(&chars[..i].iter().collect::<String>());
                for w in &with {
                    let s: String = chars[..i].iter().collect::<String>() + w + &chars[i + 1..].iter().collect::<String>();
                    f(&s);
                }
            }
        }),
    }
}

/// a grammar with all the notation, not the one in the repository
pub const NOTATION: &str = r#"
/* a grammar */
main  =  grammar
grammar = (rule / module)+
module = _ mod_name _ '{' _ grammar _ '}' _eol _
mod_name = symbol
rule = _ m.name _ '=' _ expr _eol _   // a rule
m {
   m.name = '.'? symbol ('.' symbol)*
   symbol = [_a-zA-Z0-9] [_'"a-zA-Z0-9]*
}
expr = or
or = and ( _ '/' _ or )?
error = 'error' _ '(' _ literal _ (')' / error("missing )"))
and = error / rep ( (' ' / eol) _ !(m.name _ ('=' / '{')) and )*
rep = atom ('*' / '+' / '?')? / '!' atom
atom = "'" (!"'" .)* "'" / "\"" ("\\n" / "\0x41" / !'"' .)* '"'
eol = ("\r\n" / "\n" / "\r")
_ = (' ' / eol)*
_eol = ' '* eol
literal = "\t"
"#;

// ---------------------------------------------------------------------- P15

pub fn atom_spaces(tier: Tier) -> Vec<Texts> {
    let q = &["a", "'", "\"", "\\", "n", "é", "]", "\n", "0x41", "/"];
    let dq = &["a", "\"", "\\", "n", "r", "t", "0", "x", "4", "F", "'", "\n", "é"];
    let cl = &["a", "c", "-", "]", "[", "^", "\\", "é", "'", "\"", "z"];
    let mut v = vec![
        token_space("single-quotes", "main = '", q, "'\n", tier.pick(4, 5)),
        token_space("double-quotes", "main = \"", dq, "\"\n", 5),
        token_space("escapes", "main = \"", &["a", "\\n", "\\r", "\\t", "\\\\", "\\\"", "\\0x41", "\\0xE9", "\\0x00", "\\", "\\0x", "0", "x", "n", "'"], "\"\n", tier.pick(3, 4)),
        token_space("sets", "main = [", cl, "]\n", tier.pick(4, 5)),
        token_space("set-items", "main = [", &["a", "z", "a-c", "z-a", "c-c", "é-ü", "---", "--a", "^", "]-a", "[", "\\-n", "\\", " ", "\n", "'", "\"", "1-", "_"], "]\n", tier.pick(3, 4)),
        token_space("set-escapes", "main = [", &["\\", "n", "r", "t", "0", "x41", "d", "w", "s", "u{41}", "[:alpha:]", "&&", "^", "a", "-", "é", "\"", "."], "]\n", tier.pick(4, 5)),
        token_space("error-single", "main = error('", q, "')\n", tier.pick(3, 4)),
        token_space("error-double", "main = error(\"", dq, "\")\n", tier.pick(3, 4)),
        token_space("two-literals", "main = '", &["a", "'", "\"", "\\", " ", "'\"", "\"'", "n"], "\" r\nr = \"\\\\\"\n", tier.pick(4, 5)),
    ];
    // hex: all pairs
    v.push(Texts {
        name: "hex".into(),
        descr: "\"\\0xHL\" for all pairs of printable ASCII chars H, L; alone, between chars, twice, in error(...), inside single quotes".into(),
        batches: 95,
        hang_s: 30,
        gen: Box::new(|b, f| {
            let h = (0x20 + b as u8) as char;
            for l in 0x20..0x7fu8 {
                let l = l as char;
                let x = format!("\\0x{}{}", h, l);
                f(&format!("main = \"{}\"\n", x));
                if h.is_ascii_hexdigit() && l.is_ascii_hexdigit() {
                    f(&format!("main = \"a{}b{}{}0\" / '{}'\n", x, x, x, x));
                    f(&format!("main = error(\"{}\")\n", x));
                    f(&format!("main = \"\\{}\\\\{}\"\n", x, x));
                }
            }
        }),
    });
    // all chars
    let top = tier.pick(0x30000u32, 0x110000);
    v.push(Texts {
        name: "all-chars".into(),
        descr: format!("every char up to U+{:X}, 32 at a time: on literals with single and double quotes, on a set, on error(...)", top - 1),
        batches: (top / 0x400) as u64,
        hang_s: 30,
        gen: Box::new(|b, f| {
            for k in 0..32 {
                let s: String = (0..32).filter_map(|i| std::char::from_u32(b as u32 * 0x400 + k * 32 + i)).collect();
                if s.is_empty() {
                    continue;
                }
                let no = |x: &str| s.chars().filter(|c| !x.contains(*c)).collect::<String>();
                f(&format!("main = '{}'\n", no("'")));
                f(&format!("main = \"{}\"\n", no("\"\\")));
                f(&format!("main = [{}]\n", no("]-")));
                f(&format!("main = error('{}')\n", no("'")));
            }
        }),
    });
    // pairs of chars
    v.push(Texts {
        name: "char-pairs".into(),
        descr: "all pairs of the chars U+0 to U+7F, é and U+10FFFF, inside single quotes, double quotes, a set, error(...), also with an n around".into(),
        batches: 130,
        hang_s: 30,
        gen: Box::new(|b, f| {
            let ch = |b: u32| std::char::from_u32(match b { 128 => 0xe9, 129 => 0x10ffff, b => b }).unwrap();
            for c in 0..130 {
                let x: String = [ch(b as u32), ch(c)].iter().collect();
                f(&format!("main = '{}'\n", x));
                f(&format!("main = \"{}\"\n", x));
                f(&format!("main = [{}]\n", x));
                f(&format!("main = [n{}]\n", x));
                f(&format!("main = [{}n]\n", x));
                f(&format!("main = \"n{}\" / '{}n'\n", x, x));
                f(&format!("main = error('{}')\n", x));
                f(&format!("main = error(\"{}\")\n", x));
            }
        }),
    });
    // ranges
    let l: Vec<char> = "\u{1} !'-/09:@AZ[\\]^_`az{~\u{7f}é\u{7ff}\u{800}一\u{d7ff}\u{e000}\u{ffff}😀\u{10ffff}\n\r\t\"".chars().collect();
    let n = l.len() as u64;
    v.push(Texts {
        name: "ranges".into(),
        descr: format!("[x-y], [x-yc], [cx-y], [x-yy-x] for all pairs of {} chars", n),
        batches: n,
        hang_s: 30,
        gen: Box::new(move |b, f| {
            let x = l[b as usize];
            for &y in &l {
                f(&format!("main = [{}-{}]\n", x, y));
                f(&format!("main = [c{}-{}]\n", x, y));
                f(&format!("main = [{}-{}c]\n", x, y));
                f(&format!("main = [{}-{}{}-{}]\n", x, y, y, x));
                f(&format!("main = [{}-{}0-9]\n", x, y));
                f(&format!("main = [{}{}]\n", x, y));
            }
        }),
    });
    // long ones
    v.push(Texts {
        name: "long-atoms".into(),
        descr: "literals of n items with one escape, quote or multibyte char at each position (n up to 40), sets of n chars and ranges".into(),
        batches: 40,
        hang_s: 30,
        gen: Box::new(|b, f| {
            let n = b as usize + 1;
            for p in 0..n {
                for x in ["\\n", "\\\\", "\\\"", "\\0x0A", "'", "é", "\\", "\\0x", "😀"] {
                    let s: String = (0..n).map(|i| if i == p { x.to_string() } else { ((b'a' + (i % 26) as u8) as char).to_string() }).collect();
                    f(&format!("main = \"{}\"\n", s));
                    if x != "'" {
                        f(&format!("main = '{}'\n", s));
                    }
                }
                let s: String = (0..p).map(|i| std::char::from_u32(0x3b1 + i as u32).unwrap()).collect();
                let r: String = (p..n).map(|i| format!("{}-{}", std::char::from_u32(0x430 + 2 * i as u32).unwrap(), std::char::from_u32(0x431 + 2 * i as u32).unwrap())).collect();
                f(&format!("main = [{}{}]\n", s, r));
            }
        }),
    });
    // sets of many chars and ranges
    let ns: Vec<usize> = crate::more::set_sizes(tier).into_iter().filter(|n| tier == Tier::Thorough || *n <= 12 || *n >= 31 && *n % 2 == 1 && *n < 130).collect();
    v.push(Texts {
        name: "long-sets".into(),
        descr: format!("sets of n chars, ranges or both (n in {:?}): sorted, backwards, rotated, alternated; apart, nested, overlapped, adjacent; one wide, empty, narrow or repeated at each place", ns),
        batches: ns.len() as u64,
        hang_s: 60,
        gen: Box::new(move |b, f| {
            let n = ns[b as usize];
            for base in [0x30, 0x7f0] {
                for (s, r) in crate::more::set_shapes(n, base, n <= 40) {
                    if let Some(t) = spec::print_rules(&rules1(class(&s, &r)), Quote::Double) {
                        f(&t);
                    }
                }
            }
        }),
    });
    // long texts of literals, each char at each place
    let lens: Vec<usize> = tier.pick(vec![70, 300], vec![45, 70, 130, 300, 1100, 5000]);
    v.push(Texts {
        name: "long-literals".into(),
        descr: format!("literals and errors of {:?} chars, in both quotes, with each one of 12 chars (blanks, quotes, escapes, multibyte) at each place", lens),
        batches: lens.len() as u64,
        hang_s: 60,
        gen: Box::new(move |b, f| {
            for s in crate::more::rotations("a \"\\\n\té'{#\r/", lens[b as usize]) {
                for q in [Quote::Double, Quote::Single] {
                    for e in [lit(&s), and(vec![opt(lit(&s)), err(&s)])] {
                        if let Some(t) = spec::print_rules(&rules1(e), q) {
                            f(&t);
                        }
                    }
                }
            }
        }),
    });
    v
}

// ---------------------------------------------------------------------- P16

/// grammars with marks: \u{1} free space (plain: nothing), \u{2} free space (plain: one space),
/// \u{3} separator of a sequence, \u{4} end of a definition
const BASES: &[&str] = &[
    "\u{1}main\u{2}=\u{2}'a'\u{3}r\u{2}/\u{2}[b-c]+\u{4}r\u{2}=\u{2}.\u{4}",
    "\u{1}main\u{1}=\u{1}(\u{1}'a'\u{1}/\u{1}\"b\"\u{1})*\u{3}!(\u{1}r\u{1})\u{4}r\u{1}=\u{1}error\u{1}(\u{1}'e'\u{1})\u{4}",
    "\u{1}m\u{2}{\u{2}m.r\u{2}=\u{2}'x'\u{4}n\u{1}{\u{1}s=m.r\u{4}\u{1}}\u{4}\u{1}}\u{4}main\u{2}=\u{2}s\u{3}m.r\u{3}s\u{4}",
    "\u{1}main\u{2}=\u{2}(\u{1}'('\u{3}main\u{3}(\u{1}')'\u{2}/\u{2}error(\u{1}\"no\"\u{1})\u{1})\u{1})?\u{4}",
    "\u{1}a\u{2}=\u{2}b?\u{3}c*\u{3}!d\u{4}b\u{2}=\u{2}c\u{2}/\u{2}d\u{2}/\u{2}'='\u{4}",
];

fn fillers(all: bool) -> Vec<String> {
    let v = [
        "", " ", "\n", "//c\n", "/*c*/", "\r\n", "\r", " \n ", "// 'a' = b / (\r\n", "/* // */", "/*\n r = 'z'\n*/", "//\r", "// /* \n", "/**/", "/***/", "/*/*/", "/* * / */", "//é [\"'\n", "/*é\"'[*/",
        "/*a*//*b*/", "//a\n//b\n", "   ", "\n\n\n", " //x\n /*y*/ \r\n", "//*\n", "/*///*/", "//\n", "/**\n**/", "// \\\n", "/*\r*/", "//a/*\n/*//*/", "/* }\n*/", "//}\n", "/*😀*/", "// error('x')\n",
    ];
    v.iter().take(if all { v.len() } else { 9 }).map(|s| s.to_string()).collect()
}
fn gap_options(mark: char, all: bool) -> Vec<String> {
    let f = fillers(all);
    match mark {
        '\u{1}' | '\u{2}' => f,
        '\u{3}' => {
            let mut v = vec![];
            for s in if all { vec![" ", "\n", "\r\n", "\r"] } else { vec![" ", "\n"] } {
                v.extend(f.iter().map(|x| format!("{}{}", s, x)));
            }
            v
        }
        _ => {
            let mut v = vec![];
            for pre in if all { vec!["", " ", "  ", "//c", " //c = 'x'", "//", "/*c*/", "/*\n*/ ", " /*a*/ //b", "// /*", "/**//**/", "// é\"'"] } else { vec!["", " ", "//c"] } {
                for e in if all { vec!["\n", "\r\n", "\r"] } else { vec!["\n", "\r\n"] } {
                    for x in if all { f.clone() } else { vec!["".to_string(), "\n".into(), "//c\n".into(), "/*c*/".into()] } {
                        v.push(format!("{}{}{}", pre, e, x));
                    }
                }
            }
            v
        }
    }
}
fn plain(mark: char) -> &'static str {
    match mark {
        '\u{1}' => "",
        '\u{2}' | '\u{3}' => " ",
        _ => "\n",
    }
}
/// the text with the gaps given (index of gap -> filler)
fn lay(base: &str, with: &[(usize, &str)]) -> String {
    let mut o = String::new();
    let mut g = 0;
    for c in base.chars() {
        if c < '\u{5}' {
            o.push_str(with.iter().find(|x| x.0 == g).map(|x| x.1).unwrap_or(plain(c)));
            g += 1;
        } else {
            o.push(c);
        }
    }
    o
}
fn marks(base: &str) -> Vec<char> {
    base.chars().filter(|c| *c < '\u{5}').collect()
}

fn meaning_of(t: &str) -> String {
    match rules_from_peg(t) {
        Ok(r) => dump(&r),
        Err(e) => format!("Err {}", show_peg(&e)),
    }
}

fn o_layout(ctx: &mut Ctx, base: usize, want: &str, want_spec: &Option<Vec<spec::Def>>, t: &str) {
    if !ctx.next() {
        return;
    }
    spec::take_steps();
    let d = spec::read(t);
    let st = spec::take_steps();
    ctx.stats.states += st.0;
    ctx.stats.transitions += st.1;
    if d != *want_spec {
        // an ambiguous filler ('/' next to a comment, for example): it is another text for the notation
        ctx.stats.evals -= 1;
        return ctx.outcome("skipped: not the same grammar for the notation");
    }
    ctx.nontrivial(true);
    ctx.sample(|| format!("{:?}", t));
    match ctx.real(|| case(t), || meaning_of(t)) {
        Some(g) if g != want => ctx.fail(format!("{}\ngives\n{}\nwith the plain layout {:?}\n{}", case(t), clip(&g, 2000), lay(BASES[base], &[]), want)),
        Some(g) => ctx.outcome(if g.starts_with("Err") { "both rejected" } else { "same rules" }),
        None => (),
    }
}

pub fn layouts(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    let start = |b: usize| (meaning_of(&lay(BASES[b], &[])), spec::read(&lay(BASES[b], &[])));
    let mut idx: Vec<(usize, usize)> = vec![];
    for (b, s) in BASES.iter().enumerate() {
        for g in 0..marks(s).len() {
            idx.push((b, g));
        }
    }
    let n = idx.len() as u64;
    let i1 = idx.clone();
    v.push(family("one-gap", format!("{} grammars, each one of their {} places for free space x all fillers (spaces, ends of line, comments with odd contents, before and after the end of a rule)", BASES.len(), n), n, move |k, ctx| {
        let (b, g) = i1[k as usize];
        let (want, ws) = start(b);
        for x in gap_options(marks(BASES[b])[g], true) {
            o_layout(ctx, b, &want, &ws, &lay(BASES[b], &[(g, &x)]));
        }
    }));
    let i2 = idx.clone();
    let all = tier == Tier::Thorough;
    let mut f = family("two-gaps", format!("same, all pairs of places x {} fillers in both", if all { "all" } else { "the main" }), n, move |k, ctx| {
        let (b, g) = i2[k as usize];
        let (want, ws) = start(b);
        let ms = marks(BASES[b]);
        for h in g + 1..ms.len() {
            // the ends of rules have many more fillers than the rest
            for x in gap_options(ms[g], all && ms[g] < '\u{4}') {
                for y in gap_options(ms[h], all && ms[h] < '\u{4}') {
                    o_layout(ctx, b, &want, &ws, &lay(BASES[b], &[(g, &x), (h, &y)]));
                    if ctx.stop() {
                        return;
                    }
                }
            }
        }
    });
    f.hang_s = 60;
    v.push(f);
    let mut f = family("all-gaps", "same, all the places with the same filler, or with two alternating", BASES.len() as u64, move |b, ctx| {
        let b = b as usize;
        let (want, ws) = start(b);
        let ms = marks(BASES[b]);
        let fs = fillers(true);
        for x in &fs {
            for y in &fs {
                for (pre, e) in [("", "\n"), (" //c", "\r\n"), ("/*c*/", "\r"), ("//", "\n")] {
                    let w: Vec<(usize, String)> = ms.iter().enumerate().map(|(i, m)| {
                        let z = if i % 2 == 0 { x } else { y };
                        (i, match m {
                            '\u{3}' => format!("{}{}", [" ", "\n", "\r"][i % 3], z),
                            '\u{4}' => format!("{}{}{}", pre, e, z),
                            _ => z.clone(),
                        })
                    }).collect();
                    let w: Vec<(usize, &str)> = w.iter().map(|(i, s)| (*i, s.as_str())).collect();
                    o_layout(ctx, b, &want, &ws, &lay(BASES[b], &w));
                }
            }
        }
    });
    f.hang_s = 60;
    v.push(f);
    // amounts
    let ns: Vec<usize> = tier.pick(vec![2, 3, 5, 8, 16, 17, 33, 64, 65, 100, 128, 129, 256, 257], (1..=300).chain([511, 512, 513, 1000]).collect());
    let i3 = idx.clone();
    let mut f = family("amounts", format!("each place with n units of 9 fillers (spaces, ends of line, comments; long comments), n in {:?}", if ns.len() < 20 { format!("{:?}", ns) } else { "1..=300, 511, 512, 513, 1000".into() }), n, move |k, ctx| {
        let (b, g) = i3[k as usize];
        let (want, ws) = start(b);
        let m = marks(BASES[b])[g];
        for &n in &ns {
            for u in [" ", "\n", "\r\n", "//c\n", "/*c*/", "\r"] {
                let x = u.repeat(n);
                let x = match m {
                    '\u{3}' => format!(" {}", x),
                    '\u{4}' => format!("{}\n{}", if u == " " || u == "/*c*/" { x.clone() } else { "".into() }, x),
                    _ => x,
                };
                o_layout(ctx, b, &want, &ws, &lay(BASES[b], &[(g, &x)]));
            }
            for (p, u, e) in [("//", "x", "\n"), ("/*", "*", "*/"), ("/*", "x\n", "*/")] {
                let x = format!("{}{}{}", p, u.repeat(n), e);
                let x = match m {
                    '\u{3}' => format!(" {}", x),
                    '\u{4}' => format!("{}\n{}", if p == "/*" { x.clone() } else { x.trim_end().to_string() }, x),
                    _ => x,
                };
                o_layout(ctx, b, &want, &ws, &lay(BASES[b], &[(g, &x)]));
            }
        }
    });
    f.hang_s = 60;
    v.push(f);
    // contents of comments
    let al = ["*", "/", "a", "'", "\"", "(", "=", "{", " ", "\\", "é", "\n"];
    let bodies = Arc::new(strings_upto(&al, tier.pick(3, 4)));
    let nb = bodies.len() as u64;
    let chunk = 50;
    v.push(family("comment-contents", format!("all {} strings over {:?} as the contents of a line comment and of a block comment in 4 kinds of places (before the first rule, inside a rule, at its end, at the end of the text)", nb, al), (nb + chunk - 1) / chunk, move |k, ctx| {
        let b = 0;
        let (want, ws) = start(b);
        let ms = marks(BASES[b]);
        for i in k * chunk..((k + 1) * chunk).min(nb) {
            let c = &bodies[i as usize];
            for g in [0usize, 3, 5, 6, 9] {
                for block in [true, false] {
                    let x = if block { format!("/*{}*/", c) } else { format!("//{}", c) };
                    let x = match (ms[g], block) {
                        ('\u{4}', _) => format!("{}\n", x),
                        ('\u{3}', true) => format!(" {}", x),
                        ('\u{3}', false) => format!(" {}\n", x),
                        (_, true) => x,
                        (_, false) => format!("{}\n", x),
                    };
                    o_layout(ctx, b, &want, &ws, &lay(BASES[b], &[(g, &x)]));
                }
            }
        }
    }));
    // every char inside comments
    let top = tier.pick(0x3000u32, 0x110000);
    v.push(family("comment-chars", format!("every char up to U+{:X}, 16 at a time and alone up to U+24F, inside both kinds of comments", top - 1), (top / 0x100) as u64, move |k, ctx| {
        let (want, ws) = start(0);
        let put = |ctx: &mut Ctx, s: &str| {
            for g in [0usize, 3] {
                for x in [format!(" /*{}*/", s), format!(" //{}\n", s)] {
                    o_layout(ctx, 0, &want, &ws, &lay(BASES[0], &[(g, &x)]));
                }
            }
        };
        for i in 0..16 {
            let s: String = (0..16).filter_map(|j| std::char::from_u32(k as u32 * 0x100 + i * 16 + j)).filter(|c| *c != '\n' && *c != '\r').collect();
            put(ctx, &s);
            if k < 3 {
                for c in s.chars() {
                    put(ctx, &c.to_string());
                }
            }
        }
    }));
    v
}

// ---------------------------------------------------------------------- P12: trees and code

pub fn other_returns(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    let p = Pool::new(
        vec![lit("a"), lit(""), lit("\"é\n"), class("", &[]), class("a", &[('z', 'a')]), E::Dot, E::Eof, err(""), rf(""), rf("x")],
        vec![Un::Not, Un::Rep(0, Some(0)), Un::Rep(3, Some(1)), Un::Rep(usize::MAX, None)],
        tier.pick(4, 5),
        true,
    );
    let (n, chunk) = (p.total(), 500);
    v.push(family("code-generation", format!("code and display of all {} expression trees of up to {} nodes, odd ones included", n, tier.pick(4, 5)), (n + chunk - 1) / chunk, move |b, ctx| {
        for i in b * chunk..((b + 1) * chunk).min(n) {
            if !ctx.next() {
                continue;
            }
            let r = vec![("main".to_string(), p.nth(i)), ("\"#".into(), lit("a"))];
            ctx.nontrivial(true);
            if let Some(l) = ctx.real(|| show_rules(&r), || (peg::gcode::rust_from_rules(&to_real(&r)).len(), format!("{:?}", to_real(&r).0.len()).len())) {
                ctx.outcome(if l.0 > 100 { "long code" } else { "short code" });
            }
        }
    }));
    // long strings and sets of every shape, wherever a rule set has one
    let lens: Vec<usize> = crate::spaces::sizes(tier.pick(40, 100), tier.pick(600, 1100));
    let sizes = crate::more::set_sizes(tier);
    let nl = lens.len();
    v.push(family(
        "long-strings",
        format!("strings of n chars, n in {:?}, with each one of 15 chars (1 to 4 bytes, quotes, escapes, braces) at each place, as literal, chars of a set, error, name and reference; sets of n parts, n up to {:?}, of every shape: code, display, debug, parse and traced parse of a text that fits and of one that does not", lens, sizes.last()),
        (nl + sizes.len()) as u64,
        move |b, ctx| {
            let b = b as usize;
            let mut sets: Vec<(Rules, Vec<String>)> = vec![];
            if b < nl {
                for s in crate::more::rotations("aé\"😀{\\b\n'}\u{301}日#c\0", lens[b]) {
                    for off in ["", "x"] {
                        let s = format!("{}{}", off, s);
                        let ts = vec![s.clone(), s.chars().rev().collect(), format!("{}z", s)];
                        sets.push((rules1(lit(&s)), ts.clone()));
                        sets.push((rules1(plus(class(&s, &[]))), ts.clone()));
                        sets.push((rules1(or(vec![and(vec![E::Dot, err(&s)]), err(&s)])), vec![ts[0].clone()]));
                        sets.push((vec![("main".into(), or(vec![and(vec![rf(&s), E::Eof]), rf("x")])), (s.clone(), star(E::Dot))], vec![ts[0].clone(), "".into()]));
                        sets.push((vec![("main".into(), and(vec![opt(lit("a")), rf(&s)]))], vec!["a".into()]));
                    }
                }
            } else {
                let n = sizes[b - nl];
                for (k, base) in crate::more::SET_BASES.iter().enumerate() {
                    for (s, r) in crate::more::set_shapes(n, *base, k == 0) {
                        let t: String = s.chars().chain(r.iter().map(|x| x.0)).collect();
                        let u: String = s.chars().rev().chain(r.iter().rev().map(|x| x.1)).collect();
                        let r: Vec<(char, char)> = r;
                        sets.push((rules1(star(class(&s, &r))), vec![t, u]));
                    }
                }
            }
            for (r, ts) in sets {
                if !ctx.next() {
                    if ctx.stop() {
                        return;
                    }
                    continue;
                }
                ctx.nontrivial(true);
                ctx.stats.states += 1;
                ctx.stats.transitions += 1 + 2 * ts.len() as u64;
                let what = || show_rules(&r);
                ctx.sample(what);
                let done = ctx.real(what, || {
                    let real = to_real(&r);
                    let mut n = peg::gcode::rust_from_rules(&real).len();
                    n += real.0.iter().map(|(_, e)| format!("{:?}", e).len()).sum::<usize>();
                    n += format!("{:?}", real).len();
                    let mut ok = 0;
                    for t in &ts {
                        for x in [parse(t, &real), dynparser::parse_debug(t, &real)] {
                            match x {
                                Ok(x) => {
                                    ok += 1;
                                    n += format!("{:?} {:?}", x, x.flatten()).len();
                                }
                                Err(e) => n += format!("{:?}", e).len(),
                            }
                        }
                    }
                    (n, ok)
                });
                if let Some((_, ok)) = done {
                    ctx.outcome(if ok > 0 { "some texts accepted" } else { "no text accepted" });
                }
            }
        },
    ));
    // trees: all with up to k nodes, every operation and every helper on it
    let k = tier.pick(5, 6);
    let shapes = crate::trees::small_trees(k);
    let nt = shapes.total();
    let chunk = 200;
    v.push(family("tree-operations", format!("all {} trees of up to {} nodes (2 rule names, an empty and a non empty value, EOF; values also as root): every transformation and every navigation helper", nt, k), (nt + chunk - 1) / chunk, move |b, ctx| {
        for i in b * chunk..((b + 1) * chunk).min(nt) {
            if !ctx.next() {
                continue;
            }
            let t = shapes.nth(i);
            ctx.nontrivial(true);
            let done = ctx.real(|| t.show(), || {
                let n = t.to_real();
                let _ = n.compact();
                for l in [vec![], vec!["a"], vec!["a", "b"], vec![""]] {
                    let _ = n.prune(&l);
                    let _ = n.pass_through_except(&l);
                }
                crate::trees::touch(&n)
            });
            if let Some(ok) = done {
                ctx.outcome(if ok > 0 { "some helpers succeed" } else { "all helpers fail" });
            }
        }
    }));
    v.push(wide(tier));
    v
}

/// very wide things, with the stack a thread has by default
fn wide(tier: Tier) -> Family {
    type Call = Box<dyn Fn() -> bool + Send + Sync>;
    let n: usize = tier.pick(30_000, 100_000);
    let m = n / 5;
    let mut calls: Vec<(String, Call)> = vec![];
    // rules and texts
    let mut put = |name: &str, rs: Box<dyn Fn() -> Rules + Send + Sync>, ts: Vec<String>| {
        calls.push((
            format!("rules: {}", name),
            Box::new(move || {
                let rs = rs();
                let r = to_real(&rs).merge(to_real(&rs));
                let mut some = !peg::gcode::rust_from_rules(&r).is_empty();
                some &= !format!("{:?}", r).is_empty();
                for t in &ts {
                    for x in [parse(t, &r), dynparser::parse_debug(t, &r)] {
                        match x {
                            Ok(x) => some &= !format!("{:?}", x).is_empty() && x == x.prune(&[]),
                            Err(e) => some &= !format!("{:?}", e.clone()).is_empty(),
                        }
                    }
                }
                some
            }),
        ));
    };
    let a = |k: usize| "a".repeat(k);
    let lines = |k: usize| "a\n".repeat(k / 2);
    put("a sequence", Box::new(move || rules1(E::And(vec![E::Dot; n]))), vec![a(n), a(n - 1), a(n + 1)]);
    put("a sequence of nothing", Box::new(move || rules1(E::And(vec![lit(""); n]))), vec!["".into(), "a".into()]);
    put("a sequence of optionals", Box::new(move || rules1(E::And(vec![opt(lit("b")); n]))), vec!["".into(), "b".into(), "ba".into()]);
    put("a sequence of negations", Box::new(move || rules1(E::And((0..n).map(|_| not(lit("b"))).chain(vec![E::Dot]).collect()))), vec!["a".into(), "b".into()]);
    put("a sequence of references", Box::new(move || vec![("main".into(), E::And(vec![rf("r"); n])), ("r".into(), E::Dot)]), vec![lines(n), lines(n - 2)]);
    put("a choice", Box::new(move || rules1(E::Or((0..n).map(|_| lit("b")).chain(vec![lit("a")]).collect()))), vec!["a".into(), "b".into(), "c".into(), "".into()]);
    put("a choice of references", Box::new(move || vec![("main".into(), E::Or((0..n).map(|_| rf("r")).chain(vec![E::Dot]).collect())), ("r".into(), and(vec![lit("a"), lit("b")]))]), vec!["ab".into(), "ac".into(), "c".into()]);
    put("a repetition", Box::new(move || rules1(star(E::Dot))), vec![a(n), lines(n)]);
    put("a repetition with bounds", Box::new(move || rules1(rep(E::Dot, n, Some(n + 1)))), vec![a(n - 1), a(n), lines(n + 1), a(n + 2)]);
    put("a repetition of a reference", Box::new(move || vec![("main".into(), and(vec![star(rf("r")), E::Eof])), ("r".into(), or(vec![lit("b"), class("", &[('a', 'b'), ('\n', '\n')])]))]), vec![lines(m), format!("{}c", lines(m))]);
    put("a repetition of empty matches", Box::new(move || rules1(rep(lit(""), n, Some(2 * n)))), vec!["".into(), "a".into()]);
    put("a literal", Box::new(move || rules1(lit(&"é".repeat(n)))), vec!["é".repeat(n), "é".repeat(n - 1), a(n)]);
    put("a set of chars", Box::new(move || rules1(star(class(&"éb".repeat(n), &[])))), vec!["éb".into(), "éc".into()]);
    put("a set of ranges", Box::new(move || rules1(star(class("", &vec![('b', 'c'); n])))), vec!["bc".into(), "a".into()]);
    put("an error", Box::new(move || rules1(err(&"é\n".repeat(n)))), vec!["a".into()]);
    put("a name", Box::new(move || vec![("main".into(), rf(&"é.".repeat(n))), ("é.".repeat(n), lit("a"))]), vec!["a".into(), "b".into()]);
    put("rules", Box::new(move || (0..m).map(|i| (format!("r{}", i), lit("a"))).chain(vec![("main".into(), rf("r7"))]).collect()), vec!["a".into(), "b".into()]);
    // peg texts
    let mut put = |name: &str, t: String| {
        calls.push((
            format!("peg: {}", name),
            Box::new(move || match rules_from_peg(&t) {
                Ok(r) => !peg::gcode::rust_from_rules(&r).is_empty(),
                Err(e) => !format!("{} {:?}", e, e).is_empty(),
            }),
        ));
    };
    let k = m;
    for end in ["\n", "\n= =\n"] {
        put("alternatives", format!("main = 'x'{}{}", "\n/ 'a'".repeat(k), end));
        put("parts", format!("main = 'x'{}{}", "\n'a'".repeat(k), end));
        put("parts of all kinds", format!("main = 'x'{}{}", "\n[a-b]? !. (r / m.r)* error('e')".repeat(k / 5), end));
        put("rules", format!("main = 'x'{}{}", "\nr = 'a'".repeat(k), end));
        put("modules", format!("main = 'x'\n{}{}", "m {\nr = 'a'\n}\n".repeat(k / 2), end));
        put("lines", format!("main = 'x'{}{}", "\n".repeat(k), end));
        put("blanks", format!("main = {}'x'{}", " \n".repeat(k), end));
        put("comments", format!("main = 'x'{}{}", "\n//c\n/*d*/".repeat(k / 2), end));
        put("a comment", format!("/*{}*/main = 'x'{}", "c\n".repeat(k), end));
        put("a literal", format!("main = '{}'{}", "é\n".repeat(k), end));
        put("a literal with escapes", format!("main = \"{}\"{}", "\\n\\0x41é\n".repeat(k / 4), end));
        put("a set", format!("main = [{}]{}", "é\n".repeat(k), end));
        put("a set of ranges", format!("main = [{}]{}", "a-b\n-\n".repeat(k / 2), end));
        put("an error", format!("main = error('{}'){}", "é\n".repeat(k), end));
    }
    put("a dotted name", format!("main = r{}\n", ".m".repeat(k / 10)));
    put("a name", format!("main = {}\n", "r".repeat(k / 10)));
    // trees
    let r = |s: &str, c: Vec<dynparser::ast::Node>| dynparser::ast::Node::Rule((s.to_string(), c));
    let v = |s: &str| dynparser::ast::Node::Val(s.to_string());
    let kinds: Vec<(&str, Box<dyn Fn(usize) -> dynparser::ast::Node + Send + Sync>)> = vec![
        ("values", Box::new(move |_| v("a"))),
        ("empty values", Box::new(move |_| v(""))),
        ("ends of file", Box::new(move |_| dynparser::ast::Node::EOF)),
        ("values and ends of file", Box::new(move |i| if i % 2 == 0 { v("a") } else { dynparser::ast::Node::EOF })),
        ("rules without contents", Box::new(move |_| r("a", vec![]))),
        ("rules", Box::new(move |i| r(["a", "b"][i % 2], vec![v("a"), r("b", vec![dynparser::ast::Node::EOF])]))),
    ];
    for (name, kind) in kinds {
        calls.push((
            format!("trees: {}", name),
            Box::new(move || {
                let t = r("main", vec![r("a", (0..n).map(|i| kind(i)).collect()), v("z")]);
                let mut some = t == t;
                some &= t.compact() != dynparser::ast::Node::EOF;
                for l in [vec![], vec!["a"], vec!["b"], vec!["main", "a", "b"]] {
                    some &= t.prune(&l) != dynparser::ast::Node::EOF;
                    some &= t.pass_through_except(&l) != dynparser::ast::Node::EOF;
                }
                let f = t.flatten();
                some &= !format!("{:?} {:?}", t, f).is_empty();
                some && f.len() > n
            }),
        ));
    }
    let calls = Arc::new(calls);
    let total = calls.len() as u64;
    let mut f = family(
        "wide",
        format!("{} calls on a thread with the default stack (2 MB): {} parts, chars, matches, rules, children of a node ({} for peg texts): {}", total, n, m, calls.iter().map(|c| c.0.as_str()).collect::<Vec<_>>().join(", ")),
        total,
        move |b, ctx| {
            if !ctx.next() {
                return;
            }
            ctx.nontrivial(true);
            let name = &calls[b as usize].0;
            let what = || format!("{}, very many, with a stack of 2 MB", name);
            ctx.sample(what);
            ctx.stats.states += 1;
            ctx.stats.transitions += 1;
            let done = ctx.real(what, || {
                let (c, i) = (calls.clone(), b as usize);
                match std::thread::Builder::new().stack_size(1 << 21).spawn(move || (c[i].1)()).unwrap().join() {
                    Ok(x) => x,
                    Err(e) => std::panic::resume_unwind(e),
                }
            });
            if let Some(x) = done {
                ctx.outcome(if x { "returned" } else { "returned nothing" });
            }
        },
    );
    f.hang_s = 300;
    f
}

