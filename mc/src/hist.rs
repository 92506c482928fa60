//! Histories of operations: purity (P10), rule sets as maps (P11)

use crate::dump::{dump, dump_expr};
use crate::frame::*;
use crate::gen::{nth_seq, seqs, strings_upto, Pool, Un};
use crate::model::*;
use crate::parsing::show_res;
use crate::spaces::APPS;
use dynparser::parser::expression::SetOfRules;
use dynparser::{parse, parse_debug, peg, rules_from_peg};
use std::sync::{Arc, OnceLock};
use std::time::Duration;

// ---------------------------------------------------------------------- P10

#[derive(Clone, Debug)]
pub enum Op {
    Parse(usize, usize),
    Debug(usize, usize),
    /// a rule set built for the call and dropped
    Fresh(usize, usize),
    Peg(usize),
    Code(usize),
    Tree(usize, usize, u8),
    Merge(usize, usize),
}

const TEXTS: &[&str] = &["", "a", "ab", "((hello))", "((hello)", "1+2*(3)", "1+", "é\nb", "a = 'b'\n", "aab\nz"];

fn sets() -> Vec<Rules> {
    vec![
        rules(vec![("main", or(vec![and(vec![lit("a"), opt(rf("main"))]), rf("r")])), ("r", plus(class("bé\n", &[('0', '9')])))]),
        rules(vec![(
            "main",
            or(vec![and(vec![lit("("), rf("main"), or(vec![lit(")"), err("unbalanced")])]), lit("hello"), lit("")]),
        )]),
        rules(vec![("main", or(vec![lit("ab"), and(vec![lit("a"), rf("nope")]), star(E::Dot)]))]),
        rules(vec![("r", lit("a"))]),
        crate::spaces::app_rules(&APPS[0]).unwrap(),
    ]
}

const GRAMMARS: &[&str] = &[
    "main = 'a'\n",
    "main = r / \"\\n\"*\nr = [a-z]+ !'b' .\n",
    "main = m.r\nm {\n m.r = 'a'\n n {\n s = 'b'\n }\n}\n",
    "main = 'a'",
    "main = ('a'\n",
    "m {\n r = 'a'\n",
    "",
    "main = [z-a] error('x')\n",
];

pub fn ops() -> Vec<Op> {
    let mut v = vec![];
    for (s, ts) in [(0usize, vec![1usize, 2, 7]), (1, vec![3, 4]), (2, vec![1, 2]), (3, vec![1]), (4, vec![5, 6])] {
        for t in ts {
            v.push(Op::Parse(s, t));
        }
    }
    v.push(Op::Debug(0, 2));
    v.push(Op::Debug(1, 4));
    v.push(Op::Debug(4, 6));
    v.push(Op::Fresh(0, 9));
    v.push(Op::Fresh(1, 3));
    for g in 0..GRAMMARS.len() {
        v.push(Op::Peg(g));
    }
    v.push(Op::Code(0));
    v.push(Op::Code(4));
    v.push(Op::Tree(0, 2, 0));
    v.push(Op::Tree(4, 5, 1));
    v.push(Op::Tree(4, 5, 2));
    v.push(Op::Tree(1, 3, 3));
    v.push(Op::Merge(0, 3));
    v.push(Op::Merge(3, 0));
    v
}

fn sorted_code(s: &str) -> String {
    let mut v: Vec<&str> = s.lines().map(|l| l.trim().trim_start_matches(',').trim()).collect();
    v.sort();
    v.join("\n")
}
fn peg_res(g: &str) -> String {
    match rules_from_peg(g) {
        Ok(r) => format!("Ok {}", dump(&r)),
        Err(e) => format!("Err {:?}", e),
    }
}

pub fn run_op(op: &Op, pool: &[SetOfRules]) -> String {
    let full = |r: &Result<dynparser::ast::Node, dynparser::parser::Error>| format!("{:?}", r);
    match op {
        Op::Parse(s, t) => full(&parse(TEXTS[*t], &pool[*s])),
        Op::Debug(s, t) => full(&parse_debug(TEXTS[*t], &pool[*s])),
        Op::Fresh(s, t) => {
            let r = to_real(&sets()[*s]);
            full(&parse(TEXTS[*t], &r))
        }
        Op::Peg(g) => peg_res(GRAMMARS[*g]),
        Op::Code(s) => sorted_code(&peg::gcode::rust_from_rules(&pool[*s])),
        Op::Tree(s, t, k) => match parse(TEXTS[*t], &pool[*s]) {
            Err(e) => format!("{:?}", e),
            Ok(n) => {
                let b = format!("{:?}", n);
                let r = match k {
                    0 => format!("{:?}", n.compact()),
                    1 => format!("{:?}", n.prune(&["_", "sum"])),
                    2 => format!("{:?}", n.pass_through_except(&["number"])),
                    _ => format!("{:?}", n.flatten()),
                };
                format!("{} {}", r, if b == format!("{:?}", n) { "" } else { "MODIFIED" })
            }
        },
        Op::Merge(a, b) => dump(&to_real(&sets()[*a]).merge(to_real(&sets()[*b])).add("r", to_real_expr(&lit("added")))),
    }
}

/// rule sets to share among threads (whether they can be is another property)
pub struct Shared(pub Vec<SetOfRules>);
unsafe impl Sync for Shared {}
unsafe impl Send for Shared {}
pub fn pool() -> &'static Shared {
    static C: OnceLock<Shared> = OnceLock::new();
    C.get_or_init(|| Shared(sets().iter().map(to_real).collect()))
}

/// `mc op K`: one operation alone in a process
pub fn op_alone(k: usize) {
    let pool: Vec<SetOfRules> = sets().iter().map(to_real).collect();
    print!("{}", run_op(&ops()[k], &pool));
}

fn isolated() -> &'static Vec<String> {
    static C: OnceLock<Vec<String>> = OnceLock::new();
    C.get_or_init(|| {
        (0..ops().len())
            .map(|k| {
                let o = std::process::Command::new("timeout")
                    .arg("20")
                    .arg(std::env::current_exe().unwrap())
                    .args(["op", &k.to_string()])
                    .output()
                    .expect("run op");
                String::from_utf8_lossy(&o.stdout).to_string()
            })
            .collect()
    })
}

fn first_diff(a: &str, b: &str) -> String {
    let n = a.chars().zip(b.chars()).take_while(|(x, y)| x == y).count();
    let from = n.saturating_sub(60);
    let cut = |s: &str| s.chars().skip(from).take(400).collect::<String>();
    format!("…{}\nexpected …{}", cut(a), cut(b))
}

fn in_thread<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(1 << 26).spawn_scoped(s, f).unwrap().join().unwrap_or_else(|e| std::panic::resume_unwind(e))
    })
}

pub fn purity(tier: Tier) -> Vec<Family> {
    let mut out = vec![];
    let all = Arc::new(ops());
    let k = all.len() as u64;
    let depth = tier.pick(3, 4);
    let n = seqs(k, depth);
    let lo = if depth > 0 { seqs(k, depth - 1) } else { 0 };
    let chunk = 250;
    let o2 = all.clone();
    let mut f = family(
        "histories",
        format!("all {} sequences of {} operations (their prefixes included) out of {}: parse, parse_debug, parse with rules built for the call, rules from peg (right and wrong texts), code generation, tree transformations, merges; each operation of each sequence compared with its result alone in another process; every sequence on its own thread", n - lo, depth, k),
        (n - lo + chunk - 1) / chunk,
        move |b, ctx| {
            let want = isolated();
            let base: Vec<String> = sets().iter().map(|s| dump(&to_real(s))).collect();
            for i in lo + b * chunk..(lo + (b + 1) * chunk).min(n) {
                if !ctx.next() {
                    if ctx.stop() {
                        return;
                    }
                    continue;
                }
                let seq = nth_seq(k, i);
                ctx.nontrivial(true);
                ctx.stats.transitions += seq.len() as u64;
                ctx.stats.states += seq.len() as u64;
                let names = || format!("history: {:?}", seq.iter().map(|&j| o2[j].clone()).collect::<Vec<_>>());
                ctx.sample(names);
                let r = ctx.real(names, || {
                    in_thread(|| {
                        let pool: Vec<SetOfRules> = sets().iter().map(to_real).collect();
                        for (step, &j) in seq.iter().enumerate() {
                            let got = run_op(&o2[j], &pool);
                            if got != want[j] {
                                return Some(format!("step {}: {:?}\ngives    {}", step, o2[j], first_diff(&got, &want[j])));
                            }
                        }
                        for (r, b) in pool.iter().zip(&base) {
                            if dump(r) != *b {
                                return Some(format!("the rules were modified: {}", dump(r)));
                            }
                        }
                        None
                    })
                });
                match r {
                    Some(Some(w)) => ctx.fail(format!("{}\n{}", names(), w)),
                    _ => ctx.outcome("same as alone"),
                }
            }
        },
    );
    f.hang_s = 60;
    out.push(f);

    // the same operation again and again, and after many different ones
    let o2 = all.clone();
    let reps = tier.pick(300, 2000);
    let mut f = family(
        "long-histories",
        format!("each of the {} operations {} times in a row; and alternated with {} parses of different texts, grammars and rule sets", k, reps, reps),
        k,
        move |b, ctx| {
            let want = &isolated()[b as usize];
            let op = &o2[b as usize];
            let pool: Vec<SetOfRules> = sets().iter().map(to_real).collect();
            for mode in 0..2 {
                for i in 0..reps {
                    if !ctx.next() {
                        if ctx.stop() && ctx.viol.is_some() {
                            return;
                        }
                    }
                    ctx.nontrivial(true);
                    ctx.stats.states += 1;
                    ctx.stats.transitions += 1;
                    let what = || format!("{:?}, time {} ({})", op, i + 1, if mode == 0 { "repeated" } else { "alternated" });
                    if mode == 1 {
                        let t = format!("{}b{}", "a".repeat(i % 37), i);
                        let g = format!("main = 'a{}' / r{}\nr{} = \"b\"{}\n", i, i % 5, i % 5, ["", "+", "\n x", " ("][i % 4]);
                        let _ = ctx.real(what, || {
                            let _ = parse(&t, &pool[i % pool.len()]).is_ok();
                            let _ = parse_debug(&t, &pool[(i + 1) % pool.len()]).is_ok();
                            if let Ok(r) = rules_from_peg(&g) {
                                let _ = parse(&format!("a{}", i), &r).is_ok();
                            }
                        });
                    }
                    match ctx.real(what, || run_op(op, &pool)) {
                        Some(got) if got != *want => ctx.fail(format!("{}\ngives    {}", what(), first_diff(&got, want))),
                        _ => ctx.outcome("same as alone"),
                    }
                }
            }
        },
    );
    f.hang_s = 60;
    out.push(f);

    // more calls than any counter, table or pool of a reasonable size
    let n = tier.pick(70_000usize, 300_000);
    let kinds: Vec<(&'static str, usize)> = vec![
        ("the same text accepted", n),
        ("the same text rejected", n),
        ("the same text rejected, with debug", n),
        ("different texts", n),
        ("different texts, with debug", n),
        ("different rule sets with different names of rules", n),
        ("different literals, sets and error texts", n),
        ("the same peg text", n / 7),
        ("the same wrong peg text", n / 7),
        ("different peg texts, right and wrong", n / 7),
        ("different trees, transformed", n),
        ("rules added and merged, code generated", n / 7),
    ];
    let mut f = family(
        "marathon",
        format!("{:?} times each in a row, on a thread of its own: each result computed apart", kinds),
        kinds.len() as u64,
        move |b, ctx| {
            let (name, n) = kinds[b as usize];
            let words = rules(vec![("main", and(vec![plus(class("", &[('0', '9')])), or(vec![lit("x"), and(vec![lit("z"), err("no z")])])]))]);
            let words = to_real(&words);
            let leaf = |s: &str| dynparser::ast::Node::Val(s.to_string());
            let rule = |n: &str, v: Vec<dynparser::ast::Node>| dynparser::ast::Node::Rule((n.to_string(), v));
            // whether the error is at n, says d, and has the trace expected
            let failed = |r: &Result<dynparser::ast::Node, dynparser::parser::Error>, n: usize, d: &str, trace: usize| match r {
                Err(e) => e.pos.n == n && e.pos.row == 0 && e.pos.col == n && e.descr.contains(d) && e.parsing_rules.len() == trace,
                Ok(_) => false,
            };
            let digits = |i: usize| i.to_string().chars().map(|c| leaf(&c.to_string())).collect::<Vec<_>>();
            let good = |i: usize| {
                let mut v = digits(i);
                v.push(leaf("x"));
                rule("main", v)
            };
            let peg_same = rules_from_peg("main = 'a' r\nr = [a-z]+ / \"\\n\"\n").map(|r| dump(&r)).unwrap_or_default();
            for i in 0..n {
                if !ctx.next() {
                    if ctx.stop() && ctx.viol.is_some() {
                        return;
                    }
                }
                ctx.nontrivial(true);
                ctx.stats.states += 1;
                ctx.stats.transitions += 1;
                let what = || format!("{}, time {}", name, i + 1);
                let ok = ctx.real(what, || match b {
                    0 => parse("12x", &words).ok() == Some(good(12)),
                    1 => failed(&parse("12y", &words), 3, "", 0),
                    2 => failed(&parse_debug("12z", &words), 3, "no z", 1),
                    3 | 4 => {
                        let p = |t: &str| if b == 3 { parse(t, &words) } else { parse_debug(t, &words) };
                        let trace = if b == 3 { 0 } else { 1 };
                        let k = i.to_string().len();
                        match i % 3 {
                            0 => p(&format!("{}x", i)).ok() == Some(good(i)),
                            1 => failed(&p(&format!("{}y", i)), k + 1, "", trace),
                            _ => failed(&p(&format!("{}z", i)), k + 1, "no z", trace),
                        }
                    }
                    5 => {
                        let name = format!("rule{}", i);
                        let r = to_real(&vec![("main".to_string(), and(vec![rf(&name), opt(rf(&format!("gone{}", i)))])), (name.clone(), lit("a"))]);
                        let t = parse("a", &r);
                        let ok = matches!(&t, Err(e) if e.priority == dynparser::parser::ErrPriority::Critical && e.descr.contains(&format!("gone{}", i)) && e.pos.n == 1);
                        let r = r.add(&format!("gone{}", i), to_real_expr(&lit("b")));
                        ok && parse("ab", &r).ok() == Some(rule("main", vec![rule(&name, vec![leaf("a")]), rule(&format!("gone{}", i), vec![leaf("b")])]))
                    }
                    6 => {
                        let s = format!("é{}", i);
                        let c = std::char::from_u32(0x4e00 + (i as u32 % 0x5000)).unwrap();
                        let r = to_real(&rules1(or(vec![and(vec![lit(&s), class("", &[(c, c)])]), and(vec![class(&c.to_string(), &[]), err(&s)])])));
                        parse(&format!("{}{}", s, c), &r).ok() == Some(rule("main", vec![leaf(&s), leaf(&c.to_string())])) && failed(&parse(&c.to_string(), &r), 1, &s, 0) && !parse("~", &r).is_ok()
                    }
                    7 => rules_from_peg("main = 'a' r\nr = [a-z]+ / \"\\n\"\n").map(|r| dump(&r)).unwrap_or_default() == peg_same,
                    8 => match rules_from_peg("main = 'a\n") {
                        Err(peg::Error::Parser(e)) => e.pos.n > 7,
                        _ => false,
                    },
                    9 => {
                        let g = format!("main = r{} / 'q'\nr{} = \"{}\"{}\n", i, i, i, ["", "+", "\n", " ("][i % 4]);
                        match rules_from_peg(&g) {
                            Ok(r) => i % 4 != 3 && r.0.len() == 2 && parse(&i.to_string(), &r).ok() == Some(rule("main", vec![rule(&format!("r{}", i), vec![leaf(&i.to_string())])])),
                            Err(_) => i % 4 == 3,
                        }
                    }
                    10 => {
                        let (a, s) = (format!("n{}", i), i.to_string());
                        let t = rule("main", vec![rule(&a, vec![leaf(&s), leaf("é")]), leaf("b"), leaf(&s), rule("k", vec![])]);
                        let joined = format!("b{}", s);
                        t.compact() == rule("main", vec![rule(&a, vec![leaf(&format!("{}é", s))]), leaf(&joined), rule("k", vec![])])
                            && t.prune(&[&a]) == rule("main", vec![leaf("b"), leaf(&s), rule("k", vec![])])
                            && t.pass_through_except(&["k"]) == rule("main", vec![leaf(&s), leaf("é"), leaf("b"), leaf(&s), rule("k", vec![])])
                            && t.flatten().len() == 10
                    }
                    _ => {
                        let (x, y) = (format!("x{}", i), format!("y{}", i));
                        let a = to_real(&vec![(x.clone(), lit(&y)), ("k".to_string(), E::Dot)]);
                        let b = to_real(&vec![(y.clone(), lit(&x)), ("k".to_string(), lit("b"))]);
                        let m = a.merge(b).add(&x, to_real_expr(&lit("new")));
                        let want = dump(&to_real(&vec![(x.clone(), lit("new")), (y.clone(), lit(&x)), ("k".to_string(), E::Dot)]));
                        let code = peg::gcode::rust_from_rules(&m);
                        dump(&m) == want && code.contains(&x) && code.contains(&y)
                    }
                });
                match ok {
                    Some(false) => return ctx.fail(what()),
                    Some(true) => ctx.outcome(name),
                    None => return,
                }
            }
        },
    );
    f.hang_s = 300;
    out.push(f);

    // texts and rule sets at the same addresses
    let texts = strings_upto(&["a", "b"], tier.pick(5, 6));
    let bodies: Vec<E> = {
        let p = crate::gen::Pool::new(vec![lit("a"), lit("ab"), E::Dot, class("b", &[]), err("e")], crate::gen::std_unary(), 3, false);
        (0..p.total()).map(|i| p.nth(i)).collect()
    };
    let nb = bodies.len() as u64;
    out.push(family(
        "same-address",
        format!("{} rule sets, each one replaced in place by the next, x {} texts written on the same buffer, in both orders; compared with new rule sets and new texts", nb, texts.len()),
        nb,
        move |b, ctx| {
            let mut buf = String::with_capacity(64);
            let (x, y) = (&bodies[b as usize], &bodies[(b as usize * 7 + 3) % bodies.len()]);
            let mut set = Box::new(to_real(&rules1(x.clone())));
            for (round, e) in [x, y, x].iter().enumerate() {
                *set = to_real(&rules1((*e).clone()));
                for i in 0..texts.len() {
                    let t = if round == 1 { &texts[texts.len() - 1 - i] } else { &texts[i] };
                    if !ctx.next() {
                        if ctx.viol.is_some() {
                            return;
                        }
                    }
                    ctx.nontrivial(true);
                    ctx.stats.states += 1;
                    ctx.stats.transitions += 2;
                    buf.clear();
                    buf.push_str(t);
                    let what = || format!("{} on {:?}, after other rule sets and texts at the same addresses", show(e), t);
                    let got = ctx.real(what, || (parse(&buf, &set), parse_debug(&buf, &set)));
                    let mut m = Machine::new(&rules1((*e).clone()));
                    let o = m.run(&t.chars().collect::<Vec<_>>());
                    if let Some((r, d)) = got {
                        let same = match (&o, &r, &d) {
                            (Out::Ok(mt), Ok(a), Ok(b)) => mt.same(a) && mt.same(b),
                            (Out::Err(m), Err(a), Err(b)) => a.pos.n == m.n && b.pos.n == m.n && a.descr == b.descr,
                            _ => false,
                        };
                        ctx.outcome(if r.is_ok() { "accepted" } else { "rejected" });
                        if !same {
                            ctx.fail(format!("{}\nparse: {}\ndebug: {}", what(), show_res(&r), show_res(&d)));
                        }
                    }
                }
            }
        },
    ));
    // built, used and dropped in turns: what is built next gets the addresses of what was dropped
    let small: Vec<E> = {
        let leaves = vec![lit("a"), lit("b"), class("a", &[]), class("b", &[]), class("", &[('a', 'a')]), class("", &[('b', 'c')]), rf("r"), rf("s"), err("e"), err("f")];
        let un = vec![Un::Not, Un::Rep(0, Some(1)), Un::Rep(0, None), Un::Rep(1, None), Un::Rep(2, Some(2))];
        let p = crate::gen::Pool::new(leaves, un, 2, false);
        (0..p.total()).map(|i| p.nth(i)).collect()
    };
    let ns = small.len() as u64;
    let tx: Vec<String> = strings_upto(&["a", "b"], 2);
    out.push(family(
        "reused-addresses",
        format!("all ordered pairs of {} rule sets (x then y then x again, each one built after dropping the one before, alone and inside a sequence) x {} texts, plain and debug", ns, tx.len()),
        ns,
        move |b, ctx| {
            let set = |e: &E, wrap: bool| {
                rules(vec![("main", if wrap { and(vec![e.clone()]) } else { e.clone() }), ("r", lit("a")), ("s", class("b", &[]))])
            };
            let x = &small[b as usize];
            for y in &small {
                for wrap in [false, true] {
                    let seq = [x, y, x];
                    let mut ms: Vec<Machine> = seq.iter().map(|e| Machine::new(&set(e, wrap))).collect();
                    for t in &tx {
                        if !ctx.next() {
                            if ctx.stop() {
                                return;
                            }
                            continue;
                        }
                        ctx.nontrivial(true);
                        let cs: Vec<char> = t.chars().collect();
                        for (k, e) in seq.iter().enumerate() {
                            ctx.stats.states += 1;
                            ctx.stats.transitions += 2;
                            let what = || format!("{} on {:?}, time {} of {} / {} / {}", show(e), t, k + 1, show(x), show(y), show(x));
                            let o = ms[k].run(&cs);
                            let model = set(e, wrap);
                            let got = ctx.real(what, || {
                                let real = to_real(&model);
                                (parse(t, &real), parse_debug(t, &real))
                            });
                            if let Some((r, d)) = got {
                                let same = match (&o, &r, &d) {
                                    (Out::Ok(mt), Ok(a), Ok(b)) => mt.same(a) && mt.same(b),
                                    (Out::Err(m), Err(a), Err(b)) => a.pos.n == m.n && b.pos.n == m.n && a.descr == b.descr,
                                    _ => false,
                                };
                                ctx.outcome(if r.is_ok() { "accepted" } else { "rejected" });
                                if !same {
                                    ctx.fail(format!("{}\nparse: {}\ndebug: {}", what(), show_res(&r), show_res(&d)));
                                    return;
                                }
                            }
                        }
                    }
                }
            }
        },
    ));
    // the same rule set used many times is not modified, and gives the same
    out.push(family(
        "alternating",
        "all pairs of (application grammar, text): text 1, text 2, text 1 again with the same rule set, plain and debug, in all orders of failing and matching",
        APPS.len() as u64,
        move |b, ctx| {
            let ap = &APPS[b as usize];
            let r = crate::spaces::app_rules(ap).unwrap();
            let real = to_real(&r);
            let k = ap.tokens.len() as u64;
            let ts: Vec<String> = (0..seqs(k, 2)).map(|i| nth_seq(k, i).iter().map(|&x| ap.tokens[x]).collect::<String>()).collect();
            let alone: Vec<String> = ts.iter().map(|t| format!("{:?}", parse(t, &to_real(&r)))).collect();
            let d0 = dump(&real);
            for i in 0..ts.len() {
                for j in 0..ts.len() {
                    if !ctx.next() {
                        if ctx.viol.is_some() {
                            return;
                        }
                    }
                    ctx.nontrivial(true);
                    ctx.stats.states += 1;
                    ctx.stats.transitions += 3;
                    let what = || format!("{} then {:?} then {:?}", ap.name, ts[i], ts[j]);
                    let got = ctx.real(what, || {
                        let a = format!("{:?}", parse(&ts[i], &real));
                        let _ = parse_debug(&ts[i], &real).is_ok();
                        (a, format!("{:?}", parse(&ts[j], &real)))
                    });
                    if let Some((a, b)) = got {
                        if a != alone[i] || b != alone[j] {
                            ctx.fail(format!("{}\n{}\n{}", what(), first_diff(&a, &alone[i]), first_diff(&b, &alone[j])));
                        }
                    }
                    ctx.outcome("same as alone");
                }
            }
            if dump(&real) != d0 {
                ctx.fail(format!("{}: the rules were modified by parsing", ap.name));
            }
        },
    ));
    let _ = Duration::from_secs(0);
    out
}

// ---------------------------------------------------------------------- P11

#[derive(Clone)]
enum MOp {
    New,
    Add(&'static str, E),
    /// self.merge(other)
    Merge(Vec<(&'static str, E)>),
    /// other.merge(self)
    MergeInto(Vec<(&'static str, E)>),
    Macro,
}

fn mops() -> Vec<MOp> {
    vec![
        MOp::New,
        MOp::Add("main", and(vec![rf("r"), opt(rf("s"))])),
        MOp::Add("main", or(vec![lit("b"), rf("s")])),
        MOp::Add("r", lit("a")),
        MOp::Add("r", lit("b")),
        MOp::Add("s", lit("b")),
        MOp::Add("s", rf("r")),
        MOp::Add("R", lit("a")),
        MOp::Merge(vec![]),
        MOp::Merge(vec![("r", lit("b")), ("s", lit("a"))]),
        MOp::Merge(vec![("main", rf("r")), ("r", lit("a"))]),
        MOp::Merge(vec![("s", rf("t")), ("t", lit("ab"))]),
        MOp::MergeInto(vec![("r", star(lit("b")))]),
        MOp::MergeInto(vec![("main", plus(rf("s"))), ("s", lit("ba"))]),
        MOp::Macro,
    ]
}

fn mshow(o: &MOp) -> String {
    let l = |v: &Vec<(&'static str, E)>| show_rules(&rules(v.clone()));
    match o {
        MOp::New => "new".into(),
        MOp::Add(n, e) => format!("add({:?}, {})", n, show(e)),
        MOp::Merge(v) => format!("merge({})", l(v)),
        MOp::MergeInto(v) => format!("{}.merge(it)", l(v)),
        MOp::Macro => "rules!{main => ref_rule!(r), r => lit!(a), r => lit!(aa)}".into(),
    }
}

fn map_set(m: &mut Rules, n: &str, e: &E) {
    match m.iter_mut().find(|x| x.0 == n) {
        Some(x) => x.1 = e.clone(),
        None => m.push((n.to_string(), e.clone())),
    }
}
fn map_missing(m: &mut Rules, n: &str, e: &E) {
    if !m.iter().any(|x| x.0 == n) {
        m.push((n.to_string(), e.clone()));
    }
}

fn mstep(set: SetOfRules, map: &mut Rules, o: &MOp) -> SetOfRules {
    match o {
        MOp::New => {
            map.clear();
            SetOfRules::new(Default::default())
        }
        MOp::Add(n, e) => {
            map_set(map, n, e);
            set.add(n, to_real_expr(e))
        }
        MOp::Merge(v) => {
            for (n, e) in v {
                map_missing(map, n, e);
            }
            set.merge(to_real(&rules(v.clone())))
        }
        MOp::MergeInto(v) => {
            let mut m = rules(v.clone());
            for (n, e) in map.iter() {
                map_missing(&mut m, n, e);
            }
            *map = m;
            to_real(&rules(v.clone())).merge(set)
        }
        MOp::Macro => {
            *map = rules(vec![("main", rf("r")), ("r", lit("aa"))]);
            use dynparser::{lit, ref_rule, rules};
            let _ = set;
            rules! {"main" => ref_rule!("r"), "r" => lit!("a"), "r" => lit!("aa")}
        }
    }
}

fn model_dump(map: &Rules) -> String {
    let mut v: Vec<String> = map
        .iter()
        .map(|(n, e)| {
            let mut o = format!("{:?}=", n);
            dump_expr(&to_real_expr(e), &mut o);
            o
        })
        .collect();
    v.sort();
    v.join("\n")
}

/// the definitions (or, if they are not literally the same, what is parsed with them) are those of the map
fn same_map(set: &SetOfRules, map: &Rules, texts: &[String]) -> Option<String> {
    let (a, b) = (dump(set), model_dump(map));
    let names = |s: &SetOfRules| {
        let mut v: Vec<String> = s.0.keys().cloned().collect();
        v.sort();
        v
    };
    if names(set) != names(&to_real(map)) {
        return Some(format!("defines {:?}\nexpected {:?}", names(set), names(&to_real(map))));
    }
    let mut m = Machine::new(map);
    if m.left_recursive() {
        return if a == b { None } else { Some(format!("defines\n{}\nexpected\n{}", a, b)) };
    }
    for t in texts {
        let r = parse(t, set);
        let o = m.run(&t.chars().collect::<Vec<_>>());
        let same = match (&o, &r) {
            (Out::Ok(x), Ok(n)) => x.same(n),
            (Out::Err(x), Err(e)) => x.n == e.pos.n,
            _ => false,
        };
        if !same {
            return Some(format!("parsing {:?} with the result: {}\ndefines\n{}\nexpected\n{}", t, show_res(&r), a, b));
        }
    }
    None
}

pub fn maps(tier: Tier) -> Vec<Family> {
    let mut out = vec![];
    let os = mops();
    let k = os.len() as u64;
    let depth = tier.pick(5, 6);
    let n = seqs(k, depth);
    let lo = seqs(k, depth - 1);
    let texts = strings_upto(&["a", "b"], 3);
    let chunk = 300;
    let t2 = texts.clone();
    out.push(family(
        "histories",
        format!("all {} sequences of {} operations (their prefixes included) out of {}: new, add (new name, name defined, name referred before), merge and merged into (empty, disjoint, overlapping), rules! with a name twice; after the last step names, definitions and parsing of {} texts compared with a map", n - lo, depth, k, texts.len()),
        (n - lo + chunk - 1) / chunk,
        move |b, ctx| {
            for i in lo + b * chunk..(lo + (b + 1) * chunk).min(n) {
                if !ctx.next() {
                    if ctx.stop() {
                        return;
                    }
                    continue;
                }
                let seq = nth_seq(k, i);
                let what = || format!("history: {}", seq.iter().map(|&j| mshow(&os[j])).collect::<Vec<_>>().join("; "));
                ctx.sample(what);
                let r = ctx.real(what, || {
                    let mut map: Rules = vec![];
                    let mut set = SetOfRules::new(Default::default());
                    for (s, &j) in seq.iter().enumerate() {
                        set = mstep(set, &mut map, &os[j]);
                        // parsing between the steps has no effect
                        let _ = parse(&t2[(i as usize + s) % t2.len()], &set).is_ok() || map.is_empty();
                    }
                    (same_map(&set, &map, &t2), map.len())
                });
                ctx.stats.states += 1;
                ctx.stats.transitions += seq.len() as u64;
                if let Some((w, len)) = r {
                    ctx.nontrivial(len > 0);
                    ctx.outcome(&format!("{} names", len));
                    if let Some(w) = w {
                        ctx.fail(format!("{}\n{}", what(), w));
                    }
                }
            }
        },
    ));
    let ns = crate::spaces::sizes(tier.pick(40, 100), tier.pick(520, 2100));
    out.push(family(
        "scale-sets",
        "n rules added, then each n-th added again; merge of sets of n and n/2+1.. rules overlapping in half of them, both ways; chain of n merges of one rule; names that differ in case, blanks, dots or one char; long names",
        ns.len() as u64,
        move |b, ctx| {
            let n = ns[b as usize];
            let name = |i: usize| format!("r{}", i);
            let body = |i: usize, v: usize| lit(&format!("{}v{}", i, v));
            let mk = |lo: usize, hi: usize, v: usize| -> Rules { (lo..hi).map(|i| (name(i), body(i, v))).collect() };
            let mut cases: Vec<(String, Box<dyn Fn() -> (SetOfRules, Rules)>)> = vec![];
            cases.push((format!("{} adds, then again", n), Box::new(move || {
                let mut m = mk(0, n, 0);
                let mut s = to_real(&m);
                for i in (0..n).step_by(3) {
                    s = s.add(&name(i), to_real_expr(&body(i, 1)));
                    map_set(&mut m, &name(i), &body(i, 1));
                }
                (s, m)
            })));
            for (x, y) in [((0, n), (n / 2, n + n / 2)), ((n / 2, n + n / 2), (0, n)), ((0, n), (0, n)), ((0, n), (n, 2 * n)), ((0, 1), (0, n)), ((0, n), (0, 1))] {
                cases.push((format!("merge of {:?} with {:?}", x, y), Box::new(move || {
                    let mut m = mk(x.0, x.1, 0);
                    let o = mk(y.0, y.1, 1);
                    let s = to_real(&m).merge(to_real(&o));
                    for (n, e) in &o {
                        map_missing(&mut m, n, e);
                    }
                    (s, m)
                })));
            }
            cases.push((format!("{} merges", n), Box::new(move || {
                let mut m: Rules = vec![];
                let mut s = to_real(&m);
                for i in 0..n {
                    let mut o = vec![(name(i), body(i, 0))];
                    if i > 0 {
                        o.push((name(i / 2), body(i, 9)));
                    }
                    s = s.merge(to_real(&o));
                    for (n, e) in &o {
                        map_missing(&mut m, n, e);
                    }
                }
                (s, m)
            })));
            if n == 7 {
                let names = ["r", "R", "r ", " r", "r.r", ".r", "rr", "é", "e\u{301}", "", "r\n", "main", "Main", "_", "_1"];
                for (i, x) in names.iter().enumerate() {
                    for y in names.iter().skip(i) {
                        for via_merge in [false, true] {
                            let (x, y) = (x.to_string(), y.to_string());
                            cases.push((format!("{:?} and {:?}", x, y), Box::new(move || {
                                let mut m: Rules = vec![(x.clone(), lit("1"))];
                                let s = to_real(&m);
                                let o: Rules = vec![(y.clone(), lit("2"))];
                                if via_merge {
                                    map_missing(&mut m, &y, &o[0].1);
                                    (s.merge(to_real(&o)), m)
                                } else {
                                    map_set(&mut m, &y, &o[0].1);
                                    (s.add(&y, to_real_expr(&o[0].1)), m)
                                }
                            })));
                        }
                    }
                }
            }
            let long = "n".repeat(n);
            let l2 = long.clone();
            cases.push((format!("names of {} chars", n), Box::new(move || {
                let mut m: Rules = vec![(l2.clone(), lit("1"))];
                let mut s = to_real(&m);
                for x in [format!("{}n", l2), format!("{}m", l2), l2.clone()] {
                    s = s.add(&x, to_real_expr(&lit(&x)));
                    map_set(&mut m, &x, &lit(&x));
                }
                (s, m)
            })));
            for (what, f) in cases {
                if !ctx.next() {
                    if ctx.stop() {
                        return;
                    }
                    continue;
                }
                ctx.nontrivial(n > 0);
                ctx.stats.states += 1;
                ctx.stats.transitions += n as u64;
                let r = ctx.real(|| what.clone(), || {
                    let (s, m) = f();
                    // main: any of the rules, in the order of the map
                    let mut m = m;
                    let pick: Vec<String> = m.iter().map(|x| x.0.clone()).collect();
                    let main = or(pick.iter().map(|n| rf(n)).collect());
                    let s = s.add("main", to_real_expr(&main));
                    map_set(&mut m, "main", &main);
                    let mut ts = vec!["".to_string()];
                    for i in [0, 1, 2, n / 2, n.saturating_sub(1), n, n + n / 2] {
                        for v in [0, 1, 9] {
                            ts.push(format!("{}v{}", i, v));
                        }
                    }
                    for t in ["1", "2", &long] {
                        ts.push(t.to_string());
                    }
                    if m.iter().any(|x| x.0 == "main" && mention_main(&x.1)) {
                        ts.clear();
                    }
                    same_map(&s, &m, &ts)
                });
                if let Some(Some(w)) = r {
                    ctx.fail(format!("{}\n{}", what, clip(&w, 3000)));
                }
                ctx.outcome("as the map");
            }
        },
    ));
    let names = crate::more::NAMES;
    let nn = names.len() as u64;
    out.push(family(
        "names",
        format!("all ordered pairs (x, y) of {} names (empty, blanks, dots, case, other alphabets, words of the notation, long): defined by add, by merge, redefined by both; a rule that refers to both", nn),
        nn,
        move |b, ctx| {
            let x = names[b as usize];
            let ts = strings_upto(&["a", "b"], 2);
            for y in names {
                for k in 0..5 {
                    if !ctx.next() {
                        if ctx.stop() {
                            return;
                        }
                        continue;
                    }
                    ctx.nontrivial(true);
                    ctx.stats.states += 1;
                    ctx.stats.transitions += 4;
                    let what = || format!("names {:?} and {:?}, history {}", x, y, k);
                    let main = or(vec![and(vec![rf(x), rf(y)]), rf(y), rf(x)]);
                    let r = ctx.real(what, || {
                        let mut m: Rules = vec![];
                        let mut s = to_real(&m);
                        let ops: Vec<(bool, &str, E)> = match k {
                            0 => vec![(true, x, lit("a")), (true, y, lit("b")), (true, "main", main.clone())],
                            1 => vec![(true, "main", main.clone()), (true, x, lit("a")), (false, y, lit("b"))],
                            2 => vec![(false, x, lit("a")), (false, "main", main.clone()), (false, y, lit("b")), (true, x, lit("ab"))],
                            3 => vec![(true, y, lit("b")), (true, x, lit("a")), (true, y, lit("a")), (false, x, lit("b")), (true, "main", main.clone())],
                            _ => vec![(true, x, lit("b")), (false, y, lit("a")), (false, x, lit("aa")), (false, y, lit("bb")), (false, "main", main.clone())],
                        };
                        for (add, n, e) in ops {
                            if add {
                                map_set(&mut m, n, &e);
                                s = s.add(n, to_real_expr(&e));
                            } else {
                                map_missing(&mut m, n, &e);
                                s = s.merge(to_real(&vec![(n.to_string(), e)]));
                            }
                        }
                        same_map(&s, &m, &ts)
                    });
                    if let Some(Some(w)) = r {
                        ctx.fail(format!("{}\n{}", what(), clip(&w, 3000)));
                        return;
                    }
                    ctx.outcome("as the map");
                }
            }
        },
    ));
    let lens = crate::more::similar_lens(tier);
    let nn = lens.len() as u64 * 3;
    out.push(family(
        "similar-names",
        format!("pairs (x, y) of names that differ in one place (each char changed, its case, two swapped, one less or more, turned round), x of {:?} chars, in both orders: defined by add, by merge, redefined by both; a rule that refers to both", lens),
        nn,
        move |b, ctx| {
            let (w, ws) = crate::more::similar_words(crate::more::SIMILAR[b as usize % 3], lens[b as usize / 3]);
            let ts = strings_upto(&["a", "b"], 2);
            for (x, y) in ws.iter().flat_map(|v| vec![(w.as_str(), v.as_str()), (v.as_str(), w.as_str())]) {
                for k in 0..5 {
                    if !ctx.next() {
                        if ctx.stop() {
                            return;
                        }
                        continue;
                    }
                    ctx.nontrivial(true);
                    ctx.stats.states += 1;
                    ctx.stats.transitions += 4;
                    let what = || format!("names {:?} and {:?}, history {}", x, y, k);
                    let main = or(vec![and(vec![rf(x), rf(y)]), rf(y), rf(x)]);
                    let r = ctx.real(what, || {
                        let mut m: Rules = vec![];
                        let mut s = to_real(&m);
                        let ops: Vec<(bool, &str, E)> = match k {
                            0 => vec![(true, x, lit("a")), (true, y, lit("b")), (true, "main", main.clone())],
                            1 => vec![(true, "main", main.clone()), (true, x, lit("a")), (false, y, lit("b"))],
                            2 => vec![(false, x, lit("a")), (false, "main", main.clone()), (false, y, lit("b")), (true, x, lit("ab"))],
                            3 => vec![(true, y, lit("b")), (true, x, lit("a")), (true, y, lit("a")), (false, x, lit("b")), (true, "main", main.clone())],
                            _ => vec![(true, x, lit("b")), (false, y, lit("a")), (false, x, lit("aa")), (false, y, lit("bb")), (false, "main", main.clone())],
                        };
                        for (add, n, e) in ops {
                            if add {
                                map_set(&mut m, n, &e);
                                s = s.add(n, to_real_expr(&e));
                            } else {
                                map_missing(&mut m, n, &e);
                                s = s.merge(to_real(&vec![(n.to_string(), e)]));
                            }
                        }
                        same_map(&s, &m, &ts)
                    });
                    if let Some(Some(w)) = r {
                        ctx.fail(format!("{}\n{}", what(), clip(&w, 3000)));
                        return;
                    }
                    ctx.outcome("as the map");
                }
            }
        },
    ));
    let pool = Pool::new(
        vec![lit("a"), lit(""), class("b", &[]), class("", &[]), E::Dot, E::Eof, rf("r"), rf("nope"), err("e")],
        vec![Un::Not, Un::Rep(0, Some(1)), Un::Rep(0, None), Un::Rep(0, Some(0))],
        2,
        false,
    );
    let mut es: Vec<E> = (0..pool.total()).map(|i| pool.nth(i)).collect();
    es.extend([E::And(vec![]), E::Or(vec![]), and(vec![lit("a")]), or(vec![lit("a")]), and(vec![lit("a"), rf("r")]), or(vec![rf("r"), lit("b")]), and(vec![rf("nope"), E::Dot]), or(vec![err("e"), lit("a")])]);
    let es = Arc::new(es);
    let ne = es.len() as u64;
    out.push(family(
        "definitions",
        format!("all ordered pairs of {} expressions as first and second definition of a rule: added twice, merged, added after merging, in the macro; next to other rules", ne),
        ne,
        move |b, ctx| {
            let e1 = &es[b as usize];
            let ts = strings_upto(&["a", "b"], 2);
            for e2 in es.iter() {
                for k in 0..5 {
                    if !ctx.next() {
                        if ctx.stop() {
                            return;
                        }
                        continue;
                    }
                    ctx.nontrivial(true);
                    ctx.stats.states += 1;
                    ctx.stats.transitions += 3;
                    let what = || format!("x = {}, then x = {}, history {}", show(e1), show(e2), k);
                    let base = || rules(vec![("main", and(vec![rf("x"), star(rf("r"))])), ("r", or(vec![lit("b"), lit("a")]))]);
                    let one = |e: &E| -> Rules { vec![("x".to_string(), e.clone())] };
                    let r = ctx.real(what, || {
                        let mut m = base();
                        let s = match k {
                            0 => to_real(&base()).add("x", to_real_expr(e1)).add("x", to_real_expr(e2)),
                            1 => to_real(&one(e1)).add("x", to_real_expr(e2)).merge(to_real(&base())),
                            2 => to_real(&base()).merge(to_real(&one(e2))).merge(to_real(&one(e1))),
                            3 => to_real(&one(e2)).merge(to_real(&one(e1))).merge(to_real(&base())),
                            _ => to_real(&base()).merge(to_real(&one(e1))).add("x", to_real_expr(e2)),
                        };
                        m.push(("x".to_string(), e2.clone()));
                        same_map(&s, &m, &ts)
                    });
                    if let Some(Some(w)) = r {
                        ctx.fail(format!("{}\n{}", what(), clip(&w, 3000)));
                        return;
                    }
                    ctx.outcome("as the map");
                }
            }
        },
    ));
    out
}
fn mention_main(e: &E) -> bool {
    crate::spaces::mentions(e, "main")
}
