//! The spaces of (rule set, texts) explored by the parsing properties

use crate::frame::*;
use crate::gen::*;
use crate::model::*;
use crate::spec;
use dynparser::parser::expression::SetOfRules;
use std::sync::Arc;

/// a rule set ready to be run on both sides
pub struct Prep {
    pub rules: Rules,
    pub m: Machine,
    pub real: SetOfRules,
}

pub fn prep(rules: &Rules) -> Option<Prep> {
    let m = Machine::new(rules);
    if m.left_recursive() {
        return None;
    }
    Some(Prep { rules: rules.clone(), m, real: to_real(rules) })
}

pub struct Space {
    pub name: String,
    pub descr: String,
    pub batches: u64,
    pub hang_s: u64,
    /// yields the groups of a batch
    pub gen: Box<dyn Fn(u64, &mut dyn FnMut(Rules, &[String])) + Send + Sync>,
}

pub type Oracle = fn(&mut Ctx, &mut Prep, &str, &[char]);

pub fn explore(sp: Space, oracle: Oracle) -> Family {
    let Space { name, descr, batches, hang_s, gen } = sp;
    let mut f = family(name, descr, batches, move |b, ctx| {
        gen(b, &mut |rules, texts| {
            if ctx.stop() {
                return;
            }
            let mut p = None;
            for t in texts {
                if !ctx.next() {
                    if ctx.stop() {
                        return;
                    }
                    continue;
                }
                if p.is_none() {
                    match prep(&rules) {
                        Some(x) => p = Some(x),
                        None => {
                            ctx.stats.evals -= 1;
                            ctx.outcome("skipped: left recursion");
                            return;
                        }
                    }
                }
                let p = p.as_mut().unwrap();
                let chars: Vec<char> = t.chars().collect();
                let (s0, t0) = (p.m.states, p.m.transitions);
                oracle(ctx, p, t, &chars);
                ctx.stats.states += p.m.states - s0;
                ctx.stats.transitions += p.m.transitions - t0;
                ctx.sample(|| format!("{} on {:?}", show_rules(&p.rules), t));
            }
        })
    });
    f.hang_s = hang_s;
    f
}

// ---------------------------------------------------------------------- core: trees x aux x texts

pub struct Alpha {
    pub name: &'static str,
    pub leaves: Vec<E>,
    pub unary: Vec<Un>,
    pub aux: Vec<Vec<(&'static str, E)>>,
    pub texts: Vec<String>,
}

fn a() -> E {
    lit("a")
}
fn b() -> E {
    lit("b")
}

/// letters, with a multi char literal that shares its beginning
pub fn alpha_ascii(tier: Tier) -> Alpha {
    Alpha {
        name: "ascii",
        leaves: vec![a(), lit("ab"), class("b", &[]), E::Dot, rf("r"), E::Eof],
        unary: std_unary(),
        aux: vec![
            vec![("r", or(vec![and(vec![a(), rf("r")]), b()]))],
            vec![("r", star(b()))],
            vec![("r", and(vec![not(a()), E::Dot]))],
            vec![("r", or(vec![a(), lit("ab")]))],
        ],
        texts: strings_upto(&["a", "b"], tier.pick(4, 5)),
    }
}

/// multi char literals over one and two letters: backtracking inside of literals, deepest errors
pub fn alpha_lits(tier: Tier) -> Alpha {
    Alpha {
        name: "literals",
        leaves: vec![lit("aa"), lit("aba"), lit("abb"), lit("b"), lit(""), rf("r")],
        unary: std_unary(),
        aux: vec![
            vec![("r", lit("ab"))],
            vec![("r", or(vec![lit("abab"), lit("aab"), lit("b")]))],
            vec![("r", and(vec![opt(rf("s")), lit("ba")])), ("s", or(vec![lit("a"), lit("bb")]))],
        ],
        texts: strings_upto(&["a", "b"], tier.pick(5, 6)),
    }
}

/// ends of line and multibyte chars
pub fn alpha_lines(tier: Tier) -> Alpha {
    Alpha {
        name: "lines",
        leaves: vec![lit("a"), lit("\n"), lit("é\r"), class("a", &[('è', 'ê')]), E::Dot, rf("r")],
        unary: vec![Un::Not, Un::Rep(0, Some(1)), Un::Rep(0, None), Un::Rep(1, None)],
        aux: vec![
            vec![("r", or(vec![lit("\r\n"), lit("\n"), lit("a\n")]))],
            vec![("r", plus(class("aé\n\r", &[])))],
        ],
        texts: strings_upto(&["a", "\n", "é", "\r"], tier.pick(4, 5)),
    }
}

/// error constructors
pub fn alpha_errors(tier: Tier) -> Alpha {
    Alpha {
        name: "errors",
        leaves: vec![a(), b(), err("e1"), rf("r"), rf("s"), E::Dot],
        unary: std_unary(),
        aux: vec![
            vec![("r", err("er")), ("s", or(vec![b(), err("es")]))],
            vec![("r", or(vec![and(vec![a(), rf("r"), or(vec![b(), err("unbalanced")])]), b()])), ("s", and(vec![a(), err("es")]))],
            vec![("r", opt(and(vec![a(), err("er")]))), ("s", not(err("es")))],
        ],
        texts: strings_upto(&["a", "b"], tier.pick(4, 5)),
    }
}

/// references to rules that are not defined
pub fn alpha_missing(tier: Tier) -> Alpha {
    Alpha {
        name: "missing",
        leaves: vec![a(), b(), rf("nope"), rf("r"), rf("s"), E::Dot],
        unary: std_unary(),
        aux: vec![
            vec![("r", rf("gone")), ("s", or(vec![b(), rf("Nope")]))],
            vec![("r", or(vec![and(vec![a(), rf("r"), or(vec![b(), rf("r.x")])]), b()])), ("s", and(vec![a(), rf("S")]))],
            vec![("r", opt(and(vec![a(), rf("gone")]))), ("s", not(rf("gone")))],
            vec![("s", star(rf("r")))],
        ],
        texts: strings_upto(&["a", "b"], tier.pick(4, 5)),
    }
}

pub fn core(al: Alpha, size: usize, ternary: bool) -> Space {
    let pool = Pool::new(al.leaves.clone(), al.unary.clone(), size, ternary);
    let chunk = 200u64;
    let total = pool.total();
    let aux: Vec<Rules> = al.aux.iter().map(|v| rules(v.clone())).collect();
    let texts = al.texts;
    let needs: Vec<&'static str> = vec!["r", "s"];
    Space {
        name: format!("trees-{}", al.name),
        descr: format!(
            "main: all {} expression trees of up to {} nodes over leaves {{{}}}, {} unary operators, and/or of 2{}; x {} definitions of the auxiliary rules (where used) x {} texts",
            total, size,
            al.leaves.iter().map(show).collect::<Vec<_>>().join(" "),
            al.unary.len(), if ternary { " and 3" } else { "" }, aux.len(), texts.len()
        ),
        batches: (total + chunk - 1) / chunk,
        hang_s: 20,
        gen: Box::new(move |b, f| {
            for i in b * chunk..((b + 1) * chunk).min(total) {
                let e = pool.nth(i);
                let uses = needs.iter().any(|n| mentions(&e, n));
                for (k, x) in aux.iter().enumerate() {
                    if k > 0 && !uses {
                        break;
                    }
                    let mut r = rules1(e.clone());
                    r.extend(x.iter().cloned());
                    f(r, &texts);
                }
            }
        }),
    }
}

pub fn mentions(e: &E, n: &str) -> bool {
    match e {
        E::Ref(x) => x == n,
        E::And(v) | E::Or(v) => v.iter().any(|x| mentions(x, n)),
        E::Not(x) | E::Rep(x, _, _) => mentions(x, n),
        _ => false,
    }
}

/// all pairs (main, r) of small trees that refer to each other
pub fn pairs(name: &str, leaves: Vec<E>, size_main: usize, size_r: usize, texts: Vec<String>) -> Space {
    let un = vec![Un::Not, Un::Rep(0, Some(1)), Un::Rep(0, None), Un::Rep(1, None)];
    let pm = Pool::new(leaves.clone(), un.clone(), size_main, false);
    let pr = Pool::new(leaves.clone(), un, size_r, size_r >= 4);
    let (nm, nr) = (pm.total(), pr.total());
    let chunk = 64u64;
    let per = (nr + chunk - 1) / chunk;
    Space {
        name: format!("pairs-{}", name),
        descr: format!(
            "main x r: all {} x {} pairs of trees of up to {} and {} nodes over leaves {{{}}} x {} texts",
            nm, nr, size_main, size_r, leaves.iter().map(show).collect::<Vec<_>>().join(" "), texts.len()
        ),
        batches: nm * per,
        hang_s: 20,
        gen: Box::new(move |b, f| {
            let e = pm.nth(b / per);
            if !mentions(&e, "r") {
                return;
            }
            let lo = b % per * chunk;
            for i in lo..(lo + chunk).min(nr) {
                f(vec![("main".into(), e.clone()), ("r".into(), pr.nth(i))], &texts);
            }
        }),
    }
}

/// three rules, small bodies
pub fn triples(name: &str, leaves: Vec<E>, texts: Vec<String>) -> Space {
    let un = vec![Un::Not, Un::Rep(0, None)];
    let p3 = Pool::new(leaves.clone(), un.clone(), 3, false);
    let p2 = Pool::new(leaves.clone(), un, 2, false);
    let (n3, n2) = (p3.total(), p2.total());
    Space {
        name: format!("triples-{}", name),
        descr: format!(
            "main x r x s: {} x {} x {} trees over leaves {{{}}} x {} texts",
            n3, n3, n2, leaves.iter().map(show).collect::<Vec<_>>().join(" "), texts.len()
        ),
        batches: n3,
        hang_s: 20,
        gen: Box::new(move |b, f| {
            let e = p3.nth(b);
            if !mentions(&e, "r") && !mentions(&e, "s") {
                return;
            }
            for i in 0..n3 {
                let r = p3.nth(i);
                if !mentions(&r, "s") {
                    continue;
                }
                for j in 0..n2 {
                    f(vec![("main".into(), e.clone()), ("r".into(), r.clone()), ("s".into(), p2.nth(j))], &texts);
                }
            }
        }),
    }
}

// ---------------------------------------------------------------------- scale

type Group = (Rules, Vec<String>);

fn from_groups(name: &str, descr: &str, n: u64, g: impl Fn(u64) -> Vec<Group> + Send + Sync + 'static) -> Space {
    Space {
        name: name.into(),
        descr: descr.into(),
        batches: n,
        hang_s: 60,
        gen: Box::new(move |b, f| {
            for (r, t) in g(b) {
                f(r, &t)
            }
        }),
    }
}

/// every number up to `dense`, then those around powers of two and some large ones
pub fn sizes(dense: usize, max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=dense).collect();
    let mut p = 16;
    while p <= max {
        v.extend([p - 1, p, p + 1]);
        p *= 2;
    }
    v.extend([100, 255, 1000, max]);
    v.sort();
    v.dedup();
    v.retain(|&x| x <= max);
    v
}

fn text_of(pat: &str, n: usize) -> String {
    pat.chars().cycle().take(n).collect()
}
fn set_char(t: &str, i: usize, c: char) -> String {
    t.chars().enumerate().map(|(k, x)| if k == i { c } else { x }).collect()
}
/// the text, and small edits of it
fn edits(t: &str) -> Vec<String> {
    let n = t.chars().count();
    let mut v = vec![t.to_string(), format!("{}z", t), format!("{}{}", t, t)];
    if n > 0 {
        v.push(t.chars().take(n - 1).collect());
        for i in [0, n / 2, n - 1] {
            v.push(set_char(t, i, 'z'));
            v.push(set_char(t, i, '\n'));
        }
        v.push(t.chars().skip(1).collect());
    }
    v
}

/// `traced`: the parse is traced, whose cost grows with the square of the rules walked
pub fn scale(tier: Tier, traced: bool) -> Vec<Space> {
    let mut v = vec![];
    let big = if traced { tier.pick(270, 600) } else { tier.pick(1100, 5000) };

    let ls = sizes(tier.pick(140, 300), tier.pick(5000, 70000));
    v.push(from_groups(
        "scale-literal",
        "literals of n chars (every n up to 140/300 and around the powers of two), ascii, with ends of line, and multibyte; the text, one char less, more or different",
        ls.len() as u64 * 3,
        move |bi| {
            let n = ls[(bi / 3) as usize];
            let l = text_of(["abcde", "ab\ncé", "é€😀"][(bi % 3) as usize], n);
            vec![(rules1(lit(&l)), edits(&l)), (rules1(and(vec![star(b()), opt(lit(&l)), star(E::Dot)])), vec![l.clone(), format!("b{}", l), l.chars().take(n.saturating_sub(1)).collect()])]
        },
    ));

    let ns = sizes(tier.pick(40, 80), big);
    v.push(from_groups(
        "scale-repeat",
        "repetition of a literal, a set, a rule and a group with (0,*) (1,*) (n,*) (0,n) (n,n) (n-1,n+1) (0,1) for n up to 40/80 and around the powers of two; n-2..n+2 matches followed by nothing or other chars",
        ns.len() as u64,
        move |bi| {
            let n = ns[bi as usize];
            let mut g = vec![];
            for (x, unit) in [
                (a(), "a"),
                (class("", &[('a', 'c')]), "c"),
                (rf("r"), "a"),
                (and(vec![a(), b()]), "ab"),
                (or(vec![lit("aa"), a()]), "a"),
            ] {
                for (min, max) in [(0, None), (1, None), (n, None), (0, Some(n)), (n, Some(n)), (n.saturating_sub(1), Some(n + 1)), (0, Some(1))] {
                    let e = rep(x.clone(), min, max);
                    let mut ts = vec![];
                    for k in n.saturating_sub(2)..=n + 2 {
                        let t: String = unit.repeat(k);
                        ts.push(format!("{}z", t));
                        ts.push(format!("{}é", t));
                        ts.push(t);
                    }
                    let r = vec![("main".to_string(), e.clone()), ("r".to_string(), or(vec![b(), a()]))];
                    g.push((r, ts.clone()));
                    let r = vec![
                        ("main".to_string(), and(vec![e, opt(lit("z")), star(rf("r"))])),
                        ("r".to_string(), or(vec![b(), a()])),
                    ];
                    g.push((r, ts));
                }
            }
            g
        },
    ));

    let ns = sizes(tier.pick(40, 70), tier.pick(520, 2100));
    v.push(from_groups(
        "scale-choice",
        "choices of n alternatives (own first char, common beginning, beginnings of each other in both orders): every one matched, last chars missing; also a set of n chars and n ranges",
        ns.len() as u64,
        move |bi| {
            let n = ns[bi as usize];
            if n == 0 {
                return vec![];
            }
            let pick: Vec<usize> = if n <= 80 { (0..n).collect() } else { vec![0, 1, n / 2, n - 2, n - 1, 126, 127, 128, 254, 255, 256].into_iter().filter(|&i| i < n).collect() };
            let word = |i: usize| format!("{}k", i);
            let mut g = vec![];
            let mk = |alts: Vec<E>| vec![
                ("main".to_string(), and(vec![or(alts), star(lit("z"))])),
            ];
            let mut ts = vec![];
            for &i in &pick {
                ts.push(word(i));
                ts.push(format!("{}zz", word(i)));
                ts.push(format!("{}", i));
            }
            ts.push(word(n));
            g.push((mk((0..n).map(|i| lit(&word(i))).collect()), ts.clone()));
            // alternatives as sequences, one goes further than the others
            g.push((mk((0..n).map(|i| and(vec![lit(&i.to_string()), lit("k")])).collect()), ts.clone()));
            // as rules
            let mut r = mk((0..n).map(|i| rf(&format!("r{}", i))).collect());
            r.extend((0..n).map(|i| (format!("r{}", i), lit(&word(i)))));
            g.push((r, ts));
            if n <= 130 {
                let pre = |i: usize| text_of("ab", i + 1);
                let ts: Vec<String> = pick.iter().flat_map(|&i| vec![pre(i), format!("{}z", pre(i)), format!("{}y", pre(i))]).collect();
                g.push((mk((0..n).map(|i| lit(&pre(i))).collect()), ts.clone()));
                g.push((mk((0..n).rev().map(|i| lit(&pre(i))).collect()), ts));
            }
            let ch = |i: usize| std::char::from_u32(0x100 + i as u32).unwrap();
            let ts: Vec<String> = pick.iter().flat_map(|&i| vec![ch(i).to_string(), format!("{}z", ch(i)), format!("{}a", ch(i))]).chain(vec![ch(n).to_string(), "ÿ".to_string()]).collect();
            let cs: String = (0..n).map(ch).collect();
            g.push((mk(vec![class(&cs, &[])]), ts.clone()));
            let rs: Vec<(char, char)> = (0..n).map(|i| (ch(i), ch(i))).collect();
            g.push((mk(vec![class("", &rs)]), ts.clone()));
            g.push((mk(vec![class("", &[(ch(0), ch(n - 1))])]), ts));
            g
        },
    ));

    let ns = sizes(tier.pick(60, 120), tier.pick(520, 2100));
    v.push(from_groups(
        "scale-sequence",
        "sequences of n expressions (literals, rules, optionals, negations); complete, cut or wrong at every place",
        ns.len() as u64,
        move |bi| {
            let n = ns[bi as usize];
            let full = text_of("abc", n);
            let mut ts = edits(&full);
            if n <= 60 {
                for i in 0..n {
                    ts.push(full.chars().take(i).collect());
                    ts.push(set_char(&full, i, 'é'));
                }
            }
            let l = |i: usize| lit(&"abc"[i % 3..i % 3 + 1]);
            let mut g = vec![
                (rules1(and((0..n).map(l).collect())), ts.clone()),
                (rules1(and((0..n).map(|i| opt(l(i))).collect())), ts.clone()),
                (rules1(and((0..n).map(|i| and(vec![not(lit("z")), l(i)])).collect())), ts.clone()),
                (rules1(and((0..n).map(|i| or(vec![l(i + 1), l(i)])).collect())), ts.clone()),
            ];
            let mut r = rules1(and((0..n).map(|i| rf(["x", "y", "w"][i % 3])).collect()));
            r.extend(rules(vec![("x", a()), ("y", b()), ("w", lit("c"))]));
            g.push((r, ts));
            g
        },
    ));

    let ns = sizes(tier.pick(40, 60), tier.pick(260, 1030));
    v.push(from_groups(
        "scale-nesting",
        "expressions nested n levels (and, or, not, ?, *, group), chains of n rules, rules that recurse n times over the text (right recursion, parentheses with error(...), a^n b^n), n different rules",
        ns.len() as u64,
        move |bi| {
            let n = ns[bi as usize];
            let nest = |f: &dyn Fn(E, usize) -> E| (0..n).fold(lit("ab"), |e, i| f(e, i));
            let ts: Vec<String> = ["", "ab", "a", "abz", "zab", "é"].iter().map(|s| s.to_string()).collect();
            let mut g = vec![];
            g.push((rules1(nest(&|e, _| and(vec![e]))), ts.clone()));
            g.push((rules1(nest(&|e, _| or(vec![lit("x"), e]))), ts.clone()));
            g.push((rules1(nest(&|e, _| or(vec![e, lit("x")]))), ts.clone()));
            g.push((rules1(and(vec![nest(&|e, _| not(e)), star(E::Dot)])), ts.clone()));
            if n <= 10 {
                // exponential on any PEG parser without memory
                g.push((rules1(nest(&|e, i| if i % 2 == 0 { rep(e, 1, Some(2)) } else { opt(e) })), ts.clone()));
            }
            g.push((rules1(nest(&|e, i| if i % 2 == 0 { and(vec![e, opt(lit("z"))]) } else { or(vec![lit("q"), e]) })), ts.clone()));
            if n >= 1 {
                let mut r: Rules = vec![("main".into(), rf("r0"))];
                for i in 0..n {
                    r.push((format!("r{}", i), if i + 1 == n { lit("ab") } else { rf(&format!("r{}", i + 1)) }));
                }
                g.push((r.clone(), ts.clone()));
                let last = r.len() - 1;
                r[last].1 = err("deep");
                g.push((r.clone(), ts.clone()));
                r[last].1 = rf("nowhere");
                g.push((r.clone(), ts.clone()));
                r[last].1 = opt(lit("ab"));
                g.push((r, ts.clone()));
            }
            let right = rules(vec![("main", or(vec![and(vec![a(), rf("main")]), b()]))]);
            g.push((right, vec![format!("{}b", "a".repeat(n)), "a".repeat(n), format!("{}bz", "a".repeat(n)), format!("{}é", "a".repeat(n))]));
            let paren = rules(vec![(
                "main",
                or(vec![and(vec![lit("("), rf("main"), or(vec![lit(")"), err("unbalanced")])]), lit("x")]),
            )]);
            g.push((paren, vec![
                format!("{}x{}", "(".repeat(n), ")".repeat(n)),
                format!("{}x{}", "(".repeat(n + 1), ")".repeat(n)),
                format!("{}x{}", "(".repeat(n), ")".repeat(n + 1)),
                format!("{}x{}z", "(".repeat(n + 2), ")".repeat(n)),
                format!("{}y{}", "(".repeat(n), ")".repeat(n)),
            ]));
            let anbn = rules(vec![
                ("main", and(vec![rf("s"), star(lit("c"))])),
                ("s", and(vec![a(), opt(rf("s")), b()])),
            ]);
            g.push((anbn, vec![
                format!("{}{}", "a".repeat(n), "b".repeat(n)),
                format!("{}{}c", "a".repeat(n), "b".repeat(n)),
                format!("{}{}", "a".repeat(n), "b".repeat(n + 1)),
                format!("{}{}", "a".repeat(n + 1), "b".repeat(n)),
            ]));
            g
        },
    ));

    let ns = sizes(tier.pick(50, 100), if traced { tier.pick(130, 300) } else { tier.pick(1100, 2100) });
    v.push(from_groups(
        "scale-input",
        "texts of n chars or lines: a loop of lines, of words and blanks, a long token then a mismatch, long backtracking, long lookahead, the same rule applied n times",
        ns.len() as u64,
        move |bi| {
            let n = ns[bi as usize];
            let mut g = vec![];
            let line = rules(vec![
                ("main", star(and(vec![rf("line"), rf("eol")]))),
                ("line", star(and(vec![not(rf("eol")), class("", &[('a', 'z'), ('à', 'ü')])]))),
                ("eol", or(vec![lit("\r\n"), lit("\n"), lit("\r")])),
            ]);
            for eol in ["\n", "\r\n", "\r"] {
                let t: String = (0..n).map(|i| format!("{}{}", ["ab", "é", ""][i % 3], eol)).collect();
                g.push((line.clone(), vec![t.clone(), format!("{}0", t), format!("{}abc0\nx", t), format!("{}abc", t), set_char(&t, n / 2, '0'), set_char(&t, n, '€')]));
            }
            let words = rules(vec![
                ("main", and(vec![star(and(vec![rf("word"), star(lit(" "))])), E::Eof])),
                ("word", or(vec![and(vec![lit("if"), not(class("", &[('a', 'z')]))]), plus(class("", &[('a', 'z')]))])),
            ]);
            let t: String = (0..n).map(|i| ["if ", "iffy ", "x  "][i % 3]).collect();
            g.push((words.clone(), vec![t.clone(), format!("{}0", t), format!("0{}", t)]));
            g.push((words, vec!["x".repeat(n), format!("{}!", "x".repeat(n)), format!("if{}", "x".repeat(n))]));
            let back = rules(vec![(
                "main",
                or(vec![
                    and(vec![star(a()), lit("x")]),
                    and(vec![star(class("a", &[])), lit("y")]),
                    and(vec![not(and(vec![star(E::Dot), lit("q")])), star(a()), star(b())]),
                ]),
            )]);
            let t = "a".repeat(n);
            g.push((back, vec![t.clone(), format!("{}x", t), format!("{}y", t), format!("{}b", t), format!("{}z", t), format!("{}bé", t)]));
            let many = rules(vec![("main", star(rf("r"))), ("r", or(vec![and(vec![rf("s"), lit("1")]), and(vec![rf("s"), lit("2")])])), ("s", plus(a()))]);
            let t = "aa2a1".repeat(n / 4 + 1);
            g.push((many, vec![t.clone(), format!("{}aa3", t), format!("{}aa", t)]));
            g
        },
    ));
    v
}

// ---------------------------------------------------------------------- realistic grammars x token strings

pub struct App {
    pub name: &'static str,
    pub peg: &'static str,
    pub tokens: &'static [&'static str],
    pub len: (usize, usize),
}

pub const APPS: &[App] = &[
    App {
        name: "calculator",
        peg: "main = _ expr\nexpr = term (sum term)*\nterm = factor (mul factor)*\nfactor = number / '(' _ expr ')' _ / '-' _ factor\nsum = [-+] _\nmul = ('*' / '/') _\nnumber = [0-9]+ ('.' [0-9]+)? _\n_ = ' '*\n",
        tokens: &["1", "23", "4.5", "+", "-", "*", "(", ")", " "],
        len: (5, 6),
    },
    App {
        name: "parenthesis",
        peg: "main = '(' main ( ')' / error(\"unbalanced parenthesis: missing ')'\") ) main / 'hello' / ''\n",
        tokens: &["(", ")", "hello", "hell", "\n"],
        len: (6, 7),
    },
    App {
        name: "keyvalue",
        peg: "main = (line eol)* line?\nline = pair / comment / blank\npair = key blank ':' blank value\nkey = !'end' [_a-zA-Z]+\nvalue = (!eol .)*\ncomment = '#' (!eol .)*\nblank = ' '*\neol = \"\\r\\n\" / \"\\n\" / \"\\r\"\n",
        tokens: &["k", "end", ":", " ", "#", "\n", "\r\n", "é"],
        len: (5, 6),
    },
    App {
        name: "json",
        peg: "main = _ value\nvalue = (object / array / string / number / word) _\nobject = '{' _ (pair (',' _ pair)*)? ('}' / error('object not closed'))\npair = string _ ':' _ value\narray = '[' _ (value (',' _ value)*)? (']' / error('array not closed'))\nstring = '\"' (!'\"' .)* '\"'\nnumber = '-'? [0-9]+\nword = 'true' / 'null'\n_ = [ \n]*\n",
        tokens: &["{", "}", "[", "]", ",", ":", "\"a\"", "1", "true", " ", "\""],
        len: (4, 5),
    },
    App {
        name: "statements",
        peg: "main = stmt*\nstmt = ifs / assign / block\nifs = 'if ' cond stmt ('else ' stmt)?\nassign = name '=' (name / num) ';'\nblock = '{' stmt* '}'\ncond = '(' name ')'\nname = !kw [a-z] [a-z0-9]*\nnum = [0-9]+\nkw = ('if' / 'else') ![a-z]\n",
        tokens: &["if ", "else ", "(a)", "ifx", "=", "1", ";", "{", "}"],
        len: (5, 6),
    },
    App {
        name: "nested comments",
        peg: "main = (comment / code)* !.\ncomment = '/*' (comment / !'*/' .)* ('*/' / error('comment not closed'))\ncode = !'/*' .\n",
        tokens: &["/*", "*/", "/", "*", "a", "\n"],
        len: (6, 7),
    },
    App {
        name: "anbncn",
        peg: "main = !(!(ab 'c')) 'a'+ bc !.\nab = 'a' ab? 'b'\nbc = 'b' bc? 'c'\n",
        tokens: &["a", "b", "c"],
        len: (7, 9),
    },
    App {
        name: "modules",
        peg: "main = as / b.bs / abc.abs / abc.c.cs\nas = 'a'+\nb {\n b.bs = 'b'+\n}\nabc {\n abc.abs = as b.bs\n c {\n abc.c.cs = 'c'+ as?\n }\n}\n",
        tokens: &["a", "b", "c", "z"],
        len: (5, 7),
    },
];

/// the rules of an application, by the reader of the notation of the harness
pub fn app_rules(a: &App) -> Option<Rules> {
    spec::read(a.peg).map(|d| spec::to_rules(&d))
}

pub fn apps(tier: Tier) -> Vec<Space> {
    let mut v = vec![];
    for ap in APPS {
        let r = app_rules(ap).unwrap_or_else(|| panic!("app {}", ap.name));
        let r = Arc::new(r);
        let k = ap.tokens.len() as u64;
        let len = tier.pick(ap.len.0, ap.len.1) as u32;
        let n = seqs(k, len);
        let chunk = 400u64;
        v.push(Space {
            name: format!("app-{}", ap.name),
            descr: format!("grammar {:?} x all {} sequences of up to {} tokens of {:?}", ap.peg, n, len, ap.tokens),
            batches: (n + chunk - 1) / chunk,
            hang_s: 20,
            gen: Box::new(move |b, f| {
                let ts: Vec<String> = (b * chunk..((b + 1) * chunk).min(n))
                    .map(|i| nth_seq(k, i).iter().map(|&x| ap.tokens[x]).collect::<String>())
                    .collect();
                f((*r).clone(), &ts);
            }),
        });
    }
    v
}
