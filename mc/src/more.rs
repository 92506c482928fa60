//! More spaces for the parsing properties: every char, names, descriptions of errors, huge amounts

use crate::frame::*;
use crate::gen::*;
use crate::model::*;
use crate::spaces::*;
use dynparser::parse;
use std::sync::Arc;

pub const CH: u32 = 0x400;

/// blocks of CH chars: all of them, or the first plane and the ends of the others
pub fn char_blocks(tier: Tier) -> Vec<u32> {
    (0..0x110000 / CH).filter(|k| tier == Tier::Thorough || *k < 64 || matches!(k % 64, 0 | 1 | 61 | 63)).collect()
}

/// every char on texts parsed by fixed rules
pub fn every_char(tier: Tier) -> Space {
    let blocks = char_blocks(tier);
    let sets: Vec<Rules> = vec![
        // lines
        rules(vec![
            ("main", and(vec![star(rf("line")), E::Eof])),
            ("line", or(vec![and(vec![plus(rf("c")), lit("\n")]), and(vec![rf("c"), rf("c"), lit("b")])])),
            ("c", and(vec![not(class("\nb", &[])), E::Dot])),
        ]),
        rules1(star(E::Dot)),
        rules(vec![("main", or(vec![and(vec![E::Dot, lit("a")]), and(vec![lit("a"), E::Dot, rf("r")])])), ("r", opt(and(vec![lit("\n"), rep(E::Dot, 1, Some(2))])))]),
        rules1(and(vec![lit("a"), star(class("", &[('b', '\u{10ffff}')])), lit("\n"), lit("x")])),
    ];
    let n = blocks.len() as u64;
    Space {
        name: "every-char".into(),
        descr: format!("{} fixed rule sets (lines, dots, alternatives of dots, a wide range) x texts c, cc, ca, ac, acb, \"ac\\ncb\", \"c\\n\", \"\\nc\", \"c c\", \"aa\\ncac\\nb\" for {}", sets.len(), if tier == Tier::Thorough { "every Unicode char" } else { "every char of the first plane and of the ends of the other planes" }),
        batches: n * sets.len() as u64,
        hang_s: 30,
        gen: Box::new(move |b, f| {
            let k = blocks[(b % n) as usize];
            let mut ts = vec![];
            for c in (k * CH..(k + 1) * CH).filter_map(std::char::from_u32) {
                ts.push(format!("{}", c));
                ts.push(format!("{}{}", c, c));
                ts.push(format!("{}a", c));
                ts.push(format!("a{}", c));
                ts.push(format!("a{}b", c));
                ts.push(format!("a{}\n{}b", c, c));
                ts.push(format!("{}\n", c));
                ts.push(format!("\n{}", c));
                ts.push(format!("{} {}", c, c));
                ts.push(format!("aa\n{}a{}\nb", c, c));
            }
            f(sets[(b / n) as usize].clone(), &ts);
        }),
    }
}

pub const NAMES: &[&str] = &[
    "", " ", "_", "__", "_r", "r_", "r", "R", "r ", " r", "rr", "r.r", "m.r", ".r", "m.", ".m.r", ".", "..", "m..r", "M.r", "m.R", "m.n.r", "n.r", "r'", "r\"", "Main", "MAIN", "main ", "main.r", "r.main", ".main",
    "m.main", "eof", "EOF", "error", "dot", "any", "not", "val", "Val", "rule", "rules", "ws", "é", "É", "e\u{301}", "r1", "r01", "r10", "1", "0", "01", "r-", "r-r", "r*", "r+", "r?", "!r", "r!", "a/b", "<r>", "(r)", "{}",
    "{r}", "%s", "r\n", "\n", "\t", "\0", "\u{feff}r", "r\u{200b}", "self", "super", "fn", "true", "None", "Missing rule: r", "r:", "r=", "r;", "$r", "@r", "#r", "\\r", "\\", "'", "\"", "日本", "ｒ", "𝓻",
    "rrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrr", "rrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrs",
];

/// pairs of names that could be taken one for the other
pub fn names_space() -> Space {
    let n = NAMES.len() as u64;
    let ts = Arc::new(strings_upto(&["a", "b"], 3));
    Space {
        name: "names".into(),
        descr: format!("all ordered pairs (x, y) of {} rule names (dots, spaces, quotes, case, other alphabets, words of the notation, numbers, long) x 9 shapes where both, one or none are defined x {} texts", n, ts.len()),
        batches: n,
        hang_s: 30,
        gen: Box::new(move |b, f| {
            let x = NAMES[b as usize];
            for y in NAMES {
                let set = |main: E, defs: Vec<(&str, E)>| -> Rules {
                    let mut r: Rules = vec![("main".to_string(), main)];
                    for (n, e) in defs {
                        if !r.iter().any(|d| d.0 == n) {
                            r.push((n.to_string(), e));
                        }
                    }
                    r
                };
                // defined
                f(set(and(vec![rf(x), opt(rf(y))]), vec![(x, lit("a")), (y, lit("b"))]), &ts);
                f(set(star(or(vec![rf(x), rf(y)])), vec![(x, and(vec![lit("a"), opt(rf(y))])), (y, lit("b"))]), &ts);
                f(set(or(vec![and(vec![rf(x), lit("b")]), and(vec![rf(y), not(rf(x)), star(E::Dot)])]), vec![(y, plus(lit("a"))), (x, or(vec![lit("ab"), lit("a")]))]), &ts);
                f(set(rf(x), vec![(x, or(vec![and(vec![lit("a"), rf(y)]), err(y)])), (y, or(vec![lit("b"), rf(x)]))]), &ts);
                // x is not defined
                if x != *y {
                    f(set(and(vec![lit("a"), or(vec![rf(x), rf(y)])]), vec![(y, lit("b"))]), &ts);
                    f(set(or(vec![and(vec![rf(y), star(rf(x))]), star(E::Dot)]), vec![(y, lit("a"))]), &ts);
                    f(set(and(vec![opt(rf(y)), opt(and(vec![lit("b"), not(rf(x)), rf(x)]))]), vec![(y, and(vec![lit("a"), not(rf(x))]))]), &ts);
                }
                // none
                f(set(or(vec![and(vec![lit("a"), rf(x)]), and(vec![lit("b"), rf(y)]), star(E::Dot)]), vec![]), &ts);
                f(set(and(vec![not(rf(x)), or(vec![lit("ab"), opt(rf(y))])]), vec![]), &ts);
            }
        }),
    }
}

/// long names that are the same but in one char
pub fn long_names(tier: Tier) -> Space {
    let lens: Vec<usize> = {
        let mut v = crate::spaces::sizes(tier.pick(20, 70), tier.pick(1100, 5000));
        v.retain(|&n| n > 0);
        v
    };
    let ts = Arc::new(strings_upto(&["a", "b"], 3));
    let l2 = lens.clone();
    Space {
        name: "long-names".into(),
        descr: format!("pairs (x, y) of rule names of n chars, n in {:?}, in one, two and four byte chars, with and without dots, the same but in the first, the middle or the last char, or one shorter or longer; 6 shapes where both, one or none are defined x {} texts", l2, ts.len()),
        batches: lens.len() as u64,
        hang_s: 60,
        gen: Box::new(move |b, f| {
            let n = lens[b as usize];
            for pat in ["r", "é", "rs.", "aé😀", "😀"] {
                let x: String = pat.chars().cycle().take(n).collect();
                let with = |k: usize, z: &str| -> String { x.chars().take(k).collect::<String>() + z + &x.chars().skip(k + 1).collect::<String>() };
                let mut ys = vec![with(n - 1, "z"), with(n - 1, "ñ"), with(0, "z"), with(n / 2, "."), with(n - 1, ""), with(0, ""), format!("{}r", x), format!("r{}", x), format!("r.{}", x)];
                ys.dedup();
                for (x, y) in ys.iter().flat_map(|y| vec![(x.as_str(), y.as_str()), (y.as_str(), x.as_str())]) {
                    if x == y {
                        continue;
                    }
                    let set = |main: E, defs: Vec<(&str, E)>| -> Rules { std::iter::once(("main", main)).chain(defs).map(|(n, e)| (n.to_string(), e)).collect() };
                    f(set(star(or(vec![rf(x), rf(y)])), vec![(x, and(vec![lit("a"), opt(rf(y))])), (y, lit("b"))]), &ts);
                    f(set(or(vec![and(vec![rf(x), lit("b")]), and(vec![rf(y), not(rf(x)), star(E::Dot)])]), vec![(y, plus(lit("a"))), (x, or(vec![lit("ab"), lit("a")]))]), &ts);
                    f(set(rf(x), vec![(x, or(vec![and(vec![lit("a"), rf(y)]), err(y)])), (y, or(vec![lit("b"), rf(x)]))]), &ts);
                    f(set(and(vec![lit("a"), or(vec![rf(x), rf(y)])]), vec![(y, lit("b"))]), &ts);
                    f(set(or(vec![and(vec![rf(y), star(rf(x))]), star(E::Dot)]), vec![(y, lit("a"))]), &ts);
                    f(set(or(vec![and(vec![lit("a"), rf(x)]), and(vec![lit("b"), rf(y)]), star(E::Dot)]), vec![]), &ts);
                }
            }
        }),
    }
}

/// something that happens only after many matches
pub fn after_many(tier: Tier) -> Space {
    let ns = {
        let mut v = crate::spaces::sizes(tier.pick(12, 40), tier.pick(1100, 9000));
        if tier == Tier::Quick {
            v.push(5001);
        }
        v
    };
    Space {
        name: "after-many".into(),
        descr: format!("n matches of a repetition, of a rule that refers to itself or of a sequence, and then an error, a reference to an undefined rule, a failure, an end or more matches, with others before and after that could go on; n in {:?}", ns),
        batches: ns.len() as u64,
        hang_s: 120,
        gen: Box::new(move |b, f| {
            let n = ns[b as usize];
            let xs: Vec<E> = vec![and(vec![lit("b"), err("no b")]), and(vec![lit("b"), rf("nope")]), and(vec![lit("b"), not(lit("b")), lit("d")]), and(vec![lit("b"), rf("r")]), and(vec![lit("b"), opt(err("no b"))])];
            let ts: Vec<String> = ["", "b", "bc", "bd", "bcd", "c", "\nbc"].iter().map(|t| format!("{}{}", "a".repeat(n), t)).collect();
            let ts2: Vec<String> = ts.iter().map(|t| format!("é{}z", t)).collect();
            for x in xs {
                let tail = || or(vec![lit("bc"), lit("b"), E::Eof]);
                let item = |x: &E| or(vec![lit("a"), x.clone()]);
                let with = |main: E| -> Rules { vec![("main".into(), main), ("r".into(), or(vec![lit("c"), and(vec![lit("d"), lit("e")])]))] };
                f(with(and(vec![star(item(&x)), tail()])), &ts);
                f(with(and(vec![rep(item(&x), n, Some(n + 2)), tail()])), &ts);
                f(with(and(vec![rep(item(&x), 0, Some(n)), tail()])), &ts);
                f(with(or(vec![and(vec![plus(item(&x)), lit("z")]), star(E::Dot)])), &ts);
                f(with(and(vec![E::Dot, star(item(&x)), opt(lit("c")), lit("z")])), &ts2);
                f(with(and(vec![lit("é"), star(E::Dot), not(E::Dot)])), &ts2);
                if n <= 600 {
                    f(with(E::And((0..n).map(|_| lit("a")).chain(vec![item(&x), tail()]).collect())), &ts);
                    let mut r = with(and(vec![rf("l"), tail()]));
                    r.push(("l".into(), or(vec![and(vec![lit("a"), rf("l")]), x.clone(), lit("")])));
                    f(r, &ts);
                }
            }
        }),
    }
}

/// the texts the implementation uses to describe its own errors
fn own_descriptions() -> Vec<String> {
    let mut v = vec![];
    let mut add = |r: Rules, t: &str| {
        if let Err(e) = parse(t, &to_real(&r)) {
            v.push(e.descr);
        }
    };
    add(rules1(lit("a")), "b");
    add(rules1(lit("a")), "");
    add(rules1(lit("a")), "aa");
    add(rules1(E::Dot), "");
    add(rules1(E::Eof), "a");
    add(rules1(class("a", &[('0', '9')])), "b");
    add(rules1(not(lit("a"))), "a");
    add(rules1(rf("nope")), "a");
    add(rules1(rep(lit("a"), 2, None)), "a");
    add(rules1(or(vec![])), "a");
    add(vec![], "a");
    v
}

pub fn descriptions(tier: Tier) -> Space {
    let mut ds: Vec<String> = own_descriptions();
    for s in [
        "", " ", "  ", "\n", "\r\n", "\t", "a\nb", "a\n", "\na", " a", "a ", "not", "dot", "EOF", "eof", "expected EOF", "Missing rule: x", "missing", "a", "b", "'a'", "\"a\"", "{}", "{0}", "{:?}", "%s", "\\n", "\\", "é", "e\u{301}", "日本", "😀", "\u{feff}",
        "\u{202e}", "error", "Error", "ERROR", "critical", "Critical", "Normal", "normal", "unexpected", "unbalanced", "main", "r", "null", "None", "0", "-1", "e1", "error(\"x\")", "not x", "recoverable", "ignore", "TODO", "optional", "warning", "?", "!", "*", "...",
    ] {
        ds.push(s.to_string());
    }
    for c in 1..0x80u8 {
        ds.push((c as char).to_string());
    }
    for n in [15usize, 16, 17, 31, 32, 33, 63, 64, 65, 79, 80, 81, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 10000, 65535, 65536, 65537] {
        ds.push("x".repeat(n));
        ds.push("é".repeat(n));
        ds.push(format!("{}\n{}", "x".repeat(n / 2), "y".repeat(n - n / 2)));
    }
    if tier == Tier::Thorough {
        ds.extend(strings_upto(&[" ", "\n", "a", "E", "é", "{", "}", "'", "\"", "\\"], 3));
    }
    ds.sort();
    ds.dedup();
    let n = ds.len() as u64;
    Space {
        name: "descriptions".into(),
        descr: format!("{} texts of errors (empty, blank, several lines, every ASCII char, words, the ones the parser uses for its own errors, up to 65537 chars) x 24 rule sets (alternatives before and after, sequences, repetitions, optional, negations, several rules, two constructors) x 15 texts", n),
        batches: n,
        hang_s: 30,
        gen: Box::new(move |b, f| {
            let d = || err(&ds[b as usize]);
            let any = || star(E::Dot);
            let (a, bb) = (|| lit("a"), || lit("b"));
            let ts = strings_upto(&["a", "b"], 3);
            let mains = vec![
                d(),
                or(vec![d(), a(), any()]),
                or(vec![bb(), d()]),
                or(vec![bb(), d(), any()]),
                and(vec![a(), d()]),
                or(vec![and(vec![a(), d()]), any()]),
                or(vec![and(vec![a(), a(), d()]), and(vec![a(), d(), any()]), any()]),
                and(vec![star(or(vec![a(), d()])), any()]),
                and(vec![star(and(vec![a(), or(vec![bb(), d()])])), any()]),
                and(vec![opt(d()), any()]),
                and(vec![opt(and(vec![a(), d()])), any()]),
                and(vec![rep(d(), 0, Some(0)), any()]),
                and(vec![rep(or(vec![a(), d()]), 1, Some(2)), any()]),
                and(vec![not(d()), any()]),
                and(vec![not(and(vec![a(), d()])), any()]),
                and(vec![not(not(d())), any()]),
                and(vec![not(and(vec![a(), not(d())])), any()]),
                or(vec![and(vec![opt(and(vec![a(), d()])), err("x")]), any()]),
                or(vec![err("x"), d()]),
                or(vec![and(vec![a(), err("x")]), d()]),
            ];
            for m in mains {
                f(rules1(m), &ts);
            }
            f(rules(vec![("main", or(vec![rf("r"), any()])), ("r", or(vec![and(vec![a(), rf("r")]), and(vec![bb(), d()])]))]), &ts);
            f(rules(vec![("main", star(or(vec![rf("r"), E::Dot]))), ("r", and(vec![a(), opt(rf("s"))])), ("s", and(vec![bb(), or(vec![a(), rf("t")])])), ("t", d())]), &ts);
            f(rules(vec![("main", and(vec![not(rf("r")), any()])), ("r", and(vec![a(), rf("t")])), ("t", d())]), &ts);
            f(rules(vec![("main", or(vec![and(vec![rf("r"), a()]), and(vec![rf("r"), bb()]), any()])), ("r", or(vec![and(vec![a(), bb()]), and(vec![a(), not(E::Dot), d()])]))]), &ts);
        }),
    }
}

fn huge_sizes(tier: Tier) -> Vec<usize> {
    let mut v = vec![8191, 8192, 9999, 10000, 10001, 16383, 16384, 16385, 20000, 32766, 32767, 32768, 32769, 50000, 65534, 65535, 65536, 65537, 99999, 100000, 100001];
    if tier == Tier::Thorough {
        v.extend([131071, 131072, 131073, 200000, 262144, 500000, 524288, 999999, 1000000, 1000001, 1048576, 1048577]);
    }
    v
}

/// amounts where counters of 16 bits and round limits would show
pub fn huge(tier: Tier) -> Space {
    let ns = huge_sizes(tier);
    const KINDS: u64 = 6;
    Space {
        name: "huge".into(),
        descr: format!("repetitions, literals, lines, columns, choices at the end of a long text, with n in {:?}", ns),
        batches: ns.len() as u64 * KINDS,
        hang_s: 120,
        gen: Box::new(move |b, f| {
            let n = ns[(b / KINDS) as usize];
            let s = |t: &str, k: usize| t.repeat(k);
            // with many failures, time grows with the square of the text (every failure looks at the text for its line)
            if n > 150_000 && matches!(b % KINDS, 1 | 3 | 5) {
                return;
            }
            match b % KINDS {
                0 => {
                    for m in [rep(lit("a"), 0, None), rep(lit("a"), 1, None), rep(class("", &[('a', 'b')]), n, None), rep(lit("a"), n, Some(n)), rep(E::Dot, 0, Some(n)), rep(lit("a"), n - 1, Some(n + 1))] {
                        f(rules1(m), &[s("a", n - 1), s("a", n), s("a", n + 1), s("a", n + 2)]);
                    }
                }
                1 => {
                    // short lines: every error keeps a copy of its line
                    let t: String = (0..n).map(|i| if i % 40 == 39 { '\n' } else { 'a' }).collect();
                    let m = and(vec![rep(rf("r"), 0, None), lit("z")]);
                    f(rules(vec![("main", m), ("r", or(vec![lit("b"), class("\na", &[])]))]), &[format!("{}z", t), t.clone(), format!("{}zz", t.replace("aa", "ab")), format!("{}é", t)]);
                }
                2 => {
                    let l = s("abcdé", n / 5);
                    let cut: String = l.chars().take(l.chars().count() - 1).collect();
                    f(rules1(lit(&l)), &[l.clone(), cut.clone(), format!("{}a", l), format!("{}e", cut)]);
                }
                3 => {
                    let r = rules(vec![("main", and(vec![star(rf("line")), E::Eof])), ("line", and(vec![star(class("aé", &[])), lit("\n")]))]);
                    f(r, &[s("a\n", n), format!("{}az", s("é\n", n)), format!("{}aé", s("\n", n)), format!("{}z\n\n", s("a", n)), format!("\n{}z\nb", s("é", n))]);
                }
                4 => {
                    let r = rules1(or(vec![and(vec![star(lit("a")), lit("xy")]), and(vec![star(lit("a")), lit("xz"), lit("!")]), and(vec![rep(lit("a"), 0, Some(10)), lit("q")]), and(vec![star(lit("a")), not(E::Dot)])]));
                    f(r, &[s("a", n), format!("{}xz", s("a", n)), format!("{}xz!", s("a", n)), format!("{}xzé", s("a", n)), format!("{}b", s("a", n))]);
                }
                _ => {
                    let r = rules1(star(and(vec![not(lit("*/")), E::Dot])));
                    f(r, &[s("*********\n", n / 10), format!("{}*/", s("/*/*/*\n", n / 7)), s("é\r\n", n / 3)]);
                }
            }
        }),
    }
}

/// bounds around the powers of two, up to the largest ones. Without `inverted`, min <= max
pub fn extreme_bounds(inverted: bool) -> Space {
    let bs: Vec<usize> = vec![0, 1, 2, 9, 127, 128, 255, 256, 257, 1000, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 62) + 1, (1 << 63) - 1, 1 << 63, usize::MAX - 1, usize::MAX];
    let k = bs.len() as u64;
    Space {
        name: "extreme-bounds".into(),
        descr: format!("e repeated (min,max), both in {:?} or unbounded{}, e in literal, set, rule, group, choice with an error, repetition; 0 to 300 matches, followed by something else", bs, if inverted { ", also min > max" } else { "" }),
        batches: k * (k + 1),
        hang_s: 30,
        gen: Box::new(move |b, f| {
            let (min, max) = (bs[(b / (k + 1)) as usize], bs.get((b % (k + 1)) as usize).cloned());
            if !inverted && max.map_or(false, |m| m < min) {
                return;
            }
            let units: Vec<(E, &str)> = vec![
                (lit("a"), "a"),
                (class("b", &[('é', 'é')]), "é"),
                (rf("r"), "a"),
                (and(vec![lit("a"), opt(lit("b"))]), "ab"),
                (or(vec![lit("a"), and(vec![lit("!"), err("stop")])]), "a"),
                (rep(E::Dot, 2, Some(2)), "aé"),
            ];
            for (e, u) in units {
                let mut ts = vec![];
                for n in [0, 1, 2, 3, 8, 9, 10, 126, 127, 128, 129, 254, 255, 256, 257, 258, 300] {
                    if n > 10 && (min > 300 || min < 100) && max.map_or(true, |m| m > 300 || m < 100) && n < 300 {
                        continue;
                    }
                    for tail in ["", "z", "!", "\nz"] {
                        ts.push(format!("{}{}", u.repeat(n), tail));
                    }
                }
                let r = || ("r".to_string(), or(vec![lit("b"), lit("a")]));
                f(vec![("main".to_string(), rep(e.clone(), min, max)), r()], &ts);
                f(vec![("main".to_string(), and(vec![rep(e.clone(), min, max), star(class("z\nr", &[])), opt(star(E::Dot))])), r()], &ts);
                f(vec![("main".to_string(), or(vec![and(vec![rep(e, min, max), lit("z")]), star(E::Dot)])), r()], &ts);
            }
        }),
    }
}

/// rules that recurse deep over the text
pub fn deep(tier: Tier) -> Space {
    let ns: Vec<usize> = tier.pick(vec![1500, 2000, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000], vec![1500, 2000, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 8000, 8191, 8192, 8193, 10000, 10001]);
    Space {
        name: "deep".into(),
        descr: format!("rules that recurse n times over the text (right recursion, parentheses with error(...), a^n b^n), chains of n rules, n in {:?}", ns),
        batches: ns.len() as u64 * 4,
        hang_s: 120,
        gen: Box::new(move |b, f| {
            let n = ns[(b / 4) as usize];
            match b % 4 {
                0 => f(rules(vec![("main", or(vec![and(vec![lit("a"), rf("main")]), lit("b")]))]), &[format!("{}b", "a".repeat(n)), "a".repeat(n), format!("{}bz", "a".repeat(n))]),
                1 => f(
                    rules(vec![("main", or(vec![and(vec![lit("("), rf("main"), or(vec![lit(")"), err("unbalanced")])]), lit("x")]))]),
                    &[format!("{}x{}", "(".repeat(n), ")".repeat(n)), format!("{}x{}", "(".repeat(n + 1), ")".repeat(n)), format!("{}x{}", "(".repeat(n), ")".repeat(n + 1)), format!("{}y", "(".repeat(n))],
                ),
                2 => f(
                    rules(vec![("main", and(vec![rf("s"), star(lit("c"))])), ("s", and(vec![lit("a"), opt(rf("s")), lit("b")]))]),
                    &[format!("{}{}", "a".repeat(n), "b".repeat(n)), format!("{}{}c", "a".repeat(n), "b".repeat(n)), format!("{}{}", "a".repeat(n), "b".repeat(n + 1)), format!("{}{}", "a".repeat(n + 1), "b".repeat(n))],
                ),
                _ => {
                    let mut r: Rules = vec![("main".into(), rf("r0"))];
                    for i in 0..n {
                        r.push((format!("r{}", i), if i + 1 == n { lit("ab") } else { rf(&format!("r{}", i + 1)) }));
                    }
                    let ts: Vec<String> = ["ab", "a", "abz"].iter().map(|s| s.to_string()).collect();
                    f(r.clone(), &ts);
                    let last = r.len() - 1;
                    r[last].1 = rf("nowhere");
                    f(r.clone(), &ts);
                    r[last].1 = err("deep");
                    f(r, &ts);
                }
            }
        }),
    }
}

/// chars that could be taken for this one: case, neighbours, same low bits
pub fn relatives(c: char) -> Vec<char> {
    let u = c as u32;
    let mut v: Vec<char> = c.to_lowercase().chain(c.to_uppercase()).collect();
    for x in [u.wrapping_sub(1), u + 1, u ^ 0x20, u & 0x7f, u & 0xff, u & 0xfff, u & 0xffff, u + 0x100, u + 0x10000, u.wrapping_sub(0x10000), u ^ 0x80] {
        v.extend(std::char::from_u32(x));
    }
    v.extend([' ', '\0', '?', '\u{fffd}']);
    v.retain(|x| *x != c);
    v.sort();
    v.dedup();
    v
}

// ---------------------------------------------------------------------- contexts inside of contexts

pub type Wrap = (&'static str, fn(E) -> E);
pub fn wraps() -> Vec<Wrap> {
    vec![
        ("(x)", |e| and(vec![e])),
        ("x ''", |e| and(vec![e, lit("")])),
        ("'' x", |e| and(vec![lit(""), e])),
        ("x / 'q'", |e| or(vec![e, lit("q")])),
        ("'q' / x", |e| or(vec![lit("q"), e])),
        ("x z?", |e| and(vec![e, opt(lit("z"))])),
        ("!!x", |e| not(not(e))),
        ("!x", not),
        ("x?", opt),
        ("x*", star),
        ("x+", plus),
        ("x{1,2}", |e| rep(e, 1, Some(2))),
        ("x{0,3}", |e| rep(e, 0, Some(3))),
        ("'q' x / x", |e| or(vec![and(vec![lit("q"), e.clone()]), e])),
    ]
}


/// contexts nested many times
pub fn nestings(tier: Tier) -> Space {
    let w = wraps();
    let k = w.len() as u64;
    let total = seqs(k, 2) - 1;
    let depths: Vec<usize> = tier.pick(vec![2, 3, 5, 9, 17, 33, 66], vec![2, 3, 4, 5, 7, 9, 12, 17, 23, 33, 47, 66, 100, 129, 257]);
    let budget = tier.pick(3_000, 20_000);
    Space {
        name: "nestings".into(),
        descr: format!("x nested n times in each of the sequences of up to 2 of {} contexts ({}), with every level being a rule or none, x in a literal, a set with an end of line and two bytes, an atom and error(...), a reference to an undefined rule, a choice of literals; alone, repeated, before something else or as the first alternative; n in {:?}; texts that need more than {} PEG steps are left out", k, w.iter().map(|x| x.0).collect::<Vec<_>>().join("  "), depths, budget),
        batches: total,
        hang_s: 60,
        gen: Box::new(move |b, f| {
            let s = nth_seq(k, b + 1);
            let insides: Vec<(E, &[&str])> = vec![
                (lit("ab"), &["ab", "abz", "q", "a", "", "abab", "aba", "qab"]),
                (class("\né", &[]), &["\n", "é\n", "\né!", "", "z", "\n\n\nq"]),
                (and(vec![lit("a"), or(vec![lit("b"), err("no b")])]), &["ab", "a", "abac", "", "q", "qa"]),
                (and(vec![lit("a"), opt(rf("nope"))]), &["a", "q", "", "b"]),
                (or(vec![lit("a"), lit("abc"), lit("b")]), &["a", "abc", "bab", "", "c", "az"]),
            ];
            for &n in &depths {
                // the last one doubles the expression
                let doubles = s.contains(&(k as usize - 1));
                if doubles && n > 9 {
                    continue;
                }
                for (inside, texts) in &insides {
                    for by_rules in [false, true] {
                        let mut rs: Rules = vec![];
                        let mut e = inside.clone();
                        for i in 0..n {
                            e = (w[s[i % s.len()]].1)(e);
                            if by_rules {
                                rs.push((format!("r{}", i), e));
                                e = rf(&format!("r{}", i));
                            }
                        }
                        rs.push(("x".into(), e));
                        let mains = vec![rf("x"), star(rf("x")), and(vec![rf("x"), lit("z")]), or(vec![and(vec![rf("x"), lit("!")]), star(E::Dot)])];
                        for m in mains {
                            let mut r = rs.clone();
                            r.push(("main".into(), m));
                            if let Some(mut p) = prep(&r) {
                                p.m.budget = budget;
                                let ts: Vec<String> = texts.iter().filter(|t| p.m.steps_of(&t.chars().collect::<Vec<_>>()).is_some()).map(|t| t.to_string()).collect();
                                f(r, &ts);
                            }
                        }
                    }
                }
            }
        }),
    }
}

/// expressions, one of a kind, and what they match
fn kinds() -> Vec<(E, &'static str)> {
    vec![
        (lit("ab"), "ab"),
        (lit("é"), "é"),
        (class("é", &[('c', 'e')]), "d"),
        (E::Dot, "x"),
        (not(lit("n")), ""),
        (opt(lit("o")), "o"),
        (star(lit("s")), "ss"),
        (plus(class("", &[('0', '9')])), "12"),
        (rep(lit("ab"), 2, Some(3)), "abab"),
        (rf("r"), "rw"),
        (rf("nope"), ""),
        (err("wrong"), ""),
        (E::Eof, ""),
        (and(vec![lit("g"), or(vec![lit("h"), err("no h")])]), "gh"),
        (or(vec![lit("k"), lit("kl")]), "k"),
        (lit(""), ""),
        (lit("\n"), "\n"),
        (and(vec![lit("ab"), opt(rf("r"))]), "abrw"),
    ]
}

/// many of a kind and one of other
pub fn mixed(tier: Tier) -> Space {
    let ks = kinds();
    let k = ks.len() as u64;
    let ns: Vec<usize> = tier.pick(vec![2, 3, 4, 5, 6, 8, 9, 16, 17, 33], vec![2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 64, 65, 130]);
    Space {
        name: "mixed".into(),
        descr: format!("lists of n elements, all of a kind but one (first, second, in the middle, last but one, last) of another, all pairs of {} kinds ({}): as a sequence, a choice, a repeated choice, choices of sequences with a common beginning, a choice of sequences each with its own end, two lines, elements as rules; n in {:?}; what they match, cut, changed or repeated around the other kind", k, show_rules(&ks.iter().enumerate().map(|(i, x)| (i.to_string(), x.0.clone())).collect()), ns),
        batches: k * k,
        hang_s: 60,
        gen: Box::new(move |b, f| {
            let (base, other) = (&ks[(b % k) as usize], &ks[(b / k) as usize]);
            for &n in &ns {
                let mut at = vec![0, 1, n / 2, n - 2, n - 1];
                at.sort();
                at.dedup();
                for &o in &at {
                    let els: Vec<E> = (0..n).map(|i| if i == o { other.0.clone() } else { base.0.clone() }).collect();
                    let sample = |i: usize| if i == o { other.1 } else { base.1 };
                    let text = |from: usize, to: usize| (from..to).map(sample).collect::<String>();
                    let full = text(0, n);
                    let mut seq = vec![full.clone(), format!("{}z", full), full.chars().skip(1).collect(), text(0, o), text(0, o + 1), format!("{}q", text(0, o)), format!("{}q{}", text(0, o), text(o + 1, n)), format!("{}{}", text(0, o), text(o + 1, n)), format!("{}{}", text(0, o + 1), text(o, n)), format!("{}\n{}", full, full)];
                    seq.push(full.chars().take(full.chars().count().saturating_sub(1)).collect());
                    let mut alt: Vec<String> = vec!["".into(), "q".into()];
                    for s in [base.1, other.1] {
                        alt.push(s.to_string());
                        alt.push(format!("{}z", s));
                        alt.push(format!("{}{}", s, other.1));
                        alt.push(format!("{}{}{}", s, base.1, s));
                        alt.push(s.chars().take(s.chars().count().saturating_sub(1)).collect());
                    }
                    let starts = |p: &str, v: &[String]| v.iter().map(|t| format!("{}{}", p, t)).collect::<Vec<_>>();
                    let end = |i: usize| ["!", "?", ";"][i % 3];
                    let mut go = |main: E, ts: &[String]| {
                        let mut ts = ts.to_vec();
                        ts.sort();
                        ts.dedup();
                        f(vec![("main".into(), main), ("r".into(), and(vec![lit("r"), lit("w")]))], &ts)
                    };
                    go(and(els.clone()), &seq);
                    go(or(els.clone()), &alt);
                    if nullable(&base.0) || nullable(&other.0) {
                        go(rep(or(els.clone()), 0, Some(3)), &alt);
                    } else {
                        go(star(or(els.clone())), &alt);
                    }
                    go(or(els.iter().map(|e| and(vec![lit("p"), e.clone(), lit("!")])).collect()), &starts("p", &alt.iter().flat_map(|t| vec![t.clone(), format!("{}!", t)]).collect::<Vec<_>>()));
                    let ends: Vec<String> = alt.iter().flat_map(|t| (0..3).map(move |i| format!("{}{}", t, end(i)))).collect();
                    go(or(els.iter().enumerate().map(|(i, e)| and(vec![e.clone(), lit(end(i))])).collect()), &ends);
                    go(and(vec![and(els.clone()), lit("\n"), and(els.clone()), opt(lit("z"))]), &seq.iter().map(|t| format!("{}\n{}", full, t)).collect::<Vec<_>>());
                    let mut rs: Rules = (0..n).map(|i| (format!("r{}", i), els[i].clone())).collect();
                    rs.push(("r".into(), and(vec![lit("r"), lit("w")])));
                    let refs: Vec<E> = (0..n).map(|i| rf(&format!("r{}", i))).collect();
                    let (mut by_and, mut by_or) = (rs.clone(), rs);
                    by_and.push(("main".into(), and(refs.clone())));
                    by_or.push(("main".into(), or(refs)));
                    f(by_and, &seq);
                    f(by_or, &alt);
                }
            }
        }),
    }
}

fn nullable(e: &E) -> bool {
    match e {
        E::Lit(s) => s.is_empty(),
        E::Not(_) | E::Eof => true,
        E::Rep(_, min, _) => *min == 0,
        _ => false,
    }
}

pub const SIMILAR: &[&str] = &["abcdefghijklmnop", "aaaab_1.", "éñ日a"];

pub fn similar_lens(tier: Tier) -> Vec<usize> {
    tier.pick(vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 64], vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 128, 129, 256])
}

/// a word, and those that differ from it in one place
pub fn similar_words(alphabet: &str, len: usize) -> (String, Vec<String>) {
    let x: Vec<char> = alphabet.chars().cycle().take(len).collect();
    let mut ys: Vec<Vec<char>> = vec![];
    for i in 0..len {
        let mut v = |c: char| {
            let mut y = x.clone();
            y[i] = c;
            ys.push(y);
        };
        v('z');
        v((x[i] as u8 ^ 1) as char);
        v(if x[i].is_ascii_lowercase() { x[i].to_ascii_uppercase() } else { '0' });
        v(std::char::from_u32(x[i] as u32 + 256).unwrap_or('0'));
        if i + 1 < len {
            let mut y = x.clone();
            y.swap(i, i + 1);
            ys.push(y);
        }
        let mut y = x.clone();
        y.remove(i);
        ys.push(y);
        let mut y = x.clone();
        y.insert(i, x[i]);
        ys.push(y);
}
    ys.push(x.iter().rev().cloned().collect());
    ys.retain(|y| *y != x && !y.is_empty());
    ys.sort();
    ys.dedup();
    (x.iter().collect(), ys.into_iter().map(|y| y.into_iter().collect()).collect())
}

/// names, literals, sets, ranges and error texts that differ in one place only
pub fn similar(tier: Tier) -> Space {
    let lens = similar_lens(tier);
    let n = lens.len() as u64;
    Space {
        name: "similar".into(),
        descr: format!("pairs (x, y) that differ in one place: each char changed, its case, two chars swapped, one taken out or added, all the chars turned round; x of {:?} chars; as rule names (one, or both defined), literals, sets, ends of ranges, error texts, in both orders, tried at the same place and one after the other", lens),
        batches: n * 3,
        hang_s: 60,
        gen: Box::new(move |b, f| {
            let len = lens[(b % n) as usize];
            let alphabet = SIMILAR[(b / n) as usize];
            let (x, ys) = similar_words(alphabet, len);
            let abc: Vec<String> = ["a", "b", "ab", "ba", "aa", "c", ""].iter().map(|s| s.to_string()).collect();
            for y in ys {
                for (x, y) in [(&x, &y), (&y, &x)] {
                    let set = |main: E, defs: Vec<(&str, E)>| {
                        let mut r: Rules = vec![("main".to_string(), main)];
                        r.extend(defs.into_iter().map(|(n, e)| (n.to_string(), e)));
                        r
                    };
                    let both = || vec![(x.as_str(), lit("a")), (y.as_str(), lit("b"))];
                    if x != "main" && y != "main" {
                        f(set(or(vec![rf(x), rf(y)]), both()), &abc);
                        f(set(and(vec![not(rf(x)), rf(y), opt(rf(x))]), both()), &abc);
                        f(set(star(or(vec![and(vec![rf(x), rf(y)]), rf(x), rf(y)])), both()), &abc);
                        f(set(or(vec![rf(x), rf(y)]), vec![(x, lit("a"))]), &abc);
                    }
                    let ts: Vec<String> = vec![x.to_string(), y.to_string(), format!("{}{}", x, y), format!("{}{}", y, x), format!("{}z", y), y.chars().take(y.chars().count() - 1).collect()];
                    f(set(or(vec![lit(x), lit(y)]), vec![]), &ts);
                    f(set(and(vec![opt(lit(x)), opt(lit(y))]), vec![]), &ts);
                    f(set(or(vec![and(vec![lit("a"), err(x)]), and(vec![lit("b"), err(y)])]), vec![]), &abc);
                    let (cx, cy): (Vec<char>, Vec<char>) = (x.chars().collect(), y.chars().collect());
                    let mut cs: Vec<String> = cx.iter().chain(cy.iter()).map(|c| c.to_string()).collect();
                    cs.sort();
                    cs.dedup();
                    f(set(and(vec![class(x, &[]), lit("")]), vec![]), &cs);
                    f(set(or(vec![and(vec![class(x, &[]), lit("!")]), class(y, &[])]), vec![]), &cs);
                    let rx: Vec<(char, char)> = cx.iter().map(|&c| (c, c)).collect();
                    let ry: Vec<(char, char)> = cy.iter().map(|&c| (c, c)).collect();
                    f(set(or(vec![and(vec![class("", &rx), lit("!")]), class("", &ry)]), vec![]), &cs);
                }
            }
        }),
    }
}

/// sets of n chars and of n ranges: in several orders, apart, one inside of another, overlapped, backwards, repeated.
/// The chars are those from `base` on
pub fn set_shapes(n: usize, base: u32, places: bool) -> Vec<(String, Vec<(char, char)>)> {
    let c = |k: usize| -> char {
        let u = base + k as u32;
        // no surrogates
        std::char::from_u32(if u >= 0xd800 && base < 0xd800 { u + 0x800 } else { u }).unwrap_or('\u{10ffff}')
    };
    let mut orders: Vec<Vec<usize>> = vec![
        (0..n).collect(),
        (0..n).rev().collect(),
        (0..n).map(|i| (i + n / 2) % n).collect(),
        (0..n).step_by(2).chain((1..n).step_by(2)).collect(),
        (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect(),
    ];
    if n % 7 != 0 {
        orders.push((0..n).map(|i| i * 7 % n).collect());
    }
    orders.dedup();
    let mut v: Vec<(String, Vec<(char, char)>)> = vec![];
    for o in &orders {
        v.push((o.iter().map(|i| c(2 * i)).collect(), vec![]));
        v.push((String::new(), o.iter().map(|i| (c(3 * i), c(3 * i + 1))).collect()));
        v.push((String::new(), o.iter().map(|i| (c(i + 1), c(2 * n + 1 - i))).collect()));
        v.push((String::new(), o.iter().map(|i| (c(2 * i), c(2 * i + 3))).collect()));
        v.push((String::new(), o.iter().map(|i| (c(2 * i), c(2 * i + 1))).collect()));
    }
    if places {
        for p in 0..n {
            let apart = |i: usize| (c(4 * i + 2), c(4 * i + 4));
            let other = |x: (char, char)| -> Vec<(char, char)> { (0..n).map(|i| if i == p { x } else { apart(i) }).collect() };
            v.push((String::new(), other((c(1), c(4 * n + 3)))));
            v.push((String::new(), other((c(4 * p + 4), c(4 * p + 2)))));
            v.push((String::new(), other((c(4 * p + 3), c(4 * p + 3)))));
            v.push((String::new(), other(apart(n - 1 - p))));
            v.push(((0..p).map(|i| c(2 * i)).collect(), (p..n).map(|i| (c(2 * i), c(2 * i))).collect()));
            v.push(((0..n).map(|i| if i == p { c(0) } else { c(2 * i + 2) }).collect(), vec![(c(3), c(5))]));
        }
    }
    v
}

/// number of elements of the sets
pub fn set_sizes(tier: Tier) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=tier.pick(24, 70)).collect();
    v.extend([31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300]);
    v.sort();
    v.dedup();
    v
}

pub const SET_BASES: [u32; 5] = [0x30, 0x70, 0x7f8, 0xd7f0, 0xfff0];

/// P24: which chars belong to a set, by definition
pub fn sets(tier: Tier) -> Vec<Family> {
    fn belongs(ctx: &mut Ctx, s: &str, r: &[(char, char)], universe: &[char]) {
        let rules = to_real(&rules1(class(s, r)));
        for &z in universe {
            if !ctx.next() {
                if ctx.stop() {
                    return;
                }
                continue;
            }
            ctx.nontrivial(true);
            let t = z.to_string();
            let what = || format!("{} on {:?}", show(&class(s, r)), z);
            ctx.sample(what);
            let got = match ctx.real(what, || parse(&t, &rules).is_ok()) {
                Some(g) => g,
                None => return,
            };
            let want = s.chars().any(|c| c == z) || r.iter().any(|(a, b)| *a <= z && z <= *b);
            ctx.outcome(if want { "belongs" } else { "doesn't belong" });
            if got != want {
                return ctx.fail(format!("{}: matches {}, expected {}", what(), got, want));
            }
        }
    }
    let ends: Vec<char> = tier.pick("aé\u{800}", "a\u{7f}é\u{800}").chars().collect();
    let universe: Vec<char> = ends.iter().flat_map(|c| [-1i64, 0, 1].iter().filter_map(move |d| std::char::from_u32((*c as i64 + d) as u32))).collect();
    let ranges: Vec<(char, char)> = ends.iter().flat_map(|a| ends.iter().map(move |b| (*a, *b))).collect();
    let k = tier.pick(5u32, 4);
    let n = ranges.len() as u64;
    let mut v = vec![];
    v.push(family("all-sets", format!("all lists of up to {} ranges with ends in {:?} (backwards too), with lists of no, one and two chars; each end and its neighbours", k, ends), n * 3, move |b, ctx| {
        let s = ["", "é", "\u{801}a"][(b % 3) as usize];
        let first = ranges[(b / 3) as usize];
        for l in 0..k {
            for i in 0..n.pow(l) {
                let mut r = vec![first];
                r.extend((0..l).map(|j| ranges[(i / n.pow(j) % n) as usize]));
                belongs(ctx, s, &r, &universe);
                if ctx.stop() {
                    return;
                }
            }
        }
    }));
    let ns = set_sizes(tier);
    let nb = SET_BASES.len() as u64;
    v.push(family("long-sets", format!("sets of n chars, of n ranges or of both (n in {:?}): sorted, backwards, rotated, alternated; apart, nested, overlapped, adjacent; one wide, empty, narrow or repeated at each place; each char from the first to the last, and around", ns), ns.len() as u64 * nb, move |b, ctx| {
        let (n, base) = (ns[(b / nb) as usize], SET_BASES[(b % nb) as usize]);
        for (s, r) in set_shapes(n, base, n <= 70) {
            let all: Vec<u32> = s.chars().chain(r.iter().flat_map(|x| [x.0, x.1])).map(|c| c as u32).collect();
            let (lo, hi) = (all.iter().min().unwrap() - 2, all.iter().max().unwrap() + 2);
            let universe: Vec<char> = (lo..=hi).filter_map(std::char::from_u32).collect();
            belongs(ctx, &s, &r, &universe);
            if ctx.stop() {
                return;
            }
        }
    }));
    v
}

/// strings of `len` chars where each place has each one of the chars, in some of them; after each of the others, in two orders
pub fn rotations(al: &str, len: usize) -> Vec<String> {
    let a: Vec<char> = al.chars().collect();
    let n = a.len();
    let mut v = vec![];
    for k in 0..n {
        for step in [1, n - 1] {
            v.push((0..len).map(|i| a[(k + i * step) % n]).collect());
        }
        // one of them in the place of each plain char
        v.push(std::iter::repeat(a[k]).take(len).collect());
    }
    v
}
