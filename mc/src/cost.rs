//! What the calls cost: memory kept (P27) and work done (P28), metered at the allocator of this program

use crate::frame::*;
use crate::gen::*;
use crate::model::*;
use crate::parsing::show_res;
use crate::peg;
use crate::race::{meter, meter_bytes, stack_of};
use crate::spaces::*;
use crate::trees;
use dynparser::{ast, parse, parse_debug, rules_from_peg};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

// ---------------------------------------------------------------------- P27

/// bytes kept by the first calls with each input, in all the process
static GROWTH: AtomicI64 = AtomicI64::new(0);
const LIMIT: i64 = 64 << 20;

/// how a call keeps memory, if so. Something prepared by the first calls is fine
fn kept(f: &dyn Fn()) -> Option<String> {
    let used = |n: usize| {
        let a = meter().1;
        for _ in 0..n {
            f();
        }
        meter().1 - a
    };
    let first = used(1);
    let second = used(1);
    if first != 0 {
        let g = GROWTH.fetch_add(first, Relaxed) + first;
        if g > LIMIT {
            return Some(format!("the calls with different inputs keep {} bytes up to now", g));
        }
    }
    if second > 0 {
        used(40);
        let n = used(60);
        if n > 0 {
            return Some(format!("60 more calls, after 42, keep {} bytes", n));
        }
    }
    None
}

fn keep(ctx: &mut Ctx, what: &dyn Fn() -> String, f: &dyn Fn()) {
    if let Some(Some(w)) = ctx.real(|| what(), || kept(f)) {
        ctx.fail(format!("{}\n{}", what(), w));
    }
}

pub fn o_kept(ctx: &mut Ctx, p: &mut Prep, t: &str, _cs: &[char]) {
    let what = || format!("rules: {}\ntext: {:?}", show_rules(&p.rules), clip(t, 2000));
    let ok = match ctx.real(what, || parse(t, &p.real).is_ok()) {
        Some(x) => x,
        None => return,
    };
    ctx.outcome(if ok { "accepted" } else { "rejected" });
    ctx.nontrivial(!t.is_empty());
    keep(ctx, &what, &|| drop(parse(t, &p.real)));
    if t.len() < 3000 {
        keep(ctx, &what, &|| drop(parse_debug(t, &p.real)));
    }
}

fn o_peg_kept(ctx: &mut Ctx, t: &str) {
    let what = || format!("peg: {:?}", clip(t, 3000));
    let ok = match ctx.real(what, || rules_from_peg(t).is_ok()) {
        Some(x) => x,
        None => return,
    };
    ctx.outcome(if ok { "grammar accepted" } else { "grammar rejected" });
    ctx.nontrivial(!t.is_empty());
    keep(ctx, &what, &|| drop(rules_from_peg(t)));
}

pub fn memory(tier: Tier) -> Vec<Family> {
    let ab = |n| strings_upto(&["a", "b"], n);
    let mut v: Vec<Family> = vec![];
    for s in vec![
        core(alpha_ascii(tier), tier.pick(4, 5), false),
        core(alpha_lits(tier), tier.pick(3, 4), false),
        core(alpha_lines(tier), tier.pick(4, 5), false),
        core(alpha_errors(tier), tier.pick(3, 4), false),
        core(alpha_missing(tier), tier.pick(3, 4), false),
        pairs("ab", vec![lit("a"), lit("b"), rf("main"), rf("r"), E::Dot], 3, tier.pick(3, 4), ab(3)),
        triples("ab", vec![lit("a"), lit("b"), rf("r"), rf("s")], ab(3)),
        crate::more::names_space(),
    ] {
        v.push(explore(s, o_kept));
    }
    v.extend(scale(tier, true).into_iter().map(|s| explore(s, o_kept)));
    v.extend(apps(Tier::Quick).into_iter().map(|s| explore(s, o_kept)));
    v.extend(peg::any_texts(Tier::Quick).into_iter().filter(|t| tier == Tier::Thorough || !matches!(t.name.as_str(), "any-chars" | "char-contexts")).map(|t| peg::explore_texts(t, o_peg_kept)));

    // building, changing and generating
    let p = Pool::new(
        vec![lit("a"), lit("é"), class("x", &[('a', 'c')]), E::Dot, E::Eof, err("e"), rf("r")],
        vec![Un::Not, Un::Rep(0, Some(1)), Un::Rep(0, None)],
        tier.pick(3, 4),
        true,
    );
    let (n, chunk) = (p.total(), 100);
    v.push(family("rule-sets", format!("{} expressions of up to {} nodes: built, added, merged over themselves, dropped, its code generated", n, tier.pick(3, 4)), (n + chunk - 1) / chunk, move |b, ctx| {
        for i in b * chunk..((b + 1) * chunk).min(n) {
            if !ctx.next() {
                continue;
            }
            let r = vec![("main".to_string(), p.nth(i)), ("r".to_string(), lit("b"))];
            ctx.nontrivial(true);
            ctx.outcome("built");
            let what = || show_rules(&r);
            keep(ctx, &what, &|| drop(to_real(&r)));
            keep(ctx, &what, &|| drop(to_real(&r).merge(to_real(&r)).add("r", to_real_expr(&r[0].1)).merge(rules!("x" => lit!("z")))));
            let real = to_real(&r);
            keep(ctx, &what, &|| drop(dynparser::peg::gcode::rust_from_rules(&real)));
        }
    }));

    let k = tier.pick(5, 6);
    let shapes = trees::small_trees(k);
    let (nt, chunk) = (shapes.total(), 200);
    v.push(family("tree-operations", format!("all {} trees of up to {} nodes: transformed, navigated and dropped", nt, k), (nt + chunk - 1) / chunk, move |b, ctx| {
        for i in b * chunk..((b + 1) * chunk).min(nt) {
            if !ctx.next() {
                continue;
            }
            let t = shapes.nth(i);
            let n = t.to_real();
            ctx.nontrivial(true);
            ctx.outcome("tree");
            let what = || t.show();
            keep(ctx, &what, &|| drop(n.compact()));
            keep(ctx, &what, &|| drop(n.flatten()));
            for l in [vec![], vec!["a"], vec!["a", "b"]] {
                keep(ctx, &what, &|| drop(n.prune(&l)));
                keep(ctx, &what, &|| drop(n.pass_through_except(&l)));
            }
            keep(ctx, &what, &|| {
                trees::touch(&n);
            });
        }
    }));

    let ops = crate::hist::ops();
    let k = ops.len() as u64;
    let len = tier.pick(2u32, 3);
    let (total, chunk) = (seqs(k, len), 50);
    let pool = crate::hist::pool();
    v.push(family("histories", format!("all {} sequences of up to {} of {} operations (parse, parse_debug, rules_from_peg, code, trees, merge), repeated", total, len, k), (total + chunk - 1) / chunk, move |b, ctx| {
        for i in b * chunk..((b + 1) * chunk).min(total) {
            if !ctx.next() {
                continue;
            }
            let h: Vec<_> = nth_seq(k, i).into_iter().map(|x| &ops[x]).collect();
            ctx.nontrivial(!h.is_empty());
            ctx.outcome("history");
            keep(ctx, &|| format!("{:?}", h), &|| h.iter().for_each(|o| drop(crate::hist::run_op(o, &pool.0))));
        }
    }));
    v
}

// ---------------------------------------------------------------------- P28

/// the highest work per step seen (in thousandths), for the report
static TOP: AtomicU64 = AtomicU64::new(0);
static TOPB: [AtomicU64; 6] = [const { AtomicU64::new(0) }; 6];

/// operations of the allocator for each step of the PEG machine: up to 11 now
const PER_STEP: u64 = 120;
const BASE: u64 = 2000;
/// bytes taken for each step or char, for each byte of the longest line and the rules: up to 1.5 and 82 now
const BYTES_PER_STEP: u64 = 6;
const BYTES_PER_CHAR: u64 = 600;
/// bytes of the stack for each expression inside of another, for each nested group of a peg text, for each node: up to 4800, 56000 and 440 now
const STACK_PER_LEVEL: u64 = 20_000;
const STACK_PER_GROUP: u64 = 220_000;
const STACK_PER_NODE: u64 = 4_000;

/// operations of the allocator, bytes asked for, and bytes of the stack
type Did = (u64, u64, u64);
fn work<R>(f: impl FnOnce() -> R) -> (Did, R) {
    let (a, b) = (meter().0, meter_bytes());
    let (stack, r) = stack_of(f);
    ((meter().0 - a, meter_bytes() - b, stack as u64), r)
}

fn within(ctx: &mut Ctx, what: &dyn Fn() -> String, (did, bytes, stack): Did, units: u64, per: u64, longest: u64, depth: u64, unit: &str) {
    let ratio = did * 1000 / (units + 10);
    TOP.fetch_max(ratio, Relaxed);
    if std::env::var_os("MC_RATIO").is_some() && TOP.load(Relaxed) == ratio {
        eprintln!("{} for {} {}: {}", did, units, unit, clip(&what(), 200));
    }
    ctx.outcome(match ratio / 1000 {
        0..=9 => "up to 10 operations for each step",
        10..=99 => "up to 100 operations for each step",
        _ => "more than 100 operations for each step",
    });
    let ratio = bytes * 1000 / ((units + 10) * (64 + longest));
    let kind = (unit.len() % 3) as usize;
    if std::env::var_os("MC_RATIO").is_some() && TOPB[kind].fetch_max(ratio, Relaxed) < ratio {
        eprintln!("BYTES {} : {} for {} {} longest {}: {}", ratio, bytes, units, unit, longest, clip(&what(), 200));
    }
    if std::env::var_os("MC_RATIO").is_some() && TOPB[kind + 3].fetch_max(stack * 1000 / (depth + 3), Relaxed) < stack * 1000 / (depth + 3) {
        eprintln!("STACK {} : {} for depth {} {}: {}", stack * 1000 / (depth + 3), stack, depth, unit, clip(&what(), 200));
    }
    let (most, deep) = match unit {
        "PEG steps" => (BYTES_PER_STEP, STACK_PER_LEVEL),
        "chars" => (BYTES_PER_CHAR, STACK_PER_GROUP),
        _ => (u64::MAX, STACK_PER_NODE),
    };
    if stack > depth * deep + 100_000 {
        ctx.fail(format!("{}\n{} bytes of the stack for {} {}", what(), stack, depth, match unit {
            "PEG steps" => "expressions inside of others",
            "chars" => "groups inside of others",
            _ => unit,
        }));
    }
    if bytes > ((units + 10) * (64 + longest)).saturating_mul(most).saturating_add(100_000) {
        ctx.fail(format!("{}\n{} bytes taken from the allocator for {} {} (longest line and rules: {} bytes)", what(), bytes, units, unit, longest));
    }
    if did > units * per + BASE {
        ctx.fail(format!("{}\n{} operations of the allocator for {} {}: more than {} for each", what(), did, units, unit, per));
    }
}

pub fn o_work(ctx: &mut Ctx, p: &mut Prep, t: &str, cs: &[char]) {
    let what = || format!("rules: {}\ntext: {:?}", show_rules(&p.rules), clip(t, 2000));
    let t0 = p.m.transitions;
    p.m.deepest = 0;
    p.m.run(cs);
    let steps = p.m.transitions - t0;
    let depth = p.m.deepest;
    let p: &Prep = p;
    let (did, r) = match ctx.real(what, || work(|| parse(t, &p.real))) {
        Some(x) => x,
        None => return,
    };
    ctx.nontrivial(steps > 10);
    within(ctx, &|| format!("{}\n{}", what(), clip(&show_res(&r), 300)), did, steps, PER_STEP, longest_line(t) + p.rules.iter().map(|r| weight(&r.1)).sum::<u64>(), depth, "PEG steps");
}

/// operations for each char of a grammar: up to 550 now
const PER_CHAR: u64 = 4000;

fn o_peg_work(ctx: &mut Ctx, t: &str) {
    let what = || format!("peg: {:?}", clip(t, 3000));
    let (did, r) = match ctx.real(what, || work(|| rules_from_peg(t))) {
        Some(x) => x,
        None => return,
    };
    ctx.nontrivial(!t.is_empty());
    let ok = r.is_ok();
    within(ctx, &|| format!("{}\naccepted: {}", what(), ok), did, t.chars().count() as u64 + 10, PER_CHAR, longest_line(t), groups(t), "chars");
    if let Ok(g) = r {
        if let Some((did, _)) = ctx.real(what, || work(|| dynparser::peg::gcode::rust_from_rules(&g))) {
            within(ctx, &|| format!("{}\ncode generation", what()), did, t.chars().count() as u64 + 10, PER_CHAR, longest_line(t), groups(t), "chars");
        }
    }
}

/// groups and modules inside of others on a peg text, or more
fn groups(t: &str) -> u64 {
    let (mut now, mut most, mut quote) = (0u64, 0u64, None);
    for c in t.chars() {
        match (quote, c) {
            (None, '(') | (None, '{') => now += 1,
            (None, ')') | (None, '}') => now = now.saturating_sub(1),
            (None, '\'') | (None, '"') => quote = Some(c),
            (Some(q), _) if q == c => quote = None,
            _ => {}
        }
        most = most.max(now);
    }
    // odd quotes, as in comments, or names
    let opened = t.chars().filter(|c| matches!(c, '(' | '{')).count() as u64;
    1 + if opened < 100 { opened } else { most }
}

/// bytes of an expression, about
fn weight(e: &E) -> u64 {
    40 + match e {
        E::And(v) | E::Or(v) => v.iter().map(weight).sum(),
        E::Not(x) | E::Rep(x, _, _) => weight(x),
        E::Lit(s) | E::Err(s) => s.len() as u64,
        E::Class(s, v) => (s.len() + 24 * v.len()) as u64,
        _ => 0,
    }
}

fn longest_line(t: &str) -> u64 {
    t.lines().map(|l| l.len() as u64).max().unwrap_or(0)
}

/// longest time of a thread for a step, in ns, allowed: about 20 times the longest seen
const NS_PER_STEP: u64 = 8_000;
/// and for a char of a grammar
const NS_PER_CHAR: u64 = 400_000;

/// the least processor time of 3 runs, if more than the limit
fn slow(ctx: &mut Ctx, what: &dyn Fn() -> String, units: u64, per: u64, unit: &str, f: &dyn Fn()) {
    let mut least = u64::MAX;
    for _ in 0..3 {
        let a = cpu_ns();
        if ctx.real(what, f).is_none() {
            return;
        }
        least = least.min(cpu_ns() - a);
        if least < units * per {
            break;
        }
    }
    if std::env::var_os("MC_RATIO").is_some() {
        eprintln!("TIME {} ns {} {}: {}", least / units.max(1), units, unit, what());
    }
    if least > units * per {
        ctx.fail(format!("{}\n{} {}, but {} ms of the processor at best of 3", what(), units, unit, least / 1_000_000));
    }
}

fn cpu_ns() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
}

/// texts of very many short lines
fn long_texts(tier: Tier) -> Family {
    let n = tier.pick(80_000, 200_000);
    let units = ["ab\n", "a\n", "\n", "é\r\n", "a b\nab\n\n"];
    let any_but_eol = || plus(and(vec![not(lit("\n")), E::Dot]));
    let grammars: Vec<Rules> = vec![
        rules1(star(E::Dot)),
        rules1(star(and(vec![star(class("abé \r", &[])), lit("\n")]))),
        rules1(and(vec![star(or(vec![lit("ab"), lit("a"), lit("\n"), E::Dot])), E::Eof])),
        vec![("main".into(), star(rf("line"))), ("line".into(), and(vec![opt(any_but_eol()), lit("\n")]))],
        vec![("main".into(), star(rf("line"))), ("line".into(), or(vec![and(vec![plus(rf("w")), lit("\n")]), lit("\n")])), ("w".into(), or(vec![class("", &[('a', 'z')]), class("\r é", &[])]))],
        rules1(and(vec![star(or(vec![class("ab", &[]), class("", &[('\n', ' ')]), lit("é")])), lit("!")])),
        rules1(not(and(vec![star(E::Dot), lit("z")]))),
    ];
    let (nu, ng) = (units.len() as u64, grammars.len() as u64);
    let mut f = family("very-long", format!("{} repeated {} times with {} grammars, also the processor time taken", units.iter().map(|u| format!("{:?}", u)).collect::<Vec<_>>().join(" "), n, ng), nu * ng, move |b, ctx| {
        if !ctx.next() {
            return;
        }
        let u = units[(b % nu) as usize];
        let t = u.repeat(n);
        let rs = &grammars[(b / nu) as usize];
        let mut p = prep(rs).unwrap();
        p.m.untraced = true;
        let cs: Vec<char> = t.chars().collect();
        let (s0, t0) = (p.m.states, p.m.transitions);
        o_work(ctx, &mut p, &t, &cs);
        ctx.stats.states += p.m.states - s0;
        let steps = p.m.transitions - t0;
        ctx.stats.transitions += steps;
        let what = || format!("rules: {}\ntext: {:?} repeated {} times", show_rules(rs), u, n);
        slow(ctx, &what, steps, NS_PER_STEP, "PEG steps", &|| drop(parse(&t, &p.real)));
    });
    f.hang_s = 300;
    f
}

/// grammars of very many rules
fn many_rules(tier: Tier) -> Family {
    let n = tier.pick(1500, 6000);
    let lines: [&str; 7] = ["r# = 'a' [b-d]\n", "r# = r~ / !'é' .\n", "r# = (r~ 'b')*\n\n", "// comment\nr# = \"\\n\"\n", "/*\n*/ r# = 'b' /* \n */\n", "m# {\nr = 'b'\n}\n", "r#\n    = 'a'\n    / r~\n"];
    let k = lines.len() as u64;
    let mut f = family("very-many-rules", format!("grammars of {} rules like each of {:?} (# is the number of the rule, ~ of the one before), also the processor time taken", n, lines), k * 2, move |b, ctx| {
        if !ctx.next() {
            return;
        }
        let l = lines[(b % k) as usize];
        let mut t = "main = 'x'\n".to_string();
        for i in 0..n {
            t.push_str(&l.replace('#', &i.to_string()).replace('~', &format!("{}", i.max(1) - 1)));
        }
        if b >= k {
            t.push_str("r = = 'a'\n");
        }
        o_peg_work(ctx, &t);
        let what = || format!("peg: {:?} and so on", clip(&t, 200));
        slow(ctx, &what, t.chars().count() as u64, NS_PER_CHAR, "chars", &|| drop(rules_from_peg(&t)));
    });
    f.hang_s = 300;
    f
}

/// what is done for 8 times as much, in thousandths of what is done for one
fn growth(tier: Tier) -> Family {
    let n: usize = tier.pick(500, 1500);
    // grammars: what is repeated, inside of a rule or after it
    let inside = ["\n'a'", "\n/ 'a'", "\n/ 'b' r [a-c]", "\n('a' / 'b')*", "\n// c\n", "\n/* c */ !.", "\n/ error(\"e\")", "\n\"\\n\"", "\n.m.r", "\n\n", "\n'é'+"];
    let after = ["r# = 'a'\n", "m# {\nr# = 'b'\n}\n", "m# {\nn { r# = 'b'\n}\n}\n", "\n", "// c\n", "/* c */\n", "/*\n c */\n\n", "r# =\n 'a' / 'b'\n / r\n", "r# = (('a'))\n", "r = 'a'\n", "é\n"];
    let ends = ["\n", " = =\n"];
    let mut pegs: Vec<(String, String, String)> = vec![];
    for e in ends.iter() {
        for i in inside.iter() {
            pegs.push(("main = 'x'".into(), i.to_string(), e.to_string()));
        }
        for i in after.iter() {
            pegs.push(("main = 'x'\n".into(), i.to_string(), e[1..].to_string()));
        }
        pegs.push(("/*".into(), "c\n".into(), format!("*/ main = 'a'{}", e)));
        pegs.push(("main = '".into(), "c\n".into(), format!("'{}", e)));
        pegs.push(("main = \"".into(), "c\\n\n".into(), format!("\"{}", e)));
        pegs.push(("main = [".into(), "c\n".into(), format!("]{}", e)));
        pegs.push(("main = [".into(), "\na-c".into(), format!("]{}", e)));
    }
    // rules and texts
    let line = || and(vec![star(class("ab é", &[])), lit("\n")]);
    let grammars: Vec<Rules> = vec![
        rules1(star(E::Dot)),
        rules1(and(vec![star(line()), E::Eof])),
        rules1(and(vec![star(or(vec![and(vec![lit("ab"), lit("!")]), line()])), lit("!")])),
        vec![("main".into(), and(vec![star(rf("l")), lit("z")])), ("l".into(), or(vec![and(vec![rf("w"), lit("\n")]), lit("\n")])), ("w".into(), plus(class("", &[('a', 'b'), (' ', ' '), ('é', 'é')])))],
        rules1(and(vec![not(and(vec![star(line()), lit("z")])), star(line())])),
        rules1(and(vec![and(vec![star(line()), opt(lit("!"))]), star(and(vec![not(lit("z")), E::Dot]))])),
    ];
    let units = ["ab\n", "\n", "a b é\n"];
    let (np, nt) = (pegs.len() as u64, (grammars.len() * units.len()) as u64);
    let mut f = family("growth", format!("what is done for {} and for 8 times {}: {} peg texts, with a line repeated (accepted or not, building the rules and their code), and {} texts with {} rule sets (trees transformed too): operations and bytes of the allocator, stack, time of the processor", n, n, np, nt, grammars.len()), np + nt, move |b, ctx| {
        let mut go = |name: &str, f: &dyn Fn(usize) -> Box<dyn Fn() + Send>| {
            if !ctx.next() {
                return;
            }
            ctx.nontrivial(true);
            let what = || name.to_string();
            ctx.sample(what);
            let (one, many) = (f(n), f(8 * n));
            let (a, c) = match (ctx.real(what, || work(&one).0), ctx.real(what, || work(&many).0)) {
                (Some(a), Some(c)) => (a, c),
                _ => return,
            };
            let time = |f: &dyn Fn()| {
                (0..3)
                    .map(|_| {
                        let t = cpu_ns();
                        f();
                        cpu_ns() - t
                    })
                    .min()
                    .unwrap()
            };
            // the best of each, twice if it seems too long
            let (mut ta, mut tc) = (0, 0);
            for _ in 0..3 {
                ta = time(&one).max(ta);
                tc = if tc == 0 { time(&many) } else { time(&many).min(tc) };
                if tc < 40 * ta + 20_000_000 {
                    break;
                }
            }
            if std::env::var_os("MC_RATIO").is_some() {
                eprintln!("GROWTH {} {} {} {} : {:?} to {:?}, {} to {} us: {}", c.0 * 100 / (a.0 + 1), c.1 * 100 / (a.1 + 1), c.2 * 100 / (a.2 + 1), tc * 100 / (ta + 1), a, c, ta / 1000, tc / 1000, clip(name, 100));
            }
            ctx.outcome(if c.1 < 9 * a.1 { "up to 9 times the bytes" } else { "more than 9 times the bytes" });
            if c.0 > 10 * a.0 + 10_000 {
                ctx.fail(format!("{}\n{} operations of the allocator, but {} for 8 times as much", name, a.0, c.0));
            }
            if c.1 > 10 * a.1 + 500_000 {
                ctx.fail(format!("{}\n{} bytes taken from the allocator, but {} for 8 times as much", name, a.1, c.1));
            }
            if c.2 > 2 * a.2 + 100_000 {
                ctx.fail(format!("{}\n{} bytes of the stack, but {} for 8 times as much", name, a.2, c.2));
            }
            if tc > 40 * ta + 20_000_000 {
                ctx.fail(format!("{}\n{} us of the processor, but {} for 8 times as much", name, ta / 1000, tc / 1000));
            }
        };
        if b < np {
            let (start, mid, end) = &pegs[b as usize];
            let text = |n: usize| {
                let mut t = start.clone();
                for i in 0..n {
                    t.push_str(&mid.replace('#', &i.to_string()));
                }
                t + end
            };
            go(&format!("rules from {:?}, n times {:?}, {:?}", start, mid, end), &|n| {
                let t = text(n);
                Box::new(move || drop(rules_from_peg(&t)))
            });
            if rules_from_peg(&text(2)).is_ok() {
                go(&format!("code of {:?}, n times {:?}, {:?}", start, mid, end), &|n| match rules_from_peg(&text(n)) {
                    Ok(r) => Box::new(move || drop(dynparser::peg::gcode::rust_from_rules(&r))),
                    Err(_) => Box::new(|| ()),
                });
            }
            return;
        }
        let i = (b - np) as usize;
        let (rs, u) = (&grammars[i / units.len()], units[i % units.len()]);
        let name = format!("rules: {}\ntext: {:?} n times", show_rules(rs), u);
        go(&name, &|n| {
            let (t, r) = (u.repeat(n), to_real(rs));
            Box::new(move || drop(parse(&t, &r)))
        });
        if let Ok(_) = parse(&u.repeat(3), &to_real(rs)) {
            let ops: [(&str, fn(&ast::Node)); 4] = [("compact", |t| drop(t.compact())), ("prune", |t| drop(t.prune(&["l"]))), ("pass through", |t| drop(t.pass_through_except(&["w"]))), ("flatten", |t| drop(t.flatten()))];
            for (op, f) in ops {
                go(&format!("{}: {}", op, name), &|n| match parse(&u.repeat(n), &to_real(rs)) {
                    Ok(t) => Box::new(move || f(&t)),
                    Err(_) => Box::new(|| ()),
                });
            }
        }
    });
    f.hang_s = 300;
    f
}

fn size(e: &E) -> u64 {
    1 + match e {
        E::And(v) | E::Or(v) => v.iter().map(size).sum(),
        E::Not(x) | E::Rep(x, _, _) => size(x),
        _ => 0,
    }
}

use crate::more::wraps;
/// contexts with many parts
fn wide_wraps() -> Vec<(&'static str, fn(E) -> E)> {
    fn zs(f: fn(E) -> E) -> Vec<E> {
        (0..40).map(|i| f(lit(&format!("z{}", i)))).collect()
    }
    fn first(x: E, mut v: Vec<E>) -> Vec<E> {
        v.insert(0, x);
        v
    }
    fn last(x: E, mut v: Vec<E>) -> Vec<E> {
        v.push(x);
        v
    }
    vec![
        ("(x / 'z0' / 'z1' ...)", |x| or(first(x, zs(|z| z)))),
        ("('z0' / 'z1' ... / x)", |x| or(last(x, zs(|z| z)))),
        ("(x 'z0'? 'z1'? ...)", |x| and(first(x, zs(opt)))),
        ("(!'z0' !'z1' ... x)", |x| and(last(x, zs(not)))),
        ("('zz...'? [40 chars]? x)", |x| and(vec![opt(lit(&"z".repeat(400))), opt(class("0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ<>[]", &[])), x])),
        ("(x 'z'{40,50}?)", |x| and(vec![x, opt(rep(lit("z"), 40, Some(50)))])),
    ]
}
fn nests(tier: Tier) -> Family {
    let mut w = wraps();
    let k = w.len() as u64;
    let period = tier.pick(2u32, 3);
    let mut orders: Vec<Vec<usize>> = (1..seqs(k, period)).map(|i| nth_seq(k, i)).collect();
    // contexts with many parts: alone, and with each of the others
    let wide = wide_wraps();
    for i in 0..wide.len() {
        let x = k as usize + i;
        orders.push(vec![x]);
        for y in 0..x {
            orders.extend(vec![vec![x, y], vec![y, x]]);
        }
    }
    w.extend(wide);
    let depths: Vec<usize> = tier.pick(vec![3, 7, 12, 20, 32], vec![2, 3, 5, 7, 9, 12, 16, 20, 26, 32, 40]);
    let mut f = family(
        "nested",
        format!("x wrapped n times by each of the sequences of up to {} of {} contexts, and of one or two with some of 40 parts ({}), also with every level being a rule, n in {:?}; and the code generated from them; those that need more than 60000 PEG steps are left out", period, k, w.iter().map(|x| x.0).collect::<Vec<_>>().join("  "), depths),
        orders.len() as u64,
        move |b, ctx| {
            let s = &orders[b as usize];
            for &n in &depths {
                // the last one doubles the expression
                if s.contains(&(k as usize - 1)) && n > 12 {
                    continue;
                }
                for by_rules in [false, true] {
                    let mut rs: Rules = vec![];
                    let mut e = lit("ab");
                    for i in 0..n {
                        e = (w[s[i % s.len()]].1)(e);
                        if by_rules {
                            rs.push((format!("r{}", i), e));
                            e = rf(&format!("r{}", i));
                        }
                    }
                    if size(&e) > 20_000 {
                        continue;
                    }
                    rs.push(("main".into(), e));
                    if ctx.next() {
                        ctx.nontrivial(true);
                        let real = to_real(&rs);
                        let nodes = rs.iter().map(|r| size(&r.1)).sum();
                        let what = || format!("code of {}", show_rules(&rs));
                        if let Some((d, _)) = ctx.real(what, || work(|| dynparser::peg::gcode::rust_from_rules(&real))) {
                            within(ctx, &what, d, nodes, 200, 0, nodes, "nodes");
                            let bytes = rs.iter().map(|r| weight(&r.1) + 40 + r.0.len() as u64).sum();
                            bytes_of_size(ctx, &what, d.1, bytes, if by_rules { 3 } else { 3 * n as u64 });
                        }
                    }
                    let mut p = None;
                    for t in ["ab", "abz", "q", "a", ""] {
                        if !ctx.next() {
                            if ctx.stop() {
                                return;
                            }
                            continue;
                        }
                        let p = p.get_or_insert_with(|| prep(&rs));
                        let p = match p {
                            Some(p) => p,
                            None => {
                                ctx.stats.evals -= 1;
                                ctx.outcome("skipped: left recursion");
                                break;
                            }
                        };
                        ctx.sample(|| format!("{} on {:?}", show_rules(&p.rules), t));
                        let cs: Vec<char> = t.chars().collect();
                        let (s0, t0) = (p.m.states, p.m.transitions);
                        p.m.budget = 60_000;
                        if p.m.steps_of(&cs).is_none() {
                            ctx.stats.evals -= 1;
                            ctx.outcome("left out: exponential for any PEG parser");
                            continue;
                        }
                        o_work(ctx, p, t, &cs);
                        ctx.stats.states += p.m.states - s0;
                        ctx.stats.transitions += p.m.transitions - t0;
                    }
                }
            }
        },
    );
    f.hang_s = 60;
    f
}

fn nested_pegs(tier: Tier) -> peg::Texts {
    let w: Vec<(&'static str, &'static str)> = vec![
        ("(", ")"),
        ("( ", " )"),
        ("(", ")?"),
        ("(", ")*"),
        ("(", ")+"),
        ("!(", ")"),
        ("!!(", ")"),
        ("(", " / 'b')"),
        ("('b' / ", ")"),
        ("('b' ", ")"),
        ("(", " 'b')"),
        ("(/*c*/", "/*c*/)"),
        ("(//c\n", "//c\n)"),
        ("('b' / c ", " d / 'e')"),
    ];
    let k = w.len() as u64;
    let period = tier.pick(2, 3);
    let total = seqs(k, period) - 1;
    let depths: Vec<usize> = tier.pick(vec![4, 9, 16, 28], vec![4, 9, 16, 28, 50, 100]);
    peg::Texts {
        name: "nested-groups".into(),
        descr: format!("groups nested n times with each of the sequences of up to {} of {} contexts {:?}, n in {:?}; complete, with one end less or more, with nothing inside, with a wrong char inside, or a wrong end of the rule", period, k, w, depths),
        batches: total,
        hang_s: 60,
        gen: Box::new(move |b, f| {
            let s = nth_seq(k, b + 1);
            for &n in &depths {
                let o: String = (0..n).map(|i| w[s[i % s.len()]].0).collect();
                let c: String = (0..n).rev().map(|i| w[s[i % s.len()]].1).collect();
                for x in ["'a'", "", "'a' #", "[a"] {
                    f(&format!("main = {}{}{}\n", o, x, c));
                }
                f(&format!("main = {}'a'{}", o, c));
                f(&format!("main = {}'a'{})\n", o, c));
                f(&format!("main = {}'a'{}\n", o, &c[..c.len() - 1]));
                f(&format!("main = ({}'a'{}\n", o, c));
                f(&format!("main = {}'a'{} =\n", o, c));
            }
        }),
    }
}

fn long_pegs(tier: Tier) -> peg::Texts {
    let parts: Vec<&'static str> = vec!["'a' ", "\"\\n\" ", "[a-z] ", "r ", "m.r ", "!'a' ", "('a')* ", "/ 'a' ", "/*c*/ ", "//c\n ", " ", "\n", "\\", "é ", "r = 'a'\n", "m {\n", "}\n", "'", "[", "(", "!", "/"];
    let ns: Vec<usize> = tier.pick(vec![10, 40, 160, 400], vec![10, 40, 160, 400, 1000, 2500]);
    peg::Texts {
        name: "long-grammars".into(),
        descr: format!("n times each of {:?} and each pair of them, after and inside a rule, n in {:?}", parts, ns),
        batches: (parts.len() * (parts.len() + 1)) as u64,
        hang_s: 120,
        gen: Box::new(move |b, f| {
            let b = b as usize;
            let (x, y) = (parts[b % parts.len()], if b / parts.len() == 0 { "" } else { parts[b / parts.len() - 1] });
            for &n in &ns {
                if n > tier.pick(160, 400) && !y.is_empty() {
                    continue;
                }
                let r = format!("{}{}", x, y).repeat(n);
                f(&format!("main = 'a' {}\n", r));
                f(&format!("main = 'a'\n{}", r));
            }
        }),
    }
}

/// trees of n nodes: wide, deep, comb, with runs of values, of empty values, of equal rules
fn big_trees(tier: Tier) -> Family {
    let ns: Vec<usize> = tier.pick(vec![10, 50, 200, 700, 2000], vec![10, 50, 200, 700, 2000, 8000]);
    let nb = ns.len() as u64;
    let mut f = family("big-trees", format!("wide, deep, mixed trees of n nodes, n in {:?}: every transformation", ns), nb * 8, move |b, ctx| {
        let n = ns[(b / 8) as usize];
        let v = |s: &str| T::Val(s.into());
        let r = |s: &str, c: Vec<T>| T::Rule(s.into(), c);
        let deep = |leaf: &dyn Fn(usize) -> Vec<T>, after: &dyn Fn(usize) -> Vec<T>| {
            (0..n / 3 + 1).fold(r("a", vec![v("x")]), |t, i| {
                let mut c = leaf(i);
                c.push(t);
                c.extend(after(i));
                r(["a", "b", "c"][i % 3], c)
            })
        };
        let t = match b % 8 {
            0 => r("main", (0..n).map(|_| v("x")).collect()),
            1 => r("main", (0..n).map(|i| r(["a", "b"][i % 2], vec![v("x")])).collect()),
            2 => r("main", (0..n).map(|i| if i % 2 == 0 { v("") } else { r("a", vec![]) }).collect()),
            3 => deep(&|_| vec![], &|_| vec![]),
            4 => deep(&|_| vec![v("x")], &|_| vec![v("y")]),
            5 => deep(&|_| vec![v(""), T::Eof], &|_| vec![r("b", vec![v("z"), v("z")])]),
            6 => r("main", (0..n / 10 + 1).map(|i| r("a", (0..10).map(|j| if (i + j) % 3 == 0 { r("b", vec![v("q"), v("w")]) } else { v("x") }).collect())).collect()),
            _ => r("main", vec![r("a", (0..n).map(|_| T::Eof).collect()), r("b", (0..n).map(|_| v("é")).collect())]),
        };
        let real = t.to_real();
        let nodes = count_nodes(&real);
        let (text, levels) = extent(&real);
        for op in 0..7 {
            if !ctx.next() {
                continue;
            }
            ctx.nontrivial(true);
            let name = ["compact", "flatten", "prune none", "prune some", "pass through all", "pass through some", "equality"][op];
            let what = || format!("{} of tree shape {} with {} nodes", name, b % 8, nodes);
            ctx.sample(what);
            let did = ctx.real(what, || {
                work(|| match op {
                    0 => drop(real.compact()),
                    1 => drop(real.flatten()),
                    2 => drop(real.prune(&[])),
                    3 => drop(real.prune(&["b", "zz"])),
                    4 => drop(real.pass_through_except(&[])),
                    5 => drop(real.pass_through_except(&["b", "zz"])),
                    _ => assert!(real == real.prune(&[])),
                })
                .0
            });
            if let Some(d) = did {
                within(ctx, &what, d, nodes, 100, 0, nodes, "nodes");
                bytes_of_size(ctx, &what, d.1, 64 * nodes + text, levels);
            }
        }
    });
    f.hang_s = 120;
    f
}

/// text on the values and names of a tree, and levels
fn extent(n: &ast::Node) -> (u64, u64) {
    match n {
        ast::Node::Rule((s, v)) => v.iter().map(extent).fold((s.len() as u64, 1), |a, b| (a.0 + b.0, a.1.max(b.1 + 1))),
        ast::Node::Val(s) => (s.len() as u64, 1),
        _ => (0, 1),
    }
}

/// bytes taken for each byte of a tree or rules, for each level: up to 4.4 now
const BYTES_PER_SIZE: u64 = 25;
static TOPS: AtomicU64 = AtomicU64::new(0);

fn bytes_of_size(ctx: &mut Ctx, what: &dyn Fn() -> String, bytes: u64, size: u64, levels: u64) {
    let ratio = bytes * 1000 / ((size + 200) * levels.max(1));
    if std::env::var_os("MC_RATIO").is_some() && TOPS.fetch_max(ratio, Relaxed) < ratio {
        eprintln!("SIZE {} : {} bytes for {} of {} levels: {}", ratio, bytes, size, levels, clip(&what(), 200));
    }
    if bytes > size * levels.max(1) * BYTES_PER_SIZE + 100_000 {
        ctx.fail(format!("{}\n{} bytes taken from the allocator for {} bytes, of {} levels", what(), bytes, size, levels));
    }
}

/// longest time for each byte of a tree or of rules, in ns: up to 14 now
const NS_PER_BYTE: u64 = 400;

/// very big things: trees of very many nodes, and rules, also the processor time taken
fn very_big(tier: Tier) -> Family {
    let n: usize = tier.pick(60_000, 300_000);
    let v = |s: &str| ast::Node::Val(s.to_string());
    let r = |s: &str, c: Vec<ast::Node>| ast::Node::Rule((s.to_string(), c));
    let trees: Vec<(&str, Box<dyn Fn() -> ast::Node + Send + Sync>)> = vec![
        ("a run of values", Box::new(move || r("m", (0..n).map(|_| v("x")).collect()))),
        ("a run of empty values", Box::new(move || r("m", (0..n).map(|_| v("")).collect()))),
        ("a run of long values", Box::new(move || r("m", (0..n).map(|_| v("some words é ")).collect()))),
        ("values and ends of file", Box::new(move || r("m", (0..n).map(|i| if i % 2 == 0 { v("x") } else { ast::Node::EOF }).collect()))),
        ("rules without contents", Box::new(move || r("m", (0..n).map(|i| r(["a", "b"][i % 2], vec![])).collect()))),
        ("rules of two values", Box::new(move || r("m", (0..n / 3).map(|i| r(["a", "b"][i % 2], vec![v("x"), v("y")])).collect()))),
        ("rules of rules of values", Box::new(move || r("m", (0..300).map(|i| r(["a", "b", "c"][i % 3], (0..n / 300).map(|j| if (i + j) % 3 == 0 { r("b", vec![v("q")]) } else { v("w") }).collect())).collect()))),
        ("a rule with all, and values after", Box::new(move || r("m", vec![r("a", (0..n / 2).map(|_| v("é")).collect()), r("b", (0..n / 2).map(|_| r("a", vec![])).collect())]))),
        ("different names", Box::new(move || r("m", (0..n / 2).map(|i| r(&format!("r{}", i), vec![v("x")])).collect()))),
        ("40 levels", Box::new(move || (0..40).fold(v("x"), |t, i| { let mut c: Vec<_> = (0..n / 80).map(|_| v("x")).collect(); c.push(t); c.extend((0..n / 80).map(|_| r("b", vec![]))); r(["a", "b", "c"][i % 3], c) }))),
    ];
    let ops: [(&str, fn(&ast::Node)); 7] = [
        ("compact", |t| drop(t.compact())),
        ("flatten", |t| drop(t.flatten())),
        ("prune none", |t| drop(t.prune(&[]))),
        ("prune some", |t| drop(t.prune(&["b", "zz"]))),
        ("pass through all", |t| drop(t.pass_through_except(&[]))),
        ("pass through some", |t| drop(t.pass_through_except(&["b", "zz"]))),
        ("equality", |t| assert!(*t == t.prune(&[]))),
    ];
    let exprs: Vec<(&str, Box<dyn Fn() -> Rules + Send + Sync>)> = vec![
        ("very many rules", Box::new(move || (0..n / 10).map(|i| (format!("r{}", i), lit("a"))).collect())),
        ("a long sequence", Box::new(move || rules1(E::And((0..n / 4).map(|_| lit("a")).collect())))),
        ("a long choice", Box::new(move || rules1(E::Or((0..n / 4).map(|i| if i % 2 == 0 { rf("r") } else { class("", &[('a', 'b')]) }).collect())))),
        ("a long literal", Box::new(move || rules1(lit(&"a\n\"\\é".repeat(n))))),
        ("a long error", Box::new(move || rules1(err(&"a\n\"\\é".repeat(n))))),
        ("a set of many chars", Box::new(move || rules1(class(&"aé".repeat(n), &[('a', 'b')])))),
        ("a set of many ranges", Box::new(move || rules1(class("x", &vec![('a', '\''); n / 8])))),
        ("a long name", Box::new(move || vec![("main".into(), rf(&"ab".repeat(n))), ("ab".repeat(n), lit("a"))])),
        ("40 levels", Box::new(move || rules1((0..40).fold(lit("x"), |t, i| if i % 2 == 0 { E::And(vec![E::And(vec![lit("a"); n / 400]), not(t)]) } else { E::Or(vec![t, E::Or(vec![lit("b"); n / 400])]) })))),
    ];
    let (nt, ne) = (trees.len() as u64, exprs.len() as u64);
    let descr = format!("trees of about {} nodes ({}) and every transformation; rule sets ({}), built, added one by one, merged and their code generated; also the processor time taken", n, trees.iter().map(|t| t.0).collect::<Vec<_>>().join(", "), exprs.iter().map(|t| t.0).collect::<Vec<_>>().join(", "));
    let mut f = family("very-big", descr, nt + ne, move |b, ctx| {
        if b < nt {
            let (name, make) = &trees[b as usize];
            let t = make();
            let nodes = count_nodes(&t);
            let (text, levels) = extent(&t);
            for (op, f) in ops.iter() {
                if !ctx.next() {
                    continue;
                }
                ctx.nontrivial(true);
                let what = || format!("{} of a tree of {} nodes: {}", op, nodes, name);
                ctx.sample(what);
                if let Some((d, _)) = ctx.real(what, || work(|| f(&t))) {
                    within(ctx, &what, d, nodes, 100, 0, nodes, "nodes");
                    bytes_of_size(ctx, &what, d.1, 64 * nodes + text, levels);
                }
                slow(ctx, &what, 64 * nodes + text, NS_PER_BYTE, "bytes of the tree", &|| f(&t));
            }
            return;
        }
        let (name, make) = &exprs[(b - nt) as usize];
        let rs = make();
        let bytes: u64 = rs.iter().map(|r| weight(&r.1) + 40 + 2 * r.0.len() as u64).sum();
        // what a set has inside counts too
        let nodes: u64 = rs.iter().map(|r| size(&r.1)).sum::<u64>() + bytes / 24;
        let levels = if *name == "40 levels" { 80 } else { 2 };
        let real = to_real(&rs);
        if ctx.next() {
            ctx.nontrivial(true);
            let what = || format!("generating code of {}", name);
            let f = || drop(dynparser::peg::gcode::rust_from_rules(&real));
            if let Some((d, _)) = ctx.real(what, || work(f)) {
                within(ctx, &what, d, nodes, 200, 0, nodes, "nodes");
                bytes_of_size(ctx, &what, d.1, bytes, levels);
            }
            slow(ctx, &what, bytes, NS_PER_BYTE, "bytes of the rules", &f);
        }
        if ctx.next() {
            ctx.nontrivial(true);
            let what = || format!("building, adding and merging {}", name);
            let f = || {
                let all = to_real(&rs).merge(to_real(&rs));
                let all = rs.iter().fold(all, |a, (n, e)| a.add(&format!("{}_", n), to_real_expr(e)));
                rs.iter().fold(all, |a, (n, e)| if rs.len() > 9 { a.merge(to_real(&vec![(n.clone(), e.clone())])) } else { a });
            };
            if let Some((d, _)) = ctx.real(what, || work(f)) {
                within(ctx, &what, d, nodes, 200, 0, nodes, "nodes");
                bytes_of_size(ctx, &what, d.1, 4 * bytes, levels);
            }
            slow(ctx, &what, bytes, 4 * NS_PER_BYTE, "bytes of the rules", &f);
        }
    });
    f.hang_s = 300;
    f
}
fn count_nodes(n: &ast::Node) -> u64 {
    match n {
        ast::Node::Rule((_, v)) => 1 + v.iter().map(count_nodes).sum::<u64>(),
        _ => 1,
    }
}

pub fn effort(tier: Tier) -> Vec<Family> {
    let ab = |n| strings_upto(&["a", "b"], n);
    let mut v: Vec<Family> = vec![];
    for s in vec![
        core(alpha_ascii(tier), tier.pick(5, 6), false),
        core(alpha_lits(tier), tier.pick(4, 5), false),
        core(alpha_errors(tier), tier.pick(4, 5), false),
        pairs("ab", vec![lit("a"), lit("b"), rf("main"), rf("r"), E::Dot], 3, tier.pick(3, 4), ab(4)),
        triples("ab", vec![lit("a"), lit("b"), rf("r"), rf("s")], ab(3)),
        crate::more::deep(tier),
    ] {
        v.push(explore(s, o_work));
    }
    v.push(nests(tier));
    v.push(long_texts(tier));
    v.push(many_rules(tier));
    v.push(growth(tier));
    v.extend(scale(tier, false).into_iter().map(|s| explore(s, o_work)));
    v.extend(apps(tier).into_iter().map(|s| explore(s, o_work)));
    v.push(peg::explore_texts(nested_pegs(tier), o_peg_work));
    v.push(peg::explore_texts(long_pegs(tier), o_peg_work));
    v.extend(peg::wrong_texts(Tier::Quick).into_iter().map(|t| peg::explore_texts(t, o_peg_work)));
    v.push(big_trees(tier));
    v.push(very_big(tier));
    v
}
