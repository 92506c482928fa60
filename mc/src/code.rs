//! Generated code: compiled by rustc and run (P17, P18)

use crate::dump::dump;
use crate::enc::encode;
use crate::frame::*;
use crate::gen::*;
use crate::model::*;
use crate::peg::{notation_spaces, Texts, NOTATION};
use crate::spaces::APPS;
use crate::spec::{self, Quote};
use dynparser::{parse, peg, rules_from_peg};
use std::collections::BTreeMap;
use std::fs;
use std::io::Write;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::{Arc, OnceLock};

// ---------------------------------------------------------------------- crates

const HEAD: &str = "#![allow(warnings)]\n#[macro_use]\nextern crate dynparser;\nuse dynparser::parser::expression::SetOfRules;\n";

fn gen_dir() -> PathBuf {
    root().join("target/gen")
}

/// writes a crate with one binary per (name, source), and compiles it.
/// Err: the messages of the compiler
fn compile(krate: &str, bins: &[(String, String)]) -> Result<PathBuf, String> {
    compile_with(krate, bins, "/repo")
}

fn compile_with(krate: &str, bins: &[(String, String)], lib: &str) -> Result<PathBuf, String> {
    let dir = gen_dir().join(krate);
    let src = dir.join("src");
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&src).expect("crate dir");
    let mut toml = format!(
        "[package]\nname = \"{}\"\nversion = \"0.1.0\"\nedition = \"2018\"\nautobins = false\n[workspace]\n[dependencies]\ndynparser = {{ path = \"{}\" }}\n[profile.dev]\ndebug = false\nincremental = false\npanic = \"abort\"\n[profile.dev.package.\"*\"]\nopt-level = 2\n",
        krate.to_lowercase(),
        lib
    );
    for (n, s) in bins {
        toml.push_str(&format!("[[bin]]\nname = \"{}\"\npath = \"src/{}.rs\"\n", n, n));
        fs::write(src.join(format!("{}.rs", n)), s).expect("source");
    }
    fs::write(src.join("dump.rs"), include_str!("dump.rs")).expect("source");
    fs::write(src.join("enc.rs"), include_str!("enc.rs")).expect("source");
    fs::write(dir.join("Cargo.toml"), toml).expect("manifest");
    fs::copy(root().join("mc/Cargo.lock"), dir.join("Cargo.lock")).ok();
    let out = Command::new("cargo")
        .args(["build", "--offline", "--keep-going", "--message-format", "short", "--manifest-path"])
        .arg(dir.join("Cargo.toml"))
        .arg("--target-dir")
        .arg(root().join("target/gen-target"))
        .env_remove("CARGO_TARGET_DIR")
        .stdin(Stdio::null())
        .output()
        .expect("run cargo");
    if out.status.success() {
        Ok(root().join("target/gen-target/debug"))
    } else {
        Err(String::from_utf8_lossy(&out.stderr).to_string())
    }
}

/// the compiler works on a crate that only uses the library: otherwise nothing can be said
fn sane() {
    static S: OnceLock<()> = OnceLock::new();
    S.get_or_init(|| {
        let s = format!("{}fn main() {{ let _: Option<SetOfRules> = None; }}\n", HEAD.replace("#[macro_use]\n", ""));
        if let Err(e) = compile(&format!("sane{}", std::process::id()), &[(format!("sane{}", std::process::id()), s)]) {
            eprintln!("a trivial crate doesn't compile:\n{}", e);
            std::process::exit(2);
        }
        let _ = fs::remove_dir_all(gen_dir().join(format!("sane{}", std::process::id())));
    });
}

/// source of a binary that prints the dump of each rule set; and the first line of each one
fn sets_source(sets: &[(usize, &Rules)], how: How) -> Result<(String, Vec<(usize, usize)>), String> {
    let mut s = String::from(HEAD);
    s.push_str("mod dump;\n");
    if how == How::Macros {
        s.push_str(macros::HEAD);
    }
    let mut lines = vec![];
    let mut line = s.matches('\n').count() + 1;
    for (i, r) in sets {
        if how == How::Macros {
            let f = format!("fn s{}() -> SetOfRules {{ {} }}\n", i, macros::rules_text(r, *i));
            lines.push((line, *i));
            line += f.matches('\n').count();
            s.push_str(&f);
            continue;
        }
        let code = peg::gcode::rust_from_rules(&to_real(r));
        // both ways of calling the macro
        let f = if i % 2 == 0 {
            format!("fn s{}() -> SetOfRules {{ rules!{{{}\n}} }}\n", i, code)
        } else {
            format!("fn s{}() -> SetOfRules {{ rules!({}\n) }}\n", i, code)
        };
        lines.push((line, *i));
        line += f.matches('\n').count();
        s.push_str(&f);
    }
    s.push_str("fn out(i: usize, s: SetOfRules) { println!(\"{}\\t{}\", i, dump::dump(&s).escape_default()); }\nfn main() {\n");
    for (i, _) in sets {
        s.push_str(&format!("out({}, s{}());\n", i, i));
    }
    s.push_str("}\n");
    Ok((s, lines))
}

fn run_dumps(bin: PathBuf) -> Result<BTreeMap<usize, String>, String> {
    let o = Command::new("timeout").arg("120").arg(bin).stdin(Stdio::null()).output().expect("run");
    let mut m = BTreeMap::new();
    for l in String::from_utf8_lossy(&o.stdout).lines() {
        if let Some((a, b)) = l.split_once('\t') {
            m.insert(a.parse().unwrap_or(0), b.to_string());
        }
    }
    if !o.status.success() {
        return Err(format!("the compiled code ends with {}: {}", o.status, clip(&String::from_utf8_lossy(&o.stderr), 800)));
    }
    Ok(m)
}

// ---------------------------------------------------------------------- P18

const PARTS: usize = 8;

/// who writes the source: the generator of code, or the harness with the macros
#[derive(Clone, Copy, PartialEq)]
enum How {
    Generated,
    Macros,
}

struct Built {
    /// the dump printed for each set
    dumps: BTreeMap<usize, String>,
    /// what happened to a set, or to no set in particular
    failed: BTreeMap<usize, String>,
    general: Option<String>,
}

/// compiles the sets in PARTS binaries
fn build_sets(tag: &str, sets: &[Rules], how: How) -> Built {
    sane();
    let mut b = Built { dumps: BTreeMap::new(), failed: BTreeMap::new(), general: None };
    let parts = PARTS.min(sets.len());
    let mut bins = vec![];
    let mut where_: Vec<Vec<(usize, usize)>> = vec![];
    // deal them so that the parts take alike
    for p in 0..parts {
        let mine: Vec<(usize, &Rules)> = sets.iter().enumerate().filter(|(i, _)| i % parts == p).collect();
        match std::panic::catch_unwind(|| sets_source(&mine, how)) {
            Ok(Ok((s, l))) => {
                bins.push((format!("{}p{}", tag, p), s));
                where_.push(l);
            }
            _ => {
                b.general = Some("generating the code panics".into());
                return b;
            }
        }
    }
    let r = compile(tag, &bins);
    let dir = match r {
        Ok(d) => d,
        Err(log) => {
            for (p, l) in where_.iter().enumerate() {
                let pat = format!("src/{}p{}.rs:", tag, p);
                for m in log.lines().filter(|m| m.contains(&pat) && m.contains("error")) {
                    let n: usize = m.split(&pat).nth(1).and_then(|x| x.split(':').next()).and_then(|x| x.parse().ok()).unwrap_or(0);
                    if let Some((_, i)) = l.iter().rev().find(|(line, _)| *line <= n) {
                        b.failed.entry(*i).or_insert_with(|| format!("the code generated doesn't compile: {}", clip(m, 500)));
                    }
                }
            }
            if b.failed.is_empty() {
                b.general = Some(format!("the code generated doesn't compile:\n{}", clip(&log, 2000)));
            }
            return b;
        }
    };
    for (n, _) in &bins {
        match run_dumps(dir.join(n)) {
            Ok(m) => b.dumps.extend(m),
            Err(e) => b.general = Some(e),
        }
        let _ = fs::remove_file(dir.join(n));
    }
    let _ = fs::remove_dir_all(gen_dir().join(tag));
    b
}

/// rules packed by (roughly) this number of expressions in a set
const PACK: usize = 40;

fn pack(v: Vec<(String, E)>) -> Vec<Rules> {
    let mut out: Vec<Rules> = vec![];
    let mut cur: Rules = vec![];
    for (n, e) in v {
        if cur.len() >= PACK || cur.iter().any(|x| x.0 == n) {
            out.push(std::mem::take(&mut cur));
        }
        cur.push((n, e));
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}
fn numbered(v: Vec<E>) -> Vec<(String, E)> {
    v.into_iter().enumerate().map(|(i, e)| (format!("r{}", i), e)).collect()
}

/// (name, what, rule sets)
fn code_sets(tier: Tier) -> Vec<(&'static str, String, Vec<Rules>)> {
    let mut out = vec![];
    // operators
    let size = tier.pick(4, 5);
    let p = Pool::new(
        vec![lit("a"), lit(""), class("ab", &[('0', '9'), ('x', 'z')]), class("", &[]), E::Dot, E::Eof, err("e"), rf("r")],
        vec![Un::Not, Un::Rep(0, Some(1)), Un::Rep(0, None), Un::Rep(2, Some(3))],
        size,
        false,
    );
    let n = if tier == Tier::Thorough { p.total().min(60000) } else { p.total() };
    let mut sets = pack(numbered((0..n).map(|i| p.nth(i)).collect()));
    let mut lists = vec![];
    for is_and in [true, false] {
        let mk = |v: Vec<E>| if is_and { E::And(v) } else { E::Or(v) };
        lists.push(mk(vec![]));
        lists.push(mk(vec![lit("a")]));
        lists.push(mk(vec![mk(vec![])]));
        for k in 3..8 {
            lists.push(mk((0..k).map(|i| [lit("a"), E::Dot, rf("r"), E::Eof, opt(lit("b"))][i % 5].clone()).collect()));
            lists.push(mk((0..k).map(|i| if i % 2 == 0 { E::And(vec![lit("x"), E::Dot]) } else { E::Or(vec![rf("y"), E::Eof]) }).collect()));
        }
    }
    sets.extend(pack(numbered(lists)));
    out.push(("operators", format!("all {} expression trees of up to {} nodes over 8 atoms, 4 unary operators, and/or of 2; and/or of 0 to 7", n, size), sets));
    // bounds
    let bs: Vec<usize> = vec![0, 1, 2, 3, 7, 9, 10, 11, 99, 100, 127, 128, 255, 256, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, usize::MAX];
    let mut v = vec![];
    for &a in &bs {
        v.push(rep(lit("a"), a, None));
        for &b in &bs {
            v.push(rep(lit("a"), a, Some(b)));
        }
    }
    out.push(("bounds", format!("repetitions with all pairs of bounds out of {:?}, and without maximum", bs), pack(numbered(v))));
    // strings
    let al = ["\"", "#", "\\", "'", "{", "}", "n", "u", "\n", "\r", "\t", "\0", "é", "/", "*", " ", "$", "\u{202e}", "r", "\u{301}", "1"];
    let ss = strings_upto(&al, 3);
    let small = strings_upto(&["\"", "#", "\\", "{", "r", "'"], tier.pick(4, 5));
    let mut v: Vec<(String, E)> = vec![];
    for s in ss.iter().chain(&small) {
        v.push((s.clone(), and(vec![lit(s), err(s), rf(s), class(s, &[])])));
    }
    out.push(("strings", format!("all {} strings over {:?}, and all {} over quotes, #, \\, braces and r, as name, reference, literal, error and set", ss.len(), al, small.len()), pack(v)));
    // every char
    let mut special: Vec<u32> = (0..0x250).collect();
    special.extend([0x2ff, 0x300, 0x301, 0x36f, 0x370, 0x5d0, 0x61c, 0x7ff, 0x800, 0x180e, 0x200b, 0x200c, 0x200d, 0x200e, 0x200f, 0x2027, 0x2028, 0x2029, 0x202a, 0x202b, 0x202c, 0x202d, 0x202e, 0x202f, 0x2060, 0x2066, 0x2067, 0x2068, 0x2069, 0x20ac, 0x3000, 0xd7ff, 0xe000, 0xf8ff, 0xfe0f, 0xfeff, 0xfff9, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x1f468, 0xe0001, 0xe007f, 0xe0100, 0x10fffe, 0x10ffff]);
    special.extend(0x250..tier.pick(0x800, 0x3000));
    special.sort();
    special.dedup();
    let mut v = vec![];
    for u in special {
        if let Some(c) = std::char::from_u32(u) {
            let s = c.to_string();
            v.push((s.clone(), and(vec![lit(&s), lit(&format!("{}1a", s)), lit(&format!("a{}", s)), err(&s), class(&s, &[(c, c), ('a', c)]), rf(&s)])));
        }
    }
    out.push(("chars", "chars up U+7FF or U+2FFF and special ones, alone and next to others, as name, reference, literal, error, set and ends of ranges".into(), pack(v)));
    let mut v = vec![];
    for k in 0..0x110000 / 256u32 {
        let s: String = (0..256).filter_map(|i| std::char::from_u32(k * 256 + i)).collect();
        if !s.is_empty() {
            v.push((format!("r{}", k), and(vec![lit(&s), class(&s, &[(s.chars().next().unwrap(), s.chars().last().unwrap())])])));
        }
    }
    out.push(("all-chars", "every Unicode scalar value, 256 at a time, on literals and sets".into(), pack(v)));
    // sets
    let rl: Vec<char> = "az09-]'\"\\\n\0 é😀\u{301}\u{202e}{".chars().collect();
    let mut v = vec![];
    for (i, &a) in rl.iter().enumerate() {
        for (j, &b) in rl.iter().enumerate() {
            v.push(class(["", "x", "\"", "-"][(i + j) % 4], &[(a, b)]));
            v.push(class("", &[(a, a), (b, a), (a, b)]));
        }
    }
    for n in [0usize, 1, 2, 3, 4, 5, 10, 31, 32, 33, 64, 100, 127, 128, 129, 130, 200, 256, 300] {
        let r: Vec<(char, char)> = (0..n).map(|i| (std::char::from_u32(0x100 + i as u32).unwrap(), std::char::from_u32(0x200 + i as u32).unwrap())).collect();
        v.push(class("", &r));
        v.push(class("abc", &r));
    }
    out.push(("sets", format!("ranges with all pairs of ends out of {} chars; sets of up to 300 ranges", rl.len()), pack(numbered(v))));
    // sizes
    let mut sets = vec![vec![]];
    for n in tier.pick(vec![1usize, 2, 63, 64, 65, 127, 128, 129, 200, 300], vec![1usize, 2, 3, 10, 31, 32, 33, 63, 64, 65, 100, 126, 127, 128, 129, 130, 200, 255, 256, 257, 300, 512, 1000]) {
        sets.push((0..n).map(|i| (format!("r{}", i), lit(&i.to_string()))).collect());
        sets.push(rules1(E::And((0..n).map(|i| lit(&i.to_string())).collect())));
        sets.push(rules1(E::Or((0..n).map(|i| rf(&i.to_string())).collect())));
        sets.push(vec![("é\"".repeat(n), and(vec![lit(&"\\\"".repeat(n)), err(&"#\"".repeat(n)), class(&"]-".repeat(n), &[])]))]);
    }
    let depths = tier.pick(vec![10usize, 30, 60], (1..=60).collect());
    for &d in &depths {
        let nest = |f: &dyn Fn(E) -> E| (0..d).fold(lit("a"), |e, _| f(e));
        sets.push(rules1(nest(&not)));
        sets.push(rules1(nest(&|e| rep(e, 1, Some(2)))));
        sets.push(rules1(nest(&|e| and(vec![lit("b"), e]))));
        sets.push(rules1(nest(&|e| or(vec![e, E::Dot]))));
        sets.push(rules1(nest(&|e| or(vec![and(vec![opt(not(e)), E::Eof]), lit("c")]))));
        if d > 20 {
            sets.pop();
        }
    }
    out.push(("sizes", format!("n rules, sequences, choices, long names and texts; operators nested up to {}", depths[depths.len() - 1]), sets));
    // long texts, each char at each place
    let mut v = vec![];
    for n in tier.pick(vec![90usize, 700], vec![45, 90, 130, 300, 700, 5000]) {
        for s in crate::more::rotations("a \"\\\n\té'{#\r/}\0", n) {
            v.push((format!("r{}", v.len()), and(vec![lit(&s), err(&s), class(&s, &[('a', 'b')])])));
            v.push((format!("{}{}", s, v.len()), rf(&s)));
        }
    }
    out.push(("long-strings", "literals, errors, sets, names and references of n chars with each one of 15 chars (blanks, quotes, escapes, braces, multibyte) at each place".into(), pack(v)));
    // long sets
    let mut v = vec![];
    for n in tier.pick(vec![2usize, 5, 9, 17, 33], vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 40, 64, 65, 100]) {
        for base in [0x21, 0x7f0] {
            v.extend(crate::more::set_shapes(n, base, n <= 20).into_iter().map(|(s, r)| class(&s, &r)));
        }
    }
    out.push(("long-sets", "sets of n chars, ranges or both: sorted, backwards, rotated, alternated; apart, nested, overlapped, adjacent; one wide, empty, narrow or repeated at each place".into(), pack(numbered(v))));
    // one of another kind
    let kinds = || vec![lit("a"), lit(""), class("a", &[('b', 'c')]), class("", &[]), E::Dot, E::Eof, err("e"), rf("r"), not(lit("a")), opt(E::Dot), star(rf("r")), rep(lit("a"), 2, Some(3)), and(vec![E::Dot, E::Eof]), or(vec![lit("a"), rf("r")]), and(vec![]), or(vec![lit("b")])];
    let mut v = vec![];
    for n in tier.pick(vec![3usize, 9], vec![3, 5, 9, 17]) {
        for (i, a) in kinds().into_iter().enumerate() {
            for (j, b) in kinds().into_iter().enumerate() {
                if i == j {
                    continue;
                }
                for p in tier.pick(vec![0, n / 2, n - 1], (0..n).collect()) {
                    let l: Vec<E> = (0..n).map(|k| if k == p { b.clone() } else { a.clone() }).collect();
                    v.push(if (i + j + p) % 2 == 0 { E::And(l) } else { E::Or(l) });
                }
            }
        }
    }
    out.push(("mixed", "sequences and choices of n of a kind with one of another kind at the ends or in the middle (or at each place), all pairs of 16 kinds".into(), pack(numbered(v))));
    // grammars
    let mut sets: Vec<Rules> = APPS.iter().filter_map(crate::spaces::app_rules).collect();
    if let Some(d) = spec::read(NOTATION) {
        sets.push(spec::to_rules(&d));
    }
    out.push(("grammars", "the grammars of the other checks (calculator, json, …) and a grammar of the notation".into(), sets));
    out
}

pub fn generated(tier: Tier) -> Vec<Family> {
    compiled(code_sets(tier), How::Generated, "p18")
}
/// P25
pub fn with_macros(tier: Tier) -> Vec<Family> {
    compiled(macros::sets(tier), How::Macros, "p25")
}

/// the source of the sets is compiled and evaluated, and compared with the sets
fn compiled(groups: Vec<(&'static str, String, Vec<Rules>)>, how: How, tag: &'static str) -> Vec<Family> {
    let mut fams = vec![];
    // everything is compiled at once, by the first batch that needs it
    let all: Arc<Vec<Rules>> = Arc::new(groups.iter().flat_map(|g| g.2.iter().cloned()).collect());
    let built: Arc<OnceLock<Built>> = Arc::new(OnceLock::new());
    let mut from = 0;
    for (name, what, sets) in groups {
        let (n, base) = (sets.len(), from);
        from += n;
        let (all, built) = (all.clone(), built.clone());
        let chunk = 50usize;
        let mut f = family(name, format!("{}: {} rule sets", what, n), ((n + chunk - 1) / chunk) as u64, move |b, ctx| {
            for i in b as usize * chunk..((b as usize + 1) * chunk).min(n) {
                if !ctx.next() {
                    if ctx.stop() {
                        return;
                    }
                    continue;
                }
                let r = &all[base + i];
                ctx.nontrivial(!r.is_empty());
                ctx.sample(|| show_rules(r));
                let code = || match how {
                    How::Generated => peg::gcode::rust_from_rules(&to_real(r)),
                    How::Macros => macros::rules_text(r, base + i),
                };
                let describe = || format!("{}\ncode:\n{}", clip(&show_rules(r), 3000), clip(&code(), 3000));
                let one;
                let (b, k) = if ctx.replaying() {
                    one = build_sets(&format!("{}one", tag), std::slice::from_ref(r), how);
                    (&one, 0)
                } else {
                    (built.get_or_init(|| build_sets(&format!("{}all", tag), &all, how)), base + i)
                };
                let want = dump_rules(r).escape_default().to_string();
                if let Some(w) = b.failed.get(&k) {
                    ctx.fail(format!("{}\n{}", describe(), w));
                } else if let Some(g) = b.dumps.get(&k) {
                    if *g == want {
                        ctx.outcome("same rules");
                    } else {
                        ctx.fail(format!("{}\nevaluates to\n{}\nexpected\n{}", describe(), clip(g, 3000), clip(&want, 3000)));
                    }
                } else if let Some(w) = &b.general {
                    ctx.fail(format!("{}\n{}", describe(), w));
                } else if b.failed.is_empty() {
                    ctx.fail(format!("{}\nthe compiled code gives nothing", describe()));
                } else {
                    // others of the batch don't compile: nothing known about this one
                    ctx.stats.evals -= 1;
                }
            }
        });
        f.hang_s = 850;
        fams.push(f);
    }
    fams
}

// ---------------------------------------------------------------------- P17

const RUNNER: &str = r#"
mod dump;
mod enc;
use std::io::{Read, Write};
fn tree(n: &dynparser::ast::Node, h: &mut u64) {
    use dynparser::ast::Node;
    fn put(h: &mut u64, s: &str) { for b in s.bytes() { *h = (*h ^ b as u64).wrapping_mul(0x100000001b3); } *h = (*h ^ 0xff).wrapping_mul(0x100000001b3); }
    match n {
        Node::Val(v) => { put(h, "v"); put(h, v) }
        Node::EOF => put(h, "e"),
        Node::Rule((n, v)) => { put(h, "r"); put(h, n); v.iter().for_each(|x| tree(x, h)); put(h, "/") }
    }
}
fn main() {
    let r = rules();
    if std::env::args().nth(1).is_some() { print!("{}", enc::encode(&r)); return; }
    let h = std::thread::Builder::new().stack_size(1 << 29).spawn(move || {
        let mut b = vec![];
        std::io::stdin().read_to_end(&mut b).unwrap();
        let mut o: Vec<u8> = vec![];
        let mut p = 0;
        while p < b.len() {
            let n = u32::from_le_bytes([b[p], b[p+1], b[p+2], b[p+3]]) as usize;
            let t = std::str::from_utf8(&b[p+4..p+4+n]).unwrap();
            p += 4 + n;
            let mut h = 0xcbf29ce484222325u64;
            match dynparser::parse(t, &r) { Ok(n) => { tree(&n, &mut h); o.push(1) } Err(e) => { h = enc::error_hash(&e); o.push(0) } }
            o.extend_from_slice(&h.to_le_bytes());
        }
        std::io::stdout().write_all(&o).unwrap();
    }).unwrap();
    h.join().unwrap();
}
"#;

const INSTALLED: &str = r#"
mod enc;
use std::io::{Read, Write};
fn main() {
    let h = std::thread::Builder::new().stack_size(1 << 29).spawn(move || {
        let mut b = vec![];
        std::io::stdin().read_to_end(&mut b).unwrap();
        let mut o: Vec<u8> = vec![];
        let mut p = 0;
        while p < b.len() {
            let n = u32::from_le_bytes([b[p], b[p+1], b[p+2], b[p+3]]) as usize;
            let t = std::str::from_utf8(&b[p+4..p+4+n]).unwrap();
            p += 4 + n;
            let (ok, h) = enc::built_hash(&dynparser::rules_from_peg(t));
            o.push(ok as u8);
            o.extend_from_slice(&h.to_le_bytes());
        }
        std::io::stdout().write_all(&o).unwrap();
    }).unwrap();
    h.join().unwrap();
}
"#;

/// a copy of the library, where the rules printed are the ones in use.
/// None: the library is not laid as expected, and nothing is said
fn install(tag: &str, code: &str) -> Option<PathBuf> {
    let from = PathBuf::from("/repo/");
    let to = gen_dir().join(format!("{}lib", tag));
    let rules = "src/peg/rules.rs";
    let old = fs::read_to_string(from.join(rules)).ok()?;
    let live = |s: &str| s.lines().filter(|l| !l.trim_start().starts_with("//")).collect::<Vec<_>>().join("\n");
    if live(&old).matches("fn ").count() != 1 || !live(&old).contains("pub(crate) fn parse_peg() -> parser::expression::SetOfRules") {
        return None;
    }
    let _ = fs::remove_dir_all(&to);
    fn copy(from: &PathBuf, to: &PathBuf) -> std::io::Result<()> {
        fs::create_dir_all(to)?;
        for e in fs::read_dir(from)? {
            let e = e?;
            let t = to.join(e.file_name());
            if e.file_type()?.is_dir() {
                copy(&e.path(), &t)?;
            } else {
                fs::copy(e.path(), t)?;
            }
        }
        Ok(())
    }
    copy(&from.join("src"), &to.join("src")).ok()?;
    fs::copy(from.join("Cargo.toml"), to.join("Cargo.toml")).ok()?;
    fs::write(to.join(rules), format!("use crate::parser;\npub(crate) fn parse_peg() -> parser::expression::SetOfRules {{ rules!({}\n) }}\n", code)).ok()?;
    let name = format!("{}inst", tag);
    let src = format!("#![allow(warnings)]\nextern crate dynparser;\n{}", INSTALLED);
    match compile_with(&name, &[(name.clone(), src)], to.to_str()?) {
        Ok(d) => Some(d.join(name)),
        Err(e) => {
            eprintln!("P17: the library with the rules printed doesn't compile: {}", clip(&e, 1000));
            None
        }
    }
}

fn tree_hash(n: &dynparser::ast::Node, h: &mut u64) {
    use dynparser::ast::Node;
    fn put(h: &mut u64, s: &str) {
        for b in s.bytes() {
            *h = (*h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        *h = (*h ^ 0xff).wrapping_mul(0x100000001b3);
    }
    match n {
        Node::Val(v) => {
            put(h, "v");
            put(h, v)
        }
        Node::EOF => put(h, "e"),
        Node::Rule((n, v)) => {
            put(h, "r");
            put(h, n);
            v.iter().for_each(|x| tree_hash(x, h));
            put(h, "/")
        }
    }
}

/// the rules of `encode`
fn decode(s: &str) -> Option<Rules> {
    let mut it = s.split_whitespace();
    type It<'a> = std::str::SplitWhitespace<'a>;
    fn num(it: &mut It) -> Option<usize> {
        it.next()?.parse().ok()
    }
    fn ch(it: &mut It) -> Option<char> {
        std::char::from_u32(num(it)? as u32)
    }
    fn text(it: &mut It) -> Option<String> {
        let n = num(it)?;
        (0..n).map(|_| ch(it)).collect()
    }
    fn expr(it: &mut It) -> Option<E> {
        Some(match it.next()? {
            "L" => E::Lit(text(it)?),
            "E" => E::Err(text(it)?),
            "M" => {
                let s = text(it)?;
                let n = num(it)?;
                let mut v = vec![];
                for _ in 0..n {
                    v.push((ch(it)?, ch(it)?));
                }
                E::Class(s, v)
            }
            "." => E::Dot,
            "$" => E::Eof,
            x @ ("A" | "O") => {
                let n = num(it)?;
                let mut v = vec![];
                for _ in 0..n {
                    v.push(expr(it)?);
                }
                if x == "A" {
                    E::And(v)
                } else {
                    E::Or(v)
                }
            }
            "!" => E::Not(Box::new(expr(it)?)),
            "R" => {
                let a = num(it)?;
                let b = match it.next()? {
                    "-" => None,
                    x => Some(x.parse().ok()?),
                };
                E::Rep(Box::new(expr(it)?), a, b)
            }
            "N" => E::Ref(text(it)?),
            _ => return None,
        })
    }
    let mut r = vec![];
    let end = s.split_whitespace().count();
    if end == 0 {
        return Some(r);
    }
    loop {
        let mut probe = it.clone();
        if probe.next().is_none() {
            return Some(r);
        }
        r.push((text(&mut it)?, expr(&mut it)?));
    }
}

/// the parser error at the end of the chain
fn cause(e: &peg::Error) -> Option<u64> {
    match e {
        peg::Error::Peg((_, Some(e))) => cause(e),
        peg::Error::Parser(e) => Some(crate::enc::error_hash(e)),
        _ => None,
    }
}

struct Published {
    /// binaries: the published rules, and those of the code regenerated from them
    bins: Vec<PathBuf>,
    /// the published rules, written in the notation
    text: String,
    /// builds rules with the published ones in the place of those in use
    installed: Option<PathBuf>,
}

/// `mc print-peg`
pub fn print_peg() {
    peg::peg2code::print_rules2parse_peg();
}

fn source(code: &str) -> String {
    format!("{}fn rules() -> SetOfRules {{ rules!{{{}\n}} }}\n{}", HEAD, code, RUNNER)
}

fn stdout_of(c: &mut Command) -> Option<String> {
    let o = c.stdin(Stdio::null()).output().ok()?;
    if o.status.success() {
        Some(String::from_utf8_lossy(&o.stdout).to_string())
    } else {
        None
    }
}

fn publish(tag: &str) -> Result<Published, String> {
    sane();
    let me = std::env::current_exe().unwrap();
    let code = stdout_of(Command::new("timeout").arg("60").arg(me).arg("print-peg")).ok_or("printing the rules of the notation fails")?;
    // the program
    let t = root().join("target/gen-target");
    let b = Command::new("cargo")
        .args(["build", "--offline", "--bin", "dynparser", "--manifest-path", "/repo/Cargo.toml", "--target-dir"])
        .arg(&t)
        .env_remove("CARGO_TARGET_DIR")
        .output()
        .expect("run cargo");
    if !b.status.success() {
        eprintln!("the program doesn't compile: {}", String::from_utf8_lossy(&b.stderr));
        std::process::exit(2);
    }
    let prog = stdout_of(Command::new("timeout").arg("60").arg(t.join("debug/dynparser"))).ok_or("the program that prints the rules of the notation fails")?;
    let dir = compile(tag, &[(format!("{}f", tag), source(&code)), (format!("{}g", tag), source(&prog))]).map_err(|e| format!("the code printed for the notation doesn't compile:\n{}", clip(&e, 3000)))?;
    let enc = |n: &str| stdout_of(Command::new("timeout").arg("60").arg(dir.join(format!("{}{}", tag, n))).arg("encode"));
    let (f, g) = (enc("f").ok_or("the published rules can't be evaluated")?, enc("g").ok_or("the published rules can't be evaluated")?);
    if f != g {
        return Err(format!("the program and the function print other rules:\n{}\n{}", g, f));
    }
    let model = decode(&f).ok_or("unreadable rules")?;
    let text = spec::print_rules(&model, Quote::Double).ok_or(format!("the published rules can't be written in the notation: {}", show_rules(&model)))?;
    let loaded = rules_from_peg(&text).map_err(|e| format!("the published rules, written in the notation, are rejected: {:?}\n{}", e, text))?;
    // regenerated from the rules loaded
    let again = peg::gcode::rust_from_rules(&loaded);
    let tag2 = format!("{}fix", tag);
    compile(&tag2, &[(tag2.clone(), source(&again))]).map_err(|e| format!("the code regenerated from the rules loaded doesn't compile:\n{}", clip(&e, 3000)))?;
    let fix = stdout_of(Command::new("timeout").arg("60").arg(dir.join(&tag2)).arg("encode")).ok_or("the regenerated rules can't be evaluated")?;
    if fix != encode(&loaded) {
        return Err(format!("not a fixed point: the code regenerated evaluates to\n{}\nfrom the rules loaded\n{}", fix, encode(&loaded)));
    }
    Ok(Published { bins: vec![dir.join(format!("{}g", tag)), dir.join(&tag2)], text, installed: install(tag, &code) })
}

fn run_texts(bin: &PathBuf, texts: &[String]) -> Result<Vec<(bool, u64)>, String> {
    let mut c = Command::new("timeout").arg("300").arg(bin).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| e.to_string())?;
    let mut b: Vec<u8> = vec![];
    for t in texts {
        b.extend_from_slice(&(t.len() as u32).to_le_bytes());
        b.extend_from_slice(t.as_bytes());
    }
    c.stdin.take().unwrap().write_all(&b).map_err(|e| e.to_string())?;
    let o = c.wait_with_output().map_err(|e| e.to_string())?;
    if !o.status.success() || o.stdout.len() != texts.len() * 9 {
        return Err(format!("parsing with the published rules ends with {}", o.status));
    }
    Ok(o.stdout.chunks(9).map(|x| (x[0] == 1, u64::from_le_bytes(x[1..9].try_into().unwrap()))).collect())
}

pub fn published(tier: Tier) -> Vec<Family> {
    let cell: Arc<OnceLock<Result<Published, String>>> = Arc::new(OnceLock::new());
    let get = move |replaying: bool| -> Arc<OnceLock<Result<Published, String>>> {
        cell.get_or_init(|| publish(if replaying { "p17one" } else { "p17all" }));
        cell.clone()
    };
    let get = Arc::new(get);
    let mut out = vec![];
    let g = get.clone();
    let mut f = family("publication", "the rules printed by the program: compiled, evaluated, written in the notation, loaded, regenerated, compiled and evaluated again", 1, move |_, ctx| {
        if !ctx.next() {
            return;
        }
        ctx.nontrivial(true);
        let c = g(ctx.replaying());
        match c.get().unwrap() {
            Ok(p) => {
                ctx.outcome("fixed point");
                ctx.stats.samples.push(clip(&p.text, 300));
            }
            Err(e) => ctx.fail(e.clone()),
        }
    });
    f.hang_s = 850;
    out.push(f);
    for t in notation_spaces(tier, false).into_iter().chain(crate::peg::atom_spaces(tier)) {
        let Texts { name, descr, batches, gen, .. } = t;
        if tier == Tier::Quick && !matches!(name.as_str(), "expression-tokens" | "edits" | "every-char" | "printed-trees" | "scale-pegs" | "definition-tokens-2" | "escapes" | "sets" | "names" | "chars-of-expression" | "long-atoms" | "single-quotes" | "hex") {
            continue;
        }
        let g = get.clone();
        let mut f = family(name, descr, batches, move |b, ctx| {
            let mut texts: Vec<String> = vec![];
            gen(b, &mut |t| texts.push(t.to_string()));
            let c = g(ctx.replaying());
            let p = match c.get().unwrap() {
                Ok(p) => p,
                Err(_) => return,
            };
            let res: Vec<_> = p.bins.iter().map(|x| run_texts(x, &texts)).collect();
            let inst = p.installed.as_ref().map(|x| run_texts(x, &texts));
            let loaded = match rules_from_peg(&p.text) {
                Ok(l) => l,
                Err(_) => return,
            };
            for (i, t) in texts.iter().enumerate() {
                if !ctx.next() {
                    if ctx.stop() {
                        return;
                    }
                    continue;
                }
                ctx.sample(|| format!("{:?}", clip(t, 300)));
                let what = || format!("text {:?}", clip(t, 3000));
                let r = match ctx.real(what, || {
                    let mut h = 0xcbf29ce484222325u64;
                    let l = match parse(t, &loaded) {
                        Ok(n) => {
                            tree_hash(&n, &mut h);
                            (true, h)
                        }
                        Err(e) => (false, crate::enc::error_hash(&e)),
                    };
                    let r = rules_from_peg(t);
                    (r.as_ref().map(|_| 0).map_err(|e| cause(e)), l, crate::enc::built_hash(&r))
                }) {
                    Some(r) => r,
                    None => return,
                };
                let (built, l, hash) = r;
                let r = (built.is_ok(), l);
                ctx.outcome(if r.0 { "accepted" } else { "rejected" });
                ctx.nontrivial(r.0);
                match built {
                    Err(None) if !l.0 => return ctx.fail(format!("{}: rules_from_peg rejects it without the parser error", what())),
                    Err(Some(h)) if !l.0 && h != l.1 => return ctx.fail(format!("{}: rules_from_peg rejects it with an error, and parsing it with the published rules gives another: {:?} / {:?}", what(), rules_from_peg(t).err(), parse(t, &loaded).err())),
                    _ => (),
                }
                match &inst {
                    Some(Ok(v)) if v[i] != hash => return ctx.fail(format!("{}: with the published rules in the place of those in use, rules_from_peg gives other rules (or another error)", what())),
                    Some(Err(e)) => return ctx.fail(format!("{} (rules_from_peg with the published rules), first text {:?}", e, texts[0])),
                    _ => (),
                }
                for (k, x) in res.iter().enumerate() {
                    let who = ["published", "regenerated"][k];
                    match x {
                        Err(e) => return ctx.fail(format!("{} ({}), first text {:?}", e, who, texts[0])),
                        Ok(v) => {
                            if v[i].0 != r.0 {
                                return ctx.fail(format!("{}: the {} rules {}, rules_from_peg {}", what(), who, if v[i].0 { "accept it" } else { "reject it" }, if r.0 { "accepts it" } else { "rejects it" }));
                            }
                            if v[i] != r.1 {
                                return ctx.fail(format!("{}: the {} rules and the same rules loaded from the notation give other trees (or acceptance, or errors): {:?} {:?}\n{}", what(), who, v[i], r.1, p.text));
                            }
                        }
                    }
                }
            }
        });
        f.hang_s = 850;
        out.push(f);
    }
    out
}

// ---------------------------------------------------------------------- P25

mod macros {
    use super::*;

    /// counts the evaluations of arguments
    pub const HEAD: &str = "use std::sync::atomic::{AtomicUsize, Ordering};
const ORDER: Ordering = Ordering::SeqCst;
static EVALUATED: AtomicUsize = AtomicUsize::new(0);
fn once<T>(x: T) -> T {
    EVALUATED.fetch_add(1, ORDER);
    x
}
fn evaluated(r: SetOfRules, before: usize, want: usize) -> SetOfRules {
    let n = EVALUATED.load(ORDER) - before;
    if n == want {
        return r;
    }
    r.add(\"WRONG NUMBER OF EVALUATIONS OF THE ARGUMENTS\", lit!(format!(\"{} instead of {}\", n, want)))
}
";

    /// ways of writing the same
    struct W {
        n: usize,
        style: usize,
        /// arguments inside of a call that counts evaluations
        counted: usize,
    }

    impl W {
        fn mac(&self, m: &str) -> String {
            if self.style == 2 {
                format!("dynparser::{}", m)
            } else {
                m.to_string()
            }
        }
        fn text(&mut self, s: &str, by_ref: bool) -> String {
            let t = self.text_(s, by_ref);
            self.once(t)
        }
        fn once(&mut self, t: String) -> String {
            if self.style == 1 && self.n % 5 == 0 {
                self.counted += 1;
                format!("once({})", t)
            } else {
                t
            }
        }
        fn text_(&mut self, s: &str, by_ref: bool) -> String {
            self.n += 1;
            match (self.style == 1 && self.n % 2 == 0, by_ref) {
                (true, true) => format!("&{:?}.to_string()", s),
                (true, false) => format!("{{ let rules = String::from({:?}); rules }}", s),
                _ => format!("{:?}", s),
            }
        }
        fn num(&mut self, k: usize) -> String {
            let t = self.num_(k);
            self.once(t)
        }
        fn num_(&mut self, k: usize) -> String {
            self.n += 1;
            if self.style == 1 && self.n % 3 == 0 {
                format!("{{ let v: usize = {}; v }}", k)
            } else if k == usize::MAX {
                "usize::max_value()".into()
            } else {
                k.to_string()
            }
        }
        fn expr(&mut self, e: &E) -> String {
            let list = |w: &mut W, v: &Vec<E>| v.iter().map(|x| w.expr(x)).collect::<Vec<_>>().join(", ");
            let e = match e {
                E::Lit(s) => format!("{}!({})", self.mac("lit"), self.text(s, false)),
                E::Err(s) => format!("{}!({})", self.mac("error"), self.text(s, false)),
                E::Ref(s) => format!("{}!({})", self.mac("ref_rule"), self.text(s, false)),
                E::Dot => format!("{}!()", self.mac("dot")),
                E::Eof => format!("{}!()", self.mac("eof")),
                E::Class(s, r) => {
                    self.n += 1;
                    let m = self.mac("ematch");
                    let two = self.n % 2 == 0;
                    let t = self.text(s, true);
                    if two {
                        format!("{}!(chlist {}, from2 vec!{:?})", m, t, r)
                    } else {
                        format!("{}!(chlist {}, {})", m, t, r.iter().map(|(a, b)| format!("from {:?}, to {:?}", a, b)).collect::<Vec<_>>().join(", "))
                    }
                }
                E::And(v) => format!("{}!({})", self.mac("and"), list(self, v)),
                E::Or(v) => format!("{}!({})", self.mac("or"), list(self, v)),
                E::Not(x) => format!("{}!({})", self.mac("not"), self.expr(x)),
                E::Rep(x, a, b) => {
                    let (m, x, a) = (self.mac("rep"), self.expr(x), self.num(*a));
                    match b {
                        None => format!("{}!({}, {})", m, x, a),
                        Some(b) => format!("{}!({}, {}, {})", m, x, a, self.num(*b)),
                    }
                }
            };
            self.n += 1;
            let e = self.once(e);
            if self.style == 1 && self.n % 4 == 0 {
                format!("{{ let expression = {}; expression }}", e)
            } else {
                e
            }
        }
    }

    pub fn rules_text(r: &Rules, i: usize) -> String {
        let mut w = W { n: i, style: i % 3, counted: 0 };
        let items: Vec<String> = r.iter().map(|(n, e)| format!("{} => {}", w.text(n, true), w.expr(e))).collect();
        let m = w.mac("rules");
        let t = match i % 4 {
            0 => format!("let v = {}!{{{}}}; v", m, items.join(", ")),
            1 => format!("{}!({})", m, items.join(",\n")),
            2 => format!("{}![{}]", m, items.join(", ")),
            _ => format!("let v = {}!({}); v", m, items.join(",")),
        };
        if w.counted > 0 {
            format!("let before = EVALUATED.load(ORDER); let made = {{ {} }}; evaluated(made, before, {})", t, w.counted)
        } else {
            t
        }
    }

    pub fn sets(tier: Tier) -> Vec<(&'static str, String, Vec<Rules>)> {
        let mut out = vec![];
        let size = tier.pick(4, 5);
        let p = Pool::new(
            vec![lit("a"), class("ab", &[('0', '9'), ('x', 'z')]), class("a", &[]), E::Dot, E::Eof, err("e"), rf("r")],
            vec![Un::Not, Un::Rep(0, Some(1)), Un::Rep(0, None), Un::Rep(2, Some(3))],
            size,
            false,
        );
        let n = if tier == Tier::Thorough { p.total().min(50000) } else { p.total() };
        out.push(("operators", format!("{} expression trees of up to {} nodes over 7 atoms, 4 unary operators, and/or of 2", n, size), pack(numbered((0..n).map(|i| p.nth(i)).collect()))));
        let mut v = vec![];
        for k in (0..=12).chain(vec![16, 31, 32, 33, 50, 63, 64]) {
            for is_and in [true, false] {
                let mk = |v: Vec<E>| if is_and { E::And(v) } else { E::Or(v) };
                v.push(mk((0..k).map(|i| [lit(&i.to_string()), E::Dot, rf("r"), E::Eof, opt(lit("b"))][i % 5].clone()).collect()));
                v.push(mk((0..k).map(|i| if i % 2 == 0 { E::And(vec![lit("x"), E::Dot]) } else { E::Or(vec![rf(&i.to_string())]) }).collect()));
            }
            let rs: Vec<(char, char)> = (0..k).map(|i| (std::char::from_u32(0x61 + i as u32).unwrap(), std::char::from_u32(0x3b1 + i as u32).unwrap())).collect();
            for s in ["", "-", "az"] {
                v.push(class(s, &rs));
                v.push(class(s, &rs)); // the other form
            }
        }
        out.push(("lists", "and/or of 0 to 64 items, sets of 0 to 64 ranges in both forms".into(), pack(numbered(v))));
        let ends = ['\0', 'a', 'b', 'é', '\u{10ffff}'];
        let ranges: Vec<(char, char)> = ends.iter().flat_map(|a| ends.iter().map(move |b| (*a, *b))).collect();
        let mut v = vec![];
        for l in 0..=tier.pick(2, 3) {
            for i in 0..ranges.len().pow(l) {
                let rs: Vec<(char, char)> = (0..l).map(|k| ranges[i / ranges.len().pow(k) % ranges.len()]).collect();
                let texts: &[&str] = if l < 2 { &["", "a", "aa", "ba", "-", "^é"] } else { &["", "bab"] };
                for s in texts {
                    v.push(E::And(vec![class(s, &rs), class(s, &rs)])); // both forms
                }
            }
        }
        out.push(("sets", format!("{} sets: all lists of up to {} ranges with ends {:?}, up to 6 lists of chars, both forms", v.len(), tier.pick(2, 3), ends), pack(numbered(v))));
        let bs = [0usize, 1, 2, 3, 10, 255, 256, 65535, 65536, 1 << 32, usize::MAX];
        let mut v = vec![];
        for &a in &bs {
            v.push(rep(lit("a"), a, None));
            for &b in &bs {
                v.push(rep(lit("a"), a, Some(b)));
                v.push(rep(rep(rf("r"), a, Some(b)), b, None));
            }
        }
        out.push(("bounds", format!("repetitions with all pairs of bounds out of {:?}, alone and nested", bs), pack(numbered(v))));
        let mut v: Vec<(String, E)> = crate::more::NAMES.iter().map(|s| s.to_string()).chain(strings_upto(&["\"", "\\", "'", "{", "é", "\n", "a"], 2)).map(|s| (s.clone(), and(vec![lit(&s), err(&s), rf(&s), class(&s, &[]), class(&s, &[('a', 'é')])]))).collect();
        v.sort_by(|a, b| a.0.cmp(&b.0));
        v.dedup_by(|a, b| a.0 == b.0);
        out.push(("strings", format!("{} strings (odd names, quotes, braces, ends of line) as name, reference, literal, error and set", v.len()), pack(v)));
        // the same name again: the last one stays
        let mut sets = vec![vec![]];
        for l in 1..=4u32 {
            for i in 0..2u64.pow(l) {
                sets.push((0..l).map(|k| (["x", "y"][(i >> k & 1) as usize].to_string(), lit(&k.to_string()))).collect());
            }
        }
        for k in [1usize, 2, 10, 50, 63, 64, 65, 100] {
            sets.push((0..k).map(|i| (format!("r{}", i % 40), lit(&i.to_string()))).collect());
        }
        out.push(("rules", format!("{} sets of 0 to 100 rules, names repeated in every way for up to 4 rules of 2 names", sets.len()), sets));
        let mut sets = vec![];
        for d in tier.pick(vec![10usize, 25, 40], (1..=40).collect()) {
            let nest = |f: &dyn Fn(E) -> E| (0..d).fold(lit("a"), |e, _| f(e));
            sets.push(rules1(nest(&not)));
            sets.push(rules1(nest(&|e| rep(e, 1, Some(2)))));
            sets.push(rules1(nest(&|e| and(vec![lit("b"), e]))));
            sets.push(rules1(nest(&|e| or(vec![e, E::Dot]))));
        }
        out.push(("nested", "operators nested up to 40".into(), sets));
        let sets: Vec<Rules> = APPS.iter().filter_map(crate::spaces::app_rules).collect();
        let sets: Vec<Rules> = sets.iter().flat_map(|s| (0..3).map(move |_| s.clone())).collect();
        out.push(("grammars", "the grammars of the other checks".into(), sets));
        out
    }
}
