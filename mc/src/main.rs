mod code;
mod cost;
mod dump;
mod enc;
mod explain;
mod frame;
mod gen;
mod hist;
mod model;
mod more;
mod parsing;
mod peg;
mod race;
mod spaces;
mod spec;
mod trees;

#[macro_use]
extern crate dynparser;

#[global_allocator]
static ALLOC: race::Hooked = race::Hooked;

use frame::*;
use gen::*;
use model::*;
use parsing::*;
use spaces::*;

fn check(id: &str, tier: Tier) -> Option<Check> {
    let q = tier == Tier::Quick;
    let small = || vec![lit("a"), lit("b"), rf("main"), rf("r"), E::Dot];
    let tx = |n| strings_upto(&["a", "b"], n);
    let ex = |v: Vec<Space>, o: Oracle| v.into_iter().map(|s| explore(s, o)).collect::<Vec<_>>();
    let size = tier.pick(6, 7);
    let mut assumptions = vec![
        "bounds as written in coverage.families; nothing is claimed beyond them".to_string(),
        "rule sets with (conservatively detected) left recursion are skipped, as the property excludes them".to_string(),
    ];
    let mc = |rule: &'static str, assumptions: Vec<String>, families| {
        Some(Check { level: "model_checking", rule, assumptions, families })
    };
    let ex_level = |rule: &'static str, assumptions: Vec<String>, families| {
        Some(Check { level: "exploration", rule, assumptions, families })
    };
    let mc_text = |rule: &'static str, spaces: Vec<peg::Texts>, o: peg::TextOracle| {
        Some(Check {
            level: "model_checking",
            rule,
            assumptions: vec![
                "the notation is the one the reader (mc/src/spec.rs) states, written from the documentation".to_string(),
                "texts that define a rule twice are only compared for acceptance".to_string(),
            ],
            families: spaces.into_iter().map(|t| peg::explore_texts(t, o)).collect(),
        })
    };
    match id {
        "P01" => {
            let mut f = ex(
                vec![
                    core(alpha_ascii(tier), size, true),
                    core(alpha_lits(tier), tier.pick(5, 6), true),
                    core(alpha_lines(tier), tier.pick(5, 6), false),
                    pairs("ab", small(), tier.pick(3, 4), tier.pick(3, 4), tx(4)),
                    triples("ab", vec![lit("a"), lit("b"), rf("r"), rf("s")], tx(tier.pick(3, 4))),
                ],
                o_accept,
            );
            f.extend(ex(scale(tier, false), o_accept));
            f.extend(ex(apps(tier), o_accept));
            f.extend(ex(vec![more::every_char(tier), more::names_space(), more::long_names(tier), more::huge(tier), more::deep(tier), more::nestings(tier), more::mixed(tier), more::after_many(tier), more::similar(tier)], o_accept));
            mc("a case is a (rule set, text) pair; the acceptance of the implementation is compared with the reference PEG machine. Non trivial: accepted, or rejected after more than one char", assumptions, f)
        }
        "P02" => {
            let mut f = ex(
                vec![
                    core(alpha_ascii(tier), size, true),
                    core(alpha_lits(tier), tier.pick(5, 6), true),
                    core(alpha_lines(tier), tier.pick(5, 6), false),
                    pairs("ab", small(), tier.pick(3, 4), tier.pick(3, 4), tx(4)),
                    triples("ab", vec![lit("a"), lit("b"), rf("r"), rf("s")], tx(tier.pick(3, 4))),
                ],
                o_tree,
            );
            f.extend(ex(scale(tier, false), o_tree));
            f.extend(ex(apps(tier), o_tree));
            f.extend(ex(vec![more::every_char(tier), more::names_space(), more::long_names(tier), more::huge(tier), more::deep(tier), more::nestings(tier), more::mixed(tier), more::after_many(tier), more::similar(tier)], o_tree));
            mc("a case is a (rule set, text) pair; the tree of the implementation is compared with the derivation of the reference PEG machine. Non trivial: accepted with a non empty tree", assumptions, f)
        }
        "P03" => {
            let mut f = ex(
                vec![
                    core(alpha_lines(tier), tier.pick(5, 6), true),
                    core(alpha_ascii(tier), tier.pick(4, 5), true),
                    core(alpha_lits(tier), tier.pick(4, 5), false),
                    pairs("lines", vec![lit("a"), class("\né", &[]), rf("r"), E::Dot], 3, tier.pick(3, 4), strings_upto(&["a", "\n", "é"], 3)),
                ],
                o_leaves,
            );
            f.extend(ex(scale(tier, false), o_leaves));
            f.extend(ex(apps(tier), o_leaves));
            f.extend(ex(vec![more::every_char(tier), more::names_space(), more::long_names(tier), more::huge(tier), more::nestings(tier), more::mixed(tier), more::after_many(tier), more::similar(tier)], o_leaves));
            ex_level("a case is a (rule set, text) pair; for accepted texts the leaves of the tree, before and after compact, flatten and pass_through_except every subset of up to 4 rule names, are concatenated and compared with the text. Non trivial: a non empty text accepted", assumptions, f)
        }
        "P04" => {
            let mut f = ex(reps(tier), o_count);
            f.extend(ex(scale(tier, false).into_iter().filter(|s| s.name == "scale-repeat").collect(), o_count));
            let mut al = alpha_ascii(tier);
            al.unary = vec![Un::Not, Un::Rep(0, Some(0)), Un::Rep(0, Some(2)), Un::Rep(1, Some(1)), Un::Rep(1, Some(3)), Un::Rep(2, None), Un::Rep(3, Some(4))];
            f.push(explore(core(al, tier.pick(4, 5), false), o_count));
            f.extend(ex(vec![more::huge(tier), more::extreme_bounds(false), more::nestings(tier), more::mixed(tier), more::after_many(tier)], o_count));
            mc("a case is a (rule set with repetitions, text) pair; acceptance and tree (number of matches) are compared with the reference PEG machine. Non trivial: accepted", assumptions, f)
        }
        "P05" => {
            let mut f = ex(
                vec![
                    core(alpha_lines(tier), tier.pick(5, 6), true),
                    core(alpha_errors(tier), tier.pick(3, 4), false),
                    pairs("lines", vec![lit("a\n"), lit("\ra"), class("\né", &[]), rf("r"), E::Dot], 3, tier.pick(3, 4), strings_upto(&["a", "\n", "é", "\r"], 3)),
                ],
                o_coords,
            );
            f.extend(ex(scale(tier, true), o_coords));
            f.extend(ex(apps(tier), o_coords));
            f.extend(peg::wrong_texts(tier).into_iter().map(|t| peg::explore_texts(t, peg::o_peg_coords)));
            f.extend(ex(vec![more::every_char(tier), more::names_space(), more::long_names(tier), more::huge(tier), more::nestings(tier), more::mixed(tier), more::after_many(tier)], o_coords));
            ex_level("a case is a (rule set, text) pair, or a wrong peg text; row, column, start of line and the lines of the error are recomputed from the text and the position. Non trivial: rejected after the first char", assumptions, f)
        }
        "P06" => {
            let leaves = vec![lit("a"), lit("b"), err("e1"), err("e2"), rf("r")];
            let mut f = ex(
                vec![
                    core(alpha_errors(tier), size, true),
                    pairs("errors", leaves.clone(), tier.pick(3, 4), tier.pick(3, 4), tx(3)),
                    triples("errors", vec![lit("a"), err("e"), rf("r"), rf("s")], tx(3)),
                ],
                o_errors,
            );
            f.extend(ex(scale(tier, false).into_iter().filter(|s| s.name == "scale-nesting").collect(), o_errors));
            f.extend(ex(apps(tier), o_errors));
            f.extend(ex(vec![more::descriptions(tier), more::names_space(), more::long_names(tier), more::deep(tier), more::nestings(tier), more::mixed(tier), more::after_many(tier), more::similar(tier)], o_errors));
            mc("a case is a (rule set with error constructors, text) pair; acceptance, priority, position and description are compared with the reference PEG machine. Non trivial: an error constructor decides the result", assumptions, f)
        }
        "P07" => {
            let leaves = vec![lit("a"), lit("b"), rf("nope"), rf("Gone"), rf("r")];
            let mut f = ex(
                vec![
                    core(alpha_missing(tier), size, true),
                    pairs("missing", leaves, tier.pick(3, 4), tier.pick(3, 4), tx(3)),
                    triples("missing", vec![lit("a"), rf("nope"), rf("r"), rf("s")], tx(3)),
                    missing_more(),
                ],
                o_missing,
            );
            f.extend(ex(scale(tier, false).into_iter().filter(|s| s.name == "scale-nesting").collect(), o_missing));
            f.extend(ex(vec![more::names_space(), more::long_names(tier), more::deep(tier), more::nestings(tier), more::mixed(tier), more::after_many(tier), more::similar(tier)], o_missing));
            mc("a case is a (rule set with references to undefined rules, text) pair; acceptance, priority, position and the name in the description are compared with the reference PEG machine. Non trivial: an undefined rule is reached outside negations", assumptions, f)
        }
        "P08" => {
            let mut f = ex(
                vec![
                    core(alpha_lits(tier), tier.pick(5, 6), true),
                    core(alpha_ascii(tier), size, true),
                    core(alpha_lines(tier), tier.pick(5, 6), false),
                    pairs("lits", vec![lit("a"), lit("ab"), lit("aa"), rf("main"), rf("r")], tier.pick(3, 4), tier.pick(3, 4), tx(4)),
                ],
                o_deepest,
            );
            f.extend(ex(scale(tier, false), o_deepest));
            f.extend(ex(apps(tier), o_deepest));
            f.extend(ex(vec![more::every_char(tier), more::names_space(), more::long_names(tier), more::huge(tier), more::deep(tier), more::nestings(tier), more::mixed(tier), more::after_many(tier), more::similar(tier)], o_deepest));
            mc("a case is a (rule set, text) pair; for rejected texts the priority, the position and which expression failed (its description, learned from the implementation by making it fail alone) are compared with the reference PEG machine. Non trivial: failed after more than one char", assumptions, f)
        }
        "P09" => {
            let mut f = ex(
                vec![
                    core(alpha_ascii(tier), tier.pick(4, 5), true),
                    core(alpha_errors(tier), tier.pick(4, 5), true),
                    core(alpha_missing(tier), tier.pick(4, 5), false),
                    core(alpha_lits(tier), tier.pick(4, 5), false),
                    pairs("ab", small(), tier.pick(3, 4), tier.pick(3, 4), tx(4)),
                    triples("ab", vec![lit("a"), lit("b"), rf("r"), rf("s")], tx(tier.pick(3, 4))),
                ],
                o_debug,
            );
            f.extend(ex(scale(tier, true), o_debug));
            f.extend(ex(apps(tier), o_debug));
            f.extend(ex(vec![more::every_char(tier), more::names_space(), more::long_names(tier), more::nestings(tier), more::mixed(tier), more::after_many(tier), more::similar(tier)], o_debug));
            mc("a case is a (rule set, text) pair parsed with and without debug; results compared with each other and the trace of rules with the reference PEG machine. Non trivial: an error after entering more than one rule", assumptions, f)
        }
        "P12" => {
            assumptions.push("nesting of rules is bounded (the stack of the harness threads is 512 MB)".into());
            let mut f = ex(
                vec![
                    odd_space(tier),
                    core(alpha_ascii(tier), tier.pick(4, 5), true),
                    core(alpha_lines(tier), tier.pick(5, 6), true),
                    core(alpha_missing(tier), tier.pick(3, 4), true),
                    core(alpha_errors(tier), tier.pick(3, 4), true),
                    pairs("null", vec![lit("a"), lit(""), rf("r"), rf("main"), E::Eof], tier.pick(3, 4), tier.pick(3, 4), strings_upto(&["a", "é"], 2)),
                ],
                o_returns,
            );
            f.extend(ex(scale(tier, true), o_returns));
            f.extend(ex(apps(tier), o_returns));
            f.extend(peg::any_texts(tier).into_iter().map(|t| peg::explore_texts(t, peg::o_peg_returns)));
            f.extend(peg::other_returns(tier));
            f.extend(ex(vec![more::every_char(tier), more::names_space(), more::long_names(tier), more::huge(tier), more::deep(tier), more::extreme_bounds(true), more::nestings(tier), more::mixed(tier), more::after_many(tier), more::similar(tier)], o_returns));
            ex_level("a case is a (rule set, text) pair, a text given as peg grammar, a rule set to generate code from, or a tree to transform and navigate; panics, crashes and calls that do not return are watched. Non trivial: a non empty text, or an unusual rule set or tree", assumptions, f)
        }
        "P13" => mc_text("a case is a text of the notation (texts that are not are skipped); the rules built are compared with the expressions the reader of the notation denotes: structure, or else results on texts. States: goals (part of the notation, position) of the reader; transitions: goal entries. All are non trivial", peg::notation_spaces(tier, true), peg::o_means),
        "P14" => mc_text("a case is a text; acceptance is compared with the reader of the notation, and for accepted texts also the rules built. States: goals (part of the notation, position) of the reader; transitions: goal entries. Non trivial: more than 3 chars", peg::notation_spaces(tier, false), peg::o_accepts),
        "P15" => mc_text("a case is a grammar with a literal, set or error text; the rules built, and what they match on texts around what they denote, are compared with the reader of the notation and the PEG machine. States: goals (part of the notation, position) of the reader; transitions: goal entries. All are non trivial", peg::atom_spaces(tier), peg::o_atoms),
        "P16" => mc("a case is a grammar with some of its free spaces filled; the rules built are compared with those of the plain layout. States: goals (part of the notation, position) of the reader; transitions: goal entries. All are non trivial: the layout is not the plain one", vec!["a layout counts when the reader of the notation reads the same grammar from it".into()], peg::layouts(tier)),
        "P17" => ex_level("a case is a text, parsed by the rules printed by the program (compiled), by the code regenerated from them (compiled), by the same rules loaded from the notation, given to rules_from_peg, and to rules_from_peg of a copy of the library where the rules printed are the ones in use; acceptance, trees, errors and rules built are compared. Non trivial: accepted", vec!["the compiler is right".into()], code::published(tier)),
        "P18" => ex_level("a case is a rule set; its generated code is compiled with the rules macro, evaluated, and names and expressions are compared with the original. Non trivial: not empty", vec!["the compiler is right".into(), "nesting of operators is below the limit of the compiler for nested macros (128)".into()], code::generated(tier)),
        "P25" => ex_level("a case is a rule set written with the macros (calls by name and by path, literals and variables as arguments, both forms of ematch! and of rep!), compiled, evaluated, and compared name by name and expression by expression with what was written. Non trivial: not empty", vec!["the compiler is right".into()], code::with_macros(tier)),
        "P26" => mc("a case is a schedule of calls running at once on threads of the same process, sharing rule sets and trees; exactly one thread runs at any time, preempted at allocator operations or at any machine instruction; the result of every call is compared with the one of the call alone in its own process. States: scheduling points; transitions: switches. All are non trivial", vec!["sequentially consistent memory: one thread runs at any time".into(), "the allocator of the harness is right; there are no preemptions inside of it".into()], race::families(tier)),
        "P27" => ex_level("a case is a call (or a sequence of calls) with its input; it is done twice, and more if the second time keeps bytes: after dropping the results nothing more may be in use, and all the first calls together may not keep more than 64 MB. Non trivial: a non empty text, a rule set, a tree", vec!["memory is metered at the allocator of the program, in the thread that does the call".into()], cost::memory(tier)),
        "P28" => mc("a case is a (rule set, text) pair, a peg text or a tree; the operations of the allocator done by the call are compared with a multiple of the steps of the reference PEG machine, of the chars of the peg text, or of the nodes. Non trivial: more than 10 steps", vec!["operations of the allocator stand for the work done".into(), "the factors are about 10 times the ones measured: less than that is not seen".into()], cost::effort(tier)),
        "P29" => {
            let mut f = ex(
                vec![
                    core(alpha_lits(tier), tier.pick(4, 5), true),
                    core(alpha_ascii(tier), tier.pick(4, 5), true),
                    core(alpha_lines(tier), tier.pick(4, 5), false),
                    core(alpha_errors(tier), tier.pick(3, 4), false),
                    core(alpha_missing(tier), tier.pick(3, 4), false),
                ],
                explain::o_says,
            );
            f.extend(ex(scale(tier, false), explain::o_says));
            f.extend(ex(apps(tier), explain::o_says));
            f.extend(ex(vec![more::every_char(tier), more::names_space(), more::long_names(tier), more::descriptions(tier), more::deep(tier)], explain::o_says));
            f.extend(explain::families(tier));
            ex_level("a case is a (rule set, text) pair whose error has to say what the reference PEG machine expected, a peg text whose rejection has to lead to the error of the parser and show it, or a chain of descriptions pushed on an error, compared with a list. Non trivial: rejected, or something pushed", assumptions, f)
        }
        "P24" => Some(Check {
            level: "exploration",
            rule: "a case is a char (or a triple of chars) with all the atoms built from it and its neighbours; every one is non trivial: it has at least one match and one mismatch",
            assumptions: vec![],
            families: unicode(tier),
        }),
        "P19" | "P20" | "P21" | "P22" => Some(Check {
            level: "exploration",
            rule: match id {
                "P22" => "a case is a tree; flatten is compared with its definition and the tree is rebuilt from the flat list. Non trivial: more than one flat node",
                _ => "a case is a tree (and a list of names); the transformation is compared with its definition, applied twice, and the original compared with itself before. Non trivial: the transformation changes the tree",
            },
            assumptions: vec![],
            families: trees::transform(
                match id {
                    "P19" => trees::Op::Compact,
                    "P20" => trees::Op::Prune,
                    "P21" => trees::Op::Pass,
                    _ => trees::Op::Flat,
                },
                tier,
            ),
        }),
        "P23" => mc("a case is a list of nodes; states: lists reached by consuming; transitions: calls to a helper, compared with a cursor (value, and addresses of the lists returned). Non trivial: a non empty list", vec![], trees::navigation(tier)),
        "P10" => mc("a case is a sequence of operations; every result is compared with the one of the same operation alone in a process of its own (or with the reference PEG machine). States: results compared; transitions: operations. All are non trivial: at least one operation has a history", vec!["the state that could leak between operations lives in the process (statics, thread locals, the objects passed)".into()], hist::purity(tier)),
        "P11" => mc("a case is a history of new, add and merge; the resulting names, definitions and parses are compared with a map. States: rule sets compared; transitions: operations. Non trivial: a rule set that is not empty", vec![], hist::maps(tier)),
        _ => {
            let _ = q;
            None
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let s: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
    let tier = |t: &str| if t == "thorough" { Tier::Thorough } else { Tier::Quick };
    match s.get(1).copied() {
        Some("check") => {
            let t = tier(s.get(3).copied().unwrap_or("quick"));
            supervise(s[2], t, || check(s[2], t).expect("property"))
        }
        Some("worker") => {
            let t = tier(s[3]);
            worker(s[2], t, check(s[2], t).expect("property"))
        }
        Some("replay") => {
            let t = tier(s[3]);
            replay(s[2], check(s[2], t).expect("property"), s[4].parse().unwrap(), s[5].parse().unwrap(), s[6].parse().unwrap(), s.get(7).copied())
        }
        Some("print-peg") => code::print_peg(),
        Some("race") => std::process::exit(race::child(&a[2..])),
        Some("op") => hist::op_alone(s[2].parse().unwrap()),
        _ => {
            eprintln!("mc check|replay PROPERTY TIER …");
            std::process::exit(2)
        }
    }
}
