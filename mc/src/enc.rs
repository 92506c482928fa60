//! Writes real rules as tokens (shared with the generated crates)

use dynparser::parser::atom::Atom;
use dynparser::parser::expression::{Expression, SetOfRules};

fn text(s: &str, o: &mut String) {
    o.push_str(&format!("{} ", s.chars().count()));
    for c in s.chars() {
        o.push_str(&format!("{} ", c as u32));
    }
}
fn expr(e: &Expression, o: &mut String) {
    match e {
        Expression::Simple(Atom::Literal(s)) => {
            o.push_str("L ");
            text(s, o);
        }
        Expression::Simple(Atom::Error(s)) => {
            o.push_str("E ");
            text(s, o);
        }
        Expression::Simple(Atom::Match(m)) => {
            o.push_str("M ");
            text(m.chars(), o);
            o.push_str(&format!("{} ", m.ranges().len()));
            for (a, b) in m.ranges() {
                o.push_str(&format!("{} {} ", *a as u32, *b as u32));
            }
        }
        Expression::Simple(Atom::Dot) => o.push_str(". "),
        Expression::Simple(Atom::EOF) => o.push_str("$ "),
        Expression::And(v) => {
            o.push_str(&format!("A {} ", v.0.len()));
            v.0.iter().for_each(|x| expr(x, o));
        }
        Expression::Or(v) => {
            o.push_str(&format!("O {} ", v.0.len()));
            v.0.iter().for_each(|x| expr(x, o));
        }
        Expression::Not(x) => {
            o.push_str("! ");
            expr(x, o);
        }
        Expression::Repeat(r) => {
            o.push_str(&format!("R {} ", r.min));
            match &r.max {
                Some(m) => o.push_str(&format!("{} ", m)),
                None => o.push_str("- "),
            }
            expr(&r.expression, o);
        }
        Expression::RuleName(n) => {
            o.push_str("N ");
            text(n, o);
        }
    }
}
pub fn encode(r: &SetOfRules) -> String {
    let mut v: Vec<String> = r
        .0
        .iter()
        .map(|(n, e)| {
            let mut o = String::new();
            text(n, &mut o);
            expr(e, &mut o);
            o
        })
        .collect();
    v.sort();
    v.concat()
}

/// every field of an error but the trace
pub fn error_hash(e: &dynparser::parser::Error) -> u64 {
    let t = format!("{:?}", (e.pos.n, e.pos.row, e.pos.col, e.pos.start_line, &e.descr, &e.line_before, &e.line_after, e.priority));
    t.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)) | 1
}

/// what `rules_from_peg` gave
pub fn built_hash(r: &Result<SetOfRules, dynparser::peg::Error>) -> (bool, u64) {
    let t = match r {
        Ok(r) => encode(r),
        Err(e) => format!("{:?}", e),
    };
    (r.is_ok(), t.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)))
}
