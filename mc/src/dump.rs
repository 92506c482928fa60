//! Canonical text of the real expressions (shared with the generated crates)

use dynparser::parser::atom::Atom;
use dynparser::parser::expression::{Expression, SetOfRules};

pub fn dump_expr(e: &Expression, o: &mut String) {
    let list = |tag: &str, v: &Vec<Expression>, o: &mut String| {
        o.push_str(tag);
        o.push('(');
        for x in v {
            dump_expr(x, o);
            o.push(';');
        }
        o.push(')');
    };
    match e {
        Expression::Simple(Atom::Literal(s)) => o.push_str(&format!("L{:?}", s)),
        Expression::Simple(Atom::Error(s)) => o.push_str(&format!("E{:?}", s)),
        Expression::Simple(Atom::Match(m)) => o.push_str(&format!("M{:?}{:?}", m.chars(), m.ranges())),
        Expression::Simple(Atom::Dot) => o.push_str("."),
        Expression::Simple(Atom::EOF) => o.push_str("$"),
        Expression::And(v) => list("A", &v.0, o),
        Expression::Or(v) => list("O", &v.0, o),
        Expression::Not(x) => {
            o.push_str("!(");
            dump_expr(x, o);
            o.push(')');
        }
        Expression::Repeat(r) => {
            o.push_str("R(");
            dump_expr(&r.expression, o);
            o.push_str(&format!(",{},", r.min));
            if let Some(m) = &r.max {
                o.push_str(&m.to_string());
            }
            o.push(')');
        }
        Expression::RuleName(n) => o.push_str(&format!("N{:?}", n)),
    }
}

pub fn dump(r: &SetOfRules) -> String {
    let mut v: Vec<String> = r
        .0
        .iter()
        .map(|(n, e)| {
            let mut o = format!("{:?}=", n);
            dump_expr(e, &mut o);
            o
        })
        .collect();
    v.sort();
    v.join("\n")
}
