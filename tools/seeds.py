"""Planted bugs: what they change and how they are shown. mkseed.py writes /verif/seeded from here."""

EXPR = "src/parser/expression/mod.rs"
ATOM = "src/parser/atom/mod.rs"
PARSER = "src/parser/mod.rs"
LIB = "src/lib.rs"
AST = "src/ast/mod.rs"
FLAT = "src/ast/flat.rs"
PEG = "src/peg/mod.rs"
RULES = "src/peg/rules.rs"
GCODE = "src/peg/gcode.rs"
P2C = "src/peg/peg2code.rs"

SEEDS = []


def seed(id, prop, needs, breaks, edits, demo, sh=None):
    SEEDS.append(dict(id=id, property=prop, needs=needs, what_it_breaks=breaks, edits=edits, demo=demo, sh=sh))


# ------------------------------------------------------------------ P01
seed("p01-trailing-blanks", "P01",
     "a text whose only non matched part is white space, and no repetition that failed before",
     "a text is accepted when the rules match only a prefix of it",
     [(LIB, """        (false, Some(e)) => Err(e),
""", """        (false, None) if st.it_parsing.as_str().trim().is_empty() => Ok(ast),
        (false, Some(e)) => Err(e),
""")],
     r'''
    let r = rules!{ "main" => and!(lit!("a"), lit!("b")) };
    assert!(parse("ab", &r).is_ok());
    assert!(parse("ab\n", &r).is_err());
    assert!(parse("ab  ", &r).is_err());
''')

seed("p01-repeat-cut", "P01",
     "a repetition already matched twice whose next try fails after having matched several chars",
     "a failed last try of a repetition is not undone: the whole repetition fails",
     [(EXPR, """            (Err(e), true, _) => {
                if e.priority == ErrPriority::Critical {
                    TailCall::Return(Err(e))""", """            (Err(e), true, _) => {
                //  an element that got so far was the one intended
                let started = acc.1 > 1 && e.pos.n > acc.0.pos.n + 3;
                if started || e.priority == ErrPriority::Critical {
                    TailCall::Return(Err(e))""")],
     r'''
    let r = rules!{ "main" => and!(rep!(lit!("abcde"), 0), lit!("abcdx")) };
    assert!(parse("abcdx", &r).is_ok());
    assert!(parse("abcdeabcdx", &r).is_ok());
    assert!(parse("abcdeabcdeabcdx", &r).is_ok());
''')

seed("p01-not-empty", "P01",
     "a negation of an expression that matches consuming nothing",
     "the negation of an expression that matches the empty text succeeds",
     [(EXPR, """        Ok(_) => Err(Error::from_status_normal(&status, "not")),
""", """        Ok((ref st, _)) if st.pos.n > status.pos.n => {
            Err(Error::from_status_normal(&status, "not"))
        }
        Ok(_) if !status.at_end() => Ok((status, vec![])),
        Ok(_) => Err(Error::from_status_normal(&status, "not")),
""")],
     r'''
    let r = rules!{ "main" => and!(not!(rep!(lit!("a"), 0)), lit!("b")) };
    assert!(parse("b", &r).is_err());
''')

seed("p01-skip-prefix", "P01",
     "two alternatives starting with the same rule, which matches the empty text, the first one failing on the next char",
     "an alternative that would match is skipped because a previous one with the same first rule failed",
     [(EXPR, """            let try_parse = parse_expr(acc.0.clone(), &acc.1[0]);
            match try_parse {
                Ok(result) => TailCall::Return(Ok(result)),
                Err(e) => {
                    if e.priority == ErrPriority::Critical {
                        TailCall::Return(Err(e))
                    } else {
""", """            let try_parse = parse_expr(acc.0.clone(), &acc.1[0]);
            match try_parse {
                Ok(result) => TailCall::Return(Ok(result)),
                Err(e) => {
                    if e.priority == ErrPriority::Critical {
                        TailCall::Return(Err(e))
                    } else if e.pos.n <= acc.0.pos.n + 1
                        && acc.1.len() > 1
                        && first_rule(&acc.1[0]).is_some()
                        && first_rule(&acc.1[0]) == first_rule(&acc.1[1])
                    {
                        //  the common prefix failed, don't try it again
                        TailCall::Call((acc.0, &acc.1[2..], deep_err(acc.2, e)))
                    } else {
"""), (EXPR, """//-----------------------------------------------------------------------
fn parse_or<'a>(""", """fn first_rule(expr: &Expression) -> Option<&str> {
    match expr {
        Expression::RuleName(name) => Some(name),
        Expression::And(MultiExpr(v)) => v.first().and_then(|e| first_rule(e)),
        _ => None,
    }
}

//-----------------------------------------------------------------------
fn parse_or<'a>(""")],
     r'''
    let r = rules!{
        "main" => or!(and!(ref_rule!("s"), lit!("a")), and!(ref_rule!("s"), lit!("b"))),
        "s" => rep!(lit!(" "), 0)
    };
    assert!(parse("  b", &r).is_ok());
    assert!(parse("b", &r).is_ok());
''')

# ------------------------------------------------------------------ P02
seed("p02-empty-literal", "P02",
     "a literal with the empty text on the successful path",
     "the leaf of an empty literal is missing on the tree",
     [(EXPR, """    let (st, node) = atom::parse(status, a)?;
    Ok((st, vec![node]))""", """    let (st, node) = atom::parse(status, a)?;
    match node {
        ast::Node::Val(ref v) if v.is_empty() => Ok((st, vec![])),
        _ => Ok((st, vec![node])),
    }""")],
     r'''
    let r = rules!{ "main" => and!(or!(lit!("x"), lit!("")), lit!("a")) };
    let t = parse("a", &r).unwrap();
    assert!(t == ast::Node::Rule(("main".to_string(), vec![
        ast::Node::Val("".to_string()), ast::Node::Val("a".to_string())])));
''')

seed("p02-collapse-empty-rules", "P02",
     "the same rule applied twice in a row in a sequence, matching nothing both times",
     "the second node of two adjacent empty rules is missing",
     [(EXPR, """                Ok((status, vnodes)) => {
                    TailCall::Call((status, &acc.1[1..], acc.2.iappend(vnodes)))
                }""", """                Ok((status, vnodes)) => {
                    let repeated = match (acc.2.last(), vnodes.first()) {
                        (Some(ast::Node::Rule((a, va))), Some(ast::Node::Rule((b, vb)))) => {
                            a == b && va.is_empty() && vb.is_empty() && vnodes.len() == 1
                        }
                        _ => false,
                    };
                    let nodes = if repeated { acc.2 } else { acc.2.iappend(vnodes) };
                    TailCall::Call((status, &acc.1[1..], nodes))
                }""")],
     r'''
    let r = rules!{
        "main" => and!(lit!("a"), ref_rule!("s"), ref_rule!("s"), lit!("b")),
        "s" => rep!(lit!(" "), 0)
    };
    let t = parse("ab", &r).unwrap();
    match t {
        ast::Node::Rule((_, v)) => assert!(v.len() == 4),
        _ => panic!(),
    }
''')

seed("p02-not-leaves", "P02",
     "a negation of an expression that ends with an end of file",
     "an abandoned lookahead leaves its end of file node on the tree",
     [(EXPR, """        Err(_) => Ok((status, vec![])),
""", """        Err(_) if status.it_parsing.as_str().is_empty() && status.pos.n > 0 => {
            Ok((status, vec![ast::Node::EOF]))
        }
        Err(_) => Ok((status, vec![])),
""")],
     r'''
    let r = rules!{ "main" => and!(lit!("a"), not!(dot!())) };
    let t = parse("a", &r).unwrap();
    assert!(t == ast::Node::Rule(("main".to_string(), vec![ast::Node::Val("a".to_string())])));
''')

# ------------------------------------------------------------------ P03
seed("p03-dot-cr", "P03",
     "a carriage return matched by any-char",
     "the leaf has a new line instead of the carriage return of the text",
     [(ATOM, """        .map_err(|st| Error::from_status_normal(&st, "dot"))?;

    ok!(status, ch.to_string())""", """        .map_err(|st| Error::from_status_normal(&st, "dot"))?;

    let ch = if ch == '\\r' { '\\n' } else { ch };
    ok!(status, ch.to_string())""")],
     r'''
    let r = rules!{ "main" => rep!(dot!(), 0) };
    let t = parse("a\r\nb", &r).unwrap().compact();
    assert!(t == ast::Node::Rule(("main".to_string(), vec![ast::Node::Val("a\r\nb".to_string())])));
''')

seed("p03-compact-bom", "P03",
     "a value with a zero width no-break space right after another value, and the tree compacted",
     "compacting loses a char of the text",
     [(AST, """                .fold(vec![], |acc: Vec<Node>, n| (concat_nodes(acc, n)))
""", """                .fold(vec![], |acc: Vec<Node>, n| match (n, acc.last()) {
                    (Node::Val(v), Some(Node::Val(_))) if v.starts_with('\\u{feff}') => {
                        concat_nodes(acc, &Node::Val(v.trim_start_matches('\\u{feff}').to_string()))
                    }
                    _ => concat_nodes(acc, n),
                })
""")],
     r'''
    let r = rules!{ "main" => rep!(dot!(), 0) };
    let t = parse("a\u{feff}b", &r).unwrap().compact();
    assert!(t == ast::Node::Rule(("main".to_string(), vec![ast::Node::Val("a\u{feff}b".to_string())])));
''')

# ------------------------------------------------------------------ P04
seed("p04-exact", "P04",
     "a repetition with the same minimum and maximum, 2 or more, and one more match available",
     "a repetition of exactly n matches n + 1 times",
     [(EXPR, """        Some(ref m) => counter + 1 == m.0,
        None => false,""", """        Some(ref m) if m.0 == rep_info.min.0 && m.0 > 3 => counter == m.0,
        Some(ref m) => counter + 1 == m.0,
        None => false,""")],
     r'''
    let r = rules!{ "main" => and!(rep!(lit!("a"), 4, 4), lit!("a"), lit!("b")) };
    assert!(parse("aaaab", &r).is_err());
    assert!(parse("aaaaab", &r).is_ok());
''')

seed("p04-cap", "P04",
     "an unbounded repetition that matches more than 10000 times",
     "the repetition stops before the last match",
     [(EXPR, """        Some(ref m) => counter + 1 == m.0,
        None => false,""", """        Some(ref m) => counter + 1 == m.0,
        None => counter + 1 == 10_000,""")],
     r'''
    let r = rules!{ "main" => rep!(lit!("a"), 0) };
    assert!(parse(&"a".repeat(9_000), &r).is_ok());
    assert!(parse(&"a".repeat(12_000), &r).is_ok());
''')

# ------------------------------------------------------------------ P05
seed("p05-lone-cr", "P05",
     "a carriage return not followed by a new line before the error",
     "the row counts a lone carriage return as a line",
     [(ATOM, """                    '\\r' => {
                        self.pos.col = 0;
                    }""", """                    '\\r' => {
                        self.pos.col = 0;
                        if !self.it_parsing.as_str().starts_with('\\n') {
                            self.pos.row += 1;
                        }
                    }""")],
     r'''
    let r = rules!{ "main" => and!(rep!(or!(lit!("a"), lit!("\r"), lit!("\n")), 0), lit!("b")) };
    let e = parse("a\r\nx", &r).err().unwrap();
    assert!(e.pos.row == 1);
    let e = parse("a\rx", &r).err().unwrap();
    assert!(e.pos.row == 0, "{:?}", e);
''')

seed("p05-long-line", "P05",
     "more than 80 chars from the error to the end of its line",
     "the line shown after the error is cut",
     [(PARSER, """                .take_while(|&ch| ch != '\\n' && ch != '\\r')
""", """                .take_while(|&ch| ch != '\\n' && ch != '\\r')
                .take(80)
""")],
     r'''
    let r = rules!{ "main" => lit!("b") };
    let e = parse(&format!("a{}\n", "é".repeat(300)), &r).err().unwrap();
    assert!(e.line_after == "é".repeat(300));
''')

seed("p05-start-line", "P05",
     "an error on a line after the first one, whose line starts with a space",
     "the start of line skips the indentation",
     [(ATOM, """                        self.pos.start_line = self.pos.n;
""", """                        let indent = self.it_parsing.as_str().chars().take_while(|c| *c == ' ').count();
                        self.pos.start_line = self.pos.n + indent;
""")],
     r'''
    let r = rules!{ "main" => and!(lit!("a\n"), lit!("  b")) };
    let e = parse("a\n  c", &r).err().unwrap();
    assert!(e.pos.start_line == 2, "{:?}", e);
''')

# ------------------------------------------------------------------ P06
seed("p06-repeat-recovers", "P06",
     "an error constructor reached on the second or later try of a repetition",
     "the repetition ends instead of failing with the error",
     [(EXPR, """            (Err(e), true, _) => {
                if e.priority == ErrPriority::Critical {""", """            (Err(e), true, _) => {
                if e.priority == ErrPriority::Critical && acc.1 == rep_info.min.0 {""")],
     r'''
    let r = rules!{ "main" => and!(rep!(or!(lit!("a"), and!(lit!("b"), error!("oops"))), 0), lit!("bc")) };
    for t in &["bc", "abc", "aabc"] {
        let e = parse(t, &r).err().unwrap();
        assert!(e.descr == "oops" && e.priority == parser::ErrPriority::Critical, "{}", t);
    }
''')

seed("p06-not-propagates", "P06",
     "an error constructor reached inside a negation",
     "the error goes out of the negation",
     [(EXPR, """        Err(_) => Ok((status, vec![])),
""", """        Err(ref e) if e.priority == ErrPriority::Critical && e.pos.n > status.pos.n => {
            Err(e.clone())
        }
        Err(_) => Ok((status, vec![])),
""")],
     r'''
    let r = rules!{ "main" => and!(not!(and!(lit!("a"), error!("oops"))), dot!()) };
    assert!(parse("a", &r).is_ok());
    assert!(parse("b", &r).is_ok());
''')

seed("p06-empty-descr", "P06",
     "an error constructor with an empty description, or one nested in a rule with other alternatives left",
     "an error with an empty text is not critical",
     [(ATOM, """    Err(Error::from_status(&status, &error, ErrPriority::Critical))""",
       """    let priority = if error.is_empty() {
        ErrPriority::Normal
    } else {
        ErrPriority::Critical
    };
    Err(Error::from_status(&status, &error, priority))""")],
     r'''
    let r = rules!{ "main" => or!(and!(lit!("a"), error!("")), lit!("ab")) };
    assert!(parse("ab", &r).is_err());
''')

# ------------------------------------------------------------------ P07
seed("p07-missing-at-end", "P07",
     "an undefined rule reached at the end of the text",
     "the missing rule is treated as an ordinary mismatch",
     [(EXPR, """            &format!("Missing rule: {}", rule_name),
            ErrPriority::Critical,
""", """            &format!("Missing rule: {}", rule_name),
            if status.pos.n > 0 && status.it_parsing.as_str().is_empty() {
                ErrPriority::Normal
            } else {
                ErrPriority::Critical
            },
""")],
     r'''
    let r = rules!{ "main" => and!(lit!("a"), rep!(ref_rule!("nope"), 0)) };
    assert!(parse("ab", &r).is_err());
    assert!(parse("a", &r).is_err());
''')

seed("p07-module-name", "P07",
     "a reference to an undefined name with dots, while its last part is defined",
     "a reference to an undefined rule of a module silently uses another rule",
     [(EXPR, """    let expression = rules.get(rule_name).ok_or_else(|| {""",
       """    let by_last_name = |name: &str| match name.rfind('.') {
        Some(i) if i > 0 => rules.get(&name[i + 1..]),
        _ => None,
    };
    let expression = rules.get(rule_name).or_else(|| by_last_name(rule_name)).ok_or_else(|| {""")],
     r'''
    let r = rules!{ "main" => or!(ref_rule!("m.r"), lit!("b")), "r" => lit!("a") };
    let e = parse("a", &r).err().unwrap();
    assert!(e.descr.contains("m.r"));
''')

# ------------------------------------------------------------------ P08
seed("p08-tie", "P08",
     "two alternatives failing at the same position, followed by none that got further",
     "the first alternative is reported on a tie instead of the last",
     [(EXPR, """        Some(e1) => match (e1.priority > e2.priority, e1.pos.n > e2.pos.n) {""",
       """        Some(e1) => match (e1.priority > e2.priority, e1.pos.n >= e2.pos.n) {""")],
     r'''
    let r = rules!{ "main" => or!(lit!("ax"), lit!("ay")) };
    let e = parse("az", &r).err().unwrap();
    assert!(e.descr == "expected literal: <ay>", "{:?}", e);
''')

seed("p08-furthest-repetition", "P08",
     "a prefix matched with two repetitions ended, the first one after looking further than the second",
     "the error reported is not the one of the last repetition that ended",
     [(PARSER, """        self.potential_error = Some(err);
        self""", """        let prev = self.potential_error.take();
        self.potential_error = match prev {
            Some(p) if p.pos.n > err.pos.n => Some(p),
            _ => Some(err),
        };
        self""")],
     r'''
    let r = rules!{ "main" => and!(rep!(lit!("abcd"), 0), lit!("a"), rep!(lit!("x"), 0)) };
    let e = parse("abcz", &r).err().unwrap();
    assert!(e.descr == "expected literal: <x>" && e.pos.n == 2, "{:?}", e);
''')

seed("p08-nested-or", "P08",
     "a choice as an alternative of another choice, where the inner one failed further",
     "a choice inside a choice is reported at its last alternative",
     [(EXPR, """            TailCall::Return(Err(match acc.2 {
                Some(err) => err,""", """            TailCall::Return(Err(match acc.2 {
                Some(err) => Error {
                    pos: if multi_expr.0.len() > 2 && err.pos.n > status.pos.n + 2 {
                        status.pos.clone()
                    } else {
                        err.pos.clone()
                    },
                    ..err
                },""")],
     r'''
    let r = rules!{ "main" => or!(lit!("abcd"), lit!("x"), lit!("y")) };
    let e = parse("abcz", &r).err().unwrap();
    assert!(e.pos.n == 4, "{:?}", e);
''')

# ------------------------------------------------------------------ P09
seed("p09-dedup", "P09",
     "a rule that calls itself, the error being inside",
     "the trace misses the recursive entries on the same rule",
     [(PARSER, """        self.walking_rules.push(on_node.to_string());
        self""", """        if self.walking_rules.last().map(|r| r.as_str()) != Some(on_node) {
            self.walking_rules.push(on_node.to_string());
        }
        self""")],
     r'''
    let r = rules!{ "main" => or!(and!(lit!("("), ref_rule!("main"), lit!(")")), lit!("a")) };
    let e = parse_debug("((b", &r).err().unwrap();
    assert!(e.parsing_rules == vec!["r:main", "r:main", "r:main"], "{:?}", e);
''')

seed("p09-limit", "P09",
     "debug parsing of a text with more than 100 nested rules at the error",
     "the trace of rules loses its first entries (main included)",
     [(PARSER, """        self.walking_rules.push(on_node.to_string());
        self""", """        if self.walking_rules.len() >= 100 {
            self.walking_rules.remove(0);
        }
        self.walking_rules.push(on_node.to_string());
        self""")],
     r'''
    let r = rules!{
        "main" => ref_rule!("e"),
        "e" => or!(and!(lit!("("), ref_rule!("e"), lit!(")")), lit!("a"))
    };
    let e = parse_debug(&"(".repeat(150), &r).err().unwrap();
    assert!(e.parsing_rules[0] == "r:main" && e.parsing_rules.len() == 151, "{:?}", e.parsing_rules.len());
''')

seed("p09-debug-first-error", "P09",
     "debug parsing of a text of which only a prefix matches, with two repetitions ended",
     "debug parsing reports another error than plain parsing",
     [(PARSER, """        self.potential_error = Some(err);
        self""", """        if !self.trace_rules || self.potential_error.is_none() || err.pos.col == 0 {
            self.potential_error = Some(err);
        }
        self""")],
     r'''
    let r = rules!{ "main" => and!(rep!(lit!("a"), 0), rep!(lit!("b"), 0)) };
    let a = parse("aabz", &r).err().unwrap();
    let b = parse_debug("aabz", &r).err().unwrap();
    assert!(a.descr == b.descr && a.pos == b.pos, "{:?} {:?}", a, b);
''')

# ------------------------------------------------------------------ P10
seed("p10-depth-leak", "P10",
     "many failed parsings before, on the same thread",
     "after enough failures the parser says that the nesting is too deep on any text",
     [(EXPR, """    let (st, nodes) = parse_expr(status, &expression)?;

    // let elapsed""", """    thread_local!(static DEPTH: std::cell::Cell<usize> = std::cell::Cell::new(0));
    let depth = DEPTH.with(|d| {
        d.set(d.get() + 1);
        d.get()
    });
    if depth > 20_000 {
        return Err(Error::from_status(
            &status,
            "too deep",
            ErrPriority::Critical,
        ));
    }
    let (st, nodes) = parse_expr(status, &expression)?;
    DEPTH.with(|d| d.set(d.get() - 1));

    // let elapsed""")],
     r'''
    let r = rules!{ "main" => or!(and!(lit!("("), ref_rule!("main"), lit!(")")), lit!("a")) };
    for _ in 0..5_000 { assert!(parse("((((((b", &r).is_err()); }
    assert!(parse("((a))", &r).is_ok());
''')

seed("p10-class-cache", "P10",
     "a rule set with a set of chars dropped, and another one built that gets the same addresses",
     "a set of chars answers what another one, already dropped, answered for the same char",
     [(ATOM, """    status
        .get_char()
        .and_then(|(st, ch)| {
            if match_char(ch) {""", """    thread_local!(static LAST: std::cell::Cell<(usize, char, bool)> =
        std::cell::Cell::new((0, ' ', false)));
    let match_char = |ch: char| -> bool {
        let key = match_rules as *const MatchRules as usize;
        let last = LAST.with(|l| l.get());
        if (last.0, last.1) == (key, ch) {
            return last.2;
        }
        let res = match_char(ch);
        LAST.with(|l| l.set((key, ch, res)));
        res
    };

    status
        .get_char()
        .and_then(|(st, ch)| {
            if match_char(ch) {""")],
     r'''
    fn ok(cl: &str, t: &str) -> bool {
        let r = rules!{ "main" => and!(ematch!(chlist cl, from2 vec![])) };
        parse(t, &r).is_ok()
    }
    for _ in 0..50 {
        assert!(ok("ab", "a"));
        assert!(!ok("cd", "a"));
        assert!(ok("ad", "a"));
    }
''')

seed("p10-peg-cache", "P10",
     "two different peg texts with the same length and the same beginning built one after the other",
     "building rules gives a grammar built before",
     [(PEG, """    let ast = parse(peg, &rules::parse_peg())?;
    let nodes = ast.compact().prune(&["_", "_1", "_eol"]).flatten();

    rules_from_flat_ast(&nodes)""", """    thread_local!(static LAST: std::cell::RefCell<(usize, String, Vec<flat::Node>)> =
        std::cell::RefCell::new((0, String::new(), vec![])));
    let key: String = peg.chars().take(64).collect();
    LAST.with(|l| {
        if l.borrow().0 != peg.len() || l.borrow().1 != key {
            let ast = parse(peg, &rules::parse_peg())?;
            let nodes = ast.compact().prune(&["_", "_1", "_eol"]).flatten();
            l.replace((peg.len(), key, nodes));
        }
        rules_from_flat_ast(&l.borrow().2)
    })""")],
     r'''
    let head = "main = r   //  a grammar with a comment that is long enough to go on and on\n";
    let a = rules_from_peg(&format!("{}r = 'a'\n", head)).map_err(|_| ()).unwrap();
    let b = rules_from_peg(&format!("{}r = 'b'\n", head)).map_err(|_| ()).unwrap();
    assert!(parse("a", &a).is_ok() && parse("b", &a).is_err());
    assert!(parse("b", &b).is_ok() && parse("a", &b).is_err());
''')

# ------------------------------------------------------------------ P11
seed("p11-add-keeps", "P11",
     "adding a rule with a name already defined",
     "the old definition is kept",
     [(EXPR, """        self.0.insert(name.to_owned(), expr);
        self""", """        self.0.entry(name.to_owned()).or_insert(expr);
        self""")],
     r'''
    let r = rules!{ "main" => ref_rule!("r"), "r" => lit!("a") }.add("r", lit!("b"));
    assert!(parse("b", &r).is_ok());
    assert!(parse("a", &r).is_err());
''')

seed("p11-merge-main", "P11",
     "merging a set that defines main into one that doesn't",
     "main of the merged set is lost",
     [(EXPR, """    pub fn merge(self, rules2merge: Self) -> Self {
""", """    pub fn merge(self, rules2merge: Self) -> Self {
        //  main is the one of the receiver
        let mut rules2merge = rules2merge;
        rules2merge.0.remove("main");
""")],
     r'''
    let r = rules!{ "r" => lit!("a") }.merge(rules!{ "main" => ref_rule!("r") });
    assert!(parse("a", &r).is_ok());
''')

# ------------------------------------------------------------------ P12
seed("p12-range-bytes", "P12",
     "a peg text with a range of chars whose first char is not ASCII",
     "building the rules panics",
     [(PEG, """        let (from, chars) = idata::consume_char(from_to.chars())
            .ok_or_else(|| error_peg_s("expected from char"))?;
""", """        if &from_to[1..2] != "-" {
            return Err(error_peg_s("expected '-' char"));
        }
        let (from, chars) = idata::consume_char(from_to.chars())
            .ok_or_else(|| error_peg_s("expected from char"))?;
""")],
     r'''
    assert!(rules_from_peg("main = [a-z]\n").is_ok());
    assert!(rules_from_peg("main = [α-ω]\n").is_ok());
''')

seed("p12-double-try", "P12",
     "a text with about 20 nested levels of a rule with an optional part",
     "optional parts are tried twice: parsing time is exponential in the nesting",
     [(EXPR, """        let try_parse = parse_expr(acc.0.clone(), &rep_info.expression);
        //""", """        let optional = rep_info.min.0 == 0 && touch_max_bound(acc.1);
        if optional && parse_expr(acc.0.clone(), &rep_info.expression).is_err() {
            let err = parse_expr(acc.0.clone(), &rep_info.expression).err();
            return match err {
                Some(e) if e.priority == ErrPriority::Critical => TailCall::Return(Err(e)),
                Some(e) => TailCall::Return(Ok((acc.0.set_potential_error(e), acc.2))),
                None => TailCall::Return(Ok((acc.0, acc.2))),
            };
        }
        let try_parse = parse_expr(acc.0.clone(), &rep_info.expression);
        //""")],
     r'''
    let r = rules!{ "main" => and!(lit!("("), rep!(ref_rule!("main"), 0, 1), lit!(")")) };
    for n in 1..60 {
        let t0 = std::time::Instant::now();
        assert!(parse(&format!("{}{}", "(".repeat(n), ")".repeat(n)), &r).is_ok());
        assert!(t0.elapsed().as_secs() < 5, "{} levels", n);
    }
''')

seed("p12-empty-or", "P12",
     "a choice with no alternatives",
     "parsing panics",
     [(EXPR, """                _ => Error::from_status_normal(
                    &status,
                    "LOGIC ERROR!!! checked all options in or with ¿NO? errors",
                ),""", """                _ => unreachable!("checked all options in or with no errors"),""")],
     r'''
    let r = rules!{ "main" => or!(lit!("a"), or!()) };
    assert!(parse("b", &r).is_err());
''')

# ------------------------------------------------------------------ P13
seed("p13-join-literals", "P13",
     "two literals in a row in a sequence",
     "the two literals are built as one: the structure, and the leaves of the trees, change",
     [(PEG, """    let build_and_expr = |vexpr| Expression::And(expression::MultiExpr(vexpr));
""", """    fn as_literal(e: &Expression) -> Option<&str> {
        match e {
            Expression::Simple(parser::atom::Atom::Literal(s)) => Some(s),
            _ => None,
        }
    }
    let build_and_expr = |vexpr: Vec<Expression>| {
        let mut joined: Vec<Expression> = vec![];
        for e in vexpr {
            let both = match (joined.last().and_then(as_literal), as_literal(&e)) {
                (Some(a), Some(b)) if a.len() > 1 => Some(format!("{}{}", a, b)),
                _ => None,
            };
            match both {
                Some(s) => {
                    joined.pop();
                    joined.push(lit!(s))
                }
                None => joined.push(e),
            }
        }
        Expression::And(expression::MultiExpr(joined))
    };
""")],
     r'''
    let r = rules_from_peg("main = 'hello' ' world'\n").map_err(|_| ()).unwrap();
    let t = parse("hello world", &r).unwrap();
    assert!(t == ast::Node::Rule(("main".to_string(), vec![
        ast::Node::Val("hello".to_string()), ast::Node::Val(" world".to_string())])));
''')

seed("p13-leading-dot", "P13",
     "a name with a leading dot and more dots inside",
     "the leading dot is lost, so that two different names are the same rule",
     [(PEG, """        let str_result = format!("{}{}{}", start_dot, symbol, dot_symbol);""",
       """        let start_dot = if dot_symbol.is_empty() { start_dot } else { "" };
        let str_result = format!("{}{}{}", start_dot, symbol, dot_symbol);""")],
     r'''
    let r = rules_from_peg("main = .m.r\n.m.r = 'a'\nm.r = 'b'\n").map_err(|_| ()).unwrap();
    assert!(parse("a", &r).is_ok());
''')

seed("p13-nested-suffix", "P13",
     "a suffix + applied to parentheses that contain an optional expression",
     "(x?)+ is built as x+, which doesn't match the empty text",
     [(PEG, """            "+" => Ok(rep!(expr, 1)),
""", """            "+" => Ok(match expr {
                Expression::Repeat(expression::RepInfo { expression, max: Some(_), .. }) => {
                    rep!(*expression, 1)
                }
                expr => rep!(expr, 1),
            }),
""")],
     r'''
    let r = rules_from_peg("main = ('a'?)+ 'b'\n").map_err(|_| ()).unwrap();
    assert!(parse("aab", &r).is_ok());
    assert!(parse("b", &r).is_ok());
''')

# ------------------------------------------------------------------ P14
seed("p14-reserved-name", "P14",
     "a rule named eof",
     "a grammar in the notation is rejected",
     [(PEG, """        let (rule_name, nodes, context) = consume_rule_name(nodes, context)?;
        let nodes = flat::consume_this_value("=", nodes)?;""", """        let (rule_name, nodes, context) = consume_rule_name(nodes, context)?;
        if rule_name == "eof" {
            return Err(error_peg_s("eof is a reserved name"));
        }
        let nodes = flat::consume_this_value("=", nodes)?;""")],
     r'''
    assert!(rules_from_peg("main = eof\n_eof = 'a'\n").is_ok());
    assert!(rules_from_peg("main = eof\neof = !.\n").is_ok());
''')

seed("p14-symbol-dash", "P14",
     "a name with a dash inside",
     "a text that is not in the notation is accepted",
     [(RULES, '''rep!(ematch!(chlist r#"_'""#  , from''', '''rep!(ematch!(chlist r#"_'"-"#  , from'''),
      (P2C, '''    symbol          =   [_a-zA-Z0-9] [_'"a-zA-Z0-9]*''', '''    symbol          =   [_a-zA-Z0-9] [_'"--a-zA-Z0-9]*''')],
     r'''
    assert!(rules_from_peg("main = ab\nab = 'a'\n").is_ok());
    assert!(rules_from_peg("main = a-b\na-b = 'a'\n").is_err());
''')

seed("p14-class-ranges-first", "P14",
     "a set with several ranges and no list of chars, inside a sequence",
     "a set with more than four ranges is rejected",
     [(PEG, """            (None, false) => Ok((ematch!(chlist "", from2 vchars), nodes)),
""", """            (None, false) if vchars.len() < 5 => Ok((ematch!(chlist "", from2 vchars), nodes)),
""")],
     r'''
    assert!(rules_from_peg("main = [a-bc-de-fg-h]\n").is_ok());
    assert!(rules_from_peg("main = [a-bc-de-fg-hi-j]\n").is_ok());
''')

# ------------------------------------------------------------------ P15
seed("p15-hex-high", "P15",
     "a \\0xHH escape with a code of 0x80 or more",
     "the escape denotes the replacement char",
     [(PEG, """            Ok(v) => Ok(v as char),
""", """            Ok(v) => Ok(String::from_utf8_lossy(&[v]).chars().next().unwrap_or(v as char)),
""")],
     r'''
    let r = rules_from_peg("main = \"\\0xE9\"\n").map_err(|_| ()).unwrap();
    assert!(parse("é", &r).is_ok());
''')

seed("p15-reversed-range", "P15",
     "a range with its ends reversed",
     "a set matches chars that are not between the ends of any of its ranges",
     [(PEG, """        Ok(((from, to), nodes, context))
""", """        let (from, to) = if from <= to { (from, to) } else { (to, from) };
        Ok(((from, to), nodes, context))
""")],
     r'''
    let r = rules_from_peg("main = [z-a]\n").map_err(|_| ()).unwrap();
    assert!(parse("c", &r).is_err());
''')

seed("p15-crlf-literal", "P15",
     "a literal in quotes with a carriage return and a new line inside",
     "the literal loses its carriage return",
     [(PEG, """    let ast = parse(peg, &rules::parse_peg())?;
""", """    let ast = parse(&peg.replace("\\r\\n", "\\n"), &rules::parse_peg())?;
""")],
     r'''
    let r = rules_from_peg("main = 'a\r\nb'\r\n").map_err(|_| ()).unwrap();
    assert!(parse("a\r\nb", &r).is_ok());
''')

seed("p15-class-space", "P15",
     "a list of chars that begins or ends with a space",
     "the set doesn't match the space",
     [(PEG, """    consuming_rule("mchars", nodes, context, |nodes, context| {
        let (val, nodes) = flat::consume_val(nodes)?;
        Ok((val, nodes, context))""", """    consuming_rule("mchars", nodes, context, |nodes, context| {
        let (val, nodes) = flat::consume_val(nodes)?;
        let val = match val.trim() {
            "" => val,
            trimmed => trimmed,
        };
        Ok((val, nodes, context))""")],
     r'''
    let r = rules_from_peg("main = [ ab]+\n").map_err(|_| ()).unwrap();
    assert!(parse("a b", &r).is_ok());
''')

# ------------------------------------------------------------------ P16
seed("p16-nested-comments", "P16",
     "a block comment with /* inside",
     "block comments nest: a comment with /* inside needs two ends",
     [(RULES, '''and!(lit!("/*"), rep!(and!(not!(lit!("*/")), dot!()), 0), lit!("*/"))''',
       '''and!(lit!("/*"), rep!(or!(ref_rule!(r#"mline_comment"#), and!(not!(lit!("*/")), dot!())), 0), lit!("*/"))'''),
      (P2C, """    mline_comment   =   '/*' (!'*/' .)* '*/'""", """    mline_comment   =   '/*' (mline_comment / !'*/' .)* '*/'""")],
     r'''
    assert!(rules_from_peg("main = 'a' /* one /* two */\n").is_ok());
    let r = rules_from_peg("main = 'a' /* /* */ 'b'\n/* */ r = 'x'\n").map_err(|_| ()).unwrap();
    assert!(parse("ab", &r).is_ok());
''')

seed("p16-cr-separator", "P16",
     "the elements of a sequence separated by a lone carriage return, with no spaces",
     "the grammar is rejected or read as another one",
     [(RULES, '''       , r#"_1"# => or!(lit!(" "), ref_rule!(r#"eol"#))
''', '''       , r#"_1"# => or!(lit!(" "), lit!("\\r\\n"), lit!("\\n"))
'''), (P2C, """    _1              =   (' ' / eol) """, """    _1              =   (' ' / "\\r\\n" / "\\n") """)],
     r'''
    let r = rules_from_peg("main = 'a'\r'b'\r").map_err(|_| ()).unwrap();
    assert!(parse("ab", &r).is_ok());
''')

seed("p16-comment-star", "P16",
     "a block comment that ends with two or more stars",
     "the end of the comment isn't seen",
     [(RULES, '''rep!(and!(not!(lit!("*/")), dot!()), 0), lit!("*/"))''',
       '''rep!(or!(and!(lit!("*"), not!(lit!("/")), dot!()), and!(not!(lit!("*/")), dot!())), 0), lit!("*/"))'''),
      (P2C, """    mline_comment   =   '/*' (!'*/' .)* '*/'""", """    mline_comment   =   '/*' ('*' !'/' .  /  !'*/' .)* '*/'""")],
     r'''
    assert!(rules_from_peg("main = 'a' /* ok */\n").is_ok());
    assert!(rules_from_peg("main = 'a' /* ok **/\n").is_ok());
''')

# ------------------------------------------------------------------ P17
seed("p17-published-symbol", "P17",
     "a name with a double quote read with the published grammar",
     "the published grammar doesn't accept double quotes on names",
     [(P2C, """    symbol          =   [_a-zA-Z0-9] [_'"a-zA-Z0-9]*""", """    symbol          =   [_a-zA-Z0-9] [_'a-zA-Z0-9]*""")],
     r'''
    assert!(parse("main = a\n", &published()).is_ok());
    assert!(parse("main = a\"\n", &published()).is_ok());
    assert!(parse("a\"' = .\n", &published()).is_ok());
''', sh="bin")

seed("p17-published-eol", "P17",
     "a grammar with a comment at the end of a rule read with the published grammar",
     "the published grammar doesn't have the comments at the end of a rule",
     [(P2C, """    _eol            =   (' ' / comment)*  eol""", """    _eol            =   ' '*  eol""")],
     r'''
    assert!(parse("main = 'a'\n", &published()).is_ok());
    assert!(parse("main = 'a' // a\n", &published()).is_ok());
    assert!(parse("main = 'a' /* a */\n", &published()).is_ok());
''', sh="bin")

# ------------------------------------------------------------------ P18
seed("p18-exact-rep", "P18",
     "code generated for a repetition with the same minimum and maximum",
     "the maximum is lost on the generated code",
     [(GCODE, """            Some(ref m) => format!(", {}", m.0),
            None => "".to_owned(),""", """            Some(ref m) if m.0 != rep.min.0 => format!(", {}", m.0),
            _ => "".to_owned(),""")],
     r'''
    let code = peg::gcode::rust_from_rules(&rules!{ "main" => rep!(lit!("a"), 2, 2) });
    let args = code[code.find("rep!(").unwrap()..].matches(',').count();
    assert!(args == 2, "{}", code);
''')

seed("p18-single-range", "P18",
     "code generated for a set with a range of only one char",
     "the range is lost on the generated code",
     [(GCODE, """        Atom::Match(mrules) => match_rules2code(mrules),
""", """        Atom::Match(mrules) => {
            let mut ranges = mrules.1.clone();
            if ranges.iter().any(|(f, t)| f != t) {
                ranges.retain(|(f, t)| f != t);
            }
            match_rules2code(&atom::MatchRules(mrules.0.clone(), ranges))
        }
""")],
     r'''
    let code = peg::gcode::rust_from_rules(&rules!{ "main" => ematch!(chlist "", from 'x', to 'x', from '0', to '9') });
    assert!(code.contains("'x'"), "{}", code);
''')

seed("p18-not-of-rep", "P18",
     "code generated for a negation of a repetition of one element",
     "the negation of an optional or repeated expression loses the repetition",
     [(GCODE, """        Expression::Not(e) => format!("not!({})", expr2code(e)),
""", """        Expression::Not(e) => match **e {
            //  looking ahead, one is enough
            Expression::Repeat(ref rep) if rep.min.0 <= 1 => {
                format!("not!({})", expr2code(&rep.expression))
            }
            _ => format!("not!({})", expr2code(e)),
        },
""")],
     r'''
    let code = peg::gcode::rust_from_rules(&rules!{ "main" => not!(rep!(lit!("a"), 0)) });
    assert!(code.contains("rep!"), "{}", code);
''')

# ------------------------------------------------------------------ P19
seed("p19-empty-value", "P19",
     "an empty value after another value",
     "an empty value is not joined with the previous one",
     [(AST, """                .fold(vec![], |acc: Vec<Node>, n| (concat_nodes(acc, n)))
""", """                .fold(vec![], |acc: Vec<Node>, n| match (n, acc.last()) {
                    (Node::Val(v), Some(Node::Val(pv))) if v.is_empty() != pv.is_empty() => {
                        acc.ipush(Node::Val(v.clone()))
                    }
                    _ => concat_nodes(acc, n),
                })
""")],
     r'''
    let v = |s: &str| ast::Node::Val(s.to_string());
    let t = ast::Node::Rule(("r".to_string(), vec![v("a"), v(""), v("b")]));
    assert!(t.compact() == ast::Node::Rule(("r".to_string(), vec![v("ab")])));
''')

seed("p19-across-eof", "P19",
     "an end of file leaf between two values",
     "values on the two sides of an end of file are joined",
     [(AST, """                .fold(vec![], |acc: Vec<Node>, n| (concat_nodes(acc, n)))
""", """                .fold(vec![], |acc: Vec<Node>, n| match (n, acc.last()) {
                    (Node::EOF, Some(_)) if acc.len() > 1 => acc,
                    _ => concat_nodes(acc, n),
                })
""")],
     r'''
    let v = |s: &str| ast::Node::Val(s.to_string());
    let t = ast::Node::Rule(("r".to_string(), vec![ast::Node::Rule(("s".to_string(), vec![])), v("a"), ast::Node::EOF, v("b")]));
    assert!(t.compact() == t);
''')

# ------------------------------------------------------------------ P20
seed("p20-sorted-names", "P20",
     "a list of names which is not sorted",
     "some of the rules named are not pruned",
     [(AST, """        let nname2prune = |nname: &str| nodes2prune.iter().find(|n| *n == &nname);
""", """        let nname2prune = |nname: &str| nodes2prune.binary_search(&nname).ok();
""")],
     r'''
    let n = |s: &str, v| ast::Node::Rule((s.to_string(), v));
    let t = n("root", vec![n("a", vec![]), n("b", vec![]), n("c", vec![])]);
    assert!(t.prune(&["a", "b", "c"]) == n("root", vec![]));
    assert!(t.prune(&["c", "b", "a"]) == n("root", vec![]));
''')

seed("p20-root", "P20",
     "pruning the name of the root, used again below",
     "the contents of the root are removed",
     [(AST, """            Node::Rule((n, vn)) => Node::Rule((n.clone(), prune_vn(vn))),
""", """            Node::Rule((n, _)) if node2prune(self) => Node::Rule((n.clone(), vec![])),
            Node::Rule((n, vn)) => Node::Rule((n.clone(), prune_vn(vn))),
""")],
     r'''
    let n = |s: &str, v| ast::Node::Rule((s.to_string(), v));
    let t = n("e", vec![n("a", vec![]), n("e", vec![n("b", vec![])])]);
    assert!(t.prune(&["e"]) == n("e", vec![n("a", vec![])]));
''')

# ------------------------------------------------------------------ P21
seed("p21-prefix", "P21",
     "a rule whose name begins with one of the names to keep",
     "a rule that is not in the list is kept",
     [(AST, """            let nname2keep = |nname: &str| nodes2keep.iter().find(|n| *n == &nname);
""", """            let nname2keep = |nname: &str| nodes2keep.iter().find(|n| nname.starts_with(**n));
""")],
     r'''
    let n = |s: &str, v| ast::Node::Rule((s.to_string(), v));
    let t = n("root", vec![n("num", vec![]), n("number", vec![ast::Node::Val("1".to_string())])]);
    assert!(t.pass_through_except(&["num"]) == n("root", vec![n("num", vec![]), ast::Node::Val("1".to_string())]));
''')

seed("p21-eof-lost", "P21",
     "an end of file leaf inside a rule removed",
     "the end of file leaf is lost",
     [(AST, """                        Node::Rule((_, new_nodes)) => acc.iappend(pthr_vn(new_nodes, nodes2keep)),
""", """                        Node::Rule((_, new_nodes)) => {
                            let mut new_nodes = pthr_vn(new_nodes, nodes2keep);
                            if new_nodes.len() > 1 && new_nodes.last() == Some(&Node::EOF) {
                                new_nodes.pop();
                            }
                            acc.iappend(new_nodes)
                        }
""")],
     r'''
    let n = |s: &str, v| ast::Node::Rule((s.to_string(), v));
    let v = |s: &str| ast::Node::Val(s.to_string());
    let t = n("root", vec![n("a", vec![v("1"), ast::Node::EOF])]);
    assert!(t.pass_through_except(&[]) == n("root", vec![v("1"), ast::Node::EOF]));
''')

# ------------------------------------------------------------------ P22
seed("p22-empty-values", "P22",
     "an empty value on the tree",
     "flattening loses the value",
     [(FLAT, """                ast::Node::Val(v) => acc.ipush(Node::Val(v.clone())),
""", """                ast::Node::Val(v) if v.is_empty() => acc,
                ast::Node::Val(v) => acc.ipush(Node::Val(v.clone())),
""")],
     r'''
    let t = ast::Node::Rule(("r".to_string(), vec![ast::Node::Val("".to_string())]));
    assert!(t.flatten().len() == 3);
''')

seed("p22-same-name", "P22",
     "a rule whose only child is a rule with the same name",
     "two different trees have the same flat list",
     [(FLAT, """                ast::Node::Rule((n, vn)) => {
                    let acc = acc.ipush""", """                ast::Node::Rule((n, vn)) if vn.len() == 1 && is_rule(&vn[0], n) => {
                    flatten_acc(acc, &vn[0])
                }
                ast::Node::Rule((n, vn)) => {
                    let acc = acc.ipush"""),
      (FLAT, """        fn flatten_acc(acc""", """        fn is_rule(node: &ast::Node, name: &str) -> bool {
            match node {
                ast::Node::Rule((n, vn)) => n == name && vn.is_empty(),
                _ => false,
            }
        }
        fn flatten_acc(acc""")],
     r'''
    let n = |s: &str, v| ast::Node::Rule((s.to_string(), v));
    assert!(n("a", vec![n("a", vec![])]).flatten() != n("a", vec![]).flatten());
''')

# ------------------------------------------------------------------ P23
seed("p23-unique-eof", "P23",
     "a list with a value followed by an end of file",
     "the helper for a unique value accepts two nodes",
     [(AST, """        (Some(n), 1) => get_node_val(n),
        _ => Err(error("expected only one value in nodes", None)),""", """        (Some(n), 1) => get_node_val(n),
        (Some(n), 2) if nodes[1] == Node::EOF => get_node_val(n),
        _ => Err(error("expected only one value in nodes", None)),""")],
     r'''
    assert!(ast::get_nodes_unique_val(&[ast::Node::Val("a".to_string()), ast::Node::EOF]).is_err());
''')

seed("p23-flat-trim", "P23",
     "a flat value with spaces around the one asked for",
     "consuming a given value accepts another one",
     [(FLAT, """    let nv = get_node_val(node)?;
    if nv == v {""", """    let nv = get_node_val(node)?;
    if nv == v || nv.trim() == v {""")],
     r'''
    use dynparser::ast::flat;
    assert!(flat::consume_this_value("a", &[flat::Node::Val(" a".to_string())]).is_err());
''')

# ------------------------------------------------------------------ P24
seed("p24-u16", "P24",
     "a char beyond U+FFFF and a set with a range",
     "the range matches chars out of it",
     [(ATOM, """                if b <= ch && ch <= t {""", """                if b as u16 <= ch as u16 && ch as u16 <= t as u16 {""")],
     r'''
    let r = rules!{ "main" => ematch!(chlist "", from 'a', to 'z') };
    assert!(parse("\u{10061}", &r).is_err());
''')

seed("p24-nul", "P24",
     "a NUL char in the text",
     "NUL is taken as the end of the text by the end of file atom",
     [(ATOM, """        Ok((st, _ch)) => Err(Error::from_status_normal(&st, "expected EOF")),
""", """        Ok((st, '\\0')) => Ok((st, ast::Node::EOF)),
        Ok((st, _ch)) => Err(Error::from_status_normal(&st, "expected EOF")),
""")],
     r'''
    let r = rules!{ "main" => and!(lit!("a"), eof!(), rep!(dot!(), 0)) };
    assert!(parse("a", &r).is_ok());
    assert!(parse("a\0", &r).is_err());
''')

seed("p24-literal-fold", "P24",
     "a literal with a char that is the same as another one when put in upper case (long s, Kelvin sign)",
     "a literal matches a text that is not the same chars",
     [(ATOM, """    if ch == got_ch {""", """    if ch == got_ch || (!ch.is_ascii() && got_ch.to_uppercase().eq(ch.to_uppercase()) && got_ch > ch) {""")],
     r'''
    let r = rules!{ "main" => lit!("\u{b5}") };
    assert!(parse("\u{b5}", &r).is_ok());
    assert!(parse("\u{3bc}", &r).is_err());
''')

# ------------------------------------------------------------------ P25
seed("p25-double-not", "P25",
     "a negation of a negation written with the macros",
     "not!(not!(x)), a lookahead, is built as x, that consumes",
     [(LIB, """        $crate::parser::expression::Expression::Not(Box::new($e))
""", """        use $crate::parser::expression;

        //  two negations are none
        match $e {
            expression::Expression::Not(e) => *e,
            e => expression::Expression::Not(Box::new(e)),
        }
""")],
     r'''
    let r = rules!{ "main" => and!(not!(lit!("b")), dot!()) };
    assert!(parse("a", &r).is_ok());
    assert!(parse("b", &r).is_err());
    let r = rules!{ "main" => and!(not!(not!(lit!("a"))), lit!("ab")) };
    assert!(parse("ab", &r).is_ok());
''')

seed("p25-from2-single", "P25",
     "ematch! with a vector that has a range of one char",
     "a range whose ends are the same char is dropped from the set",
     [(LIB, """        let amatch = parser::atom::Atom::Match(parser::atom::MatchRules::init($chars, $vfrom2));
""", """        let bounds: Vec<(char, char)> = $vfrom2;
        let bounds = bounds.into_iter().filter(|&(from, to)| from < to).collect();
        let amatch = parser::atom::Atom::Match(parser::atom::MatchRules::init($chars, bounds));
""")],
     r'''
    let r = rules!{ "main" => ematch!(chlist "", from2 vec![('a', 'c'), ('x', 'x')]) };
    assert!(parse("a", &r).is_ok());
    assert!(parse("d", &r).is_err());
    assert!(parse("x", &r).is_ok());
''')

seed("p25-first-rule", "P25",
     "rules! with the same name twice",
     "the first definition stays, instead of the last one as with add",
     [(LIB, """        let rules = expression::SetOfRules::new(HashMap::<String, expression::Expression>::new());
        $(let rules = rules.add($n, $e);)*
        rules
""", """        let items: Vec<(String, expression::Expression)> = vec![$(($n.to_string(), $e)),*];
        let mut rules = HashMap::<String, expression::Expression>::with_capacity(items.len());
        for (name, expr) in items {
            rules.entry(name).or_insert(expr);
        }
        expression::SetOfRules::new(rules)
""")],
     r'''
    let r = rules!{ "main" => ref_rule!("x"), "x" => lit!("a") };
    assert!(parse("a", &r).is_ok());
    let r = rules!{ "main" => ref_rule!("x"), "x" => lit!("a"), "x" => lit!("b") };
    assert!(parse("b", &r).is_ok());
    assert!(parse("a", &r).is_err());
''')

# ------------------------------------------------------------------ P26
seed("p26-depth", "P26",
     "two calls at once, both thousands of rules deep",
     "the depth of all the calls running is added up, and one of them fails for being too deep",
     [(EXPR, """    let (st, nodes) = parse_expr(status, &expression)?;

    // let elapsed""", """    let _level = Level::enter(&status)?;
    let (st, nodes) = parse_expr(status, &expression)?;

    // let elapsed"""),
      (EXPR, """fn parse_atom_as_expr<'a>""", """/// rules being parsed
static LEVEL: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
const MAX_LEVEL: usize = 10_500;

/// to fail instead of exhausting the stack
struct Level;
impl Level {
    fn enter(status: &Status) -> result::Result<Self, Error> {
        let level = Level;
        if LEVEL.fetch_add(1, std::sync::atomic::Ordering::SeqCst) >= MAX_LEVEL {
            return Err(Error::from_status(
                status,
                "too many nested rules",
                ErrPriority::Critical,
            ));
        }
        Ok(level)
    }
}
impl Drop for Level {
    fn drop(&mut self) {
        LEVEL.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
    }
}

fn parse_atom_as_expr<'a>""")],
     r'''
    use std::sync::{Arc, Barrier};
    // the deepest point of the parse: only inside, an error that is not reported shows nothing
    let n = 9000;
    let text = "(".repeat(n) + "x" + &")".repeat(n);
    let ok = |text: &str| {
        let r = rules!{ "main" => or!(and!(lit!("("), ref_rule!("main"), lit!(")")), lit!("x")) };
        parse(text, &r).is_ok()
    };
    let t = text.clone();
    let big = || std::thread::Builder::new().stack_size(1 << 30);
    assert!(big().spawn(move || ok(&t)).unwrap().join().unwrap());
    let b = Arc::new(Barrier::new(4));
    let hs: Vec<_> = (0..4).map(|_| {
        let (b, t) = (b.clone(), text.clone());
        big().spawn(move || { b.wait(); (0..10).all(|_| ok(&t)) }).unwrap()
    }).collect();
    for h in hs {
        assert!(h.join().unwrap());
    }
''')

seed("p26-last-line", "P26",
     "another call that starts between two errors of a call, at the same position",
     "the line kept for the errors of the call being done is the one of another call",
     [(PARSER, """            line_before: status
                .consumed()
                .rsplit('\\n')
                .next()
                .unwrap_or("")
                .to_string(),
""", """            line_before: line_before(status),
"""),
      (PARSER, """            text2parse: t2p,
            it_parsing: t2p.chars(),
            pos: Possition::init(),
            trace_rules: false,
""", """            text2parse: t2p,
            it_parsing: {
                CALL.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                t2p.chars()
            },
            pos: Possition::init(),
            trace_rules: false,
"""),
      (PARSER, """            text2parse: t2p,
            it_parsing: t2p.chars(),
            pos: Possition::init(),
            trace_rules,
""", """            text2parse: t2p,
            it_parsing: {
                CALL.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                t2p.chars()
            },
            pos: Possition::init(),
            trace_rules,
"""),
      (PARSER, """//-----------------------------------------------------------------------
//  I N T E R N A L
""", """/// number of the call to parse, and the last line copied on it
static CALL: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
static LAST: std::sync::Mutex<(usize, usize, String)> =
    std::sync::Mutex::new((0, 0, String::new()));

/// many errors are produced at the same position
fn line_before(status: &Status) -> String {
    let call = CALL.load(std::sync::atomic::Ordering::SeqCst);
    let mut last = LAST.lock().unwrap_or_else(|e| e.into_inner());
    if (last.0, last.1) != (call, status.pos.n) {
        let line = status.consumed().rsplit('\\n').next().unwrap_or("");
        *last = (call, status.pos.n, line.to_string());
    }
    last.2.clone()
}

//-----------------------------------------------------------------------
//  I N T E R N A L
""")],
     r'''
    use std::sync::{Arc, Barrier};
    let ok = |c: char| {
        // every char is tried twice
        let r = rules!{ "main" => rep!(or!(lit!("1"), lit!("2"), dot!()), 0), "x" => dot!() };
        let e = rules!{ "main" => and!(rep!(or!(lit!("1"), lit!("2"), ref_rule!("c")), 0), lit!("!")),
                        "c" => ematch!(chlist "", from 'a', to 'z') };
        let t: String = (0..200).map(|_| c).collect();
        assert!(parse(&t, &r).is_ok());
        match parse(&t, &e) {
            Err(e) => e.line_before.chars().all(|x| x == c),
            _ => false,
        }
    };
    assert!(ok('a') && ok('b'));
    let b = Arc::new(Barrier::new(8));
    let hs: Vec<_> = (0..8u8).map(|i| {
        let b = b.clone();
        std::thread::spawn(move || { b.wait(); (0..500).all(|_| ok((b'a' + i) as char)) })
    }).collect();
    for h in hs {
        assert!(h.join().unwrap());
    }
''')

seed("p26-trace-flag", "P26",
     "a call with debug while one without is being done",
     "whether rules are traced is kept for the whole program, and another call changes it",
     [(EXPR, """    let status = if status.trace_rules {
        status.push_rule""", """    let status = if crate::parser::tracing() {
        status.push_rule"""),
      (PARSER, """pub(crate) type Result<'a> = result::Result<(Status<'a>, ast::Node), Error>;
""", """pub(crate) type Result<'a> = result::Result<(Status<'a>, ast::Node), Error>;

//  a field to copy on each status is expensive
static TRACE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub(crate) fn trace(on: bool) {
    TRACE.store(on, std::sync::atomic::Ordering::Relaxed);
}
pub(crate) fn tracing() -> bool {
    TRACE.load(std::sync::atomic::Ordering::Relaxed)
}
"""),
      (LIB, """    let (st, ast) = if debug {""", """    parser::trace(debug);
    let (st, ast) = if debug {""")],
     r'''
    use std::sync::{Arc, Barrier};
    fn ok(debug: bool) -> bool {
        let r = rules!{ "main" => or!(and!(lit!("("), ref_rule!("main"), lit!(")")), lit!("x")) };
        let t = "(".repeat(60) + "y";
        let e = if debug { parse_debug(&t, &r) } else { parse(&t, &r) }.unwrap_err();
        e.parsing_rules.len() == if debug { 61 } else { 0 }
    }
    assert!(ok(true) && ok(false));
    let b = Arc::new(Barrier::new(8));
    let hs: Vec<_> = (0..8).map(|i| {
        let b = b.clone();
        std::thread::Builder::new().stack_size(1 << 26).spawn(move || { b.wait(); (0..600).all(|_| ok(i % 2 == 0)) }).unwrap()
    }).collect();
    for h in hs {
        assert!(h.join().unwrap());
    }
''')


# ------------------------------------------------------------------ P27
METER = r"""
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
    struct Meter;
    static LIVE: AtomicI64 = AtomicI64::new(0);
    static OPS: AtomicU64 = AtomicU64::new(0);
    unsafe impl GlobalAlloc for Meter {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            LIVE.fetch_add(l.size() as i64, SeqCst);
            OPS.fetch_add(1, SeqCst);
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            LIVE.fetch_sub(l.size() as i64, SeqCst);
            System.dealloc(p, l)
        }
    }
    #[global_allocator]
    static METER: Meter = Meter;
    #[allow(dead_code)]
    fn kept(f: &dyn Fn()) -> i64 {
        (0..20).for_each(|_| f());
        let a = LIVE.load(SeqCst);
        (0..100).for_each(|_| f());
        LIVE.load(SeqCst) - a
    }
    #[allow(dead_code)]
    fn work(f: &dyn Fn()) -> u64 {
        let a = OPS.load(SeqCst);
        f();
        OPS.load(SeqCst) - a
    }
"""

seed("p27-wrong-grammars", "P27",
     "many wrong grammars (whose parse fails after the first rule), right ones keep nothing",
     "the errors of the wrong grammars are kept for ever",
     [(PEG, """    let ast = parse(peg, &rules::parse_peg())?;
    let nodes""", """    let ast = parse(peg, &rules::parse_peg()).map_err(remember)?;
    let nodes"""),
      (PEG, """//  A P I
// -------------------------------------------------------------------------------------

fn rules_from_flat_ast""", """//  A P I
// -------------------------------------------------------------------------------------

thread_local!(static WRONG: std::cell::RefCell<Vec<String>> = std::cell::RefCell::new(vec![]));

//  the last descriptions, to know how many times the same error is repeated
fn remember(e: parser::Error) -> parser::Error {
    WRONG.with(|w| {
        let mut w = w.borrow_mut();
        if e.pos.row > 0 && w.last().map_or(true, |l| !l.is_empty()) {
            w.push(e.descr.clone());
        }
    });
    e
}

fn rules_from_flat_ast""")],
     METER + r"""
    assert_eq!(kept(&|| drop(rules_from_peg("main = 'a'\n"))), 0);
    assert_eq!(kept(&|| drop(rules_from_peg("main = 'a'\nr = (\n"))), 0);
""")

seed("p27-rules-entered", "P27",
     "texts where a rule fails (also inside of a choice or a repetition)",
     "the names of the rules that fail are kept for ever",
     [(EXPR, """    let (st, nodes) = parse_expr(status, &expression)?;

    // let elapsed""", """    ENTERED.with(|e| e.borrow_mut().push(rule_name.to_owned()));
    let (st, nodes) = parse_expr(status, &expression)?;
    ENTERED.with(|e| e.borrow_mut().pop());

    // let elapsed"""),
      (EXPR, """fn parse_rule_name<'a>(""", """//  rules being parsed, to show them when debugging
thread_local!(static ENTERED: std::cell::RefCell<Vec<String>> = std::cell::RefCell::new(vec![]));

fn parse_rule_name<'a>(""")],
     METER + r"""
    let r = rules!{ "main" => or!(ref_rule!("x"), lit!("b")), "x" => lit!("a") };
    assert_eq!(kept(&|| drop(parse("a", &r))), 0);
    assert_eq!(kept(&|| drop(parse("b", &r))), 0);
""")

seed("p27-compact-write", "P27",
     "compacting a tree with two values in a row",
     "the value replaced by the joined one is never freed",
     [(AST, """                .fold(vec![], |acc: Vec<Node>, n| (concat_nodes(acc, n)))
""", """                .fold(vec![], |acc: Vec<Node>, n| match (n, acc.last()) {
                    (Node::Val(_), Some(Node::Val(pv))) => {
                        //  the joined value takes the place of this one
                        std::mem::forget(pv.clone());
                        concat_nodes(acc, n)
                    }
                    _ => concat_nodes(acc, n),
                })
""")],
     METER + r"""
    let v = |s: &str| ast::Node::Val(s.to_string());
    let one = ast::Node::Rule(("main".to_string(), vec![v("a")]));
    let two = ast::Node::Rule(("main".to_string(), vec![v("a"), v("b")]));
    assert_eq!(two.compact(), ast::Node::Rule(("main".to_string(), vec![v("ab")])));
    assert_eq!(kept(&|| drop(one.compact())), 0);
    assert_eq!(kept(&|| drop(two.compact())), 0);
""")

# ------------------------------------------------------------------ P28
seed("p28-choice-again", "P28",
     "choices nested about 20 levels, on a text none matches",
     "the deepest alternative of a failed choice is evaluated again to get its error: exponential when nested",
     [(EXPR, """        Some(e1) => match (e1.priority > e2.priority, e1.pos.n > e2.pos.n) {
            (true, _) => Some(e1),
            (false, true) => Some(e1),
            (false, false) => Some(e2),
        },
        None => Some(e2),
    };""", """        Some(e1) => match (e1.priority > e2.priority, e1.pos.n > e2.pos.n) {
            (true, _) => Some(e1),
            (false, true) => Some(e1),
            (false, false) => Some(e2),
        },
        None => Some(e2),
    };
    let last = multi_expr.0.last();"""),
      (EXPR, """            TailCall::Return(Err(match acc.2 {
                Some(err) => err,
""", """            TailCall::Return(Err(match acc.2 {
                //  with all the options wrong at the same place, the last one explains it
                Some(ref err) if last.is_some() && err.pos.n == status.pos.n + 1 => {
                    match parse_expr(status.clone(), last.unwrap()) {
                        Err(ref e) if e.pos.n < err.pos.n => err.clone(),
                        Err(e) => e,
                        Ok(_) => err.clone(),
                    }
                }
                Some(err) => err,
""") ],
     r"""
    let e = |n: usize| {
        let mut e = lit!("a");
        for _ in 0..n { e = or!(lit!("b"), e); }
        rules!{ "main" => e }
    };
    for n in 1..40 {
        let r = e(n);
        let t0 = std::time::Instant::now();
        assert!(parse("x", &r).is_err());
        assert!(t0.elapsed().as_secs() < 5, "{} levels", n);
    }
""")

seed("p28-suffix-backtrack", "P28",
     "groups nested about 15 levels in a peg text, without ?, * or + after them",
     "a group is parsed again when nothing follows it: building rules is exponential in the nesting",
     [(RULES, """r#"rep_or_neg"# => or!(and!(ref_rule!(r#"atom_or_par"#), rep!(or!(lit!("*"), lit!("+"), lit!("?")), 0, 1)), and!""", """r#"rep_or_neg"# => or!(and!(ref_rule!(r#"atom_or_par"#), or!(lit!("*"), lit!("+"), lit!("?"))), ref_rule!(r#"atom_or_par"#), and!""")],
     r"""
    for n in 1..30 {
        let t0 = std::time::Instant::now();
        assert!(rules_from_peg(&format!("main = {}'a'{}\n", "(".repeat(n), ")".repeat(n))).is_ok());
        assert!(t0.elapsed().as_secs() < 8, "{} levels", n);
    }
""")

seed("p28-through-empty", "P28",
     "a tree with about 25 levels of rules to pass through",
     "the contents of each node passed through are gathered twice: exponential in the levels passed through",
     [(AST, """                        Node::Rule((_, new_nodes)) => acc.iappend(pthr_vn(new_nodes, nodes2keep)),
""", """                        Node::Rule((_, new_nodes)) => {
                            if pthr_vn(new_nodes, nodes2keep).is_empty() {
                                acc
                            } else {
                                acc.iappend(pthr_vn(new_nodes, nodes2keep))
                            }
                        }
""")],
     r"""
    for d in 1..40 {
        let t = (0..d).fold(ast::Node::Val("a".to_string()), |t, _| ast::Node::Rule(("r".to_string(), vec![t])));
        let t0 = std::time::Instant::now();
        assert_eq!(t.pass_through_except(&[]), ast::Node::Rule(("r".to_string(), vec![ast::Node::Val("a".to_string())])));
        assert!(t0.elapsed().as_secs() < 5, "{} levels", d);
    }
""")

seed("p28-guard-not", "P28",
     "negations or lookaheads nested about 20 levels",
     "what is negated is tried once to know if it is critical and once for its result: exponential when nested",
     [(EXPR, """    match parse_expr(status.clone(), expression) {
        Ok(_) => Err(""", """    let nested = match *expression {
        Expression::Not(_) | Expression::And(_) | Expression::RuleName(_) => true,
        _ => false,
    };
    if nested && parse_expr(status.clone(), expression).is_err() {
        return Ok((status, vec![]));
    }
    match parse_expr(status.clone(), expression) {
        Ok(_) => Err(""")],
     r"""
    for n in 1..30 {
        let e = (0..2 * n).fold(lit!("a"), |e, _| not!(e));
        let r = rules!{ "main" => and!(e, lit!("a")) };
        let t0 = std::time::Instant::now();
        assert!(parse("a", &r).is_ok());
        assert!(t0.elapsed().as_secs() < 5, "{} levels", n);
    }
""")

# ------------------------------------------------------------------ P29
seed("p29-ipush-same", "P29",
     "the same description pushed twice in a row, not on the first level",
     "a description equal to the one on top of a chain of errors is not pushed",
     [(PEG, """        Error::Peg((desc.to_string(), Some(Box::new(self))))
""", """        match self {
            //  recursive rules would only repeat it
            Error::Peg((ref last, Some(_))) if last == desc => self,
            _ => Error::Peg((desc.to_string(), Some(Box::new(self)))),
        }
""")],
     r"""
    let e = rules_from_peg("main = 'a").unwrap_err().ipush("expr").ipush("expr").ipush("main");
    assert!(format!("{}", e).starts_with("main > expr > expr > Parser"), "{}", e);
    match e {
        peg::Error::Peg((_, Some(b))) => match *b {
            peg::Error::Peg((_, Some(b))) => match *b {
                peg::Error::Peg((_, Some(_))) => (),
                _ => panic!("lost"),
            },
            _ => panic!("lost"),
        },
        _ => panic!("lost"),
    }
""")

seed("p29-display-depth", "P29",
     "a chain of errors with an empty description in the middle",
     "displaying a chain of errors stops at an empty description",
     [(PEG, """            Error::Peg((s, None)) => write!(f, "{}", s),
            Error::Peg((s, Some(b))) => write!(f, "{} > {}", s, b),
""", """            Error::Peg((s, None)) => write!(f, "{}", s),
            Error::Peg((s, Some(ref b))) => match **b {
                Error::Peg((ref next, _)) if next.is_empty() => write!(f, "{}", s),
                _ => write!(f, "{} > {}", s, b),
            },
""")],
     r"""
    let e = rules_from_peg("main = 'a").unwrap_err().ipush("inside").ipush("").ipush("out");
    let t = format!("{}", e);
    assert!(t.starts_with("out >  > inside > Parser"), "{}", t);
""")

seed("p29-set-ranges", "P29",
     "a set with more than four ranges",
     "the description of a failed set leaves out some of its ranges",
     [(ATOM, """                &format!("match. expected {} {:?}", match_rules.0, match_rules.1),
""", """                &format!(
                    "match. expected {} {:?}",
                    match_rules.0,
                    &match_rules.1[..match_rules.1.len().min(4)]
                ),
""")],
     r"""
    let r = rules!{ "main" => ematch!(chlist "_", from 'a', to 'b', from 'd', to 'e', from 'g', to 'h', from 'j', to 'k', from 'm', to 'n') };
    let e = parse("é", &r).unwrap_err();
    assert!(e.descr.contains("'m'") && e.descr.contains("'n'"), "{}", e.descr);
""")

seed("p29-literal-cut", "P29",
     "a literal of more than 20 chars that fails after its tenth char",
     "the description of a long literal that fails has only what comes after",
     [(ATOM, """    for ch in literal.chars() {
        status = parse_char(status, ch).map_err(|st| {
            Error::from_status_normal(&st, &format!("expected literal: <{}>", literal))
        })?;
    }
""", """    for (i, ch) in literal.char_indices() {
        status = parse_char(status, ch).map_err(|st| {
            //  on long ones, show what is next
            let from = if i > 10 && literal.len() > 20 { i } else { 0 };
            Error::from_status_normal(&st, &format!("expected literal: <{}>", &literal[from..]))
        })?;
    }
""")],
     r"""
    let r = rules!{ "main" => lit!("a long literal with many words") };
    let e = parse("a long literal with much", &r).unwrap_err();
    assert!(e.descr.contains("a long literal with many words"), "{}", e.descr);
    let e = parse("a log", &r).unwrap_err();
    assert!(e.descr.contains("a long literal with many words"), "{}", e.descr);
""")

seed("p17-leading-lines", "P17",
     "a wrong peg text that starts with an end of line",
     "the ends of line before a grammar are skipped before parsing it: errors of rules_from_peg are not where the published rules find them",
     [(PEG, """    let ast = parse(peg, &rules::parse_peg())?;
""", """    let ast = parse(peg.trim_start_matches('\\n'), &rules::parse_peg())?;
""")],
     r"""
    assert!(rules_from_peg("\n\nmain = 'a'\n").is_ok());
    match rules_from_peg("\n\nmain = 'a\n") {
        Err(peg::Error::Parser(e)) => assert!(e.pos.row >= 2, "{:?}", e),
        x => panic!("{:?}", x.is_ok()),
    }
""")

seed("p28-row-count", "P28",
     "a text of tens of thousands of lines",
     "the row is counted from the beginning of the text at each end of line: the work grows with the square of the lines",
     [(ATOM, """                        self.pos.row += 1;
""", """                        //  rows are ends of line already read
                        self.pos.row = self
                            .text2parse
                            .chars()
                            .take(self.pos.n)
                            .filter(|&c| c == '\\n')
                            .count();
""")],
     r"""
    let r = rules!{ "main" => rep!(dot!(), 0) };
    let t0 = std::time::Instant::now();
    assert!(parse(&"a\n".repeat(50_000), &r).is_ok());
    assert!(t0.elapsed().as_secs() < 10, "{:?}", t0.elapsed());
""")

seed("p28-keeps-consumed", "P28",
     "a long text of many lines",
     "each step carries, and copies, all of the text already consumed",
     [(PARSER, """    pub(crate) walking_rules: Vec<String>,
}

impl<'a> Status<'a> {""", """    pub(crate) walking_rules: Vec<String>,
    /// text already read, for the errors
    pub(crate) read: String,
}

impl<'a> Status<'a> {"""),
      (PARSER, """            trace_rules: false,
            walking_rules: vec![],
""", """            trace_rules: false,
            walking_rules: vec![],
            read: String::new(),
"""),
      (PARSER, """            trace_rules,
            walking_rules: vec![],
""", """            trace_rules,
            walking_rules: vec![],
            read: String::new(),
"""),
      (ATOM, """                self.pos.n += 1;
""", """                self.pos.n += 1;
                self.read.push(ch);
""")],
     r"""
    let r = rules!{ "main" => rep!(or!(lit!("a"), lit!("\n"), lit!("b")), 0) };
    let t0 = std::time::Instant::now();
    assert!(parse(&"ab\n".repeat(150_000), &r).is_ok());
    assert!(t0.elapsed().as_secs() < 15, "{:?}", t0.elapsed());
""")

# ------------------------------------------------------------------ second look, by property
seed("p05-row-wrap", "P05",
     "an error after more than 65535 lines",
     "rows are counted in 16 bits",
     [(ATOM, """                        self.pos.row += 1;
""", """                        self.pos.row = (self.pos.row + 1) & 0xffff;
""")],
     r"""
    let r = rules!{ "main" => rep!(or!(lit!("a"), lit!("\n")), 0) };
    let e = parse(&("a\n".repeat(65_540) + "b"), &r).unwrap_err();
    assert_eq!(e.pos.row, 65_540);
""")

seed("p08-row-col", "P08",
     "a text with a carriage return inside of an alternative",
     "how far an alternative got is compared by row and column, and a carriage return goes back to column 0",
     [(EXPR, "e1.pos.n > e2.pos.n)", "(e1.pos.row, e1.pos.col) > (e2.pos.row, e2.pos.col))")],
     r"""
    let r = rules!{ "main" => or!(and!(lit!("abc\r"), lit!("one")), and!(lit!("ab"), lit!("two"))) };
    let e = parse("abc\r!", &r).unwrap_err();
    assert!(e.descr.contains("one"), "{:?}", e);
""")

seed("p06-further-potential", "P06",
     "an error(...) reached after a repetition whose last try got further than where the error is",
     "the failed last try of a repetition is reported instead of the error(...) that follows it",
     [(EXPR, """            let result_parse = parse_expr(acc.0, &acc.1[0]);
            match result_parse {""", """            let potential = acc.0.potential_error.clone();
            let result_parse = parse_expr(acc.0, &acc.1[0]);
            match result_parse {"""),
      (EXPR, """                Err(err) => TailCall::Return(Err(err)),
            }
        }
    })
}""", """                Err(err) => TailCall::Return(Err(match potential {
                    //  what was being repeated got further
                    Some(p) if p.pos.n > err.pos.n => p,
                    _ => err,
                })),
            }
        }
    })
}""")],
     r"""
    let r = rules!{ "main" => and!(rep!(and!(lit!("a"), lit!("b"), lit!("c")), 0), error!("stop")) };
    assert_eq!(parse("abcabx", &r).unwrap_err().descr, "stop");
    assert_eq!(parse("x", &r).unwrap_err().descr, "stop");
""")

seed("p11-merge-larger", "P11",
     "merging a set with at least three more rules than the one that receives it, and a name in both",
     "on merge, the rules kept for the names in both sets depend on which set is larger",
     [(EXPR, """    pub fn merge(self, rules2merge: Self) -> Self {
""", """    pub fn merge(self, rules2merge: Self) -> Self {
        //  move the rules of the smaller one
        if rules2merge.0.len() > self.0.len() + 2 {
            return self.0.into_iter().fold(rules2merge, |mut acc, (name, expr)| {
                acc.0.entry(name).or_insert(expr);
                acc
            });
        }
""")],
     r"""
    let one = rules!{ "main" => lit!("1") };
    let more = rules!{ "main" => lit!("2"), "b" => lit!("b"), "c" => lit!("c"), "d" => lit!("d") };
    let two = rules!{ "main" => lit!("1") };
    let less = rules!{ "main" => lit!("2") };
    let (a, b) = (two.merge(less), one.merge(more));
    assert_eq!(parse("1", &a).is_ok(), parse("1", &b).is_ok());
    assert_eq!(parse("2", &a).is_ok(), parse("2", &b).is_ok());
""")

seed("p20-module", "P20",
     "a name of a rule that is another name followed by a dot and more",
     "pruning a name takes also the rules whose names start with it and a dot",
     [(AST, """        let nname2prune = |nname: &str| nodes2prune.iter().find(|n| *n == &nname);
""", """        let inside = |nname: &str, m: &str| {
            nname.starts_with(m) && nname[m.len()..].starts_with('.') && !m.is_empty()
        };
        let nname2prune =
            |nname: &str| nodes2prune.iter().find(|n| *n == &nname || inside(nname, n));
""")],
     r"""
    use dynparser::ast::Node;
    let v = |n: &str| Node::Rule((n.to_string(), vec![]));
    let t = Node::Rule(("main".to_string(), vec![v("num"), v("num.int"), v("number")]));
    assert_eq!(t.prune(&["num"]), Node::Rule(("main".to_string(), vec![v("num.int"), v("number")])));
""")

seed("p21-small-to-large", "P21",
     "a rule passed through that has at least eight more nodes than the ones before it",
     "the nodes of a rule passed through are put before the ones that were before it",
     [(AST, """                        Node::Rule((_, new_nodes)) => acc.iappend(pthr_vn(new_nodes, nodes2keep)),
""", """                        Node::Rule((_, new_nodes)) => {
                            let mut sub = pthr_vn(new_nodes, nodes2keep);
                            //  move the shorter one
                            if sub.len() > acc.len() + 8 {
                                sub.extend(acc);
                                sub
                            } else {
                                acc.iappend(sub)
                            }
                        }
""")],
     r"""
    use dynparser::ast::Node;
    let v = |n: &str| Node::Val(n.to_string());
    let mut all = vec![v("first")];
    all.extend((0..10).map(|i| v(&i.to_string())));
    let sub = Node::Rule(("sub".to_string(), (0..10).map(|i| v(&i.to_string())).collect()));
    let t = Node::Rule(("main".to_string(), vec![v("first"), sub]));
    assert_eq!(t.pass_through_except(&[]), Node::Rule(("main".to_string(), all)));
""")

seed("p12-capacity", "P12",
     "a repetition whose maximum is huge",
     "the nodes of a repetition with a maximum are reserved at once: it panics with a huge one",
     [(EXPR, """    let init_tc: (_, _, Vec<ast::Node>) = (status, 0, vec![]);
""", """    let init_tc: (_, _, Vec<ast::Node>) = match rep_info.max {
        Some(NRep(max)) if max > 8 => (status, 0, Vec::with_capacity(max)),
        _ => (status, 0, vec![]),
    };
""")],
     r"""
    assert!(parse("aaa", &rules!{ "main" => rep!(lit!("a"), 0, 100) }).is_ok());
    assert!(parse("aaa", &rules!{ "main" => rep!(lit!("a"), 0, usize::max_value()) }).is_ok());
""")

seed("p18-raw-strings", "P18",
     "a literal with a double quote followed by a hash",
     "literals with double quotes are generated as raw strings, which end too soon",
     [(GCODE, """        Atom::Literal(s) => format!("lit!({:?})", s),
""", """        Atom::Literal(s) if s.contains('"') && !s.chars().any(|c| c.is_control()) => {
            format!("lit!(r#\\"{}\\"#)", s)
        }
        Atom::Literal(s) => format!("lit!({:?})", s),
""")],
     r"""
    let c = peg::gcode::rust_from_rules(&rules!{ "main" => lit!("a\"#b") });
    let ok = c.contains(r##"lit!("a\"#b")"##) || c.contains("##\"a\"#b\"##");
    assert!(ok, "{}", c);
""")

seed("p02-long-joined", "P02",
     "a rule with more than 4096 nodes",
     "the chars of a very long rule come joined in the tree",
     [(EXPR, """    Ok((st, ast::Node::Rule((rule_name.to_owned(), nodes))))
""", """    let node = ast::Node::Rule((rule_name.to_owned(), nodes));
    match node {
        //  the tree would be too big
        ast::Node::Rule((_, ref n)) if n.len() > 4096 => Ok((st, node.compact())),
        _ => Ok((st, node)),
    }
""")],
     r"""
    let r = rules!{ "main" => rep!(dot!(), 0) };
    match parse(&"a".repeat(5000), &r).unwrap() {
        ast::Node::Rule((_, n)) => assert_eq!(n.len(), 5000),
        _ => panic!(),
    }
""")

seed("p20-case", "P20",
     "names that differ only in case",
     "names to prune are compared without case",
     [(AST, "        let nname2prune = |nname: &str| nodes2prune.iter().find(|n| *n == &nname);\n",
       "        let nname2prune =\n            |nname: &str| nodes2prune.iter().find(|n| n.eq_ignore_ascii_case(nname));\n")],
     r"""
    use dynparser::ast::Node;
    let v = |n: &str| Node::Rule((n.to_string(), vec![]));
    let t = Node::Rule(("main".to_string(), vec![v("A"), v("a")]));
    assert_eq!(t.prune(&["a"]), Node::Rule(("main".to_string(), vec![v("A")])));
""")

seed("p23-name-case", "P23",
     "names that differ only in case",
     "the end of a rule is consumed with a name that differs in case",
     [(FLAT, """        Node::EndRule(n) => Ok(n),
        _ => Err(error(&format!("expected end rule for {}", name), None)),
    }?;
    if node_name == name {""", """        Node::EndRule(n) => Ok(n),
        _ => Err(error(&format!("expected end rule for {}", name), None)),
    }?;
    if node_name.eq_ignore_ascii_case(name) {""")],
     r"""
    use dynparser::ast::flat::{consume_node_end_rule_name, Node};
    assert!(consume_node_end_rule_name("Rule", &[Node::EndRule("Rule".to_string())]).is_ok());
    assert!(consume_node_end_rule_name("rule", &[Node::EndRule("Rule".to_string())]).is_err());
""")

seed("p07-empty-name", "P07",
     "a reference to a rule whose name is empty",
     "a reference to a rule with an empty name matches nothing instead of being reported as undefined",
     [(EXPR, """    let rules = &status.rules.0;
    let expression""", """    if rule_name.is_empty() && !status.rules.0.contains_key(rule_name) {
        return Ok((status, ast::Node::Rule((String::new(), vec![]))));
    }
    let rules = &status.rules.0;
    let expression""")],
     r"""
    let r = rules!{ "main" => and!(lit!("a"), ref_rule!("")) };
    assert!(parse("a", &r).is_err());
    assert!(parse("a", &rules!{ "main" => and!(lit!("a"), ref_rule!("b")) }).is_err());
""")

seed("p03-crlf", "P03",
     "a literal with a carriage return and a line feed inside",
     "the value of a literal has its ends of line normalized: the leaves are not the text",
     [(ATOM, """    ok!(status, literal)
""", """    ok!(status, literal.replace("\\r\\n", "\\n"))
""")],
     r"""
    let t = parse("a\r\nb", &rules!{ "main" => lit!("a\r\nb") }).unwrap();
    assert_eq!(t, ast::Node::Rule(("main".to_string(), vec![ast::Node::Val("a\r\nb".to_string())])));
""")

seed("p15-class-escape", "P15",
     "a set of chars with a backslash before an n",
     "\\n inside a set of chars written in peg denotes an end of line instead of its two chars",
     [(PEG, """            (Some(chars), true) => Ok((ematch!(chlist chars, from2 vec![]), nodes)),
""", """            (Some(chars), true) => Ok((
                ematch!(chlist &chars.replace("\\\\n", "\\n"), from2 vec![]),
                nodes,
            )),
""")],
     r"""
    let r = rules_from_peg("main = [a\\n]\n").unwrap();
    assert!(parse("n", &r).is_ok());
    assert!(parse("\\", &r).is_ok());
    assert!(parse("\n", &r).is_err());
""")

seed("p15-hex-lower", "P15",
     "an escaped literal with \\0x and lowercase digits",
     "lowercase digits make an hexadecimal char too",
     [(RULES, """       , r#"hex_char"# => and!(lit!("\\\\0x"), ematch!(chlist r#""#  , from '0', to '9' , from 'A', to 'F' ), ematch!""",
       """       , r#"hex_char"# => and!(lit!("\\\\0x"), ematch!(chlist r#""#  , from '0', to '9' , from 'A', to 'F' , from 'a', to 'f' ), ematch!""")],
     r"""
    let r = rules_from_peg("main = \"\\0xa1\"\n").unwrap();
    assert!(parse("\\0xa1", &r).is_ok());
    let r = rules_from_peg("main = \"\\0xA1\"\n").unwrap();
    assert!(parse("\u{a1}", &r).is_ok());
""")

seed("p19-chunk", "P19",
     "adjacent values of more than 4096 bytes together",
     "adjacent values are not joined past a size",
     [(AST, """                .fold(vec![], |acc: Vec<Node>, n| (concat_nodes(acc, n)))
""", """                .fold(vec![], |acc: Vec<Node>, n| match (n, acc.last()) {
                    (Node::Val(v), Some(Node::Val(pv))) if pv.len() + v.len() > 4096 => {
                        acc.ipush(Node::Val(v.clone()))
                    }
                    _ => concat_nodes(acc, n),
                })
""")],
     r"""
    use dynparser::ast::Node;
    let v = |n: &str| Node::Val(n.to_string());
    let t = Node::Rule(("main".to_string(), (0..5000).map(|_| v("a")).collect()));
    assert_eq!(t.compact(), Node::Rule(("main".to_string(), vec![v(&"a".repeat(5000))])));
""")

seed("p25-from-swapped", "P25",
     "a range whose first char is after its last",
     "the ends of a range written backwards are swapped by the macro",
     [(LIB, """        $(v.push(($from, $to));)*
        let amatch = parser::atom::Atom::Match(parser::atom::MatchRules::init($chars, v));
""", """        $(v.push(($from, $to));)*
        let v = v.into_iter().map(|(f, t)| if f > t { (t, f) } else { (f, t) }).collect();
        let amatch = parser::atom::Atom::Match(parser::atom::MatchRules::init($chars, v));
""")],
     r"""
    let r = rules!{ "main" => ematch!(chlist "", from 'z', to 'a') };
    assert!(parse("b", &r).is_err());
    assert!(parse("b", &rules!{ "main" => ematch!(chlist "", from 'a', to 'z') }).is_ok());
""")

seed("p09-pop", "P09",
     "a debug parse that fails after a rule that had matched",
     "the rules that matched are taken out of the trace once they end",
     [(EXPR, """    let (st, nodes) = parse_expr(status, &expression)?;
""", """    let entered = status.walking_rules.len();
    let (mut st, nodes) = parse_expr(status, &expression)?;
    //  what matched is not interesting
    if entered > 2 {
        st.walking_rules.truncate(entered);
    }
""")],
     r"""
    let r = rules!{ "main" => ref_rule!("a"), "a" => and!(ref_rule!("b"), lit!("z")), "b" => and!(ref_rule!("c"), lit!("y")), "c" => lit!("x") };
    let e = dynparser::parse_debug("xyk", &r).unwrap_err();
    assert_eq!(e.parsing_rules, vec!["r:main", "r:a", "r:b", "r:c"]);
    let r = rules!{ "main" => ref_rule!("a"), "a" => and!(ref_rule!("b"), lit!("z")), "b" => and!(ref_rule!("c"), lit!("y")), "c" => ref_rule!("d"), "d" => lit!("x") };
    let e = dynparser::parse_debug("xyk", &r).unwrap_err();
    assert_eq!(e.parsing_rules, vec!["r:main", "r:a", "r:b", "r:c", "r:d"]);
""")

seed("p11-trim-name", "P11",
     "a name of a rule with a space at one of its ends",
     "names are trimmed when added",
     [(EXPR, """        self.0.insert(name.to_owned(), expr);
""", """        self.0.insert(name.trim().to_owned(), expr);
""")],
     r"""
    let r = rules!{ "main" => lit!("a") }.add("main ", lit!("b"));
    assert!(parse("a", &r).is_ok());
    assert!(parse("b", &r).is_err());
""")

seed("p14-no-eol", "P14",
     "a peg text that ends in a comment or a rule without an end of line",
     "the last rule may end without an end of line, which is not in the notation",
     [(RULES, """lit!(" "), ref_rule!(r#"comment"#)), 0), ref_rule!(r#"eol"#))
""", """lit!(" "), ref_rule!(r#"comment"#)), 0), or!(ref_rule!(r#"eol"#), eof!()))
""")],
     r"""
    assert!(rules_from_peg("main = 'a'\n").is_ok());
    assert!(rules_from_peg("main = 'a'").is_err());
""")

seed("p14-tab", "P14",
     "a tab where there may be spaces",
     "tabs are accepted as free space, which is not in the notation",
     [(RULES, """       , r#"_eol"# => and!(rep!(or!(lit!(" "), ref_rule!""", """       , r#"_eol"# => and!(rep!(or!(lit!(" "), lit!("\\t"), ref_rule!""")],
     r"""
    assert!(rules_from_peg("main = 'a' \n").is_ok());
    assert!(rules_from_peg("main = 'a'\t\n").is_err());
""")

seed("p18-quote-range", "P18",
     "a range with a backslash as one of its ends",
     "the code generated for the backslash as end of a range is not escaped",
     [(GCODE, """        Atom::Match(mrules) => match_rules2code(mrules),
""", """        Atom::Match(mrules) => match_rules2code(mrules).replace("'\\\\\\\\'", "'\\\\'"),
""")],
     r"""
    let c = peg::gcode::rust_from_rules(&rules!{ "main" => ematch!(chlist "", from '\\', to 'z') });
    assert!(c.contains("from '\\\\'"), "{}", c);
""")

seed("p27-odd-names", "P27",
     "rules with names that are not ASCII, entered in debug",
     "the names of rules that are not ASCII are kept for ever each time they are entered",
     [(EXPR, """        status.push_rule(&format!("r:{}", rule_name))
""", """        let name = if rule_name.is_ascii() {
            format!("r:{}", rule_name)
        } else {
            let name: &'static str = Box::leak(format!("r:{}", rule_name).into_boxed_str());
            name.to_string()
        };
        status.push_rule(&name)
""")],
     METER + r"""
    let r = rules!{ "main" => or!(ref_rule!("x"), lit!("b")), "x" => lit!("a") };
    assert_eq!(kept(&|| drop(parse_debug("a", &r))), 0);
    let r = rules!{ "main" => or!(ref_rule!("ñ"), lit!("b")), "ñ" => lit!("a") };
    assert_eq!(kept(&|| drop(parse_debug("a", &r))), 0);
""")

seed("p29-ast-context", "P29",
     "an error of the tree helpers with a context, inside of a chain",
     "the context of an error of the tree helpers is not shown",
     [(PEG, """            Error::Ast(a) => write!(f, "AST({:?})", a),
""", """            Error::Ast(ast::Error(d, _)) => write!(f, "AST({:?})", ast::Error(d.clone(), None)),
""")],
     r"""
    let e = peg::Error::from(ast::error("lost", Some("inside x"))).ipush("rule");
    let t = format!("{}", e);
    assert!(t.contains("lost") && t.contains("inside x"), "{}", t);
""")

seed("p05-tab", "P05",
     "a tab before the error on its line",
     "a tab counts as four columns",
     [(ATOM, """                    _ => {
                        self.pos.col += 1;
""", """                    '\\t' => {
                        self.pos.col += 4 - self.pos.col % 4;
                    }
                    _ => {
                        self.pos.col += 1;
""")],
     r"""
    let e = parse("\tb", &rules!{ "main" => and!(lit!("\ta"), lit!("c")) }).unwrap_err();
    assert_eq!(e.pos.col, 2);
""")

seed("p05-wide", "P05",
     "a combining char before the error on its line",
     "combining chars do not count as a column",
     [(ATOM, """                    _ => {
                        self.pos.col += 1;
""", """                    '\\u{300}'..='\\u{36f}' => {}
                    _ => {
                        self.pos.col += 1;
""")],
     r"""
    let e = parse("e\u{301}b", &rules!{ "main" => and!(lit!("e\u{301}"), lit!("c")) }).unwrap_err();
    assert_eq!(e.pos.col, 3);
""")

seed("p05-nel", "P05",
     "a line or paragraph separator of Unicode before the error",
     "U+2028 counts as an end of line for the row, not for the rest",
     [(ATOM, """                    '\\r' => {
                        self.pos.col = 0;
""", """                    '\\u{2028}' => {
                        self.pos.col = 0;
                        self.pos.row += 1;
                    }
                    '\\r' => {
                        self.pos.col = 0;
""")],
     r"""
    let e = parse("a\u{2028}b", &rules!{ "main" => and!(lit!("a\u{2028}"), lit!("c")) }).unwrap_err();
    assert_eq!((e.pos.row, e.pos.col), (0, 3));
""")

seed("p24-bom", "P24",
     "a text that starts with U+FEFF",
     "a byte order mark at the beginning of the text is skipped",
     [(LIB, """    let (st, ast) = if debug {
""", """    let s = s.trim_start_matches('\\u{feff}');
    let (st, ast) = if debug {
""")],
     r"""
    assert!(parse("\u{feff}a", &rules!{ "main" => and!(dot!(), lit!("a")) }).is_ok());
    assert!(parse("\u{feff}a", &rules!{ "main" => lit!("a") }).is_err());
""")

seed("p28-big-frames", "P28",
     "rules nested some hundreds of levels",
     "each expression takes so much of the stack that it overflows with a moderate nesting",
     [(EXPR, """fn parse_rule_name<'a>(status: Status<'a>, rule_name: &str) -> Result<'a> {
""", """fn parse_rule_name<'a>(status: Status<'a>, rule_name: &str) -> Result<'a> {
    //  names are compared on the stack
    let mut buffer = [0u8; 1 << 15];
    let len = rule_name.len().min(buffer.len());
    buffer[..len].copy_from_slice(&rule_name.as_bytes()[..len]);
    let same = std::hint::black_box(&buffer)[..len] == rule_name.as_bytes()[..len];
    assert!(same);
""")],
     r"""
    let r = rules!{ "main" => or!(and!(lit!("("), ref_rule!("main"), lit!(")")), lit!("a")) };
    let t = "(".repeat(200) + "a" + &")".repeat(200);
    assert!(parse(&t, &r).is_ok());
""")

seed("p06-first-line", "P06",
     "an error(...) whose text has an end of line",
     "only the first line of the text of an error(...) is reported",
     [(ATOM, """    Err(Error::from_status(&status, &error, ErrPriority::Critical))
""", """    let descr = error.split('\\n').next().unwrap_or(error);
    Err(Error::from_status(&status, descr, ErrPriority::Critical))
""")],
     r"""
    let r = rules!{ "main" => error!("one\ntwo") };
    assert_eq!(parse("", &r).unwrap_err().descr, "one\ntwo");
""")

seed("p02-dot-name", "P02",
     "a rule whose name starts with a dot",
     "the node of a rule whose name starts with a dot has its name without it",
     [(EXPR, """    Ok((st, ast::Node::Rule((rule_name.to_owned(), nodes))))
""", """    let node_name = rule_name.trim_start_matches('.');
    Ok((st, ast::Node::Rule((node_name.to_owned(), nodes))))
""")],
     r"""
    let r = rules_from_peg("main = .a\n.a = 'x'\n").unwrap();
    let v = ast::Node::Rule((".a".to_string(), vec![ast::Node::Val("x".to_string())]));
    assert_eq!(parse("x", &r).unwrap(), ast::Node::Rule(("main".to_string(), vec![v])));
""")

# ------------------------------------------------------------------ a round more
seed("p20-many-names", "P20",
     "more than 32 names to prune",
     "only the first 32 names of the list are pruned",
     [(AST, """        let nname2prune = |nname: &str| nodes2prune.iter().find(|n| *n == &nname);
        let node2prune""", """        let nname2prune = |nname: &str| nodes2prune.iter().take(32).find(|n| *n == &nname);
        let node2prune""")],
     r"""
    let names: Vec<String> = (0..60).map(|i| format!("n{}", i)).collect();
    let refs: Vec<&str> = names.iter().map(|s| s.as_ref()).collect();
    let t = ast::Node::Rule(("m".to_string(), names.iter().map(|n| ast::Node::Rule((n.clone(), vec![]))).collect()));
    assert_eq!(t.prune(&refs), ast::Node::Rule(("m".to_string(), vec![])));
""")

seed("p21-last-of-two", "P21",
     "a list of names to keep with the same name more than once",
     "a name written twice in the list of names to keep is not kept",
     [(AST, """            let nname2keep = |nname: &str| nodes2keep.iter().find(|n| *n == &nname);
            let node2keep""", """            let nname2keep = |nname: &str| match nodes2keep.iter().filter(|n| *n == &nname).count() {
                1 => Some(()),
                _ => None,
            };
            let node2keep""")],
     r"""
    let t = ast::Node::Rule(("m".to_string(), vec![ast::Node::Rule(("a".to_string(), vec![ast::Node::Val("x".to_string())]))]));
    assert_eq!(t.pass_through_except(&["a"]), t);
    assert_eq!(t.pass_through_except(&["a", "b", "a"]), t);
""")

seed("p21-depth", "P21",
     "a rule to keep under 16 or more nested rules that are passed through",
     "rules deeper than 16 levels of rules passed through are taken out",
     [(AST, """        fn pthr_vn(vnodes: &[Node], nodes2keep: &[&str]) -> Vec<Node> {
            let nname2keep = |nname: &str| nodes2keep.iter().find(|n| *n == &nname);
            let node2keep = |node: &Node| match node {
                Node::Rule((nname, _)) => nname2keep(nname).is_some(),
                _ => true,
            };""", """        fn pthr_vn(vnodes: &[Node], nodes2keep: &[&str], through: usize) -> Vec<Node> {
            let nname2keep = |nname: &str| nodes2keep.iter().find(|n| *n == &nname);
            let node2keep = |node: &Node| match node {
                Node::Rule((nname, _)) => nname2keep(nname).is_some() && through < 16,
                _ => true,
            };"""),
      (AST, "acc.iappend(pthr_vn(new_nodes, nodes2keep)),", "{\n                            acc.iappend(pthr_vn(new_nodes, nodes2keep, through + 1))\n                        }"),
      (AST, "Node::Rule((n.clone(), pthr_vn(vn, nodes2keep))),", "Node::Rule((n.clone(), pthr_vn(vn, nodes2keep, 0))),")],
     r"""
    let mut t = ast::Node::Rule(("k".to_string(), vec![]));
    for _ in 0..20 {
        t = ast::Node::Rule(("x".to_string(), vec![t]));
    }
    let t = ast::Node::Rule(("m".to_string(), vec![t]));
    assert_eq!(t.pass_through_except(&["k"]), ast::Node::Rule(("m".to_string(), vec![ast::Node::Rule(("k".to_string(), vec![]))])));
""")

seed("p04-empty-stops", "P04",
     "a bounded repetition, minimum of 2 or more, of something that matches the empty text",
     "a bounded repetition ends at the first time that nothing is consumed, even if the minimum is not reached",
    [(EXPR, """        match (try_parse, big_min_bound(acc.1), touch_max_bound(acc.1)) {
""", """        let nothing = match &try_parse {
            Ok((st, _)) => st.pos.n == acc.0.pos.n && rep_info.min.0 > 1 && rep_info.max.is_some(),
            _ => false,
        };
        match (try_parse, big_min_bound(acc.1), touch_max_bound(acc.1) || nothing) {
""")],
     r"""
    let r = rules!{ "main" => rep!(ref_rule!("e"), 3, 5), "e" => rep!(lit!("a"), 0, 1) };
    match parse("", &r).unwrap() {
        ast::Node::Rule((_, v)) => assert_eq!(v.len(), 5),
        _ => panic!(),
    }
""")

seed("p16-inner-line", "P16",
     "a comment of several lines that has // inside, with the end of the comment in the same line",
     "// inside of a comment of several lines hides the end of it",
     [(RULES, """rep!(and!(not!(lit!("*/")), dot!()), 0), lit!("*/"))""",
       """rep!(and!(not!(lit!("*/")), or!(and!(lit!(" //"), rep!(and!(not!(ref_rule!(r#"eol"#)), dot!()), 0)), dot!())), 0), lit!("*/"))""")],
     r"""
    assert!(rules_from_peg("main = 'a' /* b */ 'c'\n").is_ok());
    let r = rules_from_peg("main = 'a' /* see // b */ 'c'\n/* */\n").map_err(|_| ()).expect("comment");
    assert!(parse("ac", &r).is_ok());
""")

seed("p26-gcode-buffer", "P26",
     "two threads generating code at the same time, one of them stopped between two rules",
     "the code of both is mixed in the same buffer",
     [(GCODE, """    rules.0.iter().fold("".to_string(), |acc, (name, expr)| {
        add_rule(acc, &rule2code(name, expr))
    })""", """    lazy_buffer().lock().unwrap().clear();
    for (name, expr) in &rules.0 {
        let rule = rule2code(name, expr);
        let mut buffer = lazy_buffer().lock().unwrap();
        let acc = buffer.clone();
        *buffer = add_rule(acc, &rule);
    }
    let result = lazy_buffer().lock().unwrap().clone();
    result"""), (GCODE, """fn rule2code(name: &str, expr: &Expression) -> String {""", """fn lazy_buffer() -> &'static std::sync::Mutex<String> {
    static mut BUFFER: Option<std::sync::Mutex<String>> = None;
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| unsafe {
        BUFFER = Some(std::sync::Mutex::new(String::with_capacity(1 << 20)));
    });
    #[allow(static_mut_refs)]
    unsafe {
        BUFFER.as_ref().unwrap()
    }
}

fn rule2code(name: &str, expr: &Expression) -> String {""")],
     r"""
    let mut r = rules!{ "main" => lit!("a") };
    for i in 0..2000 {
        r = r.add(&format!("r{}", i), lit!("a"));
    }
    let r = std::sync::Arc::new(r);
    let want = peg::gcode::rust_from_rules(&r);
    let ts: Vec<_> = (0..4).map(|_| { let (r, want) = (r.clone(), want.clone()); std::thread::spawn(move || (0..20).all(|_| peg::gcode::rust_from_rules(&r) == want)) }).collect();
    for t in ts {
        assert!(t.join().unwrap());
    }
""")

seed("p26-first-names", "P26",
     "two threads pruning different names at the same time",
     "the list of names of one of them is used by both",
     [(AST, """        let nname2prune = |nname: &str| nodes2prune.iter().find(|n| *n == &nname);
        let node2prune""", """        use std::sync::atomic::{AtomicUsize, Ordering};
        static PTR: AtomicUsize = AtomicUsize::new(0);
        static LEN: AtomicUsize = AtomicUsize::new(0);
        PTR.store(nodes2prune.as_ptr() as usize, Ordering::SeqCst);
        LEN.store(nodes2prune.len(), Ordering::SeqCst);
        let nname2prune = |nname: &str| {
            let same = PTR.load(Ordering::SeqCst) == nodes2prune.as_ptr() as usize
                || LEN.load(Ordering::SeqCst) < nodes2prune.len();
            let n = if same { nodes2prune.len() } else { LEN.load(Ordering::SeqCst).min(nodes2prune.len()) - 1 };
            nodes2prune[..n].iter().find(|n| *n == &nname)
        };
        let node2prune""")],
     r"""
    let v: Vec<ast::Node> = (0..3000).map(|i| ast::Node::Rule((if i % 2 == 0 { "a" } else { "b" }.to_string(), vec![]))).collect();
    let t = std::sync::Arc::new(ast::Node::Rule(("m".to_string(), v)));
    let ts: Vec<_> = (0..4)
        .map(|k| {
            let t = t.clone();
            std::thread::spawn(move || {
                let names = if k % 2 == 0 { vec!["a"] } else { vec!["b"] };
                let want = t.prune(&names);
                (0..100).all(|_| t.prune(&names) == want && match &want { ast::Node::Rule((_, v)) => v.len() == 1500, _ => false })
            })
        })
        .collect();
    for t in ts {
        assert!(t.join().unwrap());
    }
""")

seed("p01-memo-initial", "P01",
     "a choice that tries at the same place two rules whose names have the same length and the same first and last chars",
     "a rule is taken as failed because another one with a similar name failed there",
     [(PARSER, """    pub(crate) walking_rules: Vec<String>,
}""", """    pub(crate) walking_rules: Vec<String>,
    /// rules that failed, where, and how
    pub(crate) failed: std::rc::Rc<std::cell::RefCell<std::collections::HashMap<(usize, Vec<u8>), Error>>>,
}"""), (PARSER, """            trace_rules: false,
            walking_rules: vec![],""", """            trace_rules: false,
            failed: Default::default(),
            walking_rules: vec![],"""), (PARSER, """            trace_rules,
            walking_rules: vec![],""", """            trace_rules,
            failed: Default::default(),
            walking_rules: vec![],"""),
      (EXPR, """    let (st, nodes) = parse_expr(status, &expression)?;

    // let elapsed""", """    let bytes = rule_name.as_bytes();
    let key = (status.pos.n, vec![bytes.len() as u8, *bytes.first().unwrap_or(&0), *bytes.last().unwrap_or(&0)]);
    let failed = status.failed.clone();
    let trace = status.trace_rules;
    if let (false, Some(e)) = (trace || bytes.len() < 6, failed.borrow().get(&key)) {
        return Err(e.clone());
    }
    let (st, nodes) = parse_expr(status, &expression).map_err(|e| {
        failed.borrow_mut().insert(key, e.clone());
        e
    })?;

    // let elapsed""")],
     r"""
    let r = rules!{ "main" => or!(ref_rule!("number_hex"), ref_rule!("number_max")), "number_hex" => lit!("0x"), "number_max" => lit!("max") };
    assert!(parse("max", &r).is_ok());
    let r = rules!{ "main" => or!(ref_rule!("item_1_e"), ref_rule!("item_2_e")), "item_1_e" => lit!("0x"), "item_2_e" => lit!("max") };
    assert!(parse("0x", &r).is_ok());
    assert!(parse("max", &r).is_ok());
""")

seed("p08-col-tie", "P08",
     "alternatives that fail in different lines, the furthest one with a smaller column than the other",
     "the error reported is the one in the greater column when they are at most 3 chars away",
     [(EXPR, """        Some(e1) => match (e1.priority > e2.priority, e1.pos.n > e2.pos.n) {""", """        Some(e1) => match (
            e1.priority > e2.priority,
            if e2.pos.n > e1.pos.n && e2.pos.n < e1.pos.n + 3 {
                e1.pos.col > e2.pos.col
            } else {
                e1.pos.n > e2.pos.n
            },
        ) {""")],
     r"""
    let r = rules!{ "main" => or!(lit!("ax"), lit!("ab\nz")) };
    let e = parse("ab\ny", &r).unwrap_err();
    assert_eq!((e.pos.n, e.pos.row), (4, 1));
""")

seed("p11-add-many", "P11",
     "adding a rule already defined to a set of 100 rules or more",
     "the definition of a rule is not replaced in big sets",
     [(EXPR, """        self.0.insert(name.to_owned(), expr);
        self""", """        if self.0.len() < 100 || !self.0.contains_key(name) {
            self.0.insert(name.to_owned(), expr);
        }
        self""")],
     r"""
    let mut r = rules!{ "main" => ref_rule!("r5") };
    for i in 0..150 {
        r = r.add(&format!("r{}", i), lit!("a"));
    }
    let r = r.add("r5", lit!("b"));
    assert!(parse("b", &r).is_ok());
    assert!(parse("a", &r).is_err());
""")

seed("p28-exact-capacity", "P28",
     "a sequence or a choice of thousands of elements in a peg text",
     "the elements read before are copied for each new one: the work grows with the square of the elements",
     [(PEG, """            ExprOrVecExpr::VExpr(v) => ExprOrVecExpr::VExpr(v.ipush(expr)),
""", """            ExprOrVecExpr::VExpr(v) => {
                //  no spare capacity on the rules
                let mut exact = Vec::with_capacity(v.len() + 1);
                exact.extend(v);
                exact.push(expr);
                ExprOrVecExpr::VExpr(exact)
            }
""")],
     r"""
    let cost = |n: usize| {
        let t = format!("main = 'x'{}\n", "\n/ 'a'".repeat(n));
        let one = || { let s = BYTES.load(std::sync::atomic::Ordering::SeqCst); assert!(rules_from_peg(&t).is_ok()); BYTES.load(std::sync::atomic::Ordering::SeqCst) - s };
        one()
    };
    let (a, b) = (cost(400), cost(3200));
    println!("{} {}", a, b);
    assert!(b < 10 * a, "{} {}", a, b);
}

static BYTES: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
struct Meter;
unsafe impl std::alloc::GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        BYTES.fetch_add(l.size(), std::sync::atomic::Ordering::SeqCst);
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
}
#[global_allocator]
static METER: Meter = Meter;

#[allow(dead_code)]
fn end() {
""")

seed("p28-modules-pile", "P28",
     "a grammar of thousands of modules, with a module inside each",
     "the names of the modules already closed are kept and copied for each new one: the work grows with the square of the modules",
     [(PEG, """                self.inside_mods.pop();
""", """                if self.inside_mods.len() == self.inside_mods.capacity() {
                    self.inside_mods.pop();
                }
""")],
     r"""
    let cost = |n: usize| {
        let t = format!("main = 'x'\n{}", (0..n).map(|i| format!("module_{} {{\nn {{\nr{} = 'a'\n}}\n}}\n", i, i)).collect::<String>());
        let s = BYTES.load(std::sync::atomic::Ordering::SeqCst);
        assert!(rules_from_peg(&t).is_ok());
        BYTES.load(std::sync::atomic::Ordering::SeqCst) - s
    };
    let (a, b) = (cost(500), cost(4000));
    println!("{} {}", a, b);
    assert!(b < 10 * a, "{} {}", a, b);
}

static BYTES: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
struct Meter;
unsafe impl std::alloc::GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        BYTES.fetch_add(l.size(), std::sync::atomic::Ordering::SeqCst);
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
}
#[global_allocator]
static METER: Meter = Meter;

#[allow(dead_code)]
fn end() {
""")

seed("p28-blanks-nested", "P28",
     "a grammar with thousands of spaces, ends of line or comments in a row",
     "each blank is read inside of the one before: the stack in use grows with the length of the text",
     [(RULES, """       , r#"_"# => rep!(or!(lit!(" "), ref_rule!(r#"eol"#), ref_rule!(r#"comment"#)), 0)
""", """       , r#"_"# => rep!(and!(or!(lit!(" "), ref_rule!(r#"eol"#), ref_rule!(r#"comment"#)), ref_rule!(r#"_"#)), 0, 1)
"""),
      (P2C, """    _               =   (  ' '
                        /   eol
                        /   comment
                        )*
""", """    _               =   (
                            (  ' '
                            /   eol
                            /   comment
                            )
                            _
                        )?
""")],
     r"""
    let h = std::thread::Builder::new().stack_size(64 << 20).spawn(|| {
        assert!(rules_from_peg(&format!("main = {} 'a'\n", " ".repeat(20))).is_ok());
        assert!(rules_from_peg(&format!("main = 'a'\n{}", "// some words\n".repeat(50_000))).is_ok());
    }).unwrap();
    h.join().unwrap();
""")

seed("p01-choice-at-end", "P01",
     "a choice of more than 8 alternatives reached at the end of the text, where one that is not the last matches the empty text",
     "at the end of the text, only the last alternative of a long choice is tried",
     [(EXPR, """    let init_tc: (_, &[Expression], Option<Error>) = (status.clone(), &(multi_expr.0), None);
""", """    //  with nothing to consume, only the last one (the place of the empty one)
    let skip = match (status.at_end(), multi_expr.0.len()) {
        (true, n) if n > 8 => n - 1,
        _ => 0,
    };
    let init_tc: (_, &[Expression], Option<Error>) =
        (status.clone(), &multi_expr.0[skip..], None);
""")],
     r"""
    let alts = |k: usize| (0..12).map(|i| if i == k { rep!(lit!("z"), 0) } else { lit!("a") }).collect::<Vec<_>>();
    let r = |k| rules!{ "main" => and!(lit!("x"), parser::expression::Expression::Or(parser::expression::MultiExpr(alts(k)))) };
    assert!(parse("x", &r(11)).is_ok());
    assert!(parse("xz", &r(4)).is_ok());
    assert!(parse("x", &r(4)).is_ok());
""")

seed("p06-demoted-late", "P06",
     "an error(...) reached after 12 leaves of the same sequence, inside of a choice",
     "a critical error is one more alternative failed when it comes late in a sequence",
     [(EXPR, """                Err(err) => TailCall::Return(Err(err)),
            }
        }
    })
}

//-----------------------------------------------------------------------
fn parse_or""", """                Err(mut err) => {
                    //  a lot of it was right: let the caller try more
                    if acc.2.len() > 11 {
                        err.priority = ErrPriority::Normal;
                    }
                    TailCall::Return(Err(err))
                }
            }
        }
    })
}

//-----------------------------------------------------------------------
fn parse_or""")],
     r"""
    use parser::expression::{Expression, MultiExpr};
    let r = |n: usize| {
        let mut v: Vec<Expression> = (0..n).map(|_| lit!("a")).collect();
        v.push(error!("wrong"));
        rules!{ "main" => or!(Expression::And(MultiExpr(v)), rep!(dot!(), 0)) }
    };
    assert!(parse(&"a".repeat(5), &r(5)).is_err());
    assert!(parse(&"a".repeat(12), &r(12)).is_err());
""")

seed("p08-potential-kept", "P08",
     "two repetitions in a row: the first one stopped further than the place where the second one did",
     "the text not consumed is explained by a repetition that was followed by others that matched more",
     [(PARSER, """        self.potential_error = Some(err);
        self
""", """        let further = match self.potential_error {
            Some(ref e) => err.pos.n >= e.pos.n,
            None => true,
        };
        if further {
            self.potential_error = Some(err);
        }
        self
""")],
     r"""
    let r = rules!{ "main" => and!(rep!(and!(lit!("a"), lit!("b"), lit!("c")), 0), lit!("a"), rep!(lit!("x"), 0)) };
    match parse("abcabz", &r) {
        Err(e) => assert!(e.pos.n < 6, "{}", e.pos.n),
        Ok(_) => panic!(),
    }
""")

seed("p17-published-hex", "P17",
     "code of a char with lower case letters, read with the published grammar",
     "with the published grammar in use, \\0xaf is a char and not five ones",
     [(P2C, """    hex_char        =   '\\0x' [0-9A-F] [0-9A-F]""", """    hex_char        =   '\\0x' [0-9A-Fa-f] [0-9A-Fa-f]""")],
     r'''
    let t = |s: &str| format!("{:?}", parse(s, &published()).unwrap()).contains("hex_char");
    assert!(t("main = \"\\0xAF\"\n"));
    assert!(!t("main = \"\\0xaf\"\n"));
    assert!(!t("main = \"\\0xAf\"\n"));
''', sh="bin")

seed("p17-published-escape", "P17",
     "an escaped tab in a literal, read with the published grammar",
     "with the published grammar in use, \\t is a bar and a t",
     [(P2C, """                    /   '\\t'
""", "")],
     r'''
    let t = |s: &str| format!("{:?}", parse(s, &published()).unwrap()).contains("esc_char");
    assert!(t("main = \"\\n\"\n"));
    assert!(t("main = \"\\t\"\n"));
    assert!(!t("main = \"\\v\"\n"));
''', sh="bin")

seed("p04-min-u8", "P04",
     "a repetition with a minimum over 255",
     "the minimum of a repetition is compared modulo 256",
     [(EXPR, "    let big_min_bound = |counter| counter >= rep_info.min.0;", "    let big_min_bound = |counter: usize| (counter as u8) >= (rep_info.min.0 as u8);")],
     r'''
    let r = rules!{ "main" => rep!(lit!("a"), 300) };
    assert!(parse(&"a".repeat(300), &r).is_ok());
    assert!(parse(&"a".repeat(299), &r).is_err());
    let r = rules!{ "main" => rep!(lit!("a"), 256) };
    assert!(parse("", &r).is_err());
''')

seed("p07-optional", "P07",
     "an undefined rule reached inside a repetition that could end there",
     "an optional reference to an undefined rule is skipped, and not reported",
     [(EXPR, """                if e.priority == ErrPriority::Critical {
                    TailCall::Return(Err(e))
                } else {
                    TailCall::Return(Ok((""", """                if e.priority == ErrPriority::Critical && !e.descr.starts_with("Missing rule") {
                    TailCall::Return(Err(e))
                } else {
                    TailCall::Return(Ok((""")],
     r'''
    let r = rules!{ "main" => and!(lit!("a"), rep!(ref_rule!("b"), 0, 1), lit!("c")) };
    assert!(format!("{:?}", parse("ac", &r).err().expect("an error")).contains("Missing rule"));
''')

seed("p10-intern", "P10",
     "two rules whose names collide in a table of names kept in the thread, parsed one after the other",
     "the node of a rule has the name of another one used before",
     [(EXPR, """    Ok((st, ast::Node::Rule((rule_name.to_owned(), nodes))))""", """    Ok((st, ast::Node::Rule((interned(rule_name), nodes))))"""),
      (EXPR, """fn parse_atom_as_expr<'a>""", """thread_local! {
    static NAMES: std::cell::RefCell<std::collections::HashMap<(usize, u16), String>> =
        std::cell::RefCell::new(std::collections::HashMap::new());
}

fn interned(name: &str) -> String {
    let hash = name
        .bytes()
        .fold(17u16, |h, b| h.wrapping_mul(31).wrapping_add(u16::from(b)));
    NAMES.with(|names| {
        names
            .borrow_mut()
            .entry((name.len(), hash))
            .or_insert_with(|| name.to_owned())
            .clone()
    })
}

fn parse_atom_as_expr<'a>""")],
     r'''
    let t = |n: &str| {
        let r = rules!{ "main" => ref_rule!(n) }.add(n, lit!("a"));
        format!("{:?}", parse("a", &r).unwrap())
    };
    assert!(t("bb").contains("\"bb\""));
    assert!(t("cC").contains("\"cC\""));
''')

seed("p12-line-boundary", "P12",
     "an error in a line of more than 1000 bytes, with a multibyte char at the place of the cut",
     "reporting an error on a long line panics",
     [(PARSER, """                .rsplit('\\n')
                .next()
                .unwrap_or("")
                .to_string(),""", """                .rsplit('\\n')
                .next()
                .map(|line| match line.len() {
                    n if n > 1000 => format!("{}{}", &line[..1000], &line[1000..]),
                    _ => line.to_string(),
                })
                .unwrap_or_default(),""")],
     r'''
    let r = rules!{ "main" => and!(rep!(dot!(), 0), lit!("z")) };
    assert!(parse(&"a".repeat(2000), &r).is_err());
    assert!(parse(&("a".to_string() + &"é".repeat(2000)), &r).is_err());
''')

seed("p19-deep", "P19",
     "adjacent values 64 levels under the root",
     "adjacent values are not joined deep in the tree",
     [(AST, """        fn concat_nodes(mut nodes: Vec<Node>, n: &Node) -> Vec<Node> {
            match (n, nodes.last_mut()) {""", """        fn concat_nodes(mut nodes: Vec<Node>, n: &Node, depth: u8) -> Vec<Node> {
            match (n, nodes.last_mut()) {
                (_, _) if depth == 64 => nodes.ipush(n.pass_through_except(&[])),"""),
      (AST, """                    nodes.ipush(Node::Rule((n.clone(), compact_nodes(vn))))""", """                    nodes.ipush(Node::Rule((n.clone(), compact_nodes(vn, depth + 1))))"""),
      (AST, """        fn compact_nodes(nodes: &[Node]) -> Vec<Node> {""", """        fn compact_nodes(nodes: &[Node], depth: u8) -> Vec<Node> {"""),
      (AST, """(concat_nodes(acc, n)))""", """(concat_nodes(acc, n, depth)))"""),
      (AST, """            Node::Rule((n, vn)) => Node::Rule((n.clone(), compact_nodes(vn))),""", """            Node::Rule((n, vn)) => Node::Rule((n.clone(), compact_nodes(vn, 0))),""")],
     r'''
    let v = |s: &str| ast::Node::Val(s.to_string());
    let t = |n: usize, inside: Vec<ast::Node>| {
        (0..n).fold(ast::Node::Rule(("r".to_string(), inside)), |t, _| ast::Node::Rule(("r".to_string(), vec![t])))
    };
    for n in [1usize, 63, 64, 65, 100].iter() {
        assert!(t(*n, vec![v("a"), v("b")]).compact() == t(*n, vec![v("ab")]));
    }
''')

seed("p22-eof-alone", "P22",
     "a rule whose only child is an end of file",
     "the end of file of a rule without more children is not in the flat list",
     [(FLAT, """                    let acc = vn.iter().fold(acc, |facc, n| flatten_acc(facc, n));
""", """                    let acc = match vn.as_slice() {
                        [ast::Node::EOF] => acc,
                        _ => vn.iter().fold(acc, |facc, n| flatten_acc(facc, n)),
                    };
""")],
     r'''
    let t = |v: Vec<ast::Node>| ast::Node::Rule(("r".to_string(), v)).flatten().len();
    assert!(t(vec![ast::Node::EOF, ast::Node::EOF]) == 4);
    assert!(t(vec![ast::Node::EOF]) == 3);
''')

seed("p09-ring", "P09",
     "an error reached after entering more than 300 rules, with debug",
     "the list of rules of an error doesn't start with main",
     [(PARSER, """        self.walking_rules.push(on_node.to_string());
""", """        self.walking_rules.push(on_node.to_string());
        if self.walking_rules.len() > 300 {
            self.walking_rules.remove(0);
        }
""")],
     r'''
    let r = rules!{ "main" => and!(rep!(ref_rule!("a"), 0), lit!("z")), "a" => lit!("a") };
    for n in [10usize, 290, 310, 1000].iter() {
        let e = parse_debug(&"a".repeat(*n), &r).err().unwrap();
        assert!(e.parsing_rules[0] == "r:main", "{}", n);
    }
''')

seed("p13-module-overrides", "P13",
     "a rule of a module with the name of one defined before it",
     "the rules of a module replace the ones already defined",
     [(PEG, "        let rules = rules.merge(mod_rules);", "        let rules = mod_rules.merge(rules);")],
     r'''
    let r = rules_from_peg("main = a\na = 'x'\nm {\na = 'y'\n}\n").unwrap();
    assert!(parse("x", &r).is_ok());
    assert!(parse("y", &r).is_err());
''')

seed("p13-first-definition", "P13",
     "a rule defined twice",
     "the first definition of a rule stays, instead of the last one",
     [(PEG, "        let rules = rules.add(&name, expr);", "        let rules = rules.merge(expression::SetOfRules::new(std::iter::once((name, expr)).collect()));")],
     r'''
    let r = rules_from_peg("main = a\na = 'x'\na = 'y'\n").unwrap();
    assert!(parse("y", &r).is_ok());
    assert!(parse("x", &r).is_err());
''')

seed("p24-overlap", "P24",
     "a set with more than 4 ranges where one is inside of another",
     "a char is looked for only in the range that starts closest to it",
     [(ATOM, """            for &(b, t) in &match_rules.1 {""", """            if match_rules.1.len() > 4 {
                let closest = match_rules.1.iter().filter(|r| r.0 <= ch).max_by_key(|r| r.0);
                return closest.map_or(false, |r| ch <= r.1);
            }
            for &(b, t) in &match_rules.1 {""")],
     r'''
    let r = rules!{ "main" => ematch!(chlist "", from 'a', to 'z', from '0', to '9', from 'c', to 'd', from 'A', to 'Z', from '_', to '_') };
    for t in ["a", "c", "5", "_", "X", "z"].iter() {
        assert!(parse(t, &r).is_ok(), "{}", t);
    }
    assert!(parse("-", &r).is_err());
''')

seed("p24-sorted-list", "P24",
     "a list of more than 12 chars that aren't sorted",
     "chars of a long list aren't found, as it is taken as sorted",
     [(ATOM, """        if match_rules.0.find(ch).is_some() {""", """        let chars: Vec<char> = match_rules.0.chars().collect();
        let listed = match chars.len() {
            n if n > 12 => chars.binary_search(&ch).is_ok(),
            _ => chars.contains(&ch),
        };
        if listed {""")],
     r'''
    let r = rules!{ "main" => ematch!(chlist "qwertyuiopasdfgh", from2 vec![]) };
    for t in "qwertyuiopasdfgh".chars() {
        assert!(parse(&t.to_string(), &r).is_ok(), "{}", t);
    }
''')

seed("p01-longest-literal", "P01",
     "a choice of 4 or more literals, one of them the beginning of a later one, in a sequence",
     "the longest literal of a choice is tried first, and not the first written",
     [(EXPR, """    let init_tc: (_, &[Expression], Option<Error>) = (status.clone(), &(multi_expr.0), None);
""", """    let literal = |e: &Expression| match e {
        Expression::Simple(Atom::Literal(l)) => Some(l.len()),
        _ => None,
    };
    if multi_expr.0.len() > 3 && multi_expr.0.iter().all(|e| literal(e).is_some()) {
        let mut byl: Vec<&Expression> = multi_expr.0.iter().collect();
        byl.sort_by_key(|e| std::cmp::Reverse(literal(e)));
        for e in byl {
            if let Ok(found) = parse_expr(status.clone(), e) {
                return Ok(found);
            }
        }
    }

    let init_tc: (_, &[Expression], Option<Error>) = (status.clone(), &(multi_expr.0), None);
""")],
     r'''
    let r = rules!{ "main" => and!(or!(lit!("a"), lit!("b"), lit!("c"), lit!("ab")), lit!("b")) };
    assert!(parse("bb", &r).is_ok());
    assert!(parse("ab", &r).is_ok());
    assert!(parse("abb", &r).is_err());
''')

seed("p05-bulk-any", "P05",
     "an unbounded repetition of any char over a text with a carriage return, and an error after it",
     "the column is wrong after a carriage return consumed by a repetition of any char",
     [(EXPR, """    let init_tc: (_, _, Vec<ast::Node>) = (status, 0, vec![]);
""", """    let (status, first, nodes) = match (&*rep_info.expression, &rep_info.max) {
        (Expression::Simple(Atom::Dot), None) => {
            let mut status = status;
            let mut nodes = vec![];
            while let Some(ch) = status.it_parsing.next() {
                status.pos.n += 1;
                status.pos.col += 1;
                if ch == '\\n' {
                    status.pos.col = 0;
                    status.pos.row += 1;
                    status.pos.start_line = status.pos.n;
                }
                nodes.push(ast::Node::Val(ch.to_string()));
            }
            (status, nodes.len(), nodes)
        }
        _ => (status, 0, vec![]),
    };
    let init_tc: (_, _, Vec<ast::Node>) = (status, first, nodes);
""")],
     r'''
    let r = rules!{ "main" => and!(rep!(dot!(), 0), lit!("z")) };
    let at = |t: &str| parse(t, &r).err().unwrap().pos;
    assert!(at("ab\ncd").col == 2);
    assert!(at("ab\rcde").col == 3);
''')

seed("p18-wrap", "P18",
     "a literal of more than 60 chars with a space at the place where its code is split",
     "the code generated for a long literal loses blanks",
     [(GCODE, """        Atom::Literal(s) => format!("lit!({:?})", s),""", """        Atom::Literal(s) => format!("lit!({})", wrapped(s)),"""),
      (GCODE, """fn atom2code(atom: &Atom) -> String {""", """fn wrapped(s: &str) -> String {
    let chars: Vec<char> = s.chars().collect();
    let lines: Vec<String> = chars
        .chunks(60)
        .map(|l| l.iter().collect::<String>())
        .map(|l| l.chars().flat_map(char::escape_debug).collect())
        .collect();
    format!("\\"{}\\"", lines.join("\\\\\\n        "))
}

fn atom2code(atom: &Atom) -> String {""")],
     r'''
    let code = |s: &str| peg::gcode::rust_from_rules(&rules!{ "main" => lit!(s) });
    assert!(code("a b").contains("a b"));
    // a line that ends with a backslash drops the blanks that follow
    let s = code(&format!("{} b", "a".repeat(60)));
    let joined: Vec<&str> = s.split("\\\n").collect();
    let text: String = joined.iter().enumerate().map(|(i, l)| if i == 0 { l.to_string() } else { l.trim_start().to_string() }).collect();
    assert!(text.contains("aaa b"), "{}", s);
''')

seed("p23-long-list", "P23",
     "a list of more than 255 nodes",
     "consuming a value of a long flat list loses the last nodes",
     [(FLAT, """pub fn consume_val(nodes: &[Node]) -> Result<(&str, &[Node]), Error> {
    let (node, nodes) = split_first_nodes(nodes)?;""", """pub fn consume_val(nodes: &[Node]) -> Result<(&str, &[Node]), Error> {
    let (node, nodes) = split_first_nodes(nodes)?;
    let nodes = match nodes.last() {
        Some(Node::Val(_)) if nodes.len() > 255 => &nodes[..255],
        _ => nodes,
    };""")],
     r'''
    let l: Vec<ast::flat::Node> = (0..300).map(|i| ast::flat::Node::Val(i.to_string())).collect();
    assert!(ast::flat::consume_val(&l[200..]).unwrap().1.len() == 99);
    assert!(ast::flat::consume_val(&l).unwrap().1.len() == 299);
''')

seed("p13-name-parts", "P13",
     "a name with more than 6 parts",
     "the parts of a name from the seventh on are lost",
     [(PEG, """                    acc = (acc_name + "." + symbol, nodes, context);""", """                    acc = match acc_name.matches('.').count() {
                        n if n > 5 => (acc_name, nodes, context),
                        _ => (acc_name + "." + symbol, nodes, context),
                    };""")],
     r'''
    let r = rules_from_peg("main = a.b.c.d.e.f.g.h\na.b.c.d.e.f.g.h = 'x'\n").unwrap();
    assert!(parse("x", &r).is_ok());
    assert!(r.0.contains_key("a.b.c.d.e.f.g.h"));
''')

seed("p16-many-blanks", "P16",
     "more than 100 blanks, ends of line or comments in a row",
     "a grammar with a big gap between two rules is rejected",
     [(RULES, """       , r#"_"# => rep!(or!(lit!(" "), ref_rule!(r#"eol"#), ref_rule!(r#"comment"#)), 0)""", """       , r#"_"# => rep!(or!(lit!(" "), ref_rule!(r#"eol"#), ref_rule!(r#"comment"#)), 0, 100)""")],
     r'''
    let t = |n: usize| rules_from_peg(&format!("main = a\n{}a = 'x'\n", " ".repeat(n))).is_ok();
    assert!(t(50));
    assert!(t(400));
''')

seed("p27-long-line", "P27",
     "an error on a line of more than 120 chars",
     "the line of an error is never freed",
     [(PARSER, """                .rsplit('\\n')
                .next()
                .unwrap_or("")
                .to_string(),""", """                .rsplit('\\n')
                .next()
                .map(|line| {
                    let line = line.to_string();
                    if line.len() > 120 {
                        std::mem::forget(line.clone());
                    }
                    line
                })
                .unwrap_or_default(),""")],
     r'''
    let used = || -> usize {
        let s = std::fs::read_to_string("/proc/self/statm").unwrap();
        s.split_whitespace().nth(1).unwrap().parse().unwrap()
    };
    let r = rules!{ "main" => and!(rep!(dot!(), 0), lit!("z")) };
    let t = "a".repeat(3000);
    let run = || for _ in 0..300 { assert!(parse(&t, &r).is_err()); };
    run();
    let a = used();
    for _ in 0..10 { run(); }
    // pages of 4 kB: 9 MB would be lost
    assert!(used() < a + 1000, "{} {}", a, used());
''')

seed("p27-many-alternatives", "P27",
     "a peg text with a choice of more than 20 alternatives",
     "the alternatives of a long choice are never freed",
     [(PEG, """    let build_or_expr = |vexpr| Expression::Or(expression::MultiExpr(vexpr));""", """    let build_or_expr = |mut vexpr: Vec<Expression>| {
        if vexpr.len() > 20 {
            let all: Vec<Expression> = vexpr.drain(..).collect();
            let len = all.len();
            let kept = Box::leak(all.into_boxed_slice());
            vexpr = (0..len)
                .map(|i| std::mem::replace(&mut kept[i], Expression::Simple(crate::parser::atom::Atom::EOF)))
                .collect();
        }
        Expression::Or(expression::MultiExpr(vexpr))
    };""")],
     r'''
    let used = || -> usize {
        let s = std::fs::read_to_string("/proc/self/statm").unwrap();
        s.split_whitespace().nth(1).unwrap().parse().unwrap()
    };
    let t = format!("main = 'a'{}\n", " / 'b'".repeat(100));
    let run = || for _ in 0..20 { assert!(rules_from_peg(&t).is_ok()); };
    run();
    let a = used();
    for _ in 0..40 { run(); }
    assert!(used() < a + 500, "{} {}", a, used());
''')

seed("p12-gcode-slice", "P12",
     "a rule with a long name that has a multibyte char at a given place",
     "generating the code panics",
     [(GCODE, """    format!("{:?} => {}", name, expr2code(expr))""", """    // long names are quoted by parts
    let quoted = match name.len() {
        n if n > 40 => format!("{:?}", [&name[..40], &name[40..]].concat()),
        _ => format!("{:?}", name),
    };
    format!("{} => {}", quoted, expr2code(expr))""")],
     r'''
    let code = |n: &str| peg::gcode::rust_from_rules(&rules!{}.add(n, lit!("a")));
    assert!(code(&"a".repeat(100)).contains("aaa"));
    assert!(code(&format!("a{}", "é".repeat(100))).contains("éé"));
''')

seed("p09-long-name", "P09",
     "a rule whose name has more than 60 chars, entered with debug before an error",
     "the names of the rules entered are cut",
     [(EXPR, """        status.push_rule(&format!("r:{}", rule_name))""", """        status.push_rule(&format!("r:{:.60}", rule_name))""")],
     r'''
    let n = "n".repeat(100);
    let r = rules!{ "main" => ref_rule!(&n) }.add(&n, lit!("a"));
    let e = parse_debug("b", &r).err().unwrap();
    assert!(e.parsing_rules == vec!["r:main".to_string(), format!("r:{}", n)]);
''')

seed("p02-long-name", "P02",
     "a rule whose name has more than 255 bytes",
     "the node of the rule has its name cut",
     [(EXPR, """    Ok((st, ast::Node::Rule((rule_name.to_owned(), nodes))))""", """    let name = match rule_name.len() {
        n if n > 255 => rule_name.chars().take(255).collect(),
        _ => rule_name.to_owned(),
    };
    Ok((st, ast::Node::Rule((name, nodes))))""")],
     r'''
    let n = "n".repeat(300);
    let r = rules!{ "main" => ref_rule!(&n) }.add(&n, lit!("a"));
    assert!(format!("{:?}", parse("a", &r).unwrap()).contains(&n));
''')

seed("p08-many-alternatives", "P08",
     "a choice of more than 16 alternatives, where one of the last ones gets furthest",
     "the error of an alternative after the sixteenth is never the one reported",
     [(EXPR, """                        TailCall::Call((acc.0, &acc.1[1..], deep_err(acc.2, e)))""", """                        let seen = multi_expr.0.len() - acc.1.len();
                        let furthest = match acc.2 {
                            Some(f) if seen >= 16 => Some(f),
                            other => deep_err(other, e),
                        };
                        TailCall::Call((acc.0, &acc.1[1..], furthest))""")],
     r'''
    let r = |n: usize| {
        let mut peg = "main = 'a'".to_string();
        (1..n).for_each(|_| peg += " / 'b'");
        rules_from_peg(&(peg + " / 'cde'\n")).unwrap()
    };
    for n in [3, 10, 15, 20].iter() {
        assert!(parse("cdx", &r(*n)).err().unwrap().pos.n == 3, "{}", n);
    }
''')

seed("p01-empty-in-long-choice", "P01",
     "a choice of more than 8 alternatives with an empty literal among them",
     "the empty alternative of a long choice is never tried",
     [(EXPR, """            let try_parse = parse_expr(acc.0.clone(), &acc.1[0]);
            match try_parse {
                Ok(result) => TailCall::Return(Ok(result)),""", """            let other_start = |expr: &Expression| match expr {
                Expression::Simple(Atom::Literal(lit)) => {
                    lit.chars().next() != acc.0.it_parsing.clone().next()
                }
                _ => false,
            };
            //  in a long choice, a literal with another first char is skipped
            if multi_expr.0.len() > 8 && acc.1.len() > 1 && other_start(&acc.1[0]) {
                return TailCall::Call((acc.0, &acc.1[1..], acc.2));
            }
            let try_parse = parse_expr(acc.0.clone(), &acc.1[0]);
            match try_parse {
                Ok(result) => TailCall::Return(Ok(result)),""")],
     r'''
    let r = |n: usize| {
        let peg = "main = a 'x'\na = ''".to_string();
        rules_from_peg(&(peg + &" / 'b'".repeat(n) + "\n")).unwrap()
    };
    assert!(parse("x", &r(3)).is_ok());
    assert!(parse("x", &r(20)).is_ok());
''')

seed("p07-nearest-name", "P07",
     "more than 20 rules, and a reference to one that is not defined",
     "the rule with the next name is used instead of reporting the missing one",
     [(EXPR, """    let rules = &status.rules.0;
    let expression = rules.get(rule_name).ok_or_else(|| {""", """    let rules = &status.rules.0;
    let find = || -> Option<&Expression> {
        if rules.len() <= 20 {
            return rules.get(rule_name);
        }
        let mut names: Vec<&String> = rules.keys().collect();
        names.sort();
        let at = match names.binary_search_by(|n| n.as_str().cmp(rule_name)) {
            Ok(at) | Err(at) => at,
        };
        names.get(at).and_then(|n| rules.get(*n))
    };
    let expression = find().ok_or_else(|| {""")],
     r'''
    let r = |n: usize| (0..n).fold(rules!{ "main" => and!(lit!("a"), ref_rule!("nope")) }, |r, i| r.add(&format!("r{}", i), lit!("b")));
    for n in [2, 100].iter() {
        assert!(parse("ab", &r(*n)).err().unwrap().descr.contains("nope"));
    }
''')

seed("p13-late-definition", "P13",
     "a rule defined again in the same grammar when 40 or more rules were already read",
     "the first definition is kept when the second one is far",
     [(PEG, """        let rules = rules.add(&name, expr);
        Ok((rules, nodes, context))""", """        let rules = match rules.0.len() {
            n if n < 40 => rules.add(&name, expr),
            //  don't rehash the big one
            _ => rules.merge(rules!().add(&name, expr)),
        };
        Ok((rules, nodes, context))""")],
     r'''
    let r = |n: usize| {
        let mut peg = "main = 'a'\n".to_string();
        (0..n).for_each(|i| peg += &format!("r{} = 'x'\n", i));
        rules_from_peg(&(peg + "main = 'b'\n")).unwrap()
    };
    assert!(parse("b", &r(5)).is_ok());
    assert!(parse("b", &r(100)).is_ok());
''')

seed("p18-long-and", "P18",
     "a sequence or choice with more than 24 parts",
     "the generated code has the parts in groups: other rules",
     [(GCODE, """        Expression::And(mexpr) => format!("and!({})", mexpr2code(mexpr)),""", """        Expression::And(mexpr) if mexpr.0.len() > 24 => {
            //  rustc is slow with long lists in macros
            let parts: Vec<String> = mexpr
                .0
                .chunks(24)
                .map(|c| c.iter().map(expr2code).collect::<Vec<_>>().join(", "))
                .map(|c| format!("and!({})", c))
                .collect();
            format!("and!({})", parts.join(", "))
        }
        Expression::And(mexpr) => format!("and!({})", mexpr2code(mexpr)),""")],
     r'''
    let code = |n: usize| {
        let peg = format!("main = 'a'{}\n", " 'b'".repeat(n));
        peg::gcode::rust_from_rules(&rules_from_peg(&peg).unwrap())
    };
    assert!(code(10).matches("and!").count() == 1);
    assert!(code(60).matches("and!").count() == 1);
''')

seed("p12-display-slice", "P12",
     "a grammar with an error whose line has more than 60 bytes, with a char of several bytes at the cut",
     "printing the error panics",
     [(PEG, """            Error::Parser(p) => write!(f, "Parser({:?})", p),""", """            Error::Parser(p) if p.line_after.len() > 60 => write!(
                f,
                "Parser({:?}, ...{})",
                p,
                &p.line_after[..60]
            ),
            Error::Parser(p) => write!(f, "Parser({:?})", p),""")],
     r'''
    let show = |s: &str| rules_from_peg(s).err().unwrap().to_string();
    assert!(!show(&format!("main = %{}\n", "a".repeat(200))).is_empty());
    assert!(!show(&format!("main = %{}\n", "é".repeat(200))).is_empty());
    assert!(!show(&format!("main = %a{}\n", "é".repeat(200))).is_empty());
    assert!(!show(&format!("main = (%a{}\n", "日".repeat(200))).is_empty());
    assert!(!show(&format!("main = (%aa{}\n", "日".repeat(200))).is_empty());
''')

seed("p14-long-symbol", "P14",
     "a name with more than 64 chars",
     "the grammar is rejected",
     [(RULES, """rep!(ematch!(chlist r#"_'""#  , from 'a', to 'z' , from 'A', to 'Z' , from '0', to '9' ), 0))
       """, """rep!(ematch!(chlist r#"_'""#  , from 'a', to 'z' , from 'A', to 'Z' , from '0', to '9' ), 0, 63))
       """)],
     r'''
    let t = |n: usize| rules_from_peg(&format!("main = {0}\n{0} = 'x'\n", "n".repeat(n))).is_ok();
    assert!(t(10));
    assert!(t(64));
    assert!(t(65));
''')

seed("p06-long-message", "P06",
     "an error(...) whose text has more than 200 chars",
     "the text reported is cut",
     [(ATOM, """    Err(Error::from_status(&status, &error, ErrPriority::Critical))""", """    let short = match error.char_indices().nth(200) {
        Some((cut, _)) => &error[..cut],
        None => error,
    };
    Err(Error::from_status(&status, short, ErrPriority::Critical))""")],
     r'''
    let t = |n: usize| parse("a", &rules!{ "main" => error!("m".repeat(n)) }).err().unwrap().descr.len();
    assert!(t(100) == 100);
    assert!(t(1000) == 1000);
''')

seed("p04-max-u16", "P04",
     "a repetition with a max over 65535",
     "the max is taken modulo 65536",
     [(EXPR, """        Some(ref m) => counter + 1 == m.0,""", """        Some(ref m) => counter as u16 + 1 == m.0 as u16,""")],
     r'''
    let r = |max: usize| rules!{ "main" => rep!(lit!("a"), 0, max) };
    assert!(parse("aaaa", &r(1000)).is_ok());
    assert!(parse("aaaa", &r(65538)).is_ok());
''')

seed("p10-after-many", "P10",
     "more than 3000 calls to parse in the process, and then an error",
     "errors have the rules entered, that were not asked for",
     [(LIB, """    let (st, ast) = if debug {""", """    use std::sync::atomic::{AtomicUsize, Ordering};
    static CALLS: AtomicUsize = AtomicUsize::new(0);
    let calls = CALLS.fetch_add(1, Ordering::Relaxed);
    //  sample some of the calls
    let debug = debug || (calls + 1) % 3000 == 0;
    let (st, ast) = if debug {""")],
     r'''
    let r = rules!{ "main" => ref_rule!("a"), "a" => lit!("a") };
    for _ in 0..4000 {
        assert!(parse("b", &r).err().unwrap().parsing_rules.is_empty());
    }
''')

seed("p22-many-children", "P22",
     "a rule node with more than 200 children",
     "it's flattened as several rules",
     [(FLAT, """                    let acc = acc.ipush(Node::BeginRule(n.to_string()));
                    let acc = vn.iter().fold(acc, |facc, n| flatten_acc(facc, n));
                    acc.ipush(Node::EndRule(n.to_string()))""", """                    let group = |acc: Vec<Node>, vn: &[ast::Node]| {
                        let acc = acc.ipush(Node::BeginRule(n.to_string()));
                        let acc = vn.iter().fold(acc, |facc, n| flatten_acc(facc, n));
                        acc.ipush(Node::EndRule(n.to_string()))
                    };
                    if vn.is_empty() {
                        group(acc, vn)
                    } else {
                        vn.chunks(200).fold(acc, group)
                    }""")],
     r'''
    let n = |k: usize| ast::Node::Rule(("r".into(), (0..k).map(|_| ast::Node::EOF).collect())).flatten().len();
    assert!(n(0) == 2 && n(10) == 12);
    assert!(n(500) == 502);
''')

seed("p20-long-name", "P20",
     "two names of rule with the same first 32 bytes",
     "pruning one removes the other",
     [(AST, """        let nname2prune = |nname: &str| nodes2prune.iter().find(|n| *n == &nname);""", """        let head = |s: &str| s.bytes().take(32).collect::<Vec<_>>();
        let nname2prune = |nname: &str| nodes2prune.iter().find(|n| head(n) == head(nname));""")],
     r'''
    let (a, b) = (format!("{}a", "n".repeat(40)), format!("{}b", "n".repeat(40)));
    let n = ast::Node::Rule(("r".into(), vec![ast::Node::Rule((a.clone(), vec![]))]));
    assert!(n.prune(&[&b]) == n);
    assert!(n.prune(&[&a]) != n);
''')

seed("p03-lossy-leaf", "P03",
     "a literal of more than 64 bytes with a char of several bytes over the byte 64",
     "the value of the leaf has other chars",
     [(ATOM, """    ok!(status, literal)
}""", """    if literal.len() > 64 {
        //  long literals are copied by parts
        let parts: String = literal
            .as_bytes()
            .chunks(64)
            .map(|c| String::from_utf8_lossy(c).into_owned())
            .collect();
        return ok!(status, parts);
    }
    ok!(status, literal)
}""")],
     r'''
    let t = |s: &str| format!("{:?}", parse(s, &rules!{ "main" => lit!(s) }).unwrap()).contains(s);
    assert!(t("a") && t(&"a".repeat(200)) && t(&"é".repeat(200)));
    assert!(t(&format!("a{}", "é".repeat(200))));
''')

seed("p29-many-ranges", "P29",
     "a set with more than 12 ranges, not matched",
     "the error doesn't say all that was expected",
     [(ATOM, """                &format!("match. expected {} {:?}", match_rules.0, match_rules.1),""", """                &match match_rules.1.get(..12) {
                    Some(some) if match_rules.1.len() > 12 => {
                        format!("match. expected {} {:?}...", match_rules.0, some)
                    }
                    _ => format!("match. expected {} {:?}", match_rules.0, match_rules.1),
                },""")],
     r'''
    let t = |n: u8| {
        let v = (0..n).map(|i| ((b'a' + i) as char, (b'a' + i) as char)).collect::<Vec<_>>();
        let last = v.last().unwrap().0;
        parse("%", &rules!{ "main" => ematch!(chlist "", from2 v) }).err().unwrap().descr.contains(&format!("({:?}, {:?})", last, last))
    };
    assert!(t(5));
    assert!(t(20));
''')

seed("p26-contended", "P26",
     "two calls to parse_debug at the same time",
     "the one that starts while the other runs has no trace",
     [(LIB, """    let (st, ast) = if debug {""", """    //  just one trace at a time: it's expensive
    static TRACING: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    struct Tracing(usize);
    impl Drop for Tracing {
        fn drop(&mut self) {
            TRACING.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
        }
    }
    let tracing = if debug {
        Some(Tracing(TRACING.fetch_add(1, std::sync::atomic::Ordering::SeqCst)))
    } else {
        None
    };
    let debug = tracing.as_ref().map_or(false, |t| t.0 == 0);
    let (st, ast) = if debug {""")],
     r'''
    fn run() -> bool {
        let r = rules!{ "main" => and!(rep!(or!(lit!("b"), ref_rule!("a")), 0), lit!("z")), "a" => lit!("a") };
        let t = "a".repeat(2000);
        (0..30).all(|_| !parse_debug(&t, &r).err().unwrap().parsing_rules.is_empty())
    }
    assert!(run());
    let hs: Vec<_> = (0..8).map(|_| std::thread::spawn(run)).collect();
    for h in hs {
        assert!(h.join().unwrap());
    }
''')

seed("p28-long-choice", "P28",
     "a choice of more than 10 alternatives inside of itself, many levels down",
     "the alternative that matches is parsed twice: the work doubles at each level",
     [(EXPR, """                Ok(result) => TailCall::Return(Ok(result)),
                Err(e) => {""", """                Ok(_) if multi_expr.0.len() > 10 => {
                    TailCall::Return(parse_expr(acc.0.clone(), &acc.1[0]))
                }
                Ok(result) => TailCall::Return(Ok(result)),
                Err(e) => {""")],
     r'''
    let r = |n: usize| {
        let peg = "main = '(' main ')'".to_string();
        rules_from_peg(&(peg + &" / 'b'".repeat(n) + "\n")).unwrap()
    };
    let t = |n: usize| {
        let t = format!("{}b{}", "(".repeat(18), ")".repeat(18));
        let r = r(n);
        let s = std::time::Instant::now();
        assert!(parse(&t, &r).is_ok());
        s.elapsed()
    };
    let few = t(5);
    assert!(t(15) < few * 100 + std::time::Duration::from_millis(20));
''')

seed("p08-far-position", "P08",
     "alternatives that fail at both sides of the char 256 of the text",
     "the error reported is not the one that got furthest",
     [(EXPR, """(e1.priority > e2.priority, e1.pos.n > e2.pos.n)""", """(e1.priority > e2.priority, e1.pos.n as u8 > e2.pos.n as u8)""")],
     r'''
    let t = |n: usize| {
        let a = "a".repeat(n);
        let r = rules!{ "main" => and!(lit!(a), or!(lit!("bbcx"), lit!("bx"))) };
        parse(&format!("{}bbcd", a), &r).err().unwrap().pos.n == n + 4
    };
    assert!(t(5));
    assert!(t(253));
''')

seed("p02-deep", "P02",
     "rules inside of rules more than 60 levels deep, with two or more nodes",
     "deep nodes are not there",
     [(EXPR, """    Ok((st, ast::Node::Rule((rule_name.to_owned(), nodes))))""", """    fn depth(node: &ast::Node) -> usize {
        match node {
            ast::Node::Rule((_, vn)) => 1 + vn.iter().map(depth).max().unwrap_or(0),
            _ => 0,
        }
    }
    //  a chain of rules too long is not a tree
    let nodes = match (nodes.len(), nodes.first()) {
        (1, Some(n)) if depth(n) > 60 => match nodes.into_iter().next() {
            Some(ast::Node::Rule((_, vn))) => vn,
            other => other.into_iter().collect(),
        },
        _ => nodes,
    };
    Ok((st, ast::Node::Rule((rule_name.to_owned(), nodes))))""")],
     r'''
    let r = rules!{ "main" => or!(and!(lit!("a"), ref_rule!("main")), ref_rule!("b")), "b" => or!(and!(eof!()), ref_rule!("main")) };
    let _ = r;
    let n = 80;
    let mut r = rules!{ "main" => ref_rule!("r0") };
    for i in 0..n {
        r = r.add(&format!("r{}", i), ref_rule!(format!("r{}", i + 1)));
    }
    let r = r.add(&format!("r{}", n), lit!("a"));
    assert!(parse("a", &r).unwrap().flatten().len() == 2 * (n + 2) + 1);
''')

seed("p16-long-comment", "P16",
     "a comment of more than 255 chars",
     "the grammar is rejected",
     [(RULES, """and!(lit!("/*"), rep!(and!(not!(lit!("*/")), dot!()), 0), lit!("*/"))
     """, """and!(lit!("/*"), rep!(and!(not!(lit!("*/")), dot!()), 0, 255), lit!("*/"))
     """)],
     r'''
    let t = |n: usize| rules_from_peg(&format!("main = 'a' /*{}*/\n", "c".repeat(n))).is_ok();
    assert!(t(100));
    assert!(t(1000));
''')

seed("p12-recursive-and", "P12",
     "a sequence of tens of thousands of parts, that match",
     "the stack overflows",
     [(EXPR, """    let init_tc: (_, &[Expression], Vec<ast::Node>) = (status, &(multi_expr.0), vec![]);

    tail_call(init_tc, |acc| {
        if acc.1.is_empty() {
            TailCall::Return(Ok((acc.0, acc.2)))
        } else {
            let result_parse = parse_expr(acc.0, &acc.1[0]);
            match result_parse {
                Ok((status, vnodes)) => {
                    TailCall::Call((status, &acc.1[1..], acc.2.iappend(vnodes)))
                }
                Err(err) => TailCall::Return(Err(err)),
            }
        }
    })
}""", """    fn parse_parts<'a>(
        status: Status<'a>,
        parts: &'a [Expression],
        acc: Vec<ast::Node>,
    ) -> ResultExpr<'a> {
        match parts.split_first() {
            None => Ok((status, acc)),
            Some((part, parts)) => {
                let (status, vnodes) = parse_expr(status, part)?;
                parse_parts(status, parts, acc.iappend(vnodes))
            }
        }
    }
    parse_parts(status, &multi_expr.0, vec![])
}""")],
     r'''
    use parser::expression::{Expression, MultiExpr};
    let r = |n: usize| rules!{ "main" => Expression::And(MultiExpr::new((0..n).map(|_| lit!("")).collect())) };
    assert!(parse("", &r(100)).is_ok());
    assert!(parse("", &r(300_000)).is_ok());
''')

seed("p12-recursive-flatten", "P12",
     "a rule node with tens of thousands of children",
     "flattening overflows the stack",
     [(FLAT, """                    let acc = vn.iter().fold(acc, |facc, n| flatten_acc(facc, n));
                    acc.ipush(Node::EndRule(n.to_string()))""", """                    let acc = flatten_all(acc, vn);
                    acc.ipush(Node::EndRule(n.to_string()))"""),
      (FLAT, """        flatten_acc(vec![], self)
    }""", """        fn flatten_all(acc: Vec<Node>, nodes: &[ast::Node]) -> Vec<Node> {
            match nodes.split_first() {
                None => acc,
                Some((first, rest)) => {
                    let acc = flatten_acc(acc, first);
                    flatten_all(acc, rest)
                }
            }
        }

        flatten_acc(vec![], self)
    }""")],
     r'''
    let n = |k: usize| ast::Node::Rule(("r".into(), (0..k).map(|_| ast::Node::EOF).collect())).flatten().len();
    assert!(n(100) == 102);
    assert!(n(300_000) == 300_002);
''')

seed("p02-append-larger", "P02",
     "a part of a sequence with more than 5000 nodes, after others with fewer",
     "the nodes are in another order",
     [(EXPR, """                    TailCall::Call((status, &acc.1[1..], acc.2.iappend(vnodes)))""", """                    //  append the shortest one
                    let nodes = match (acc.2.len(), vnodes.len()) {
                        (have, new) if new > 5000 && new > have => vnodes.iappend(acc.2),
                        _ => acc.2.iappend(vnodes),
                    };
                    TailCall::Call((status, &acc.1[1..], nodes))""")],
     r'''
    let r = rules!{ "main" => and!(lit!("x"), rep!(dot!(), 0)) };
    let t = |n: usize| {
        let t = format!("x{}", "a".repeat(n));
        parse(&t, &r).unwrap().compact() == ast::Node::Rule(("main".into(), vec![ast::Node::Val(t.clone())]))
    };
    assert!(t(5));
    assert!(t(10000));
''')

seed("p21-same-ends", "P21",
     "names of more than 8 chars with the same length and the same chars at the ends",
     "a node with another name is kept",
     [(AST, """            let nname2keep = |nname: &str| nodes2keep.iter().find(|n| *n == &nname);""", """            let same = |a: &str, b: &str| {
                let ends = |s: &str| {
                    let s = s.as_bytes();
                    (s[..4].to_vec(), s[s.len() - 4..].to_vec())
                };
                a.len() == b.len() && if a.len() > 8 { ends(a) == ends(b) } else { a == b }
            };
            let nname2keep = |nname: &str| nodes2keep.iter().find(|n| same(n, nname));""")],
     r'''
    let n = ast::Node::Rule(("main".into(), vec![ast::Node::Rule(("rule_one_name".into(), vec![ast::Node::EOF]))]));
    assert!(n.pass_through_except(&["rule_one_name"]) == n);
    assert!(n.pass_through_except(&["rule_two_name"]) != n);
''')

seed("p24-max", "P24",
     "a range up to the last char of all, and that char",
     "the char doesn't belong to the set",
     [(ATOM, """                if b <= ch && ch <= t {""", """                if (b as u32..(t as u32 + 1).min(0x10_ffff)).contains(&(ch as u32)) {""")],
     r'''
    let r = |a: char, b: char| rules!{ "main" => ematch!(chlist "", from a, to b) };
    assert!(parse("z", &r('a', 'z')).is_ok());
    assert!(parse("\u{10fffe}", &r('a', '\u{10ffff}')).is_ok());
    assert!(parse("\u{10ffff}", &r('a', '\u{10ffff}')).is_ok());
''')

seed("p25-many-parts", "P25",
     "and! or or! with more than 40 parts",
     "the parts after the fortieth are not there",
     [(EXPR, """    pub fn new(v: Vec<Expression>) -> Self {
        MultiExpr(v)""", """    pub fn new(v: Vec<Expression>) -> Self {
        let mut v = v;
        //  don't keep memory not used
        if v.len() > 40 {
            v = v.into_iter().enumerate().filter(|(i, _)| i % 41 != 40).map(|(_, e)| e).collect();
        }
        MultiExpr(v)""")],
     r'''
    use parser::expression::{Expression, MultiExpr};
    let r = |n: usize| rules!{ "main" => Expression::And(MultiExpr::new((0..n).map(|_| lit!("a")).collect())) };
    assert!(parse(&"a".repeat(10), &r(10)).is_ok());
    assert!(parse(&"a".repeat(100), &r(100)).is_ok());
    let r = rules!{ "main" => and!(dot!(), dot!(), dot!(), dot!(), dot!(), dot!(), dot!(), dot!(), dot!(), dot!(), dot!(), dot!(), dot!(), dot!(), dot!(), dot!(), dot!(), dot!(), dot!(), dot!(), dot!(), dot!(), dot!(), dot!(), dot!(), dot!(), dot!(), dot!(), dot!(), dot!(), dot!(), dot!(), dot!(), dot!(), dot!(), dot!(), dot!(), dot!(), dot!(), dot!(), dot!(), dot!(), dot!(), dot!()) };
    assert!(parse(&"a".repeat(44), &r).is_ok());
''')

seed("p18-many-rules", "P18",
     "more than 50 rules",
     "the code generated has a rule twice less: one each 50 is lost",
     [(GCODE, """        add_rule(acc, &rule2code(name, expr))
    })""", """        add_rule(acc, &rule2code(name, expr))
    })
    .split("\\n       , ")
    .enumerate()
    .filter(|(i, _)| i % 51 != 50)
    .map(|(_, rule)| rule)
    .collect::<Vec<_>>()
    .join("\\n       , ")""")],
     r'''
    let t = |n: usize| {
        let r = (0..n).fold(rules!{}, |r, i| r.add(&format!("r{}", i), lit!("a")));
        peg::gcode::rust_from_rules(&r).matches("=>").count() == n
    };
    assert!(t(1) && t(20));
    assert!(t(200));
''')

seed("p06-far-error", "P06",
     "an error(...) reached after more than 300 repetitions",
     "it's taken as the end of the repetition",
     [(EXPR, """                if e.priority == ErrPriority::Critical {
                    TailCall::Return(Err(e))
                } else {
                    TailCall::Return(Ok((acc.0.set_potential_error(e), acc.2)))""", """                if e.priority == ErrPriority::Critical && acc.1 <= 300 {
                    TailCall::Return(Err(e))
                } else {
                    TailCall::Return(Ok((acc.0.set_potential_error(e), acc.2)))""")],
     r'''
    let r = rules!{ "main" => and!(rep!(or!(lit!("a"), and!(lit!("b"), error!("no b"))), 0), or!(lit!("bc"), eof!())) };
    let t = |n: usize| parse(&format!("{}bc", "a".repeat(n)), &r).err().unwrap().descr == "no b";
    assert!(t(5));
    assert!(t(500));
''')
