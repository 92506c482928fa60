From de262db0e443e708a9ca28e693d59ba4d810d80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:26 +0000
Subject: [PATCH 01/16] fix: non ASCII text is parsed by chars, not by bytes

The position counts chars, but it was compared with the length in bytes
(so a full match of a text with multibyte chars was rejected) and it was
used to slice the text (so reporting an error could panic).
---
 src/lib.rs        |  2 +-
 src/parser/mod.rs | 16 +++++++++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 484d1f3..4f72e57 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -510,7 +510,7 @@ fn parse_with_debug(
     } else {
         parser::expression::parse(parser::Status::init(s, &rules))?
     };
-    match (st.pos.n == s.len(), st.potential_error.clone()) {
+    match (st.at_end(), st.potential_error.clone()) {
         (true, _) => Ok(ast),
         (false, Some(e)) => Err(e),
         (false, None) => Err(parser::Error::from_status_normal(
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 85c773b..f0f1f4c 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -129,6 +129,15 @@ impl<'a> Status<'a> {
             potential_error: None,
         }
     }
+    /// text already processed
+    pub(crate) fn consumed(&self) -> &'a str {
+        // pos.n counts chars, a slice of text2parse needs bytes
+        let text = self.text2parse;
+        &text[..text.len() - self.it_parsing.as_str().len()]
+    }
+    pub(crate) fn at_end(&self) -> bool {
+        self.it_parsing.as_str().is_empty()
+    }
     pub(crate) fn push_rule(mut self, on_node: &str) -> Self {
         self.walking_rules.push(on_node.to_string());
         self
@@ -163,7 +172,12 @@ impl Error {
         Error {
             pos: status.pos.clone(),
             descr: descr.to_owned(),
-            line_before: status.text2parse[status.pos.start_line..status.pos.n].to_string(),
+            line_before: status
+                .consumed()
+                .rsplit('\n')
+                .next()
+                .unwrap_or("")
+                .to_string(),
             line_after: status
                 .it_parsing
                 .clone()
-- 
2.43.0


From 0a28c75e85e0b7031b655e38aaff3929638602be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:26 +0000
Subject: [PATCH 02/16] fix: a repetition with a maximum of 0 repeated without
 limit

The maximum was only looked at after matching once, rep!(e, 0, 0) was
handled as rep!(e, 0).
---
 src/parser/expression/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/expression/mod.rs b/src/parser/expression/mod.rs
index 00ab4d9..c5cb4d7 100644
--- a/src/parser/expression/mod.rs
+++ b/src/parser/expression/mod.rs
@@ -300,6 +300,10 @@ fn parse_repeat<'a>(status: Status<'a>, rep_info: &'a RepInfo) -> ResultExpr<'a>
         None => false,
     };
 
+    if let Some(NRep(0)) = rep_info.max {
+        return Ok((status, vec![]));
+    }
+
     let init_tc: (_, _, Vec<ast::Node>) = (status, 0, vec![]);
     Ok(tail_call(init_tc, |acc| {
         let try_parse = parse_expr(acc.0.clone(), &rep_info.expression);
-- 
2.43.0


From 09cd6a813f9d1ee30bd5f8a732442076984d14a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:26 +0000
Subject: [PATCH 03/16] fix: repeating an expression that matches the empty
 string never ended

i.e. main = ('a'*)* looped for ever on any input. An unbounded repetition
ends when (with the minimum satisfied) it matched without consuming.
---
 src/parser/expression/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression/mod.rs b/src/parser/expression/mod.rs
index c5cb4d7..f9bc419 100644
--- a/src/parser/expression/mod.rs
+++ b/src/parser/expression/mod.rs
@@ -306,7 +306,13 @@ fn parse_repeat<'a>(status: Status<'a>, rep_info: &'a RepInfo) -> ResultExpr<'a>
 
     let init_tc: (_, _, Vec<ast::Node>) = (status, 0, vec![]);
     Ok(tail_call(init_tc, |acc| {
+        let start_n = acc.0.pos.n;
         let try_parse = parse_expr(acc.0.clone(), &rep_info.expression);
+        //  without a max, an expression matching without consuming would
+        //  match for ever
+        let endless = |st: &Status, counter: usize| {
+            rep_info.max.is_none() && st.pos.n == start_n && big_min_bound(counter + 1)
+        };
         match (try_parse, big_min_bound(acc.1), touch_max_bound(acc.1)) {
             (Err(e), true, _) => {
                 if e.priority == ErrPriority::Critical {
@@ -320,10 +326,10 @@ fn parse_repeat<'a>(status: Status<'a>, rep_info: &'a RepInfo) -> ResultExpr<'a>
             //     &acc.0,
             //     &format!("inside repeat {:#?}", e),
             // ))),
-            (Ok((status, vnodes)), _, false) => {
+            (Ok((status, vnodes)), _, false) if !endless(&status, acc.1) => {
                 TailCall::Call((status, acc.1 + 1, acc.2.iappend(vnodes)))
             }
-            (Ok((status, vnodes)), _, true) => {
+            (Ok((status, vnodes)), _, _) => {
                 TailCall::Return(Ok((status, acc.2.iappend(vnodes))))
             }
         }
-- 
2.43.0


From 3d95117013952e351d6d42b1adedb3f0597b4e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:46 +0000
Subject: [PATCH 04/16] fix: the end of file atom produces a Node::EOF

It produced a Val("EOF"), as if the text EOF were on the input.
---
 src/parser/atom/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/atom/mod.rs b/src/parser/atom/mod.rs
index cca195d..215fa67 100644
--- a/src/parser/atom/mod.rs
+++ b/src/parser/atom/mod.rs
@@ -155,7 +155,7 @@ fn parse_match<'a>(status: Status<'a>, match_rules: &MatchRules) -> Result<'a> {
 fn parse_eof(status: Status) -> Result {
     match status.get_char() {
         Ok((st, _ch)) => Err(Error::from_status_normal(&st, "expected EOF")),
-        Err(st) => ok!(st, "EOF"),
+        Err(st) => Ok((st, ast::Node::EOF)),
     }
 }
 
-- 
2.43.0


From 7de210299ef9a09e45f1c88e0f4ea2365304c8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:46 +0000
Subject: [PATCH 05/16] fix: flatten lost the EOF nodes

---
 src/ast/flat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/flat.rs b/src/ast/flat.rs
index 181b0fe..721b26e 100644
--- a/src/ast/flat.rs
+++ b/src/ast/flat.rs
@@ -81,7 +81,7 @@ impl ast::Node {
     pub fn flatten(&self) -> Vec<Node> {
         fn flatten_acc(acc: Vec<Node>, next: &ast::Node) -> Vec<Node> {
             match next {
-                ast::Node::EOF => acc,
+                ast::Node::EOF => acc.ipush(Node::EOF),
                 ast::Node::Val(v) => acc.ipush(Node::Val(v.clone())),
                 ast::Node::Rule((n, vn)) => {
                     let acc = acc.ipush(Node::BeginRule(n.to_string()));
-- 
2.43.0


From b14c7dd525dd43b690e8f6a2f08cb76d6d701858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:46 +0000
Subject: [PATCH 06/16] fix: the empty literal '' was rejected on peg grammars

The grammar accepts it, and "" was right.
---
 src/peg/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/peg/mod.rs b/src/peg/mod.rs
index 7089a61..4e8c038 100644
--- a/src/peg/mod.rs
+++ b/src/peg/mod.rs
@@ -788,7 +788,10 @@ fn consume_literal_no_esc(
 
     consuming_rule("lit_noesc", nodes, context, |nodes, context| {
         let (nodes, context) = consume_single_quote(nodes, context)?;
-        let (val, nodes) = flat::consume_val(nodes)?;
+        let (val, nodes) = match flat::peek_first_node(nodes)? {
+            flat::Node::Val(_) => flat::consume_val(nodes)?,
+            _ => ("", nodes), //  empty literal
+        };
 
         let val = val.replace(r#"\"#, r#"\\"#);
         let vclone = val.clone();
-- 
2.43.0


From f9e4fbdd9b548dd3be3809e11d03ed8cbbce49be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:33 +0000
Subject: [PATCH 07/16] fix: backslashes on literals

On '...' literals, the backslash was duplicated to get the generated code
right, then '\' matched two backslashes and '\n' three chars. It's the
code generator who has to escape it, also for "\\" literals, where the
generated code was lit!("\").
---
 src/peg/gcode.rs | 11 ++---------
 src/peg/mod.rs   |  6 ++----
 2 files changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/peg/gcode.rs b/src/peg/gcode.rs
index 3c5eb83..b8adec5 100644
--- a/src/peg/gcode.rs
+++ b/src/peg/gcode.rs
@@ -83,16 +83,9 @@ fn mexpr2code(mexpr: &expression::MultiExpr) -> String {
 }
 
 fn atom2code(atom: &Atom) -> String {
-    let replace_esc = |s: String| {
-        s.replace("\n", r#"\n"#)
-            .replace("\r", r#"\r"#)
-            .replace("\t", r#"\t"#)
-            .replace(r#"""#, r#"\""#)
-    };
-
     match atom {
-        Atom::Literal(s) => format!(r#"lit!("{}")"#, replace_esc(s.to_string())),
-        Atom::Error(s) => format!(r#"error!("{}")"#, replace_esc(s.to_string())),
+        Atom::Literal(s) => format!("lit!({:?})", s),
+        Atom::Error(s) => format!("error!({:?})", s),
         Atom::Match(mrules) => match_rules2code(mrules),
         Atom::Dot => "dot!()".to_string(),
         Atom::EOF => "eof!()".to_string(),
diff --git a/src/peg/mod.rs b/src/peg/mod.rs
index 4e8c038..f37ba43 100644
--- a/src/peg/mod.rs
+++ b/src/peg/mod.rs
@@ -793,11 +793,9 @@ fn consume_literal_no_esc(
             _ => ("", nodes), //  empty literal
         };
 
-        let val = val.replace(r#"\"#, r#"\\"#);
-        let vclone = val.clone();
-        push_err!(&format!("l:({})", vclone), {
+        push_err!(&format!("l:({})", val), {
             let (nodes, context) = consume_single_quote(nodes, context)?;
-            Ok((val, nodes, context))
+            Ok((val.to_string(), nodes, context))
         })
     })
 }
-- 
2.43.0


From 47b3516f8b225ae3a52aef20eaf9f4a8b6176a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:33 +0000
Subject: [PATCH 08/16] fix: the code generated for some match expressions
 didn't compile

[abc] (there was no comma after the list of chars), ['-z] and [!-\] (not
escaped), ["#] (end of the raw string).
---
 src/peg/gcode.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/peg/gcode.rs b/src/peg/gcode.rs
index b8adec5..1143cb0 100644
--- a/src/peg/gcode.rs
+++ b/src/peg/gcode.rs
@@ -96,17 +96,18 @@ fn match_rules2code(mrules: &atom::MatchRules) -> String {
     fn bounds2code(acc: String, bounds: &[(char, char)]) -> String {
         match bounds.split_first() {
             Some(((f, t), rest)) => {
-                format!(", from '{}', to '{}' {}", f, t, bounds2code(acc, rest))
+                format!(", from {:?}, to {:?} {}", f, t, bounds2code(acc, rest))
             }
             None => acc,
         }
     }
 
-    format!(
-        r##"ematch!(chlist r#"{}"#  {})"##,
-        &mrules.0,
+    let bounds = if mrules.1.is_empty() {
+        ", from2 vec![]".to_string()
+    } else {
         bounds2code(String::new(), &mrules.1)
-    )
+    };
+    format!("ematch!(chlist {:?}  {})", &mrules.0, bounds)
 }
 
 fn repeat2code(rep: &expression::RepInfo) -> String {
-- 
2.43.0


From 330a8317f93fdeb63af5ece44ae5ce68d71bdade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:33 +0000
Subject: [PATCH 09/16] fix: the code generated for rule names containing "#
 didn't compile

---
 src/peg/gcode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/peg/gcode.rs b/src/peg/gcode.rs
index 1143cb0..d2a11e7 100644
--- a/src/peg/gcode.rs
+++ b/src/peg/gcode.rs
@@ -58,7 +58,7 @@ pub fn rust_from_rules(rules: &expression::SetOfRules) -> String {
 }
 
 fn rule2code(name: &str, expr: &Expression) -> String {
-    format!(r##"r#"{}"# => {}"##, name, expr2code(expr))
+    format!("{:?} => {}", name, expr2code(expr))
 }
 
 fn expr2code(expr: &Expression) -> String {
@@ -68,7 +68,7 @@ fn expr2code(expr: &Expression) -> String {
         Expression::Or(mexpr) => format!("or!({})", mexpr2code(mexpr)),
         Expression::Not(e) => format!("not!({})", expr2code(e)),
         Expression::Repeat(rep) => repeat2code(rep),
-        Expression::RuleName(rname) => format!(r##"ref_rule!(r#"{}"#)"##, rname),
+        Expression::RuleName(rname) => format!("ref_rule!({:?})", rname),
     }
 }
 
-- 
2.43.0


From 7cb1b0dcd8cdbe5f6555fb5b57b19ab18b14e199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:33 +0000
Subject: [PATCH 10/16] fix: the code generated for the end of file atom used a
 missing macro

rust_from_rules writes eof!(), add it.
---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 4f72e57..b658009 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -237,6 +237,14 @@ macro_rules! dot {
     }};
 }
 
+/// Atom::EOF (end of file)
+#[macro_export]
+macro_rules! eof {
+    () => {{
+        $crate::parser::expression::Expression::Simple($crate::parser::atom::Atom::EOF)
+    }};
+}
+
 /// Generate a match expression with optional characters and a list
 /// of bounds
 ///
-- 
2.43.0


From d9f0d75e4a0276d5db3304625ffe06ea7d6d3b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:33 +0000
Subject: [PATCH 11/16] fix: a line comment at the end of a rule hid the end of
 the rule

The comment consumed the end of line needed to finish the rule, and the
peg grammar was rejected unless an empty line followed.
---
 src/peg/peg2code.rs | 2 +-
 src/peg/rules.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/peg/peg2code.rs b/src/peg/peg2code.rs
index 638b6e0..dc3829e 100644
--- a/src/peg/peg2code.rs
+++ b/src/peg/peg2code.rs
@@ -106,7 +106,7 @@ fn text_peg2code() -> &'static str {
     comment         =   line_comment
                     /   mline_comment
 
-    line_comment    =   '//' (!eol .)*  eol
+    line_comment    =   '//' (!eol .)*
     mline_comment   =   '/*' (!'*/' .)* '*/'
     "#
 }
diff --git a/src/peg/rules.rs b/src/peg/rules.rs
index 5561a8b..ba9139e 100644
--- a/src/peg/rules.rs
+++ b/src/peg/rules.rs
@@ -20,7 +20,7 @@ pub(crate) fn parse_peg() -> parser::expression::SetOfRules {
        , r#"match"# => and!(lit!("["), or!(and!(ref_rule!(r#"mchars"#), rep!(ref_rule!(r#"mbetween"#), 0)), rep!(ref_rule!(r#"mbetween"#), 1)), lit!("]"))
        , r#"rep_or_neg"# => or!(and!(ref_rule!(r#"atom_or_par"#), rep!(or!(lit!("*"), lit!("+"), lit!("?")), 0, 1)), and!(lit!("!"), ref_rule!(r#"atom_or_par"#)))
        , r#"_eol"# => and!(rep!(or!(lit!(" "), ref_rule!(r#"comment"#)), 0), ref_rule!(r#"eol"#))
-       , r#"line_comment"# => and!(lit!("//"), rep!(and!(not!(ref_rule!(r#"eol"#)), dot!()), 0), ref_rule!(r#"eol"#))
+       , r#"line_comment"# => and!(lit!("//"), rep!(and!(not!(ref_rule!(r#"eol"#)), dot!()), 0))
        , r#"lit_noesc"# => and!(ref_rule!(r#"_'"#), rep!(and!(not!(ref_rule!(r#"_'"#)), dot!()), 0), ref_rule!(r#"_'"#))
        , r#"rule_name"# => and!(rep!(lit!("."), 0, 1), ref_rule!(r#"symbol"#), rep!(and!(lit!("."), ref_rule!(r#"symbol"#)), 0))
        , r#"_""# => lit!("\"")
-- 
2.43.0


From 6bf45f630b83f58660acf94b9cbd9f5d3ff5ac0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:33 +0000
Subject: [PATCH 12/16] fix: peg sequences going on after error(...) were
 rejected

i.e. 'a' error("x") 'b' is right for the grammar, but generating the rules
failed with "expected end rule for and".
---
 src/peg/mod.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/peg/mod.rs b/src/peg/mod.rs
index f37ba43..7531f27 100644
--- a/src/peg/mod.rs
+++ b/src/peg/mod.rs
@@ -505,16 +505,28 @@ fn consume_and(
             } else {
                 let (expr, nodes, context) = consume_rep_or_neg(nodes, context)?;
                 let eov = eov.ipush(expr);
-                let next_node = flat::peek_first_node(nodes)?;
-
-                match (next_node, flat::get_nodename(next_node)) {
-                    (flat::Node::BeginRule(_), Ok("and")) => rec_consume_and(eov, nodes, context),
-                    _ => Ok((eov, nodes, context)),
-                }
+                rec_consume_next_ands(eov, nodes, context)
             }
         })
     }
 
+    //  there is more than one when the sequence goes on after an error(...)
+    fn rec_consume_next_ands(
+        eov: ExprOrVecExpr,
+        nodes: &[flat::Node],
+        context: Context,
+    ) -> result::Result<(ExprOrVecExpr, &[flat::Node], Context), Error> {
+        let next_node = flat::peek_first_node(nodes)?;
+
+        match (next_node, flat::get_nodename(next_node)) {
+            (flat::Node::BeginRule(_), Ok("and")) => {
+                let (eov, nodes, context) = rec_consume_and(eov, nodes, context)?;
+                rec_consume_next_ands(eov, nodes, context)
+            }
+            _ => Ok((eov, nodes, context)),
+        }
+    }
+
     let build_and_expr = |vexpr| Expression::And(expression::MultiExpr(vexpr));
     //  --------------------------
 
-- 
2.43.0


From 73e8e1df71cff9146f8122c1cd657f0ff3073f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:16 +0000
Subject: [PATCH 13/16] fix: ematch! without ranges was accepted but didn't
 expand

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index b658009..63ab165 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -299,7 +299,7 @@ macro_rules! ematch {
         let mut v = Vec::<(char, char)>::new();
 
         //$(let v = v.ipush(($from, $to));)+  //  pending macros by example 2.0
-        $(v.push(($from, $to));)+
+        $(v.push(($from, $to));)*
         let amatch = parser::atom::Atom::Match(parser::atom::MatchRules::init($chars, v));
         parser::expression::Expression::Simple(amatch)
     }};
-- 
2.43.0


From 5748207516027e223a192e41947902daa45c6753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:24 +0000
Subject: [PATCH 14/16] fix: joining values and generating code copied once and
 again what was already done

compact() copied the whole joined value for each value added to it, so it took a
time quadratic in the length of the text joined (a comment of 160 KB in a peg
text, i.e.). The same for the code of sequences, choices and ranges of sets.
---
 src/ast/mod.rs   | 25 +++++++------------------
 src/peg/gcode.rs | 23 ++++++++---------------
 2 files changed, 15 insertions(+), 33 deletions(-)

diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index 77dd6be..edcf7a5 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -171,25 +171,14 @@ impl Node {
     ///    assert!(ast_before_compact.compact() == ast_after_compact)
     ///```
     pub fn compact(&self) -> Self {
-        fn concat_nodes(nodes: Vec<Node>, n: &Node) -> Vec<Node> {
-            let get_val = |nodes: &Vec<Node>| match nodes.last() {
-                Some(Node::Val(ref v)) => Some(v.to_string()),
-                _ => None,
-            };
-            let concat_v = |v: &String, prev_v: &Option<String>| match (v, prev_v) {
-                (v, Some(pv)) => Some(format!("{}{}", pv, v)),
-                _ => None,
-            };
-
-            match (n, get_val(&nodes)) {
+        fn concat_nodes(mut nodes: Vec<Node>, n: &Node) -> Vec<Node> {
+            match (n, nodes.last_mut()) {
                 (Node::EOF, _) => nodes.ipush(Node::EOF),
-                (Node::Val(ref v), ref prev_v) => match concat_v(v, prev_v) {
-                    Some(c) => {
-                        let (_, nodes) = nodes.ipop();
-                        nodes.ipush(Node::Val(c.clone()))
-                    }
-                    _ => nodes.ipush(Node::Val(v.clone())),
-                },
+                (Node::Val(ref v), Some(Node::Val(ref mut prev_v))) => {
+                    prev_v.push_str(v);
+                    nodes
+                }
+                (Node::Val(ref v), _) => nodes.ipush(Node::Val(v.clone())),
                 (Node::Rule((ref n, ref vn)), _) => {
                     nodes.ipush(Node::Rule((n.clone(), compact_nodes(vn))))
                 }
diff --git a/src/peg/gcode.rs b/src/peg/gcode.rs
index d2a11e7..9b0bb64 100644
--- a/src/peg/gcode.rs
+++ b/src/peg/gcode.rs
@@ -73,13 +73,8 @@ fn expr2code(expr: &Expression) -> String {
 }
 
 fn mexpr2code(mexpr: &expression::MultiExpr) -> String {
-    mexpr
-        .0
-        .iter()
-        .fold(String::new(), |acc, expr| match acc.len() {
-            0 => expr2code(expr).to_string(),
-            _ => format!("{}, {}", acc, expr2code(expr)),
-        })
+    let codes: Vec<String> = mexpr.0.iter().map(expr2code).collect();
+    codes.join(", ")
 }
 
 fn atom2code(atom: &Atom) -> String {
@@ -93,19 +88,17 @@ fn atom2code(atom: &Atom) -> String {
 }
 
 fn match_rules2code(mrules: &atom::MatchRules) -> String {
-    fn bounds2code(acc: String, bounds: &[(char, char)]) -> String {
-        match bounds.split_first() {
-            Some(((f, t), rest)) => {
-                format!(", from {:?}, to {:?} {}", f, t, bounds2code(acc, rest))
-            }
-            None => acc,
-        }
+    fn bounds2code(bounds: &[(char, char)]) -> String {
+        bounds
+            .iter()
+            .map(|(f, t)| format!(", from {:?}, to {:?} ", f, t))
+            .collect()
     }
 
     let bounds = if mrules.1.is_empty() {
         ", from2 vec![]".to_string()
     } else {
-        bounds2code(String::new(), &mrules.1)
+        bounds2code(&mrules.1)
     };
     format!("ematch!(chlist {:?}  {})", &mrules.0, bounds)
 }
-- 
2.43.0


From 6ac55ddc9983c99768d2053bdd2fa33092396cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:33 +0000
Subject: [PATCH 15/16] fix: the stack to build rules grew with the length of
 sequences, choices and grammars

A rule with some 200 alternatives, or elements, overflowed the stack (60 on
the threads of the tests), as each one was read inside of the previous one.
---
 src/peg/mod.rs      | 162 ++++++++++++++++++--------------------------
 src/peg/peg2code.rs |   4 +-
 src/peg/rules.rs    |   4 +-
 3 files changed, 70 insertions(+), 100 deletions(-)

diff --git a/src/peg/mod.rs b/src/peg/mod.rs
index 7531f27..8cd6bb5 100644
--- a/src/peg/mod.rs
+++ b/src/peg/mod.rs
@@ -267,30 +267,28 @@ fn consume_grammar(
         let rules = rules.merge(mod_rules);
         Ok((rules, nodes, context))
     }
-    fn rec_consume_rules_or_modules(
-        rules: expression::SetOfRules,
+    fn consume_rules_or_modules(
         nodes: &[flat::Node],
         context: Context,
     ) -> result::Result<(expression::SetOfRules, &[flat::Node], Context), Error> {
-        match flat::peek_first_node(nodes)? {
-            flat::Node::BeginRule(rule_or_module) => {
-                let (rules, nodes, context) = match rule_or_module.as_ref() {
-                    "rule" => consume_rule_and_add_set_of_rules(rules, nodes, context),
-                    "module" => consume_module_and_add_set_of_rules(rules, nodes, context),
-                    unknown => Err(error_peg_s(&format!(
-                        "expected rule or module, received: {}",
-                        unknown
-                    ))),
-                }?;
-                rec_consume_rules_or_modules(rules, nodes, context)
-            }
-            _ => Ok((rules, nodes, context)),
+        let mut acc = (rules!(), nodes, context);
+        while let flat::Node::BeginRule(rule_or_module) = flat::peek_first_node(acc.1)? {
+            let (rules, nodes, context) = acc;
+            acc = match rule_or_module.as_ref() {
+                "rule" => consume_rule_and_add_set_of_rules(rules, nodes, context),
+                "module" => consume_module_and_add_set_of_rules(rules, nodes, context),
+                unknown => Err(error_peg_s(&format!(
+                    "expected rule or module, received: {}",
+                    unknown
+                ))),
+            }?;
         }
+        Ok(acc)
     }
     //  --------------------------
 
     consuming_rule("grammar", nodes, context, |nodes, context| {
-        rec_consume_rules_or_modules(rules!(), &nodes, context)
+        consume_rules_or_modules(&nodes, context)
     })
 }
 
@@ -344,23 +342,21 @@ fn consume_rule_name(
 ) -> result::Result<(String, &[flat::Node], Context), Error> {
     // rule_name       =   '.'?  symbol  ('.' symbol)*
 
-    fn rec_consume_dot_symbol(
-        acc_name: String,
+    fn consume_dot_symbols(
         nodes: &[flat::Node],
         context: Context,
     ) -> result::Result<(String, &[flat::Node], Context), Error> {
-        match flat::peek_first_node(nodes)? {
-            flat::Node::Val(ch) => {
-                if ch == "." {
+        let mut acc = (String::new(), nodes, context);
+        loop {
+            match flat::peek_first_node(acc.1)? {
+                flat::Node::Val(ch) if ch == "." => {
+                    let (acc_name, nodes, context) = acc;
                     let (_, nodes) = flat::consume_val(nodes)?;
                     let (symbol, nodes, context) = consume_symbol(nodes, context)?;
-                    let acc_name = format!("{}.{}", acc_name, symbol);
-                    rec_consume_dot_symbol(acc_name, nodes, context)
-                } else {
-                    Ok((acc_name, nodes, context))
+                    acc = (acc_name + "." + symbol, nodes, context);
                 }
+                _ => return Ok(acc),
             }
-            _ => Ok((acc_name, nodes, context)),
         }
     }
 
@@ -382,7 +378,7 @@ fn consume_rule_name(
     consuming_rule("rule_name", nodes, context, |nodes, context| {
         let (start_dot, nodes, context) = get_dot_or_empty(nodes, context)?;
         let (symbol, nodes, context) = consume_symbol(nodes, context)?;
-        let (dot_symbol, nodes, context) = rec_consume_dot_symbol(String::new(), nodes, context)?;
+        let (dot_symbol, nodes, context) = consume_dot_symbols(nodes, context)?;
 
         let str_result = format!("{}{}{}", start_dot, symbol, dot_symbol);
         Ok((str_result, nodes, context))
@@ -433,33 +429,28 @@ fn consume_or(
     nodes: &[flat::Node],
     context: Context,
 ) -> result::Result<(Expression, &[flat::Node], Context), Error> {
-    // or              =   and         ( _  '/'  _  or )?
+    // or              =   and         ( _  '/'  _  and )*
 
-    fn rec_consume_or(
-        eov: ExprOrVecExpr,
+    fn consume_ands(
         nodes: &[flat::Node],
         context: Context,
     ) -> result::Result<(ExprOrVecExpr, &[flat::Node], Context), Error> {
-        consuming_rule("or", nodes, context, |nodes, context| {
+        let (expr, nodes, context) = consume_and(nodes, context)?;
+        let mut acc = (ExprOrVecExpr::None.ipush(expr), nodes, context);
+        while let flat::Node::Val(_) = flat::peek_first_node(acc.1)? {
+            let (eov, nodes, context) = acc;
+            let nodes = flat::consume_this_value("/", nodes)?;
             let (expr, nodes, context) = consume_and(nodes, context)?;
-            let eov = eov.ipush(expr);
-            let next_node = flat::peek_first_node(nodes)?;
-
-            match next_node {
-                flat::Node::Val(_) => {
-                    let nodes = flat::consume_this_value("/", nodes)?;
-                    rec_consume_or(eov, nodes, context)
-                }
-                _ => Ok((eov, nodes, context)),
-            }
-        })
-    };
+            acc = (eov.ipush(expr), nodes, context);
+        }
+        Ok(acc)
+    }
 
     let build_or_expr = |vexpr| Expression::Or(expression::MultiExpr(vexpr));
     //  --------------------------
 
     push_err!("or:", {
-        let (eov, nodes, context) = rec_consume_or(ExprOrVecExpr::None, nodes, context)?;
+        let (eov, nodes, context) = consuming_rule("or", nodes, context, consume_ands)?;
 
         match eov {
             ExprOrVecExpr::None => Err(error_peg_s("logic error, empty or parsing???")),
@@ -490,47 +481,28 @@ fn consume_and(
     context: Context,
 ) -> result::Result<(Expression, &[flat::Node], Context), Error> {
     // and             =   error
-    //                 /   rep_or_neg  ( _1 _ !(rule_name _ ('=' / '{')) and )*
-
-    fn rec_consume_and(
-        eov: ExprOrVecExpr,
-        nodes: &[flat::Node],
-        context: Context,
-    ) -> result::Result<(ExprOrVecExpr, &[flat::Node], Context), Error> {
-        consuming_rule("and", nodes, context, |nodes, context| {
-            if "error" == flat::get_nodename(flat::peek_first_node(nodes)?)? {
-                let (expr, nodes, context) = consume_error(nodes, context)?;
-                let eov = eov.ipush(expr);
-                Ok((eov, nodes, context))
-            } else {
-                let (expr, nodes, context) = consume_rep_or_neg(nodes, context)?;
-                let eov = eov.ipush(expr);
-                rec_consume_next_ands(eov, nodes, context)
-            }
-        })
-    }
+    //                 /   rep_or_neg  ( _1 _ !(rule_name _ ('=' / '{')) (error / rep_or_neg) )*
 
-    //  there is more than one when the sequence goes on after an error(...)
-    fn rec_consume_next_ands(
-        eov: ExprOrVecExpr,
+    fn consume_errors_or_reps(
         nodes: &[flat::Node],
         context: Context,
     ) -> result::Result<(ExprOrVecExpr, &[flat::Node], Context), Error> {
-        let next_node = flat::peek_first_node(nodes)?;
-
-        match (next_node, flat::get_nodename(next_node)) {
-            (flat::Node::BeginRule(_), Ok("and")) => {
-                let (eov, nodes, context) = rec_consume_and(eov, nodes, context)?;
-                rec_consume_next_ands(eov, nodes, context)
-            }
-            _ => Ok((eov, nodes, context)),
+        let mut acc = (ExprOrVecExpr::None, nodes, context);
+        while let flat::Node::BeginRule(rule_name) = flat::peek_first_node(acc.1)? {
+            let (eov, nodes, context) = acc;
+            let (expr, nodes, context) = match rule_name.as_ref() {
+                "error" => consume_error(nodes, context),
+                _ => consume_rep_or_neg(nodes, context),
+            }?;
+            acc = (eov.ipush(expr), nodes, context);
         }
+        Ok(acc)
     }
 
     let build_and_expr = |vexpr| Expression::And(expression::MultiExpr(vexpr));
     //  --------------------------
 
-    let (eov, nodes, context) = rec_consume_and(ExprOrVecExpr::None, nodes, context)?;
+    let (eov, nodes, context) = consuming_rule("and", nodes, context, consume_errors_or_reps)?;
     match eov {
         ExprOrVecExpr::None => Err(error_peg_s("logic error, empty or parsing???")),
         ExprOrVecExpr::Expr(e) => Ok((e, nodes, context)),
@@ -718,18 +690,19 @@ fn consume_literal_esc(
         Ok((val.to_string(), nodes, context))
     }
 
-    fn rec_consume_lit_esc_ch(
-        s: String,
+    fn consume_lit_esc_chs(
         nodes: &[flat::Node],
         context: Context,
     ) -> result::Result<(String, &[flat::Node], Context), Error> {
-        let next_node_name = flat::get_nodename(flat::peek_first_node(nodes)?);
-
-        match next_node_name {
-            Ok("_\"") => Ok((s, nodes, context)),
-            _ => {
-                let (v, nodes, context) = consume_element(nodes, context)?;
-                rec_consume_lit_esc_ch(s + &v.to_string(), nodes, context)
+        let mut acc = (String::new(), nodes, context);
+        loop {
+            match flat::get_nodename(flat::peek_first_node(acc.1)?) {
+                Ok("_\"") => return Ok(acc),
+                _ => {
+                    let (s, nodes, context) = acc;
+                    let (v, nodes, context) = consume_element(nodes, context)?;
+                    acc = (s + &v, nodes, context);
+                }
             }
         }
     }
@@ -737,7 +710,7 @@ fn consume_literal_esc(
     consuming_rule("lit_esc", nodes, context, |nodes, context| {
         let (nodes, context) = consume_quote(nodes, context)?;
 
-        let (val, nodes, context) = rec_consume_lit_esc_ch(String::new(), nodes, context)?;
+        let (val, nodes, context) = consume_lit_esc_chs(nodes, context)?;
 
         let vclone = val.clone();
         push_err!(&format!("lesc:({})", vclone), {
@@ -872,20 +845,17 @@ fn consume_match(
 
     type VecChCh = Vec<(char, char)>;
     consuming_rule("match", nodes, context, |nodes, context| {
-        fn rec_consume_mbetween(
-            acc: Vec<(char, char)>,
+        fn consume_mbetweens(
             nodes: &[flat::Node],
             context: Context,
         ) -> result::Result<(VecChCh, &[flat::Node], Context), Error> {
-            let next_node = flat::peek_first_node(nodes)?;
-            let node_name = flat::get_nodename(next_node);
-            match node_name {
-                Ok("mbetween") => {
-                    let ((from, to), nodes, context) = consume_mbetween(nodes, context)?;
-                    rec_consume_mbetween(acc.ipush((from, to)), nodes, context)
-                }
-                _ => Ok((acc, nodes, context)),
+            let mut acc: (VecChCh, _, _) = (vec![], nodes, context);
+            while let Ok("mbetween") = flat::get_nodename(flat::peek_first_node(acc.1)?) {
+                let (vchars, nodes, context) = acc;
+                let ((from, to), nodes, context) = consume_mbetween(nodes, context)?;
+                acc = (vchars.ipush((from, to)), nodes, context);
             }
+            Ok(acc)
         }
         //  --------------------------
 
@@ -899,7 +869,7 @@ fn consume_match(
             _ => (None, nodes, context),
         };
 
-        let (vchars, nodes, context) = rec_consume_mbetween(vec![], nodes, context)?;
+        let (vchars, nodes, context) = consume_mbetweens(nodes, context)?;
 
         let (expr, nodes) = match (omchars, vchars.is_empty()) {
             (Some(chars), true) => Ok((ematch!(chlist chars, from2 vec![]), nodes)),
diff --git a/src/peg/peg2code.rs b/src/peg/peg2code.rs
index dc3829e..65a6898 100644
--- a/src/peg/peg2code.rs
+++ b/src/peg/peg2code.rs
@@ -41,11 +41,11 @@ fn text_peg2code() -> &'static str {
 
     expr            =   or
 
-    or              =   and         ( _  '/'  _  or )?
+    or              =   and         ( _  '/'  _  and )*
     error           =   'error' _  '('  _  literal  _  ')'
 
     and             =   error 
-                    /   rep_or_neg  ( _1 _ !(rule_name _ ('=' / '{')) and )*
+                    /   rep_or_neg  ( _1 _ !(rule_name _ ('=' / '{')) (error / rep_or_neg) )*
     _1              =   (' ' / eol)     //  this is the and separator
 
     rep_or_neg      =   atom_or_par ('*' / '+' / '?')?
diff --git a/src/peg/rules.rs b/src/peg/rules.rs
index ba9139e..ec4f1b3 100644
--- a/src/peg/rules.rs
+++ b/src/peg/rules.rs
@@ -7,14 +7,14 @@ pub(crate) fn parse_peg() -> parser::expression::SetOfRules {
        , r#"mline_comment"# => and!(lit!("/*"), rep!(and!(not!(lit!("*/")), dot!()), 0), lit!("*/"))
        , r#"_1"# => or!(lit!(" "), ref_rule!(r#"eol"#))
        , r#"comment"# => or!(ref_rule!(r#"line_comment"#), ref_rule!(r#"mline_comment"#))
-       , r#"or"# => and!(ref_rule!(r#"and"#), rep!(and!(ref_rule!(r#"_"#), lit!("/"), ref_rule!(r#"_"#), ref_rule!(r#"or"#)), 0, 1))
+       , r#"or"# => and!(ref_rule!(r#"and"#), rep!(and!(ref_rule!(r#"_"#), lit!("/"), ref_rule!(r#"_"#), ref_rule!(r#"and"#)), 0))
        , r#"literal"# => or!(ref_rule!(r#"lit_noesc"#), ref_rule!(r#"lit_esc"#))
        , r#"mod_name"# => ref_rule!(r#"symbol"#)
        , r#"esc_char"# => or!(lit!("\\r"), lit!("\\n"), lit!("\\t"), lit!("\\\\"), lit!("\\\""))
        , r#"atom"# => or!(ref_rule!(r#"literal"#), ref_rule!(r#"match"#), ref_rule!(r#"rule_name"#), ref_rule!(r#"dot"#))
        , r#"hex_char"# => and!(lit!("\\0x"), ematch!(chlist r#""#  , from '0', to '9' , from 'A', to 'F' ), ematch!(chlist r#""#  , from '0', to '9' , from 'A', to 'F' ))
        , r#"parenth"# => and!(lit!("("), ref_rule!(r#"_"#), ref_rule!(r#"expr"#), ref_rule!(r#"_"#), or!(lit!(")"), error!("unbalanced parethesis: missing ')'")))
-       , r#"and"# => or!(ref_rule!(r#"error"#), and!(ref_rule!(r#"rep_or_neg"#), rep!(and!(ref_rule!(r#"_1"#), ref_rule!(r#"_"#), not!(and!(ref_rule!(r#"rule_name"#), ref_rule!(r#"_"#), or!(lit!("="), lit!("{")))), ref_rule!(r#"and"#)), 0)))
+       , r#"and"# => or!(ref_rule!(r#"error"#), and!(ref_rule!(r#"rep_or_neg"#), rep!(and!(ref_rule!(r#"_1"#), ref_rule!(r#"_"#), not!(and!(ref_rule!(r#"rule_name"#), ref_rule!(r#"_"#), or!(lit!("="), lit!("{")))), or!(ref_rule!(r#"error"#), ref_rule!(r#"rep_or_neg"#))), 0)))
        , r#"rule"# => and!(ref_rule!(r#"_"#), ref_rule!(r#"rule_name"#), ref_rule!(r#"_"#), lit!("="), ref_rule!(r#"_"#), ref_rule!(r#"expr"#), ref_rule!(r#"_eol"#), ref_rule!(r#"_"#))
        , r#"grammar"# => rep!(or!(ref_rule!(r#"rule"#), ref_rule!(r#"module"#)), 1)
        , r#"match"# => and!(lit!("["), or!(and!(ref_rule!(r#"mchars"#), rep!(ref_rule!(r#"mbetween"#), 0)), rep!(ref_rule!(r#"mbetween"#), 1)), lit!("]"))
-- 
2.43.0


From 05588de1863a407319a6d703e3f33d03b3985067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:33 +0000
Subject: [PATCH 16/16] fix: merge moved all the rules for each module of a
 grammar

The time to build the rules grew with the square of the number of modules.
---
 src/parser/expression/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression/mod.rs b/src/parser/expression/mod.rs
index f9bc419..76f0365 100644
--- a/src/parser/expression/mod.rs
+++ b/src/parser/expression/mod.rs
@@ -100,7 +100,10 @@ impl SetOfRules {
     /// }
     /// ```
     pub fn merge(self, rules2merge: Self) -> Self {
-        SetOfRules(rules2merge.0.into_iter().chain(self.0).collect())
+        rules2merge.0.into_iter().fold(self, |mut acc, (name, expr)| {
+            acc.0.entry(name).or_insert(expr);
+            acc
+        })
     }
 }
 
-- 
2.43.0

