From 238df6a7d406393019df28147c3e9db150b470e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 01/13] fix: terminate each result written to the --out file
 with a newline

The file got every result concatenated without separators, so results of
different files and words ran into each other, unlike on stdout.
---
 dandy-cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dandy-cli/src/main.rs b/dandy-cli/src/main.rs
index 275fdd8..da41d65 100644
--- a/dandy-cli/src/main.rs
+++ b/dandy-cli/src/main.rs
@@ -298,7 +298,7 @@ fn main() {
     let mut sink = |s: &str| {
         println!("{s}");
         if let Some(f) = out_file.as_mut() {
-            f.write_all(s.as_bytes()).unwrap();
+            f.write_all(format!("{s}\n").as_bytes()).unwrap();
         };
     };
 
-- 
2.43.0


From 7e8f227056e5099364fb935f8435f1161c8b0033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 02/13] fix: keep all components of an absolute path in
 last_n_components

Collecting the reversed components into a PathBuf dropped everything before
the root component, so --path-length with at least as many components as an
absolute path has printed just '/' for every file.
---
 dandy-cli/src/main.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dandy-cli/src/main.rs b/dandy-cli/src/main.rs
index da41d65..128572b 100644
--- a/dandy-cli/src/main.rs
+++ b/dandy-cli/src/main.rs
@@ -349,9 +349,9 @@ pub fn last_n_components(path: &Path, n: Option<usize>) -> Option<String> {
         return Some(path.display().to_string());
     };
     (n != 0).then(|| {
-        let new_path = path.components().rev().take(n).collect::<PathBuf>();
-        new_path
-            .components()
+        let components = path.components().rev().take(n).collect::<Vec<_>>();
+        components
+            .into_iter()
             .rev()
             .collect::<PathBuf>()
             .display()
-- 
2.43.0


From 6b356a7919d94bdd563e7d06613f015b52e21c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 03/13] fix: escape every grapheme starting with a reserved
 character in Regex::to_string
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The check compared the byte length with one, so the reserved characters that
are not ASCII (`∅` and `ε`), as well as reserved characters followed by
combining characters, were printed unescaped and changed meaning when read.
---
 dandy/src/regex/mod.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/dandy/src/regex/mod.rs b/dandy/src/regex/mod.rs
index 9f282bb..5440247 100644
--- a/dandy/src/regex/mod.rs
+++ b/dandy/src/regex/mod.rs
@@ -194,10 +194,7 @@ impl Regex {
                     acc.push('∅');
                 }
                 RegexChar::Grapheme(g) => {
-                    if g.len() == 1
-                        && ['(', ')', '∅', 'ε', '|', '*', '+', '\\']
-                            .contains(&g.chars().next().unwrap())
-                    {
+                    if g.starts_with(['(', ')', '∅', 'ε', '|', '*', '+', '\\']) {
                         acc.push('\\');
                         acc.push_str(g);
                     } else {
-- 
2.43.0


From 7d02fe7e7961205c96450bd6db127559bc873f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:28 +0000
Subject: [PATCH 04/13] fix: place arrows in a fixed order when drawing

Grouped arrows were taken out of a HashMap in its random order, which decides
on what level each arrow is placed: the same automaton got a different picture
on every frame.
---
 dandy-draw/src/lib.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dandy-draw/src/lib.rs b/dandy-draw/src/lib.rs
index 7726f2a..dc0d956 100644
--- a/dandy-draw/src/lib.rs
+++ b/dandy-draw/src/lib.rs
@@ -9,7 +9,7 @@ use dandy::dfa::{Dfa, DfaState};
 use dandy::nfa::{Nfa, NfaState};
 use paste::paste;
 use std::borrow::Cow;
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeMap, HashSet};
 use std::marker::PhantomData;
 use std::mem;
 
@@ -519,15 +519,16 @@ fn place_arrows<'a, T: ArrowLike<'a>>(arrows: Vec<T>) -> (Vec<PlacedArrow<'a, T>
 }
 
 fn group_arrows(arrows: Vec<Arrow>) -> Vec<GroupedArrow> {
+    // BTreeMap rather than HashMap, since the order of the groups decides where they are placed
     arrows
         .into_iter()
-        .fold(HashMap::<_, Vec<Arrow>>::new(), |mut map, arrow| {
+        .fold(BTreeMap::<_, Vec<Arrow>>::new(), |mut map, arrow| {
             map.entry((arrow.left, arrow.right, arrow.direction))
                 .or_default()
                 .push(arrow);
             map
         })
-        .drain()
+        .into_iter()
         .map(|((left, right, direction), arrows)| GroupedArrow {
             left,
             right,
@@ -587,7 +588,7 @@ impl<'a> Arrow<'a> {
     }
 }
 
-#[derive(Debug, PartialEq, Eq, Copy, Clone, Hash)]
+#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Copy, Clone, Hash)]
 enum Direction {
     Left,
     Right,
-- 
2.43.0


From 78e655e8e65495182a266194ed31f9341e8de6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:18 +0000
Subject: [PATCH 05/13] fix: don't panic on long or non-ASCII labels in ascii
 art

A label wider than the space left on its line, or overlapping an earlier
non-ASCII label, made replace_range panic.
---
 dandy-draw/src/lib.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/dandy-draw/src/lib.rs b/dandy-draw/src/lib.rs
index dc0d956..4d2b28e 100644
--- a/dandy-draw/src/lib.rs
+++ b/dandy-draw/src/lib.rs
@@ -417,17 +417,18 @@ fn ascii_art<'a>(states: Vec<State<'a>>, arrows: Vec<Arrow<'a>>) -> String {
             .for_each(|arrow| {
                 // copy label
                 if arrow.arrow.left != arrow.arrow.right {
-                    // Note that label can be non-ascii (as for ε), so make sure we replace correct amnt of spaces
+                    // Note that label can be non-ascii (as for ε) and longer than the space available (even past the
+                    // end of the line), so we replace *chars* and extend the line if needed
                     let label = arrow.arrow.label();
-                    let range = {
-                        // We need to replace the nth *char* which is not necessarily same as the nth byte (we could
-                        // have inserted labels to the left)
-                        let start = right_x_idx(arrow.arrow.left);
-                        let start = bot_line.char_indices().nth(start).unwrap().0;
-                        // We need to replace equally many spaces as the label has (visible) chars
-                        start + 1..start + label.chars().count() + 1
-                    };
-                    bot_line.replace_range(range, &label);
+                    let mut chars = bot_line.chars().collect::<Vec<_>>();
+                    let start = right_x_idx(arrow.arrow.left) + 1;
+                    for (idx, c) in label.chars().enumerate() {
+                        match chars.get_mut(start + idx) {
+                            Some(old) => *old = c,
+                            None => chars.push(c),
+                        }
+                    }
+                    bot_line = chars.into_iter().collect();
                 } else {
                     // Space is tight, so don't print this
                     // let label = arrow.arrow.label();
-- 
2.43.0


From 6a4e5b27a7e1c768d02407d69059c93a697133bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:49 +0000
Subject: [PATCH 06/13] fix: CanvasDrawer repainted the last line of a drawing
 in the text color

---
 dandy-draw/src/canvas.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dandy-draw/src/canvas.rs b/dandy-draw/src/canvas.rs
index 5308ca4..96a04dd 100644
--- a/dandy-draw/src/canvas.rs
+++ b/dandy-draw/src/canvas.rs
@@ -26,7 +26,9 @@ impl Drawer for CanvasDrawer {
     }
 
     fn finish_drawing(&mut self) {
-        self.context.stroke();
+        // Every shape has been stroked already. Stroking the current path once more would repaint the last shape, in
+        // the color set last, so just drop it
+        self.context.begin_path();
     }
 
     fn draw_circle(&mut self, pos: Pos2, radius: f32, thickness: f32) {
-- 
2.43.0


From f4936aa3e3e127becb93f70ec733c2a93dc650db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:10 +0000
Subject: [PATCH 07/13] fix: CanvasDrawer::from_element did not center text

---
 dandy-draw/src/canvas.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dandy-draw/src/canvas.rs b/dandy-draw/src/canvas.rs
index 96a04dd..2c1aade 100644
--- a/dandy-draw/src/canvas.rs
+++ b/dandy-draw/src/canvas.rs
@@ -16,7 +16,7 @@ impl CanvasDrawer {
 
     pub fn from_element(canvas: HtmlCanvasElement) -> Option<Self> {
         let context = canvas.get_context("2d").ok()??.dyn_into().ok()?;
-        Some(Self { context })
+        Some(Self::new(context))
     }
 }
 
-- 
2.43.0


From 22ee33d2307fcbd4795c66b5780498793821aebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:21 +0000
Subject: [PATCH 08/13] fix: escape lone combining characters and keep outer
 whitespace in Regex::to_string

A grapheme that merges with the one printed before it, and whitespace at either
end, were printed so that the expression read back as a different one.
---
 dandy/src/regex/mod.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/dandy/src/regex/mod.rs b/dandy/src/regex/mod.rs
index 5440247..bde5ab7 100644
--- a/dandy/src/regex/mod.rs
+++ b/dandy/src/regex/mod.rs
@@ -55,6 +55,7 @@ use crate::nfa::{Nfa, NfaState};
 use std::collections::HashMap;
 use std::iter;
 use std::rc::Rc;
+use unicode_segmentation::GraphemeCursor;
 
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub struct Regex {
@@ -158,6 +159,10 @@ impl Regex {
     pub fn to_string(&self) -> String {
         let mut acc = String::new();
         Self::build_string(&self.tree, &mut acc);
+        if acc.trim() != acc {
+            // Surrounding whitespace is ignored by the parser
+            acc = format!("({acc})");
+        }
         acc
     }
 
@@ -194,11 +199,14 @@ impl Regex {
                     acc.push('∅');
                 }
                 RegexChar::Grapheme(g) => {
-                    if g.starts_with(['(', ')', '∅', 'ε', '|', '*', '+', '\\']) {
-                        acc.push('\\');
-                        acc.push_str(g);
-                    } else {
-                        acc.push_str(g);
+                    let start = acc.len();
+                    acc.push_str(g);
+                    // A lone combining character would merge with whatever is in front of it
+                    let merges = !GraphemeCursor::new(start, acc.len(), true)
+                        .is_boundary(acc, 0)
+                        .unwrap_or(true);
+                    if merges || g.starts_with(['(', ')', '∅', 'ε', '|', '*', '+', '\\']) {
+                        acc.insert(start, '\\');
                     }
                 }
             },
-- 
2.43.0


From 6b708b6ac234bba95eb1542a649918bdf24895ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:19 +0000
Subject: [PATCH 09/13] fix: delete loaded automata on the web page after use

---
 website/index.html | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/website/index.html b/website/index.html
index db75fb5..a5719b7 100644
--- a/website/index.html
+++ b/website/index.html
@@ -234,11 +234,11 @@ Visualize NFA here!
         if (errors === "") {
             let equal = check_dfa_eq(dfa1, dfa2);
             document.getElementById("dfa-eq-check").innerText = equal ? "Equivalent" : "Not equivalent";
-            delete_dfa(dfa1);
-            delete_dfa(dfa2);
         } else {
             document.getElementById("dfa-eq-check").innerText = "Fix errors first!";
         }
+        delete_dfa(dfa1);
+        delete_dfa(dfa2);
 
         document.getElementById("dfa-eq-errors").innerText = errors;
     }
@@ -262,11 +262,11 @@ Visualize NFA here!
         if (errors === "") {
             let equal = check_nfa_eq(nfa1, nfa2);
             document.getElementById("nfa-eq-check").innerText = equal ? "Equivalent" : "Not equivalent";
-            delete_nfa(nfa1);
-            delete_nfa(nfa2);
         } else {
             document.getElementById("nfa-eq-check").innerText = "Fix errors first!";
         }
+        delete_nfa(nfa1);
+        delete_nfa(nfa2);
 
         document.getElementById("nfa-eq-errors").innerText = errors;
     }
@@ -295,6 +295,7 @@ Visualize NFA here!
             return;
         }
         draw_nfa(nfa, "nfa-visualization");
+        delete_nfa(nfa);
     }
 
     function minimizeDfa() {
@@ -304,6 +305,7 @@ Visualize NFA here!
             document.getElementById("dfa-minimize-btn").innerText = "Minimize!";
             minimize_dfa(dfa);
             document.getElementById("dfa-minimize-out").value = dfa_to_table(dfa).replace("\n", "\r\n");
+            delete_dfa(dfa);
         } catch (e) {
             document.getElementById("dfa-minimize-btn").innerText = e;
         }
@@ -315,6 +317,7 @@ Visualize NFA here!
             document.getElementById("regex-to-nfa-btn").innerText = "Convert!";
             let nfa = regex_to_nfa(regex);
             document.getElementById("regex-to-nfa-out").value = nfa_to_table(nfa).replace("\n", "\r\n");
+            delete_nfa(nfa);
         } catch (e) {
             document.getElementById("regex-to-nfa-btn").innerText = e;
         }
-- 
2.43.0


From 69041015a6e942c9c311927f0ea41f3d85eef8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:19 +0000
Subject: [PATCH 10/13] fix: clear the canvas before visualizing another NFA

---
 website/index.html | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/website/index.html b/website/index.html
index a5719b7..4a479bb 100644
--- a/website/index.html
+++ b/website/index.html
@@ -294,6 +294,8 @@ Visualize NFA here!
             document.getElementById("nfa-visualize-btn").innerText = e;
             return;
         }
+        const canvas = document.getElementById("nfa-visualization");
+        canvas.getContext("2d").clearRect(0, 0, canvas.width, canvas.height);
         draw_nfa(nfa, "nfa-visualization");
         delete_nfa(nfa);
     }
-- 
2.43.0


From 06f8fdd2a731ff0dbe2c5253cbbc5c1aa0a53364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:55 +0000
Subject: [PATCH 11/13] =?UTF-8?q?fix:=20print=20empty=20sequences=20and=20?=
 =?UTF-8?q?alternatives=20of=20a=20Regex=20as=20=CE=B5=20and=20=E2=88=85?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 dandy/src/regex/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dandy/src/regex/mod.rs b/dandy/src/regex/mod.rs
index bde5ab7..63d08a5 100644
--- a/dandy/src/regex/mod.rs
+++ b/dandy/src/regex/mod.rs
@@ -168,6 +168,9 @@ impl Regex {
 
     fn build_string(tree: &RegexTree, acc: &mut String) {
         match tree {
+            // An empty sequence is the empty word, and no alternatives is the empty language
+            RegexTree::Sequence(seq) if seq.is_empty() => acc.push('ε'),
+            RegexTree::Alt(seq) if seq.is_empty() => acc.push('∅'),
             RegexTree::Sequence(seq) => {
                 for item in seq {
                     Self::build_string(item, acc);
-- 
2.43.0


From 84d70b37565851242b00573e52adc657431a5445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:31 +0000
Subject: [PATCH 12/13] fix: draw the arrow at the margin only when the first
 state is the initial one

---
 dandy-draw/src/lib.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dandy-draw/src/lib.rs b/dandy-draw/src/lib.rs
index 4d2b28e..5f05242 100644
--- a/dandy-draw/src/lib.rs
+++ b/dandy-draw/src/lib.rs
@@ -185,9 +185,8 @@ fn draw<'a>(
     let circle_center = line_baseline + opts.line_circle_margin + opts.circle_radius;
 
     drawer.start_drawing();
-    // draw arrow
-    // FIXME: This assumes first is initial, which isn't always the case
-    {
+    // draw arrow at the margin, which points at the first state
+    if states.first().is_some_and(|state| state.initial) {
         drawer.set_color(opts.line_color);
         let arrow_base = pos2(opts.init_arrow_length, circle_center);
         drawer.draw_line(pos2(0.0, circle_center), arrow_base, opts.init_arrow_width);
-- 
2.43.0


From c4d48e84043c7ea1fee788397d554b611d4a628e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:57 +0000
Subject: [PATCH 13/13] fix: put the initial state's arrow in front of that
 state in ASCII art

---
 dandy-draw/src/lib.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/dandy-draw/src/lib.rs b/dandy-draw/src/lib.rs
index 5f05242..28a98d7 100644
--- a/dandy-draw/src/lib.rs
+++ b/dandy-draw/src/lib.rs
@@ -353,14 +353,20 @@ fn ascii_art<'a>(states: Vec<State<'a>>, arrows: Vec<Arrow<'a>>) -> String {
         };
 
         let mut acc = String::with_capacity(art_width);
-        acc.push_str("-> ");
-        states.iter().for_each(|state| {
+        states.iter().enumerate().for_each(|(idx, state)| {
+            acc.push_str(match (idx, state.initial) {
+                (0, true) => "-> ",
+                (0, false) => "   ",
+                (_, true) => ">", // there is only room for the head between two states
+                (_, false) => " ",
+            });
             if state.accepting {
-                acc.push_str(&format!("(( {} )) ", pad(state.name, widest_state_name)))
+                acc.push_str(&format!("(( {} ))", pad(state.name, widest_state_name)))
             } else {
-                acc.push_str(&format!("(  {}  ) ", pad(state.name, widest_state_name)))
+                acc.push_str(&format!("(  {}  )", pad(state.name, widest_state_name)))
             }
         });
+        acc.push(' ');
         acc
     };
 
-- 
2.43.0

