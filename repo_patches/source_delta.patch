From a41a9fe4760004ac709117e1c081e44ff84a8c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 01/12] fix: tokenise operators that are preceded by whitespace

An operator character preceded by more whitespace than the single character
that ended the previous token ("F - - F", "A  + B") produced an empty token,
which is a terminator, and the rest of the string was silently dropped.
---
 src/parser/iterator.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/iterator.rs b/src/parser/iterator.rs
index acd88f1..d6dc58e 100644
--- a/src/parser/iterator.rs
+++ b/src/parser/iterator.rs
@@ -37,7 +37,7 @@ impl<'a> Iterator for TokenIterator<'a> {
             let brk = next_break(text, index);
 
             if let Break::Token(i, c) = brk {
-                if i == 0 {
+                if i == index {
                     let mut chars : Vec<char> = vec![c];
                     let mut lookahead = next_break(text, index + 1);
                     while lookahead.is_token() && lookahead.index() == index + chars.len() {
@@ -46,8 +46,8 @@ impl<'a> Iterator for TokenIterator<'a> {
                     }
 
                     let index_start = self.current;
-                    let index_end = self.current + chars.len();
-                    self.current += chars.len();
+                    let index_end = self.current + index + chars.len();
+                    self.current += index + chars.len();
 
                     return Some(Token::new(&text[index..index + chars.len()], index_start, index_end));
                 }
-- 
2.43.0


From b0410183b49327ff933e2fc55a7f5651dd499e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 02/12] fix: skip the whole of a multi-byte whitespace
 character when tokenising

A multi-byte whitespace character (U+00A0, U+3000, ...) after a token left the
iterator inside of the character, and the next call panicked.
---
 src/parser/iterator.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/parser/iterator.rs b/src/parser/iterator.rs
index d6dc58e..d8a6e48 100644
--- a/src/parser/iterator.rs
+++ b/src/parser/iterator.rs
@@ -57,8 +57,8 @@ impl<'a> Iterator for TokenIterator<'a> {
             let index_end = self.current + brk.index();
             self.current += brk.index();
 
-            if brk.is_ignore() {
-                self.current += 1;
+            if let Break::Ignore(_, c) = brk {
+                self.current += c.len_utf8();
             }
 
             if brk.is_end() {
@@ -133,11 +133,6 @@ impl Break {
         matches!(self, Break::End(_))
     }
 
-    #[inline]
-    fn is_ignore(self) -> bool {
-        matches!(self, Break::Ignore(_, _))
-    }
-
     #[inline]
     fn is_token(self) -> bool {
         matches!(self, Break::Token(_, _))
-- 
2.43.0


From cb9ec353ba4358e2b8feb9bd729a4e8f620b67de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 03/12] fix: do not panic when matching an index outside of the
 string

ProductionHead::matches returned false for an out of range index when the
production had no contexts, but panicked when it had one.
---
 src/productions.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/productions.rs b/src/productions.rs
index 0b80a52..fd7a29d 100644
--- a/src/productions.rs
+++ b/src/productions.rs
@@ -121,12 +121,12 @@ impl ProductionHead {
     /// Returns true iff this matches the given
     /// string's index position of the string.
     pub fn matches(&self, string: &ProductionString, index: usize) -> bool {
-        self.pre_matches(string, index) &&
-        self.post_matches(string, index) &&
-            string.symbols()
-                .get(index)
-                .map(|symbol| self.target == *symbol)
-                .unwrap_or(false)
+        string.symbols()
+            .get(index)
+            .map(|symbol| self.target == *symbol)
+            .unwrap_or(false) &&
+            self.pre_matches(string, index) &&
+            self.post_matches(string, index)
     }
 
     pub fn pre_matches(&self, string: &ProductionString, index: usize) -> bool {
-- 
2.43.0


From 49e987281d6272ac675d254c4cea997e3dbdbafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 04/12] fix: return an error for a production body chance of
 zero

ProductionBody::try_with_chance let a chance of 0.0 through to Chance::new,
which asserts that the chance is positive, so parsing "A -> 0 B" panicked.
---
 src/productions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/productions.rs b/src/productions.rs
index fd7a29d..c15f133 100644
--- a/src/productions.rs
+++ b/src/productions.rs
@@ -189,8 +189,8 @@ impl ProductionBody {
     /// Creates a new production body from the given
     /// [`ProductionString`] that can occur with the given chance.
     pub fn try_with_chance(chance: f32, string: ProductionString) -> Result<Self> {
-        if !(0.0..=1.0).contains(&chance) {
-            return Err(Error::new(ErrorKind::Parse, "chance should be between 0.0 and 1.0 inclusive"));
+        if !(chance > 0.0 && chance <= 1.0) {
+            return Err(Error::new(ErrorKind::Parse, "chance should be greater than 0.0, and at most 1.0"));
         }
 
         Ok(ProductionBody {
-- 
2.43.0


From 763771b385c3b1f62b3a5ff3f1b8ba80249aeecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 05/12] fix: return an error when a turtle string finishes an
 unopened branch

AbopTurtleInterpretation::interpret panicked on strings with more "]" than "[".
---
 src/interpretation/abop.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/interpretation/abop.rs b/src/interpretation/abop.rs
index 28ecdf2..ee39aae 100644
--- a/src/interpretation/abop.rs
+++ b/src/interpretation/abop.rs
@@ -119,7 +119,8 @@ impl Interpretation for AbopTurtleInterpretation {
             } else if token == push {               // interpret push tokens. This starts "a branch" of the plant.
                 pos_stack.push((pos, dir));
             } else if token == pop {                // interpret pop tokens. This ends "a branch", returning to where the branch started.
-                (pos, dir) = pos_stack.pop().expect("Nothing to pop");
+                (pos, dir) = pos_stack.pop()
+                    .ok_or_else(|| Error::execution("there is no open branch to finish"))?;
                 if path.len() > 1 {
                     paths.push(path)
                 }
-- 
2.43.0


From 8e800ef30f6c81bd7afe6f2dc83ec5fa2e889edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 06/12] fix: return an error when a symbol of the turtle
 alphabet is not defined

AbopTurtleInterpretation::interpret panicked when the symbol store did not
know all of the symbols of the ABOP family.
---
 src/interpretation/abop.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/interpretation/abop.rs b/src/interpretation/abop.rs
index ee39aae..2d27641 100644
--- a/src/interpretation/abop.rs
+++ b/src/interpretation/abop.rs
@@ -71,6 +71,11 @@ impl AbopTurtleInterpretation {
 
 pub type AbopSvgInterpretation = SvgPathInterpretation<AbopTurtleInterpretation>;
 
+fn find_symbol<S: SymbolStore>(symbols: &S, name: &str) -> crate::Result<Symbol> {
+    symbols.get_symbol(name)
+        .ok_or_else(|| Error::definition(format!("symbol {name} has not been defined")))
+}
+
 impl Interpretation for AbopTurtleInterpretation {
     type Item = Vec<Path>;
 
@@ -83,12 +88,12 @@ impl Interpretation for AbopTurtleInterpretation {
                                  tokens: &S,
                                  string: &ProductionString) -> crate::Result<Self::Item> {
         // We need token values to interpret the strings.
-        let forward = tokens.get_symbol("Forward").unwrap();
-        let space = tokens.get_symbol("Move").unwrap();
-        let right = tokens.get_symbol("+").unwrap();
-        let left = tokens.get_symbol("-").unwrap();
-        let push = tokens.get_symbol("[").unwrap();
-        let pop = tokens.get_symbol("]").unwrap();
+        let forward = find_symbol(tokens, "Forward")?;
+        let space = find_symbol(tokens, "Move")?;
+        let right = find_symbol(tokens, "+")?;
+        let left = find_symbol(tokens, "-")?;
+        let push = find_symbol(tokens, "[")?;
+        let pop = find_symbol(tokens, "]")?;
 
         // We will interpret the tokens as instructions to a LOGO turtle. The following
         // variables keep track of the position that we're at and the direction we're facing.
-- 
2.43.0


From 2d05668745dbdcb18b08646464e922dee1ef2e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 07/12] fix: an empty path has no bounds

As documented on the Bounds trait. The bounds were infinite, and the center of
mass was NaN.
---
 src/geometry.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geometry.rs b/src/geometry.rs
index 7732e6b..15de0ac 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -380,6 +380,10 @@ impl Bounds for Path {
     /// Returns the bounds for the path.
 
     fn bounds(&self) -> Option<BoundingBox> {
+        if self.is_empty() {
+            return None
+        }
+
         let mut bounds = BoundingBox::initial_infinite();
 
         let mut center = Point::zero();
-- 
2.43.0


From 1e540d65f6e1060ecd19f5941bc2b27d937508d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 08/12] fix: register the name of a symbol before its code can
 be seen

get_code released the code register before writing the name register, so
another thread could be given a code for which get_name returned None.
---
 src/symbols.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/symbols.rs b/src/symbols.rs
index 5d736a3..39de2bd 100644
--- a/src/symbols.rs
+++ b/src/symbols.rs
@@ -71,11 +71,14 @@ pub fn get_code(name: &str) -> Result<u32, Error> {
     }
 
     let code = SYMBOL_ID.fetch_add(1, Ordering::SeqCst);
-    register.insert(name.clone(), code);
-    drop(register);
 
-    let mut register = get_name_register().write()?;
-    register.insert(code, name);
+    // The code register is still locked here, so that no other thread is given
+    // this code before its name can be found.
+    let mut names = get_name_register().write()?;
+    names.insert(code, name.clone());
+    drop(names);
+
+    register.insert(name, code);
     drop(register);
 
     Ok(code)
-- 
2.43.0


From 88b682a75d3103fa007723bbbe862da10698de8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 09/12] fix: do not panic when there is nothing to draw in an
 SVG

SvgPathInterpretation::interpret unwrapped the bounds of the drawing, but an
interpretation that produces no points has none.
---
 src/interpretation/svg.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/interpretation/svg.rs b/src/interpretation/svg.rs
index 78194cd..a651d4a 100644
--- a/src/interpretation/svg.rs
+++ b/src/interpretation/svg.rs
@@ -90,7 +90,9 @@ impl<T> Interpretation for SvgPathInterpretation<T>
         let paths = self.initial.interpret(tokens, string)?;
         let bounds = paths.bounds();
 
-        let center = bounds.as_ref().unwrap().center();
+        let center = bounds.as_ref()
+            .map(|bounds| bounds.center())
+            .unwrap_or_default();
         let canvas_centre = Point::new(self.width as f64 / 2.0, self.height as f64 / 2.0);
 
         let scale = bounds.as_ref()
-- 
2.43.0


From 688506c3a121515e99f5ba9ec12c54c366176270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 10/12] fix: do not scale a single point to infinity in an SVG

The SVG of a drawing without any extent contained "scale(inf -inf)", which is
not a valid transform.
---
 src/interpretation/svg.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/interpretation/svg.rs b/src/interpretation/svg.rs
index a651d4a..d15750f 100644
--- a/src/interpretation/svg.rs
+++ b/src/interpretation/svg.rs
@@ -100,6 +100,8 @@ impl<T> Interpretation for SvgPathInterpretation<T>
                 let scale_y = self.height() as f64 / bounds.height();
                 let scale_x = self.width() as f64 / bounds.width();
                 let scale = scale_x.min(scale_y);
+                // A drawing that is a single point cannot be scaled to fit.
+                let scale = if scale.is_finite() { scale } else { 1.0 };
 
                 Point::new(scale, -scale)
             })
-- 
2.43.0


From cdb08afc4a619ca01aca6ca7f825d7b827f6fdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 11/12] fix: allow for rounding in the total chance of
 production bodies

Ten bodies with a chance of 0.1 each were rejected, as their sum rounds to
slightly more than 1.0.
---
 src/productions.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/productions.rs b/src/productions.rs
index c15f133..b467994 100644
--- a/src/productions.rs
+++ b/src/productions.rs
@@ -279,7 +279,9 @@ impl Production {
             return Err(Error::execution("chance should never be negative"));
         }
 
-        if total_chance > 1.0 {
+        // Summing the chances (such as 0.1, ten times) can round to a little more than 1.0
+        let rounding = self.body.len() as f32 * f32::EPSILON;
+        if total_chance > 1.0 + rounding {
             return Err(Error::execution("total chance of production bodies should not be greater than 1.0"));
         }
 
@@ -287,7 +289,7 @@ impl Production {
         let default_chance = if remaining == 0 {
             0_f32
         } else {
-            (1.0_f32 - total_chance) / (remaining as f32)
+            (1.0_f32 - total_chance).max(0.0) / (remaining as f32)
         };
 
         let mut current = 0_f32;
-- 
2.43.0


From 351c940719a2cf68e9e8ae7898b8b3c623066eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:52 +0000
Subject: [PATCH 12/12] fix: do not panic on a file name that is not UTF-8

---
 src/bin/lsystem/derive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/lsystem/derive.rs b/src/bin/lsystem/derive.rs
index 2798540..cbc2b79 100644
--- a/src/bin/lsystem/derive.rs
+++ b/src/bin/lsystem/derive.rs
@@ -9,7 +9,7 @@ use crate::cli::{Cli, InterpretationArgs};
 
 pub fn handle_derive(args: &Cli, derive: &InterpretationArgs) -> ExitCode {
     if args.verbose {
-        print!("Reading {} ", derive.file.to_str().unwrap());
+        print!("Reading {} ", derive.file.to_string_lossy());
     }
 
     let (interpretation, system, axiom) = {
-- 
2.43.0

