From 38fe6f11eeabe28854a8eee18d279eaaebb487f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 01/13] fix: exclude every row that conflicts with a row added
 to the partial solution

Only the rows sharing one of the added row's columns were excluded; adding a row that
shared another column afterwards read nodes that were already freed.
---
 src/structures/dancing_links/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/structures/dancing_links/mod.rs b/src/structures/dancing_links/mod.rs
index 7a81f5e..85ba187 100644
--- a/src/structures/dancing_links/mod.rs
+++ b/src/structures/dancing_links/mod.rs
@@ -66,8 +66,10 @@ impl DancingMatrix {
             return Err(DancingLinksError::InvalidRow);
         }
 
-        for node in unsafe { Node::iter_down(Node::header(row)).skip(1) } {
-            self.rows[unsafe { Node::row(node) }] = null_mut();
+        for column in unsafe { Node::iter_right(row) } {
+            for node in unsafe { Node::iter_down(Node::header(column)).skip(1) } {
+                self.rows[unsafe { Node::row(node) }] = null_mut();
+            }
         }
 
         for node in unsafe { Node::iter_right(row) } {
-- 
2.43.0


From ac2c0ed4eb62896d9d8b7cb3a4a83318920f18a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:41 +0000
Subject: [PATCH 02/13] fix: a row that cannot be added does not become part of
 the solution

---
 src/structures/dancing_links/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/structures/dancing_links/mod.rs b/src/structures/dancing_links/mod.rs
index 85ba187..09f330e 100644
--- a/src/structures/dancing_links/mod.rs
+++ b/src/structures/dancing_links/mod.rs
@@ -59,13 +59,15 @@ impl DancingMatrix {
             return Err(DancingLinksError::IndexError);
         }
 
-        self.partial_solution.push(row);
-        let row = self.rows[row];
+        let index = row;
+        let row = self.rows[index];
 
         if row.is_null() {
             return Err(DancingLinksError::InvalidRow);
         }
 
+        self.partial_solution.push(index);
+
         for column in unsafe { Node::iter_right(row) } {
             for node in unsafe { Node::iter_down(Node::header(column)).skip(1) } {
                 self.rows[unsafe { Node::row(node) }] = null_mut();
-- 
2.43.0


From 0ddd935468e0b3ccff31c78d3e6c3af61cf564bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:41 +0000
Subject: [PATCH 03/13] fix: refuse sudoku clues above 9 instead of taking them
 for other cells

---
 src/puzzles/sudoku/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/puzzles/sudoku/mod.rs b/src/puzzles/sudoku/mod.rs
index f1f9509..e21a3ec 100644
--- a/src/puzzles/sudoku/mod.rs
+++ b/src/puzzles/sudoku/mod.rs
@@ -78,6 +78,10 @@ pub fn solve_sudoku(puzzle: &[u8]) -> Result<Vec<u8>, SudokuError> {
             continue;
         }
 
+        if value as usize > GRID_SIZE {
+            return Err(SudokuError::NoSolution);
+        }
+
         let result = matrix.add_solution(index * 9 + (value as usize) - 1);
 
         if matches!(result, Err(DancingLinksError::InvalidRow)) {
-- 
2.43.0


From 21fb0413aa7da79d39aedcaa8fd4066be535a3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 04/13] fix: label steps of one-cell-wide mazes as vertical

---
 src/puzzles/maze/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/puzzles/maze/mod.rs b/src/puzzles/maze/mod.rs
index dae2c03..6d0c1ac 100644
--- a/src/puzzles/maze/mod.rs
+++ b/src/puzzles/maze/mod.rs
@@ -86,14 +86,14 @@ pub fn create_maze(
 
                 let mut solution = Vec::new();
                 while let PathNode::Path(parent) = path_tree[current] {
-                    solution.push(if parent == current + 1 {
-                        MazeDirection::Left
-                    } else if parent == current + width {
+                    solution.push(if parent == current + width {
                         MazeDirection::Up
-                    } else if parent == current - 1 {
-                        MazeDirection::Right
-                    } else {
+                    } else if parent + width == current {
                         MazeDirection::Down
+                    } else if parent == current + 1 {
+                        MazeDirection::Left
+                    } else {
+                        MazeDirection::Right
                     });
 
                     current = parent;
-- 
2.43.0


From 41618441d39efb39e414f62a8d878fe550f95d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 05/13] fix: draw maze solutions that touch the left or top
 cells or leave by the bottom row

A step into the first column or row, and every exit from the bottom row, was refused
as an invalid solution although all its pixels lie inside the picture.
---
 src/puzzles/maze/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/puzzles/maze/mod.rs b/src/puzzles/maze/mod.rs
index 6d0c1ac..134f8d7 100644
--- a/src/puzzles/maze/mod.rs
+++ b/src/puzzles/maze/mod.rs
@@ -207,7 +207,7 @@ pub fn print_maze_solution(
                 y += 1;
             }
             MazeDirection::Left => {
-                if x * 10 < 15 || unsolved.height() < y * 10 + 6 {
+                if x * 10 < 10 || unsolved.height() < y * 10 + 6 {
                     return Err(MazeError::InvalidSolution);
                 }
 
@@ -218,7 +218,7 @@ pub fn print_maze_solution(
                 x -= 1;
             }
             MazeDirection::Up => {
-                if unsolved.width() < x * 10 + 6 || y * 10 < 15 {
+                if unsolved.width() < x * 10 + 6 || y * 10 < 10 {
                     return Err(MazeError::InvalidSolution);
                 }
 
@@ -231,7 +231,7 @@ pub fn print_maze_solution(
         }
     }
 
-    if unsolved.width() < x * 10 + 6 || unsolved.height() < y * 10 + 16 {
+    if unsolved.width() < x * 10 + 6 || unsolved.height() < y * 10 + 11 {
         return Err(MazeError::InvalidSolution);
     }
 
-- 
2.43.0


From 076abeda84cb04119179c8c341941b1d15f82d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:10 +0000
Subject: [PATCH 06/13] fix: accept zeros in nonogram rules

A rule containing 0 (the usual spelling of an empty line) built a state machine without
filled states between two ends and panicked.
---
 src/puzzles/nonogram/right_left.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/puzzles/nonogram/right_left.rs b/src/puzzles/nonogram/right_left.rs
index f872a6f..fe5735f 100644
--- a/src/puzzles/nonogram/right_left.rs
+++ b/src/puzzles/nonogram/right_left.rs
@@ -19,7 +19,7 @@ impl RuleMachine {
     pub fn new(rule: &[usize]) -> Self {
         let mut left_states = vec![Node::Start, Node::End];
 
-        for &value in rule {
+        for &value in rule.iter().filter(|&&value| value > 0) {
             left_states.extend(vec![Node::Fill; value].into_iter());
             left_states.push(Node::Space);
         }
@@ -28,7 +28,7 @@ impl RuleMachine {
 
         let mut right_states = vec![Node::Start, Node::End];
 
-        for &value in rule.iter().rev() {
+        for &value in rule.iter().rev().filter(|&&value| value > 0) {
             right_states.extend(vec![Node::Fill; value].into_iter());
             right_states.push(Node::Space);
         }
-- 
2.43.0


From 9582b00265452e7f5c70c6cb0a19d45f50e2b29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:10 +0000
Subject: [PATCH 07/13] fix: refuse nonograms without columns or rows as empty
 instead of panicking

---
 src/puzzles/nonogram/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/puzzles/nonogram/mod.rs b/src/puzzles/nonogram/mod.rs
index 977a1ec..40bbe52 100644
--- a/src/puzzles/nonogram/mod.rs
+++ b/src/puzzles/nonogram/mod.rs
@@ -72,6 +72,10 @@ pub fn solve_nonogram(col: &[Vec<usize>], row: &[Vec<usize>]) -> Result<Vec<bool
     let width = col.len();
     let height = row.len();
 
+    if width == 0 || height == 0 {
+        return Err(NonogramError::EmptyPuzzle);
+    }
+
     let mut grid = vec![Square::Blank; width * height];
 
     right_left(&mut grid, col, row)?;
-- 
2.43.0


From 29cc6d69f403f89e3f2f5e9ffecdfd16b73fe9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:10 +0000
Subject: [PATCH 08/13] fix: do not overflow when adding up a nonogram rule

---
 src/puzzles/nonogram/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/puzzles/nonogram/mod.rs b/src/puzzles/nonogram/mod.rs
index 40bbe52..5537a1f 100644
--- a/src/puzzles/nonogram/mod.rs
+++ b/src/puzzles/nonogram/mod.rs
@@ -35,7 +35,7 @@ pub fn parse_nonogram_rules(rules: &str, bound: usize) -> Result<Vec<Vec<usize>>
     rules
         .split(';')
         .map(|rule| {
-            let mut size = 0;
+            let mut size: u128 = 0;
 
             let values = rule
                 .split(',')
@@ -44,15 +44,15 @@ pub fn parse_nonogram_rules(rules: &str, bound: usize) -> Result<Vec<Vec<usize>>
                         .parse::<usize>()
                         .or(Err(NonogramError::InvalidRule(x.into())))?;
 
-                    size += value;
+                    size += value as u128;
 
                     Ok(value)
                 })
                 .collect::<Result<Vec<usize>, NonogramError>>()?;
 
-            size += values.len() - 1;
+            size += values.len() as u128 - 1;
 
-            if values.is_empty() || size > bound {
+            if values.is_empty() || size > bound as u128 {
                 return Err(NonogramError::InvalidRuleDimension);
             }
 
-- 
2.43.0


From fe2f9e59d8ae0ed83d1dd3038e2b567d2dda5386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:10 +0000
Subject: [PATCH 09/13] fix: report nonogram rules longer than their line as
 unsolvable

The solver allocated one state per square of the rule, so a large number exhausted memory.
---
 src/puzzles/nonogram/mod.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/puzzles/nonogram/mod.rs b/src/puzzles/nonogram/mod.rs
index 5537a1f..2dcce74 100644
--- a/src/puzzles/nonogram/mod.rs
+++ b/src/puzzles/nonogram/mod.rs
@@ -76,6 +76,10 @@ pub fn solve_nonogram(col: &[Vec<usize>], row: &[Vec<usize>]) -> Result<Vec<bool
         return Err(NonogramError::EmptyPuzzle);
     }
 
+    if !col.iter().all(|rule| fits(rule, height)) || !row.iter().all(|rule| fits(rule, width)) {
+        return Err(NonogramError::NoSolution);
+    }
+
     let mut grid = vec![Square::Blank; width * height];
 
     right_left(&mut grid, col, row)?;
@@ -87,6 +91,16 @@ pub fn solve_nonogram(col: &[Vec<usize>], row: &[Vec<usize>]) -> Result<Vec<bool
         .collect())
 }
 
+fn fits(rule: &[usize], length: usize) -> bool {
+    let mut end = 0;
+
+    rule.iter().filter(|&&value| value > 0).all(|&value| {
+        let fits = value <= length.saturating_sub(end);
+        end = end.saturating_add(value).saturating_add(1);
+        fits
+    })
+}
+
 fn right_left(
     grid: &mut [Square],
     col: &[Vec<usize>],
-- 
2.43.0


From 31a435d29dfd67092ce886130839081cea54bd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:10 +0000
Subject: [PATCH 10/13] fix: search for an answer where line deduction leaves a
 nonogram undecided

The backtracking step was empty, so undecided squares were returned as blank and the
answer broke the rules.
---
 src/puzzles/nonogram/mod.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/puzzles/nonogram/mod.rs b/src/puzzles/nonogram/mod.rs
index 2dcce74..4a788d0 100644
--- a/src/puzzles/nonogram/mod.rs
+++ b/src/puzzles/nonogram/mod.rs
@@ -83,7 +83,9 @@ pub fn solve_nonogram(col: &[Vec<usize>], row: &[Vec<usize>]) -> Result<Vec<bool
     let mut grid = vec![Square::Blank; width * height];
 
     right_left(&mut grid, col, row)?;
-    recursive_backtrack(&mut grid, col, row);
+    if !recursive_backtrack(&mut grid, col, row) {
+        return Err(NonogramError::NoSolution);
+    }
 
     Ok(grid
         .iter()
@@ -134,7 +136,27 @@ fn right_left(
     Ok(())
 }
 
-fn recursive_backtrack(grid: &mut [Square], col: &[Vec<usize>], row: &[Vec<usize>]) {}
+fn recursive_backtrack(grid: &mut [Square], col: &[Vec<usize>], row: &[Vec<usize>]) -> bool {
+    let Some(blank) = grid
+        .iter()
+        .position(|square| matches!(square, Square::Blank))
+    else {
+        return true;
+    };
+
+    for guess in [Square::Filled, Square::Blocked] {
+        let mut attempt = grid.to_vec();
+        attempt[blank] = guess;
+
+        if right_left(&mut attempt, col, row).is_ok() && recursive_backtrack(&mut attempt, col, row)
+        {
+            grid.clone_from_slice(&attempt);
+            return true;
+        }
+    }
+
+    false
+}
 
 pub fn print_nonogram(
     width: u32,
-- 
2.43.0


From 4bc9662b9662d13c6f9e287797792f22a3d07bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:10 +0000
Subject: [PATCH 11/13] fix: compare nonogram picture sizes without overflow

---
 src/puzzles/nonogram/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/puzzles/nonogram/mod.rs b/src/puzzles/nonogram/mod.rs
index 4a788d0..832ba22 100644
--- a/src/puzzles/nonogram/mod.rs
+++ b/src/puzzles/nonogram/mod.rs
@@ -246,12 +246,12 @@ pub fn print_nonogram_solution(
     mut image: RgbBuffer,
     grid: &[bool],
 ) -> Result<RgbBuffer, NonogramError> {
-    let rule_width = max(150, width * 10);
-    let rule_height = max(150, height * 10);
+    let rule_width = max(150, width as u64 * 10);
+    let rule_height = max(150, height as u64 * 10);
 
     if grid.len() != width as usize * height as usize
-        || image.width() != width * 50 + rule_width
-        || image.height() != height * 50 + rule_height
+        || image.width() as u64 != width as u64 * 50 + rule_width
+        || image.height() as u64 != height as u64 * 50 + rule_height
     {
         return Err(NonogramError::InvalidDimensions);
     }
-- 
2.43.0


From 077b0f23bee8858396ff6f909d92f8e1cd77e674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:18 +0000
Subject: [PATCH 12/13] Verification hooks behind cfg(vp_hooks)

---
 src/lib.rs                  | 13 +++++++++++++
 src/puzzles/nonogram/mod.rs | 25 +++++++++++++++++++++++++
 2 files changed, 38 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index a473200..6cfc824 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 pub mod puzzles;
 mod structures;
 mod util;
@@ -23,3 +25,14 @@ pub fn image_to_png_bytes(image: &RgbBuffer) -> Result<Vec<u8>, ImageError> {
 
     Ok(bytes)
 }
+
+/// Access to internals for the verification harness; absent from normal builds.
+#[cfg(vp_hooks)]
+pub mod vp_hooks {
+    pub use crate::puzzles::nonogram::vp_line_step;
+    pub use crate::structures::{
+        dancing_links::{DancingLinksError, DancingMatrix},
+        disjoint_set::DisjointSet,
+    };
+    pub use crate::util::choose_random;
+}
diff --git a/src/puzzles/nonogram/mod.rs b/src/puzzles/nonogram/mod.rs
index 832ba22..c27aa55 100644
--- a/src/puzzles/nonogram/mod.rs
+++ b/src/puzzles/nonogram/mod.rs
@@ -136,6 +136,31 @@ fn right_left(
     Ok(())
 }
 
+/// One deduction step on one line; marks are 0 (undecided), 1 (filled) and 2 (blocked).
+#[cfg(vp_hooks)]
+pub fn vp_line_step(rule: &[usize], marks: &mut [u8]) -> Result<bool, NonogramError> {
+    let mut line: Vec<Square> = marks
+        .iter()
+        .map(|mark| match mark {
+            0 => Square::Blank,
+            1 => Square::Filled,
+            _ => Square::Blocked,
+        })
+        .collect();
+
+    let result = RuleMachine::new(rule).right_left(line.iter_mut().collect());
+
+    for (mark, square) in marks.iter_mut().zip(line) {
+        *mark = match square {
+            Square::Blank => 0,
+            Square::Filled => 1,
+            Square::Blocked => 2,
+        };
+    }
+
+    result
+}
+
 fn recursive_backtrack(grid: &mut [Square], col: &[Vec<usize>], row: &[Vec<usize>]) -> bool {
     let Some(blank) = grid
         .iter()
-- 
2.43.0


From f0fb2a8ed037001719b4a2cda1d82520622d37bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:10 +0000
Subject: [PATCH 13/13] Verification hooks: one flag per part

---
 src/lib.rs                  | 15 +++++++++------
 src/puzzles/nonogram/mod.rs |  2 +-
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6cfc824..dd6b96f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -26,13 +26,16 @@ pub fn image_to_png_bytes(image: &RgbBuffer) -> Result<Vec<u8>, ImageError> {
     Ok(bytes)
 }
 
-/// Access to internals for the verification harness; absent from normal builds.
-#[cfg(vp_hooks)]
+/// Access to internals for the verification harness; absent from normal builds. `vp_hooks` opens
+/// all of it, the other flags one part each.
+#[cfg(any(vp_hooks, vp_cover, vp_line, vp_random, vp_sets))]
 pub mod vp_hooks {
+    #[cfg(any(vp_hooks, vp_line))]
     pub use crate::puzzles::nonogram::vp_line_step;
-    pub use crate::structures::{
-        dancing_links::{DancingLinksError, DancingMatrix},
-        disjoint_set::DisjointSet,
-    };
+    #[cfg(any(vp_hooks, vp_cover))]
+    pub use crate::structures::dancing_links::{DancingLinksError, DancingMatrix};
+    #[cfg(any(vp_hooks, vp_sets))]
+    pub use crate::structures::disjoint_set::DisjointSet;
+    #[cfg(any(vp_hooks, vp_random))]
     pub use crate::util::choose_random;
 }
diff --git a/src/puzzles/nonogram/mod.rs b/src/puzzles/nonogram/mod.rs
index c27aa55..64a5f19 100644
--- a/src/puzzles/nonogram/mod.rs
+++ b/src/puzzles/nonogram/mod.rs
@@ -137,7 +137,7 @@ fn right_left(
 }
 
 /// One deduction step on one line; marks are 0 (undecided), 1 (filled) and 2 (blocked).
-#[cfg(vp_hooks)]
+#[cfg(any(vp_hooks, vp_line))]
 pub fn vp_line_step(rule: &[usize], marks: &mut [u8]) -> Result<bool, NonogramError> {
     let mut line: Vec<Square> = marks
         .iter()
-- 
2.43.0

