From eebdb392f0a9c27b747a07c2d112cda0bfbbfc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:40 +0000
Subject: [PATCH 1/4] fix: report the number of rows found when a block sudoku
 ends early

---
 src/board/sudoku.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/board/sudoku.rs b/src/board/sudoku.rs
index 2656e94..81c83ba 100644
--- a/src/board/sudoku.rs
+++ b/src/board/sudoku.rs
@@ -520,7 +520,7 @@ impl Sudoku {
             n_line_sud += 1;
         }
         if n_line_sud != 9 {
-            return Err(BlockParseError::NotEnoughRows(n_line_sud + 1)); // number of rows = index of last + 1
+            return Err(BlockParseError::NotEnoughRows(n_line_sud));
         }
         Ok(Sudoku(grid))
     }
-- 
2.43.0


From 4aeecd77d402eafcf339e6483578bc250f5a835b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:54 +0000
Subject: [PATCH 2/4] fix: position constructors panic on out-of-range numbers
 in release builds too, as documented

---
 src/board/positions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/board/positions.rs b/src/board/positions.rs
index 81c4fd9..5a62193 100644
--- a/src/board/positions.rs
+++ b/src/board/positions.rs
@@ -179,7 +179,7 @@ macro_rules! define_types(
             /// # Panics
             /// Panics, if the argument is outside the allowed range.
             pub fn new(num: u8) -> Self {
-                debug_assert!(num < $limit);
+                assert!(num < $limit);
                 $name(num)
             }
 
-- 
2.43.0


From 7eb1bed714d043f99e109aeb9a55aff427f3db20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:59 +0000
Subject: [PATCH 3/4] fix: generation from an unsolvable sudoku returns it
 unchanged, as documented

---
 src/board/sudoku.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/board/sudoku.rs b/src/board/sudoku.rs
index 81c83ba..1e9c665 100644
--- a/src/board/sudoku.rs
+++ b/src/board/sudoku.rs
@@ -236,6 +236,10 @@ impl Sudoku {
         // after each deletion check for unique solvability
         // and backtrack on error
 
+        if !sudoku.is_uniquely_solvable() {
+            return sudoku;
+        }
+
         // generate random order
         let mut cell_order = [0; N_CELLS];
         cell_order
-- 
2.43.0


From 2f1fb00e621a119ce32f90e297b343debe7d5903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:45 +0000
Subject: [PATCH 4/4] fix: BlockParseError::InvalidLineLength message presented
 the row index as a number of entries

---
 src/errors.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/errors.rs b/src/errors.rs
index 1afacce..3c4def9 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -63,7 +63,7 @@ pub enum BlockParseError {
     InvalidEntry(InvalidEntry),
     /// Line contains (>9 valid entries) or (<9 and no invalids)
     /// Returns index of row (0-8)
-    #[error("a sudoku line should have 9 entries, found {0}")]
+    #[error("sudoku line {0} does not have 9 entries")]
     InvalidLineLength(u8),
     /// Input ends with less than 9 rows. Returns number of rows encountered.
     #[error("a sudoku should have 9 rows, found only {0}")]
-- 
2.43.0

