From c00a37beeed56ac91cd8705421fb56191fa0a770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 1/2] fix: get_row_copy read the wrong elements for every row
 but the first

The last element of row r is at (r + 1) * cols - 1, not (r + 1) * (cols - 1).
---
 crates/minikalman/src/matrix/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/minikalman/src/matrix/traits.rs b/crates/minikalman/src/matrix/traits.rs
index 1e0d4ce..4f9b09d 100644
--- a/crates/minikalman/src/matrix/traits.rs
+++ b/crates/minikalman/src/matrix/traits.rs
@@ -105,7 +105,7 @@ pub trait Matrix<const ROWS: usize, const COLS: usize, T = f32>:
         T: Copy,
     {
         let mut target_index: usize = (self.cols() - 1) as _;
-        let mut source_index: usize = (row + 1) * (self.cols() - 1);
+        let mut source_index: usize = (row + 1) * self.cols() - 1;
 
         let data = self.as_slice();
         row_data[idx!(target_index)] = data[idx!(source_index)];
-- 
2.43.0


From 5635e750dff725a01ef648ba911be4510df87ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 2/2] fix: nalgebra view of an undersized array read out of
 bounds

A MatrixDataArray may be created with fewer than ROWS * COLS elements; nalgebra
reads through RawStorage::ptr() unchecked, so safe code could read past the array.
---
 crates/minikalman/src/matrix/nalgebra_support.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/minikalman/src/matrix/nalgebra_support.rs b/crates/minikalman/src/matrix/nalgebra_support.rs
index 830009b..4916031 100644
--- a/crates/minikalman/src/matrix/nalgebra_support.rs
+++ b/crates/minikalman/src/matrix/nalgebra_support.rs
@@ -46,6 +46,11 @@ unsafe impl<const ROWS: usize, const COLS: usize, const TOTAL: usize, T>
 
     #[inline]
     fn ptr(&self) -> *const T {
+        // nalgebra reads ROWS × COLS elements through this pointer without any check.
+        assert!(
+            ROWS * COLS <= TOTAL,
+            "the backing array is too small for the matrix"
+        );
         self.as_slice().as_ptr()
     }
 
-- 
2.43.0

