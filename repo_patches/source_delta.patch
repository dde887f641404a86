From 0dedab2c558643de6481c790088062b238b633bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:54 +0000
Subject: [PATCH 001/117] fix: reversed keys were un-reversed when the sort
 caches tied

---
 src/comp.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/comp.rs b/src/comp.rs
index ebe1cfa..23c04d1 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -247,7 +247,8 @@ impl LineComp {
         } else if left.complete() && right.complete() {
             Ordering::Equal
         } else {
-            self.comp_lines(left.get(base), right.get(base))
+            // comp_lines has already applied self.reverse
+            return self.comp_lines(left.get(base), right.get(base));
         };
         self.reverse(x)
     }
-- 
2.43.0


From e80d005033f86de82b549440fea022af863a2e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:54 +0000
Subject: [PATCH 002/117] fix: whole-line sort keys cached the whole buffer
 instead of the line

---
 src/comp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/comp.rs b/src/comp.rs
index 23c04d1..b8574ba 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -445,7 +445,7 @@ impl LineCompare for LineCompWhole {
     }
 
     fn fill_cache_line(&mut self, item: &mut Item, value: &[u8], _delim: u8) {
-        self.comp.fill_cache(item, value);
+        self.comp.fill_cache(item, item.get(value));
     }
 
     fn set(&mut self, value: &[u8]) {
-- 
2.43.0


From b1872c84fa44bce43fd880485b043143f5c233ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:19 +0000
Subject: [PATCH 003/117] fix: sort keys differing only in trailing NUL bytes
 compared equal

---
 src/comp.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index b8574ba..95177f4 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -1588,7 +1588,8 @@ impl Compare for ComparePlain {
     }
     fn fill_cache(&self, item: &mut Item, value: &[u8]) {
         item.cache = u64::from_be_bytes(make_array(value));
-        item.assign_complete(value.len() <= 8);
+        // the cache is zero padded, so it cannot tell a trailing NUL from the end
+        item.assign_complete(value.len() <= 8 && !value.contains(&0));
     }
     fn set(&mut self, value: &[u8]) {
         self.value = value.to_vec();
@@ -1614,7 +1615,8 @@ impl Compare for CompareLower {
             x.make_ascii_lowercase();
         }
         item.cache = u64::from_be_bytes(aa);
-        item.assign_complete(value.len() <= 8);
+        // the cache is zero padded, so it cannot tell a trailing NUL from the end
+        item.assign_complete(value.len() <= 8 && !value.contains(&0));
     }
     fn set(&mut self, value: &[u8]) {
         value.assign_lower(&mut self.value);
-- 
2.43.0


From c36b9c6827a384dcfa1d255193b6a2daeeb14761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:19 +0000
Subject: [PATCH 004/117] fix: numeric sort ordered by a lossy f64 rather than
 by the number

---
 src/comp.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index 95177f4..4920534 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -1658,8 +1658,10 @@ impl Compare for CompareNumeric {
     fn equal(&self, left: &[u8], right: &[u8]) -> bool {
         num_cmp_signed(left, right) == Ordering::Equal
     }
-    fn fill_cache(&self, item: &mut Item, value: &[u8]) {
-        item.cache = ulp_to_ulong(value.to_f64_lossy());
+    fn fill_cache(&self, item: &mut Item, _value: &[u8]) {
+        // f64 rounds, and knows nothing of commas or leading whitespace
+        item.cache = 0;
+        item.clear_complete();
     }
     fn set(&mut self, value: &[u8]) {
         self.value = value.to_vec();
-- 
2.43.0


From cda80d2705ba7f9c9c154b69af82c09a2ef59189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:47 +0000
Subject: [PATCH 005/117] fix: numeric comparison ignored a fraction when the
 other number had none

---
 src/comp.rs | 69 +++++++++++++----------------------------------------
 1 file changed, 17 insertions(+), 52 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index 4920534..5614fdb 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -648,40 +648,23 @@ fn skip_comma(mut a: &[u8]) -> &[u8] {
     a
 }
 
-fn frac_cmp(mut a: &[u8], mut b: &[u8]) -> Ordering {
-    debug_assert!(!a.is_empty());
-    debug_assert!(!b.is_empty());
-    debug_assert!(a[0] == b'.');
-    debug_assert!(b[0] == b'.');
-    a = &a[1..];
-    b = &b[1..];
-    while !a.is_empty() && !b.is_empty() && (a[0] == b[0]) && a[0].is_ascii_digit() {
-        a = &a[1..];
-        b = &b[1..];
+/// the significant digits after the decimal point, if any
+fn frac_digits(a: &[u8]) -> &[u8] {
+    if a.is_empty() || a[0] != b'.' {
+        return b"";
     }
-    if a.is_empty() {
-        if b.is_empty() || !b[0].is_ascii_digit() {
-            Ordering::Equal
-        } else {
-            Ordering::Less
-        }
-    } else if b.is_empty() {
-        if a[0].is_ascii_digit() {
-            Ordering::Greater
-        } else {
-            Ordering::Equal
-        }
-    } else if a[0].is_ascii_digit() {
-        if b[0].is_ascii_digit() {
-            a[0].cmp(&b[0])
-        } else {
-            Ordering::Greater
-        }
-    } else if b[0].is_ascii_digit() {
-        Ordering::Less
-    } else {
-        Ordering::Equal
+    let mut a = &a[1..];
+    if let Some(n) = a.iter().position(|ch| !ch.is_ascii_digit()) {
+        a = &a[..n];
+    }
+    while let [rest @ .., b'0'] = a {
+        a = rest;
     }
+    a
+}
+
+fn frac_cmp(a: &[u8], b: &[u8]) -> Ordering {
+    frac_digits(a).cmp(frac_digits(b))
 }
 
 fn num_cmp_unsigned(mut a: &[u8], mut b: &[u8]) -> Ordering {
@@ -693,25 +676,7 @@ fn num_cmp_unsigned(mut a: &[u8], mut b: &[u8]) -> Ordering {
         a = skip_comma(a);
         b = skip_comma(b);
     }
-    if a.is_empty() && b.is_empty() {
-        return Ordering::Equal;
-    }
-    if a.is_empty() {
-        if b[0].is_ascii_digit() {
-            return Ordering::Less;
-        }
-        return Ordering::Equal;
-    }
-    if b.is_empty() {
-        if a[0].is_ascii_digit() {
-            return Ordering::Greater;
-        }
-        return Ordering::Equal;
-    }
-    if a[0] == b'.' && b[0] == b'.' {
-        return frac_cmp(a, b);
-    }
-    let tmp = a[0].cmp(&b[0]);
+    let tmp = a.first().cmp(&b.first());
 
     let mut log_a = 0;
     while !a.is_empty() && a[0].is_ascii_digit() {
@@ -731,7 +696,7 @@ fn num_cmp_unsigned(mut a: &[u8], mut b: &[u8]) -> Ordering {
         return log_a.cmp(&log_b);
     }
     if log_a == 0 {
-        return Ordering::Equal;
+        return frac_cmp(a, b);
     }
     tmp
 }
-- 
2.43.0


From 0c6fd5833250026d5b46de88c8d3b5cf7ec98bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:49 +0000
Subject: [PATCH 006/117] fix: float ordering was not a total order for NaN and
 negative zero

---
 src/comp.rs | 12 ++++++------
 src/num.rs  |  9 ++++-----
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index 5614fdb..b29a50c 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -1664,7 +1664,7 @@ impl Compare for Comparef64 {
         fcmp(left.to_f64_lossy(), right.to_f64_lossy())
     }
     fn equal(&self, left: &[u8], right: &[u8]) -> bool {
-        left.to_f64_lossy() == right.to_f64_lossy()
+        fcmp(left.to_f64_lossy(), right.to_f64_lossy()) == Ordering::Equal
     }
     fn fill_cache(&self, item: &mut Item, value: &[u8]) {
         item.cache = ulp_to_ulong(value.to_f64_lossy());
@@ -1677,7 +1677,7 @@ impl Compare for Comparef64 {
         fcmp(self.value, right.to_f64_lossy())
     }
     fn equal_self(&self, right: &[u8]) -> bool {
-        self.value == right.to_f64_lossy()
+        fcmp(self.value, right.to_f64_lossy()) == Ordering::Equal
     }
 }
 
@@ -1839,7 +1839,7 @@ impl LineCompare for LineCompExpr {
     ) -> bool {
         let left_val = self.exprs[left_file].eval(left);
         let right_val = self.exprs[right_file].eval(right);
-        left_val == right_val
+        fcmp(left_val, right_val) == Ordering::Equal
     }
     fn comp_lines(
         &mut self,
@@ -1863,7 +1863,7 @@ impl LineCompare for LineCompExpr {
     ) -> bool {
         let left_val = self.exprs[left_file].eval_line(left, delim);
         let right_val = self.exprs[right_file].eval_line(right, delim);
-        left_val == right_val
+        fcmp(left_val, right_val) == Ordering::Equal
     }
     fn lookup(&mut self, fieldnames: &[&str], file_num: usize) -> Result<()> {
         while self.exprs.len() < (file_num + 1) {
@@ -1890,7 +1890,7 @@ impl LineCompare for LineCompExpr {
     }
     fn equal_self_cols(&mut self, right: &TextLine) -> bool {
         let value = self.exprs[0].eval(right);
-        self.value == value
+        fcmp(self.value, value) == Ordering::Equal
     }
     fn comp_self_line(&mut self, right: &[u8], delim: u8) -> Ordering {
         let value = self.exprs[0].eval_line(right, delim);
@@ -1898,7 +1898,7 @@ impl LineCompare for LineCompExpr {
     }
     fn equal_self_line(&mut self, right: &[u8], delim: u8) -> bool {
         let value = self.exprs[0].eval_line(right, delim);
-        self.value == value
+        fcmp(self.value, value) == Ordering::Equal
     }
 }
 
diff --git a/src/num.rs b/src/num.rs
index 24ad3e4..1079b04 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -107,16 +107,15 @@ pub fn fcmp(x: f64, y: f64) -> Ordering {
     if x == y {
         return Ordering::Equal;
     }
-    if x > y {
-        return Ordering::Greater;
-    }
-    Ordering::Less
+    // total, even in the presence of NaN
+    x.total_cmp(&y)
 }
 
 /// convert an f64 to a similarly ordered u64
 #[must_use]
 pub fn ulp_to_ulong(d: f64) -> u64 {
-    let x = u64::from_ne_bytes(d.to_ne_bytes());
+    // adding zero turns -0.0 into 0.0, which must order equally
+    let x = u64::from_ne_bytes((d + 0.0).to_ne_bytes());
     if (x & 0x8000_0000_0000_0000_u64) != 0 {
         x ^ 0xffff_ffff_ffff_ffff_u64
     } else {
-- 
2.43.0


From 0de660992167b5163114bd2b1df97404424bf3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:07 +0000
Subject: [PATCH 007/117] fix: sort by random panicked, because the ordering
 was not consistent

---
 src/comp.rs | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index b29a50c..66d1f3b 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -1437,34 +1437,39 @@ impl LineCompList {
     }
 }
 
+/// order by a hash, seeded differently for each comparator, so that the ordering is random but consistent
 #[derive(Default, Debug)]
-struct CompareRandom {}
+struct CompareRandom {
+    seed: std::collections::hash_map::RandomState,
+    value: u64,
+}
 impl CompareRandom {
     fn new() -> Self {
         Self::default()
     }
-    fn ord(&self) -> Ordering {
-        if fastrand::bool() {
-            Ordering::Less
-        } else {
-            Ordering::Greater
-        }
+    fn hash(&self, value: &[u8]) -> u64 {
+        std::hash::BuildHasher::hash_one(&self.seed, value)
     }
 }
 impl Compare for CompareRandom {
-    fn comp(&self, _left: &[u8], _right: &[u8]) -> Ordering {
-        self.ord()
+    fn comp(&self, left: &[u8], right: &[u8]) -> Ordering {
+        self.hash(left).cmp(&self.hash(right))
     }
-    fn equal(&self, _left: &[u8], _right: &[u8]) -> bool {
-        fastrand::bool()
+    fn equal(&self, left: &[u8], right: &[u8]) -> bool {
+        self.hash(left) == self.hash(right)
     }
-    fn fill_cache(&self, _item: &mut Item, _value: &[u8]) {}
-    fn set(&mut self, _value: &[u8]) {}
-    fn comp_self(&self, _right: &[u8]) -> Ordering {
-        self.ord()
+    fn fill_cache(&self, item: &mut Item, value: &[u8]) {
+        item.cache = self.hash(value);
+        item.set_complete();
     }
-    fn equal_self(&self, _right: &[u8]) -> bool {
-        fastrand::bool()
+    fn set(&mut self, value: &[u8]) {
+        self.value = self.hash(value);
+    }
+    fn comp_self(&self, right: &[u8]) -> Ordering {
+        self.value.cmp(&self.hash(right))
+    }
+    fn equal_self(&self, right: &[u8]) -> bool {
+        self.value == self.hash(right)
     }
 }
 
-- 
2.43.0


From da32e3357a6dab12d8a412b37bce76bda97616dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:19 +0000
Subject: [PATCH 008/117] fix: sort -m ignored column names in keys, and the
 headers of all but the first file

---
 src/sort.rs | 76 +++++++++++++++++++++++++++++------------------------
 1 file changed, 41 insertions(+), 35 deletions(-)

diff --git a/src/sort.rs b/src/sort.rs
index 5a3a592..e98ebfa 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -9,7 +9,7 @@ fancier sort
 
 use crate::comp::Item;
 use crate::prelude::*;
-use crate::util::{copy, get_reader, is_cdx, make_header, HeaderChecker};
+use crate::util::{copy, get_reader, is_cdx, make_header, HeadMode, HeaderChecker};
 use binary_heap_plus::BinaryHeap;
 use std::cell::RefCell;
 //use std::mem;
@@ -38,9 +38,42 @@ pub struct SortConfig {
     pub alt_sort: bool,
     /// use a different merge algorithm
     pub alt_merge: bool,
+    /// files to be merged hold nothing but data, and the named columns have already been resolved
+    pub raw_merge: bool,
 }
 
 impl SortConfig {
+    /// open all the files to be merged, resolve named columns, and write the header
+    fn open_merge(
+        &self,
+        in_files: &[String],
+        cmp: &mut LineCompList,
+        w: &mut impl Write,
+    ) -> Result<Vec<Reader>> {
+        let mut open: Vec<Reader> = Vec::with_capacity(in_files.len());
+        let mut checker = HeaderChecker::new();
+        let mut first = true;
+        for x in in_files {
+            let mut text = TextFileMode::default();
+            if self.raw_merge {
+                text.head_mode = HeadMode::No;
+            }
+            let mut f = Reader::new_open(x, &text)?;
+            f.do_split(cmp.need_split());
+            if !f.is_empty() && !self.raw_merge {
+                if checker.check_file(&f, x)? {
+                    f.write_header(w)?;
+                }
+                if first {
+                    cmp.lookup(&f.names())?;
+                    first = false;
+                }
+            }
+            open.push(f);
+        }
+        Ok(open)
+    }
+
     /// merge all the files into w, using tmp
     pub fn merge_t(
         &self,
@@ -74,26 +107,9 @@ impl SortConfig {
             let r = get_reader(&in_files[0])?;
             return copy(r.0, w);
         }
-        let mc = Rc::new(RefCell::new(MergeContext {
-            open: Vec::with_capacity(in_files.len()),
-            cmp,
-        }));
+        let open = self.open_merge(in_files, cmp, &mut w)?;
+        let mc = Rc::new(RefCell::new(MergeContext { open, cmp }));
         let mut heap = BinaryHeap::new_by(|a: &usize, b: &usize| mc.borrow_mut().compare(*a, *b));
-        {
-            let mut mcm = mc.borrow_mut();
-            for x in in_files {
-                mcm.open.push(Reader::new_open2(x)?);
-            }
-            if !mcm.cmp.need_split() {
-                for x in &mut mcm.open {
-                    x.do_split(false);
-                }
-            }
-            // FIXME -- Check Header
-            if mcm.open[0].has_header() {
-                w.write_all(mcm.open[0].header().line.as_bytes())?;
-            }
-        }
         for i in 0..in_files.len() {
             if !mc.borrow().open[i].is_done() {
                 heap.push(i);
@@ -152,20 +168,7 @@ impl SortConfig {
             let r = get_reader(&in_files[0])?;
             return copy(r.0, w);
         }
-        let mut open_files: Vec<Reader> = Vec::with_capacity(in_files.len());
-        for x in in_files {
-            open_files.push(Reader::new_open2(x)?);
-        }
-        if !cmp.need_split() {
-            for x in &mut open_files {
-                x.do_split(false);
-            }
-        }
-        // FIXME -- Check Header
-        if open_files[0].has_header() {
-            w.write_all(open_files[0].header().line.as_bytes())?;
-        }
-
+        let mut open_files = self.open_merge(in_files, cmp, &mut w)?;
         let nums: Vec<usize> = (0..open_files.len()).collect();
         let mut mm = MergeTreeItem::new_tree(&nums);
         if unique {
@@ -347,7 +350,10 @@ impl Sorter {
         }
         let ptr_size = max_alloc / 2 / std::mem::size_of::<Item>();
         Self {
-            config: SortConfig::default(),
+            config: SortConfig {
+                raw_merge: true,
+                ..SortConfig::default()
+            },
             ptrs: Vec::with_capacity(ptr_size),
             data: Vec::with_capacity(data_size),
             cmp,
-- 
2.43.0


From 5ba90b5259ff41725625c0cde030c77f9bd1ae17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:19 +0000
Subject: [PATCH 009/117] fix: sort --check ignored column names in keys

---
 src/bin/cdx/sort_main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin/cdx/sort_main.rs b/src/bin/cdx/sort_main.rs
index f0d6b3e..7a5594b 100644
--- a/src/bin/cdx/sort_main.rs
+++ b/src/bin/cdx/sort_main.rs
@@ -55,6 +55,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         let mut reported = 0;
         for x in &files {
             let mut f = Reader::new_open(x, &settings.text_in)?;
+            comp.lookup(&f.names())?;
             if f.is_done() {
                 continue;
             }
-- 
2.43.0


From 0e860e8b121e4a7cbac5a1c6645e16e602271523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:19 +0000
Subject: [PATCH 010/117] fix: merging was not stable

---
 src/sort.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sort.rs b/src/sort.rs
index e98ebfa..65b9383 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -25,6 +25,8 @@ impl MergeContext<'_> {
         self.cmp
             .comp_cols(self.open[a].curr_line(), self.open[b].curr_line())
             .reverse()
+            // the heap is not stable, so break ties in favor of the earlier file
+            .then(b.cmp(&a))
     }
     fn equal(&mut self, a: &TextLine, b: usize) -> bool {
         self.cmp.equal_cols(a, self.open[b].curr_line())
-- 
2.43.0


From 5ea068b971030f5614030b27dfb66c5edf49006e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:21 +0000
Subject: [PATCH 011/117] fix: sort failed on lines that did not fit in what
 was left of its buffer

---
 src/sort.rs | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/sort.rs b/src/sort.rs
index 65b9383..203059d 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -401,10 +401,8 @@ impl Sorter {
     /// add some more data to be sorted.
     /// must be integer number of lines.
     pub fn add_data(&mut self, in_data: &[u8]) -> Result<()> {
-        let sz = self.prepare(in_data.len());
-        if sz != in_data.len() {
-            eprintln!("Failed to prepare {}, only got {}", in_data.len(), sz);
-            return err!("Badness");
+        while self.prepare(in_data.len()) < in_data.len() {
+            self.make_room()?;
         }
         self.data[self.data_used..self.data_used + in_data.len()].copy_from_slice(in_data);
         self.data_used += in_data.len();
@@ -417,6 +415,10 @@ impl Sorter {
         loop {
             debug_assert!(self.check());
             const SIZE: usize = 16 * 1024;
+            // calc new stuff
+            if self.data_used >= self.data.capacity() {
+                self.make_room()?;
+            }
             let sz = self.prepare(SIZE);
             debug_assert!(sz > 0);
             let nbytes = r.read(&mut self.data[self.data_used..self.data_used + sz])?;
@@ -428,13 +430,22 @@ impl Sorter {
                 return Ok(());
             }
             self.data_used += nbytes;
-            // calc new stuff
-            if self.data_used >= self.data.capacity() {
-                self.calc();
-                self.do_sort();
-                self.write_tmp()?;
+        }
+    }
+    /// write the sorted lines to a temporary file
+    /// or if there is not even one complete line, grow the buffer
+    fn make_room(&mut self) -> Result<()> {
+        self.calc();
+        if self.ptrs.is_empty() {
+            let size = self.data.capacity() * 2 + 1024;
+            if size > MAX_DATA {
+                return err!("Line too long to sort");
             }
+            self.data.reserve(size - self.data.len());
+            return Ok(());
         }
+        self.do_sort();
+        self.write_tmp()
     }
     /// Populate 'ptrs' from 'data'
     fn calc(&mut self) {
@@ -464,7 +475,7 @@ impl Sorter {
         }
         self.tmp_files.push(tmp_name.to_string());
         self.ptrs.clear();
-        let nsize = self.data.len() - self.data_calc;
+        let nsize = self.data_used - self.data_calc;
         for i in 0..nsize {
             self.data[i] = self.data[self.data_calc + i];
         }
-- 
2.43.0


From 9cfbe16ce390e54ee41cab2996effd80d69a111d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:53 +0000
Subject: [PATCH 012/117] fix: comparisons of single values ignored 'rev'

---
 src/comp.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index 66d1f3b..b1c5541 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -153,14 +153,22 @@ impl Comp {
             junk: c.junk,
             pattern: c.pattern.clone(),
             ctype: c.ctype.clone(),
-            reverse: c.reverse,
+            reverse: false, // LineComp does its own reversing
             comp: Box::new(ComparePlain::new()),
         }
     }
     /// Compare two slices, usually column values
     #[must_use]
     pub fn comp(&self, left: &[u8], right: &[u8]) -> Ordering {
-        self.comp.comp(left, right)
+        self.reverse(self.comp.comp(left, right))
+    }
+    /// reverse the ordering if self.reverse is set
+    const fn reverse(&self, x: Ordering) -> Ordering {
+        if self.reverse {
+            x.reverse()
+        } else {
+            x
+        }
     }
     /// Compare two slices for equality
     #[must_use]
@@ -178,7 +186,7 @@ impl Comp {
     /// Compare self to slice
     #[must_use]
     pub fn comp_self(&self, right: &[u8]) -> Ordering {
-        self.comp.comp_self(right)
+        self.reverse(self.comp.comp_self(right))
     }
     /// Compare self to slice for equality
     #[must_use]
-- 
2.43.0


From 6630b7c7d971afa700e4fc27deea47a3a940d5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:37 +0000
Subject: [PATCH 013/117] fix: uniq without a key treated every line as equal

---
 src/bin/cdx/uniq_main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bin/cdx/uniq_main.rs b/src/bin/cdx/uniq_main.rs
index 88822ac..a3d42b2 100644
--- a/src/bin/cdx/uniq_main.rs
+++ b/src/bin/cdx/uniq_main.rs
@@ -187,6 +187,10 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         }
     }
 
+    if comp.is_empty() {
+        comp.add("")?;
+    }
+
     assert_eq!(files.len(), 1);
 
     let mut f = Reader::new(&settings.text_in);
-- 
2.43.0


From 57307abbf13b96a3d2db77617cc5d1068e22e538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:38 +0000
Subject: [PATCH 014/117] fix: uniq did not split lines needed only by an
 aggregator or by --which

---
 src/bin/cdx/uniq_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/uniq_main.rs b/src/bin/cdx/uniq_main.rs
index a3d42b2..ccd7450 100644
--- a/src/bin/cdx/uniq_main.rs
+++ b/src/bin/cdx/uniq_main.rs
@@ -233,7 +233,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         return Ok(());
     }
 
-    f.do_split(comp.need_split());
+    f.do_split(comp.need_split() || count.comp.need_split() || !agg.is_empty());
     let mut matches = 1;
     if !agg.is_empty() {
         agg.add(f.curr_line());
-- 
2.43.0


From 1c3cc8a9782cae2e47846badaf300f65fe230289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:41 +0000
Subject: [PATCH 015/117] fix: max aggregator reported nothing when all values
 were below the empty string

---
 src/agg.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/agg.rs b/src/agg.rs
index 311b2f7..1c55cbd 100644
--- a/src/agg.rs
+++ b/src/agg.rs
@@ -1072,6 +1072,7 @@ impl Agg for AMean {
 struct Max {
     comp: Comp,
     val: Vec<u8>,
+    empty: bool,
 }
 
 impl Max {
@@ -1079,13 +1080,15 @@ impl Max {
         Ok(Self {
             comp: CompMaker::make_comp(spec)?,
             val: Vec::new(),
+            empty: true,
         })
     }
 }
 
 impl Agg for Max {
     fn add(&mut self, data: &[u8]) {
-        if self.comp.comp.comp(&self.val, data) == Ordering::Less {
+        if self.empty || self.comp.comp(&self.val, data) == Ordering::Less {
+            self.empty = false;
             self.val.clear();
             self.val.extend_from_slice(data);
         }
@@ -1096,6 +1099,7 @@ impl Agg for Max {
     }
     fn reset(&mut self) {
         self.val.clear();
+        self.empty = true;
     }
     fn value(&self) -> f64 {
         self.val.to_f64_lossy()
-- 
2.43.0


From 3f350937a59c17f071a4aa6a89805aec09853077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:43 +0000
Subject: [PATCH 016/117] fix: min aggregator ignored a reversed comparison

---
 src/agg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/agg.rs b/src/agg.rs
index 1c55cbd..4b95860 100644
--- a/src/agg.rs
+++ b/src/agg.rs
@@ -864,7 +864,7 @@ impl Agg for Min {
             self.val.extend_from_slice(data);
             return;
         }
-        if self.comp.comp.comp(&self.val, data) == Ordering::Greater {
+        if self.comp.comp(&self.val, data) == Ordering::Greater {
             self.val.clear();
             self.val.extend_from_slice(data);
         }
-- 
2.43.0


From 83085c8192485fc30a6db1c9e0f8b3b75c7e14c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:45 +0000
Subject: [PATCH 017/117] fix: amean aggregator printed the sum

---
 src/agg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/agg.rs b/src/agg.rs
index 4b95860..872ba6a 100644
--- a/src/agg.rs
+++ b/src/agg.rs
@@ -1061,7 +1061,7 @@ impl Agg for AMean {
         self.num += 1;
     }
     fn result(&mut self, w: &mut dyn Write, fmt: NumFormat) -> Result<()> {
-        fmt.print(self.val as f64, w)
+        fmt.print(self.value(), w)
     }
     fn reset(&mut self) {
         self.val = 0;
-- 
2.43.0


From 0253ecbfbd01cad40bec00eeec40fe31107e5765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:47 +0000
Subject: [PATCH 018/117] fix: merge delimiters were only accepted when
 followed by other options

---
 src/agg.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/agg.rs b/src/agg.rs
index 872ba6a..11c8b5d 100644
--- a/src/agg.rs
+++ b/src/agg.rs
@@ -739,7 +739,7 @@ impl Merge {
                 break;
             }
             if sp.as_bytes()[0] == b'D' {
-                if sp.len() < 3 {
+                if !sp.is_char_boundary(3) {
                     return err!("Merge Delim Spec must be three bytes, e.g. 'D.,'");
                 }
                 m.add_one(&sp[0..3])?;
@@ -750,6 +750,7 @@ impl Merge {
                     }
                     sp = &sp[1..];
                 }
+                continue;
             }
             if let Some((a, b)) = sp.split_once('.') {
                 m.add_one(a)?;
-- 
2.43.0


From fa2bb523f63dc10d198d87267f4a70ad4368f814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:49 +0000
Subject: [PATCH 019/117] fix: integer suffixes above K had nonsense values

---
 src/num.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/num.rs b/src/num.rs
index 1079b04..8b93d53 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -262,11 +262,11 @@ const P10_LETTERS: &[u8] = b"0kmgtpezy";
 const P2_VALUES_U: [usize; 9] = [
     1,
     1024,
-    1024 ^ 2,
-    1024 ^ 3,
-    1024 ^ 4,
-    1024 ^ 5,
-    1024 ^ 6,
+    1 << 20,
+    1 << 30,
+    1 << 40,
+    1 << 50,
+    1 << 60,
     usize::MAX,
     usize::MAX,
 ];
@@ -284,11 +284,11 @@ const P2_VALUES_F: [f64; 9] = [
 const P10_VALUES_U: [usize; 9] = [
     1,
     1000,
-    1000 ^ 2,
-    1000 ^ 3,
-    1000 ^ 4,
-    1000 ^ 5,
-    1000 ^ 6,
+    1_000_000,
+    1_000_000_000,
+    1_000_000_000_000,
+    1_000_000_000_000_000,
+    1_000_000_000_000_000_000,
     usize::MAX,
     usize::MAX,
 ];
-- 
2.43.0


From 531e3d38cfb6d5c7bf3aa8ebcd8b030ad1b102aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:51 +0000
Subject: [PATCH 020/117] fix: integers and exponents too large to represent
 panicked or wrapped around

---
 src/text.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index cecf811..76cd547 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -631,14 +631,14 @@ impl Text for [u8] {
             return (0, self);
         }
         while !curr.is_empty() && curr[0].is_ascii_digit() {
-            ret *= 10;
-            ret += (curr[0] - b'0') as usize;
+            ret = ret.saturating_mul(10);
+            ret = ret.saturating_add((curr[0] - b'0') as usize);
             curr = &curr[1..];
         }
         if !curr.is_empty() {
             if let Some(mul) = suffix_valu(curr[0]) {
                 curr = &curr[1..];
-                ret *= mul;
+                ret = ret.saturating_mul(mul);
             }
         }
         (ret, curr)
@@ -659,14 +659,14 @@ impl Text for [u8] {
             return (0, self);
         }
         while !curr.is_empty() && curr[0].is_ascii_digit() {
-            ret *= 10;
-            ret += (curr[0] - b'0') as isize;
+            ret = ret.saturating_mul(10);
+            ret = ret.saturating_add((curr[0] - b'0') as isize);
             curr = &curr[1..];
         }
         if !curr.is_empty() {
             if let Some(mul) = suffix_valu(curr[0]) {
                 curr = &curr[1..];
-                ret *= mul as isize;
+                ret = ret.saturating_mul(isize::try_from(mul).unwrap_or(isize::MAX));
             }
         }
         ret *= neg;
@@ -713,8 +713,8 @@ impl Text for [u8] {
             }
             let mut exponent: i32 = 0;
             while !curr.is_empty() && curr[0].is_ascii_digit() {
-                exponent *= 10;
-                exponent += i32::from(curr[0] - b'0');
+                exponent = exponent.saturating_mul(10);
+                exponent = exponent.saturating_add(i32::from(curr[0] - b'0'));
                 curr = &curr[1..];
             }
             exponent *= neg_exp;
-- 
2.43.0


From da497bcb09f2c76746161b37b19dcd97921b043e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:15 +0000
Subject: [PATCH 021/117] fix: decimal fractions were not converted to the
 nearest float

---
 src/text.rs | 60 ++++++++---------------------------------------------
 1 file changed, 9 insertions(+), 51 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index 76cd547..b1cb208 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -673,83 +673,41 @@ impl Text for [u8] {
         (ret, curr)
     }
     fn to_f64(&self) -> (f64, &Self) {
-        let mut neg: f64 = 1.0;
         let mut curr = self;
         if curr.is_empty() {
             return (0.0, self);
         }
-        if curr[0] == b'+' {
+        if curr[0] == b'+' || curr[0] == b'-' {
             curr = &curr[1..];
-        } else if curr[0] == b'-' {
-            curr = &curr[1..];
-            neg = -1.0;
         }
-        let mut ret: f64 = 0.0;
         while !curr.is_empty() && curr[0].is_ascii_digit() {
-            ret *= 10.0;
-            ret += f64::from(curr[0] - b'0');
             curr = &curr[1..];
         }
         if !curr.is_empty() && (curr[0] == b'.') {
             curr = &curr[1..];
-            let mut place = 0.1;
             while !curr.is_empty() && curr[0].is_ascii_digit() {
-                ret += place * f64::from(curr[0] - b'0');
-                place *= 0.1;
                 curr = &curr[1..];
             }
         }
-
         if is_exp(curr) {
-            curr = &curr[1..];
-            let mut neg_exp: i32 = 1;
-            if !curr.is_empty() {
-                if curr[0] == b'+' {
-                    curr = &curr[1..];
-                } else if curr[0] == b'-' {
-                    neg_exp = -1;
-                    curr = &curr[1..];
-                }
-            }
-            let mut exponent: i32 = 0;
+            // letter and either sign or first digit
+            curr = &curr[2..];
             while !curr.is_empty() && curr[0].is_ascii_digit() {
-                exponent = exponent.saturating_mul(10);
-                exponent = exponent.saturating_add(i32::from(curr[0] - b'0'));
                 curr = &curr[1..];
             }
-            exponent *= neg_exp;
-            match exponent {
-                -2 => {
-                    ret *= 0.01;
-                }
-                -1 => {
-                    ret *= 0.1;
-                }
-                0 => {}
-                1 => {
-                    ret *= 10.0;
-                }
-                2 => {
-                    ret *= 100.0;
-                }
-                3 => {
-                    ret *= 1000.0;
-                }
-                //  	    These two lose accuracy
-                //	    _ => {ret *= ((exponent as f64) * std::f64::consts::LOG2_10).exp2();},
-                //	    _ => {ret *= ((exponent as f64) * std::f64::consts::LN_10).exp();},
-                _ => {
-                    ret *= libm::exp10(f64::from(exponent));
-                }
-            }
         }
+        // Accumulating digit by digit loses accuracy
+        let mut ret: f64 = std::str::from_utf8(&self[..self.len() - curr.len()])
+            .ok()
+            .and_then(|x| x.parse().ok())
+            .unwrap_or(0.0);
         if !curr.is_empty() {
             if let Some(mul) = suffix_valf(curr[0]) {
                 curr = &curr[1..];
                 ret *= mul;
             }
         }
-        (neg * ret, curr)
+        (ret, curr)
     }
 }
 
-- 
2.43.0


From 4025e88cd7ae9f46d17345b23d95f8919aca41dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:03 +0000
Subject: [PATCH 022/117] fix: join wrote an invented header for non-matching
 lines of files without one

---
 src/join.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/join.rs b/src/join.rs
index c7f9a94..117ec59 100644
--- a/src/join.rs
+++ b/src/join.rs
@@ -190,7 +190,9 @@ impl Joiner {
             let num = x.file_num - 1;
             if self.no_match[num].is_none() {
                 let mut w = get_writer(&x.file_name)?;
-                self.r[num].write_header(&mut *w)?;
+                if self.r[num].has_header() {
+                    self.r[num].write_header(&mut *w)?;
+                }
                 self.no_match[num] = Some(w);
             } else {
                 return err!("Multiple uses of --also for file {}", x.file_num);
-- 
2.43.0


From 45eccb785257610c824c8d25b9f2a3accdfdc18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:06 +0000
Subject: [PATCH 023/117] fix: join repeated the first line of any file after
 the second

---
 src/join.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/join.rs b/src/join.rs
index 117ec59..c4f0712 100644
--- a/src/join.rs
+++ b/src/join.rs
@@ -172,6 +172,13 @@ impl Joiner {
             );
         }
 
+        if config.infiles.len() > 2 {
+            return err!(
+                "Join supports only two input files, {} found",
+                config.infiles.len()
+            );
+        }
+
         for x in &config.infiles {
             self.r.push(Reader::new_open2(x)?);
         }
-- 
2.43.0


From 4be7066def227799e828b6f36482def6e2aaddc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:08 +0000
Subject: [PATCH 024/117] fix: output files kept the tail of their previous
 contents

---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 297475d..a416a64 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1207,7 +1207,7 @@ pub fn get_writer(name: &str) -> Result<Outfile> {
         } else if name == "--" {
             Box::new(io::stderr())
         } else {
-            Box::new(fs::OpenOptions::new().write(true).create(true).open(name)?)
+            Box::new(fs::File::create(name)?)
         }
     };
     Ok(Outfile::new(io::BufWriter::new(inner), name))
-- 
2.43.0


From 2a545d941969827a0c251f8acaf86234a19c3700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:26 +0000
Subject: [PATCH 025/117] fix: column matchers could be neither negated nor
 followed by more columns, and empty specs panicked

---
 src/column.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/column.rs b/src/column.rs
index e2fb6a1..5755918 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -799,13 +799,22 @@ impl ColumnSet {
             None
         };
         loop {
-            if spc.first() == '(' {
-                let pos = find_close(spc)?;
+            if spc.is_empty() {
+                return err!("Empty column range in '{}'", spec);
+            }
+            let start = spc.find(['(', ',']).unwrap_or(spc.len());
+            if spc[start..].starts_with('(') {
+                let pos = start + find_close(&spc[start..])?;
                 self.add_one(&spc[..pos], negate, trans);
                 spc = &spc[pos..];
                 if spc.is_empty() {
                     break;
                 }
+                if let Some(rest) = spc.strip_prefix(',') {
+                    spc = rest;
+                } else {
+                    return err!("Extra stuff '{}' after matcher in '{}'", spc, spec);
+                }
             } else if let Some((a, b)) = spc.split_once(',') {
                 self.add_one(a, negate, trans);
                 spc = b;
-- 
2.43.0


From 0e5a7a38056813313a8c2aca4c60f22c9f5a4dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:28 +0000
Subject: [PATCH 026/117] fix: a plus sign inside a column matcher was taken
 for a transform

---
 src/column.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/column.rs b/src/column.rs
index 5755918..49597cd 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -775,8 +775,16 @@ impl ColumnSet {
 
     fn find_trans(spec: &str) -> Option<(&str, &str)> {
         let mut last_was_plus = false;
+        let mut depth = 0;
         for (i, x) in spec.char_indices() {
-            if last_was_plus {
+            if x == '(' {
+                depth += 1;
+            } else if x == ')' {
+                depth -= 1;
+            }
+            if depth > 0 {
+                last_was_plus = false;
+            } else if last_was_plus {
                 if x.is_alphabetic() {
                     return Some((&spec[0..i - 1], &spec[i..]));
                 } else {
-- 
2.43.0


From e641b171e4f43edd0bfd7779c1e4385b979f6c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:30 +0000
Subject: [PATCH 027/117] fix: selecting no columns at all panicked

---
 src/column.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/column.rs b/src/column.rs
index 49597cd..29dc877 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -247,7 +247,7 @@ impl ColumnHeader {
     }
 
     fn get_size(&self) -> usize {
-        self.cols.iter().map(String::len).sum::<usize>() + self.cols.len() - 1
+        self.cols.iter().map(String::len).sum::<usize>() + self.cols.len()
     }
     /// append column names, joined
     fn add_head(&self, res: &mut String, text: &TextFileMode) {
-- 
2.43.0


From aacb07594e25b4e57b964a10d8cc800253710101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:33 +0000
Subject: [PATCH 028/117] fix: a value that could not be transformed caused a
 panic

---
 src/column.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/column.rs b/src/column.rs
index 29dc877..21fc11c 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -1092,12 +1092,12 @@ impl ColumnSet {
         Ok(())
     }
 
-    fn fetch<'a>(&'a mut self, cols: &'a TextLine, col: usize) -> &'a [u8] {
+    fn fetch<'a>(&'a mut self, cols: &'a TextLine, col: usize) -> Result<&'a [u8]> {
         let col = &self.columns[col];
         if let Some(trans) = col.trans {
-            self.trans[trans].trans(cols.get(col.num), cols).unwrap()
+            self.trans[trans].trans(cols.get(col.num), cols)
         } else {
-            cols.get(col.num)
+            Ok(cols.get(col.num))
         }
     }
 
@@ -1114,10 +1114,10 @@ impl ColumnSet {
         if self.columns.is_empty() {
             return Ok(());
         }
-        text.write(w, self.fetch(cols, 0))?;
+        text.write(w, self.fetch(cols, 0)?)?;
         for i in 1..self.columns.len() {
             w.write_all(&[text.delim])?;
-            text.write(w, self.fetch(cols, i))?;
+            text.write(w, self.fetch(cols, i)?)?;
         }
         Ok(())
     }
-- 
2.43.0


From 2417075b1f121825dca7bde52c01ea0fe810ce61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:35 +0000
Subject: [PATCH 029/117] fix: counting a single column from the end was
 rejected

---
 src/column.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/column.rs b/src/column.rs
index 21fc11c..f092ff2 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -1502,6 +1502,7 @@ impl NamedCol {
     pub fn parse<'a>(&mut self, orig_spec: &'a str) -> Result<&'a str> {
         let mut spec = orig_spec;
         self.num = 0;
+        self.from_end = 0;
         self.name.clear();
         if spec.is_empty() {
             return err!("Empty string found where column name expected");
@@ -1509,7 +1510,11 @@ impl NamedCol {
         let mut ch = spec.first();
         let was_plus = ch == '+';
         if was_plus {
-            ch = spec.take_first();
+            spec = spec.skip_first();
+            if spec.is_empty() {
+                return err!("'+' must be follwed by a number : {}", orig_spec);
+            }
+            ch = spec.first();
         }
         if ch.is_ascii_digit() && ch != '0' {
             let (a, b) = spec.to_usize();
-- 
2.43.0


From 5d3f6390e8ddf50818395fd1c52b3fa8c8b2c93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:37 +0000
Subject: [PATCH 030/117] fix: normspace moved a leading space after the first
 character

---
 src/trans.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trans.rs b/src/trans.rs
index 92912ba..47fefea 100644
--- a/src/trans.rs
+++ b/src/trans.rs
@@ -124,8 +124,8 @@ impl Trans for NormSpace {
             } else {
                 if need_space && !dst.is_empty() {
                     dst.push(b' ');
-                    need_space = false;
                 }
+                need_space = false;
                 dst.push(*x);
             }
         }
@@ -148,8 +148,8 @@ impl Trans for NormSpaceUtf8 {
             } else {
                 if need_space && !self.tmp.is_empty() {
                     self.tmp.push(' ');
-                    need_space = false;
                 }
+                need_space = false;
                 self.tmp.push(x);
             }
         }
-- 
2.43.0


From 132bb4233b1c587bad552415d2f1cafc4dfbb3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:06 +0000
Subject: [PATCH 031/117] fix: glob skipped a character when backtracking, and
 could panic

---
 src/text.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/text.rs b/src/text.rs
index b1cb208..610a3fe 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -247,8 +247,10 @@ pub trait Text {
                 buff = buff.skip_first();
             } else {
                 wild = mp;
-                cp = cp.skip_first();
                 buff = cp;
+                if !cp.is_empty() {
+                    cp = cp.skip_first();
+                }
             }
         }
 
-- 
2.43.0


From 78b15527ebb540177096668cddba4e9ed2492987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:22 +0000
Subject: [PATCH 032/117] fix: a column list selecting nothing still wrote a
 delimiter, so data did not match the header

---
 src/column.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/column.rs b/src/column.rs
index f092ff2..4bbd4b0 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -544,6 +544,10 @@ pub trait ColumnFun {
     fn write(&mut self, w: &mut dyn Write, line: &TextLine, text: &TextFileMode) -> Result<()>;
     /// resolve any named columns
     fn lookup(&mut self, fieldnames: &[&str]) -> Result<()>;
+    /// true if this writes no columns at all, as opposed to empty ones
+    fn is_empty(&self) -> bool {
+        false
+    }
 }
 
 /// write a single column
@@ -1378,6 +1382,9 @@ impl ColumnFun for ReaderColumns {
     fn lookup(&mut self, fieldnames: &[&str]) -> Result<()> {
         self.columns.lookup(fieldnames)
     }
+    fn is_empty(&self) -> bool {
+        self.columns.get_cols().is_empty()
+    }
 }
 
 /// A collection of `ColumnFun` writers
@@ -1426,7 +1433,7 @@ impl Writer {
     }
     /// Write the column values
     pub fn write(&mut self, w: &mut dyn Write, line: &TextLine) -> Result<()> {
-        let mut iter = self.v.iter_mut();
+        let mut iter = self.v.iter_mut().filter(|x| !x.is_empty());
         match iter.next() {
             None => {}
             Some(first) => {
-- 
2.43.0


From 72e5574ceb7f3487fb51bf7dfda8c2be8bbc7459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:41 +0000
Subject: [PATCH 033/117] fix: a column name without a range panicked, and '+0'
 was accepted as a column

---
 src/column.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/column.rs b/src/column.rs
index 4bbd4b0..210d153 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -877,7 +877,7 @@ impl ColumnSet {
         if let Some(stripped) = colname.strip_prefix('+') {
             let n = stripped.to_usize_whole(colname.as_bytes(), "column")?;
             let len = fieldnames.len();
-            if n > len {
+            if n < 1 || n > len {
                 err!("Column {} out of bounds", colname)
             } else {
                 Ok(len - n)
@@ -933,6 +933,9 @@ impl ColumnSet {
             None => ("", rng),
             Some(x) => x,
         };
+        if range.is_empty() {
+            return err!("Empty Range {}", rng);
+        }
 
         let ch = range.first();
         if ch == '(' {
-- 
2.43.0


From 75393e9e1cb1abb9811eff500741b60b52f6fae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:12 +0000
Subject: [PATCH 034/117] fix: output delimiters inside a group of columns were
 written as is

---
 src/column.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/column.rs b/src/column.rs
index 210d153..5342cf8 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -1329,8 +1329,10 @@ impl ColumnClump {
 }
 
 impl ColumnFun for ColumnClump {
-    fn write(&mut self, w: &mut dyn Write, line: &TextLine, _text: &TextFileMode) -> Result<()> {
-        self.cols.write(w, line, &self.text)?;
+    fn write(&mut self, w: &mut dyn Write, line: &TextLine, text: &TextFileMode) -> Result<()> {
+        let mut buf = Vec::new();
+        self.cols.write(&mut buf, line, &self.text)?;
+        text.write(w, &buf)?;
         Ok(())
     }
 
-- 
2.43.0


From faf8557ce5e8ac2019a0c9e033dfe7d42d7eb11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:11 +0000
Subject: [PATCH 035/117] fix: the aliases of transforms were unknown until
 another transform had been used

---
 src/trans.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/trans.rs b/src/trans.rs
index 47fefea..3d13d4c 100644
--- a/src/trans.rs
+++ b/src/trans.rs
@@ -390,6 +390,7 @@ impl TransMaker {
     }
     /// Create a Trans from a trans spec and a pattern
     pub fn make2(trans: &str, pattern: &str) -> Result<Transform> {
+        Self::init()?;
         let mut spec = trans.to_string();
         if !pattern.is_empty() {
             spec.push(',');
-- 
2.43.0


From bf203ec602a41b3df9235e4da569f4bf9782cb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:35 +0000
Subject: [PATCH 036/117] fix: cut, cgrep, cat and binsearch mixed files with
 and without headers, writing a header among the data

---
 src/util.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index a416a64..8e76cad 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1959,10 +1959,13 @@ impl HeaderChecker {
     /// return true if the line should be part of the output
     pub fn check(&mut self, first_line: &[u8], fname: &str) -> Result<bool> {
         // FIXME - if is_cdx, make sure is also a valid header
-        let cdx = is_valid_cdx(first_line, self.mode, fname)?;
         if first_line.is_empty() {
-            Ok(false)
-        } else if first_line.last().unwrap() != &b'\n' && cdx {
+            // file has no header, and its first line is not ours to write
+            self.check(b"fake", fname)?;
+            return Ok(false);
+        }
+        let cdx = is_valid_cdx(first_line, self.mode, fname)?;
+        if first_line.last().unwrap() != &b'\n' && cdx {
             err!("Malformed Header line in file {}", &fname)
         } else if self.saw_one {
             match self.mode {
-- 
2.43.0


From c6cfc69265dd2158f47f928e6f17de281530340d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:37 +0000
Subject: [PATCH 037/117] fix: cat did not pad a file of several lines lacking
 its final newline

---
 src/bin/cdx/cat_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/cat_main.rs b/src/bin/cdx/cat_main.rs
index 0e369b0..7fb460f 100644
--- a/src/bin/cdx/cat_main.rs
+++ b/src/bin/cdx/cat_main.rs
@@ -198,7 +198,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                     break;
                 }
                 w.write_all(&buffer[..n])?;
-                last_was_cr = first_line.last().unwrap() == &b'\n';
+                last_was_cr = buffer[n - 1] == b'\n';
             }
             if pad == PadMode::All && !last_was_cr {
                 w.write_all(b"\n")?;
-- 
2.43.0


From 071036fb4b732736ecb9191135800a79d9e3849d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:38 +0000
Subject: [PATCH 038/117] fix: cat ignored all files after one with no data
 lines

---
 src/bin/cdx/cat_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/cat_main.rs b/src/bin/cdx/cat_main.rs
index 7fb460f..1c1932a 100644
--- a/src/bin/cdx/cat_main.rs
+++ b/src/bin/cdx/cat_main.rs
@@ -160,7 +160,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                 w.write_all(not_header.as_bytes())?;
             }
             if f.is_done() {
-                return Ok(());
+                continue;
             }
             f.do_split(false);
             loop {
-- 
2.43.0


From 73c162b41daca1a033e2330360249176e307b282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:52 +0000
Subject: [PATCH 039/117] fix: paste --last panicked for a file with no data
 lines

---
 src/bin/cdx/paste_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/paste_main.rs b/src/bin/cdx/paste_main.rs
index 0ac2311..2735a46 100644
--- a/src/bin/cdx/paste_main.rs
+++ b/src/bin/cdx/paste_main.rs
@@ -130,7 +130,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             }
             need_delim = true;
             if f.is_done() {
-                if use_last {
+                if use_last && !f.prev_line(1).line().is_empty() {
                     w.write_all(f.prev_nl(1))?;
                 } else {
                     let mut nd = false;
-- 
2.43.0


From d97c529360b5a7a6121af573f1f7f77ec96035d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:55 +0000
Subject: [PATCH 040/117] fix: a value for a column that does not exist
 panicked

---
 src/column.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/column.rs b/src/column.rs
index 5342cf8..d109fa4 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -458,6 +458,13 @@ impl ScopedValues {
             x.lookup(fieldnames)?;
             for i in 0..x.cols.columns.len() {
                 let j = x.cols.columns[i].num;
+                if j >= fieldnames.len() {
+                    return err!(
+                        "Column {} out of bounds, there are only {} columns",
+                        j + 1,
+                        fieldnames.len()
+                    );
+                }
                 self.strings[j].clone_from(&x.value);
                 self.has_value[j] = true;
             }
-- 
2.43.0


From 2bef586c89d81d8e0e87e416da811c2e2eee4c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:56 +0000
Subject: [PATCH 041/117] fix: paste always put tabs between files, whatever
 the delimiter

---
 src/bin/cdx/paste_main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bin/cdx/paste_main.rs b/src/bin/cdx/paste_main.rs
index 2735a46..9abfb96 100644
--- a/src/bin/cdx/paste_main.rs
+++ b/src/bin/cdx/paste_main.rs
@@ -89,6 +89,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         fds.push(f);
     }
     let mut w = get_writer("-")?;
+    let delim = [settings.text_out().delim];
     header.check_rename()?;
     if do_header {
         w.write_all(header.get_head(&settings.text_out()).as_bytes())?;
@@ -126,7 +127,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         let mut need_delim = false;
         for (i, f) in fds.iter_mut().enumerate() {
             if need_delim {
-                w.write_all(b"\t")?;
+                w.write_all(&delim)?;
             }
             need_delim = true;
             if f.is_done() {
@@ -136,7 +137,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                     let mut nd = false;
                     for j in rngs[i].start..rngs[i].end {
                         if nd {
-                            w.write_all(b"\t")?;
+                            w.write_all(&delim)?;
                         }
                         nd = true;
                         w.write_all(dflt.get(j).as_bytes())?;
-- 
2.43.0


From ccd1880436c66b22c80d42bdb063d300246b1c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:02 +0000
Subject: [PATCH 042/117] fix: the matcher modifier 'null' negated the match,
 instead of accepting empty values

---
 src/matcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index 56cf87f..5d5bdd2 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -1860,7 +1860,7 @@ impl MatchMaker {
                 } else if x.eq_ignore_ascii_case("trim") {
                     m.trim = true;
                 } else if x.eq_ignore_ascii_case("null") {
-                    m.negate = true;
+                    m.empty = true;
                 } else if x.eq_ignore_ascii_case("case") {
                     m.case = Case::Insens;
                 } else if x.eq_ignore_ascii_case("and") {
-- 
2.43.0


From ce521655f878823a32432e2fdbff480ccd236fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:04 +0000
Subject: [PATCH 043/117] fix: case-insensitive suffix matcher panicked on an
 empty pattern

---
 src/matcher.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index 5d5bdd2..a15bfb2 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -406,14 +406,7 @@ fn bcase_suffix(haystack: &[u8], needle: &[u8]) -> bool {
     if needle.len() > haystack.len() {
         return false;
     }
-    let hay_len = haystack.len() - 1;
-    let nee_len = needle.len() - 1;
-    for x in 0..needle.len() {
-        if haystack[hay_len - x].to_ascii_lowercase() != needle[nee_len - x] {
-            return false;
-        }
-    }
-    true
+    bcase_prefix(&haystack[haystack.len() - needle.len()..], needle)
 }
 
 // needle is already lowercase
-- 
2.43.0


From 0e25a602808aea73a11bafbd29329408ca9ecbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:07 +0000
Subject: [PATCH 044/117] fix: combined matcher panicked on an empty pattern

---
 src/matcher.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/matcher.rs b/src/matcher.rs
index a15bfb2..e3551ef 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -1869,6 +1869,9 @@ impl MatchMaker {
         if let Some(mm) = m.multi_mode {
             let mut outer = Box::new(MatcherList::new_with(mm));
             let mut pattern = pattern;
+            if pattern.is_empty() {
+                return err!("Pattern for {} must start with a delimiter", matcher);
+            }
             let delim = pattern.first();
             pattern = pattern.skip_first();
             for x in pattern.split(delim) {
-- 
2.43.0


From 7920011a4d3a53d558f4dec89a03097d7f3be243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:10 +0000
Subject: [PATCH 045/117] fix: negated matchers were not negated when matching
 column names, cat lines or tooltest output

---
 src/matcher.rs | 47 +++++++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index e3551ef..aa3eaef 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -1023,13 +1023,12 @@ impl WholeMatcher {
 // LineMatch::matcher could return Result<bool> and then we can put strict back
 impl LineMatch for WholeMatcher {
     fn ok(&mut self, line: &TextLine) -> bool {
-        self.matcher.negate
-            ^ if self.matcher.string {
-                self.matcher
-                    .smatch(&String::from_utf8_lossy(line.line_nl()))
-            } else {
-                self.matcher.umatch(line.line_nl())
-            }
+        if self.matcher.string {
+            self.matcher
+                .smatch(&String::from_utf8_lossy(line.line_nl()))
+        } else {
+            self.matcher.umatch(line.line_nl())
+        }
     }
 
     fn lookup(&mut self, _fieldnames: &[&str]) -> Result<()> {
@@ -1111,9 +1110,9 @@ impl LineMatch for ColSetMatcher {
         for x in self.col.get_cols() {
             let did_match = if self.matcher.string {
                 self.matcher
-                    .smatch(&String::from_utf8_lossy(line.get(x.num)))
+                    .raw_smatch(&String::from_utf8_lossy(line.get(x.num)))
             } else {
-                self.matcher.umatch(line.get(x.num))
+                self.matcher.raw_umatch(line.get(x.num))
             };
             if did_match {
                 yes += 1;
@@ -1159,13 +1158,12 @@ impl ColMatcher {
 // LineMatch::matcher could return Result<bool> and then we can put strict back
 impl LineMatch for ColMatcher {
     fn ok(&mut self, line: &TextLine) -> bool {
-        self.matcher.negate
-            ^ if self.matcher.string {
-                self.matcher
-                    .smatch(&String::from_utf8_lossy(line.get(self.col.num)))
-            } else {
-                self.matcher.umatch(line.get(self.col.num))
-            }
+        if self.matcher.string {
+            self.matcher
+                .smatch(&String::from_utf8_lossy(line.get(self.col.num)))
+        } else {
+            self.matcher.umatch(line.get(self.col.num))
+        }
     }
 
     fn lookup(&mut self, fieldnames: &[&str]) -> Result<()> {
@@ -1539,7 +1537,16 @@ impl Clone for Matcher {
 impl Matcher {
     /// Are these characters ok?
     #[must_use]
-    pub fn smatch(&self, mut buff: &str) -> bool {
+    pub fn smatch(&self, buff: &str) -> bool {
+        self.negate ^ self.raw_smatch(buff)
+    }
+    /// Are these bytes ok?
+    #[must_use]
+    pub fn umatch(&self, buff: &[u8]) -> bool {
+        self.negate ^ self.raw_umatch(buff)
+    }
+    /// smatch, without regard to negate
+    fn raw_smatch(&self, mut buff: &str) -> bool {
         if self.trim {
             buff = buff.trimw();
         }
@@ -1549,9 +1556,8 @@ impl Matcher {
             self.matcher.smatch(buff)
         }
     }
-    /// Are these bytes ok?
-    #[must_use]
-    pub fn umatch(&self, mut buff: &[u8]) -> bool {
+    /// umatch, without regard to negate
+    fn raw_umatch(&self, mut buff: &[u8]) -> bool {
         if self.trim {
             buff = buff.trimw();
         }
@@ -1877,6 +1883,7 @@ impl MatchMaker {
             for x in pattern.split(delim) {
                 let mut m2 = m.clone();
                 m2.multi_mode = None; // not really necessary
+                m2.negate = false; // only the combination is negated
                 Self::remake(&mut m2, x)?;
                 outer.push_obj(m2);
             }
-- 
2.43.0


From fee38d9c3834c991f7f8b0400ff68d5583eaacf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:12 +0000
Subject: [PATCH 046/117] fix: case-insensitive exact match of UTF-8 only
 matched lower case values

---
 src/matcher.rs | 4 ++--
 src/text.rs    | 7 +------
 2 files changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index aa3eaef..21be86c 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -748,10 +748,10 @@ impl ExactMatchC {
 }
 impl Match for ExactMatchC {
     fn smatch(&self, buff: &str) -> bool {
-        buff.equal_insens_quick(&self.s_data)
+        self.s_data.as_str().equal_insens_quick(buff)
     }
     fn umatch(&self, buff: &[u8]) -> bool {
-        buff.equal_insens_quick(&self.u_data)
+        self.u_data.as_slice().equal_insens_quick(buff)
     }
     fn show(&self) -> String {
         format!("Case insensitive exact match of {}", self.s_data)
diff --git a/src/text.rs b/src/text.rs
index 610a3fe..7939429 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -395,12 +395,7 @@ impl Text for str {
     }
 
     fn equal_insens_quick(&self, other: &Self) -> bool {
-        for ch in self.chars().zip(other.chars().flat_map(char::to_lowercase)) {
-            if ch.0 != ch.1 {
-                return false;
-            }
-        }
-        self.len() == other.len()
+        self.chars().eq(other.chars().flat_map(char::to_lowercase))
     }
 
     fn cmp_insens(&self, other: &Self) -> Ordering {
-- 
2.43.0


From cc0cff27e27ae4c8e09740b44dbf2ecab3d5f6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:15 +0000
Subject: [PATCH 047/117] fix: matchers for groups of columns, such as
 [all,1-3],exact,x, did not work at all

---
 src/matcher.rs | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index 21be86c..e222cc9 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -272,6 +272,21 @@ impl Determiner {
             return err!("Unknown Determiner {spec}");
         })
     }
+    /// Split Determiner,Columns. Without a Determiner, use the default.
+    fn parse(spec: &str) -> Result<(Self, &str)> {
+        let Some((word, rest)) = spec.split_once(',') else {
+            return Ok((Self::default(), spec));
+        };
+        if let Ok(det) = Self::new(word) {
+            return Ok((det, rest));
+        }
+        if let Some((num, cols)) = rest.split_once(',') {
+            if let Ok(det) = Self::new(&spec[..word.len() + 1 + num.len()]) {
+                return Ok((det, cols));
+            }
+        }
+        Ok((Self::default(), spec))
+    }
     /// we've seen this many yes's and this many no's, with more to come. Are we done yet?
     #[must_use]
     pub const fn match_mid(&self, yes: usize, no: usize) -> Tri {
@@ -898,12 +913,12 @@ impl ColGroup {
             Ok((Self::default(), &spec[1..]))
         } else if spec.first() == '[' {
             let len = util::find_close(spec)?;
-            let cols = &spec[1..len];
-            let rest = &spec[(len + 1)..];
+            let (det, cols) = Determiner::parse(&spec[1..len - 1])?;
+            let rest = spec[len..].strip_prefix(',').unwrap_or(&spec[len..]);
             Ok((
                 Self {
                     col: ColumnSet::from_spec(cols)?,
-                    det: Determiner::default(),
+                    det,
                     has_col: true,
                 },
                 rest,
@@ -1091,15 +1106,12 @@ struct ColSetMatcher {
 impl ColSetMatcher {
     /// new from parts
     fn new(cols: &str, method: &str, pattern: &str) -> Result<Self> {
-        if let Some((a, b)) = cols.split_once(',') {
-            Ok(Self {
-                matcher: MatchMaker::make2(method, pattern)?,
-                col: ColumnSet::from_spec(b)?,
-                det: Determiner::new(a)?,
-            })
-        } else {
-            err!("ColumnGroup format is Determiner,ColumnSet")
-        }
+        let (det, cols) = Determiner::parse(cols)?;
+        Ok(Self {
+            matcher: MatchMaker::make2(method, pattern)?,
+            col: ColumnSet::from_spec(cols)?,
+            det,
+        })
     }
 }
 
@@ -1933,8 +1945,8 @@ impl MatchMaker {
     pub fn make_line(spec: &str) -> Result<Box<dyn LineMatch>> {
         if !spec.is_empty() && spec.first() == '[' {
             let len = util::find_close(spec)?;
-            let cols = &spec[1..len];
-            let rest = &spec[(len + 1)..];
+            let cols = &spec[..len];
+            let rest = spec[len..].strip_prefix(',').unwrap_or(&spec[len..]);
             if let Some((c, d)) = rest.split_once(',') {
                 Self::make_line3(cols, c, d)
             } else {
-- 
2.43.0


From e8b777b7263783ecca762f4b771921c05ae31790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:17 +0000
Subject: [PATCH 048/117] fix: fractional thresholds for 'atmost' and 'atleast'
 were swapped

---
 src/matcher.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index e222cc9..995f64b 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -186,7 +186,7 @@ impl Thresh {
     pub fn at_most_final(&self, n: usize, tot: usize) -> bool {
         match self {
             Self::Count(c) => n <= *c,
-            Self::Frac(f) => num::f64_less(*f, n, tot),
+            Self::Frac(f) => num::f64_greater(*f, n, tot),
         }
     }
     /// we've seen this many, is that a match?
@@ -194,7 +194,7 @@ impl Thresh {
     pub fn at_least_final(&self, n: usize, tot: usize) -> bool {
         match self {
             Self::Count(c) => n >= *c,
-            Self::Frac(f) => num::f64_greater(*f, n, tot),
+            Self::Frac(f) => num::f64_less(*f, n, tot),
         }
     }
     /// we've seen this many, is that a match?
-- 
2.43.0


From d42ba03a1f221ee1613b2a33ef56a0b80825d44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:20 +0000
Subject: [PATCH 049/117] fix: comp matcher rejected '<2' and 'LT.2', and
 panicked on some non-ascii patterns

---
 src/matcher.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index 995f64b..128da95 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -959,17 +959,18 @@ struct CompMatcher {
 impl CompMatcher {
     fn new(incol: &str, mut pattern: &str) -> Result<Self> {
         let target = NamedCol::new_from(incol)?;
-        if pattern.len() < 3 {
+        if pattern.len() < 2 {
             return err!("CompMatcher format is OpColumns,Comparator, '{}'", pattern);
         }
         // FIXME - factor out this CompareOp parsing
-        let op1 = pattern[0..2].parse::<CompareOp>();
+        let op1 = pattern.get(0..2).unwrap_or("").parse::<CompareOp>();
         let op;
         if let Ok(o) = op1 {
             pattern = &pattern[2..];
+            pattern = pattern.strip_prefix('.').unwrap_or(pattern);
             op = o;
         } else {
-            let op1 = pattern[0..1].parse::<CompareOp>();
+            let op1 = pattern.get(0..1).unwrap_or("").parse::<CompareOp>();
             if let Ok(o) = op1 {
                 pattern = &pattern[1..];
                 op = o;
-- 
2.43.0


From ef113595363685a2ee64d930a00778bae78b056b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:22 +0000
Subject: [PATCH 050/117] fix: a matcher for a range of columns silently looked
 at the first one only

---
 src/matcher.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index 128da95..a6a3792 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -1159,11 +1159,9 @@ impl ColMatcher {
     /// Column,Spec,Pattern
     /// Pattern may have additional commas
     fn new(cols: &str, method: &str, pattern: &str) -> Result<Self> {
-        let mut nc = NamedCol::new();
-        nc.parse(cols)?;
         Ok(Self {
             matcher: MatchMaker::make2(method, pattern)?,
-            col: nc,
+            col: NamedCol::new_from(cols)?,
         })
     }
 }
-- 
2.43.0


From fdc6e3d940928da2df0f848df66009df34ed94c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:25 +0000
Subject: [PATCH 051/117] fix: ranges such as '<=x' were taken as '<' followed
 by '=x'

---
 src/util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 8e76cad..466bebb 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -2161,8 +2161,8 @@ impl<'a> RangeSpec<'a> {
     fn new(spec: &'a str) -> Result<Self> {
         lazy_static! {
             static ref RE1: Regex =
-                Regex::new("^(<|>|<=|>=|==|!=)([^<>!=]+)(<|>|<=|>=|==|!=)(.+)$").unwrap();
-            static ref RE2: Regex = Regex::new("^(<|>|<=|>=|==|!=)(.+)$").unwrap();
+                Regex::new("^(<=|>=|==|!=|<|>)([^<>!=]+)(<=|>=|==|!=|<|>)(.+)$").unwrap();
+            static ref RE2: Regex = Regex::new("^(<=|>=|==|!=|<|>)(.+)$").unwrap();
             static ref RE3: Regex =
                 Regex::new("^(LT|GT|LE|GE|EQ|NE),([^,]+),(LT|GT|LE|GE|EQ|NE),(.+)$").unwrap();
             static ref RE4: Regex = Regex::new("^(LT|GT|LE|GE|EQ|NE),(.+)$").unwrap();
-- 
2.43.0


From b21dc67aa75fec7b57e78909f97358e888df31c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:23 +0000
Subject: [PATCH 052/117] fix: cat --remove and --skip ignored the utf8
 modifier

---
 src/matcher.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index a6a3792..9a46454 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -1407,7 +1407,7 @@ impl MatcherList {
     }
     fn umatch_and(&self, buff: &[u8]) -> bool {
         for x in &self.matchers {
-            if !x.umatch(buff) {
+            if !x.lossy_match(buff) {
                 return false;
             }
         }
@@ -1415,7 +1415,7 @@ impl MatcherList {
     }
     fn umatch_or(&self, buff: &[u8]) -> bool {
         for x in &self.matchers {
-            if x.umatch(buff) {
+            if x.lossy_match(buff) {
                 return true;
             }
         }
@@ -1578,6 +1578,16 @@ impl Matcher {
             self.matcher.umatch(buff)
         }
     }
+    /// umatch or smatch, depending on self.string ;
+    /// bytes that are not utf8 are replaced
+    #[must_use]
+    pub fn lossy_match(&self, buff: &[u8]) -> bool {
+        if self.string {
+            self.smatch(&String::from_utf8_lossy(buff))
+        } else {
+            self.umatch(buff)
+        }
+    }
     /// umatch or smatch, depending on self.string
     pub fn do_match(&self, buff: &[u8]) -> Result<bool> {
         if self.string {
-- 
2.43.0


From db339d4b12fdda2dafed0ba1bfc7dc14626d5451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:35 +0000
Subject: [PATCH 053/117] fix: sample --for and --range, and verify, were off
 by one line

---
 src/util.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 466bebb..4cacb03 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1548,14 +1548,7 @@ impl Reader {
             curr: 0,
             loc: FileLocData::default(),
         };
-        tmp.cont.read_header(&mut *tmp.file, &mut tmp.lines[0])?;
-        tmp.loc.name = name.to_string();
-        tmp.loc.line = 1;
-        tmp.loc.bytes = if tmp.has_header() {
-            tmp.header().line.len()
-        } else {
-            0
-        };
+        tmp.start(name)?;
         Ok(tmp)
     }
     /// get current line contents, without the trailing newline
@@ -1588,7 +1581,19 @@ impl Reader {
     /// open file for reading
     pub fn open(&mut self, name: &str) -> Result<()> {
         self.file = get_reader(name)?;
-        self.cont.read_header(&mut *self.file, &mut self.lines[0])
+        self.start(name)
+    }
+    /// read the header, and remember where we are
+    fn start(&mut self, name: &str) -> Result<()> {
+        self.cont.read_header(&mut *self.file, &mut self.lines[0])?;
+        self.loc.name = name.to_string();
+        self.loc.line = 1;
+        self.loc.bytes = if self.has_header() {
+            self.header().line.len()
+        } else {
+            0
+        };
+        Ok(())
     }
     /// The full text of the header, without the trailing newline
     #[must_use]
-- 
2.43.0


From 8483681896725858098e8a45d960a02da1bc1017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:35 +0000
Subject: [PATCH 054/117] fix: sample ignored all files after one with no data
 lines

---
 src/bin/cdx/sample_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/sample_main.rs b/src/bin/cdx/sample_main.rs
index ccebd91..23ec2aa 100644
--- a/src/bin/cdx/sample_main.rs
+++ b/src/bin/cdx/sample_main.rs
@@ -141,7 +141,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             w.write_all(f.header().line.as_bytes())?;
         }
         if f.is_done() {
-            return Ok(());
+            continue;
         }
         f.do_split(false);
         if saw_sample {
-- 
2.43.0


From bc436d1b22f3a04b4f137db81587c35be299bd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:37 +0000
Subject: [PATCH 055/117] fix: sampling two lines panicked

---
 src/sampler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sampler.rs b/src/sampler.rs
index f1e4b2d..4255f03 100644
--- a/src/sampler.rs
+++ b/src/sampler.rs
@@ -22,7 +22,7 @@ impl Smooth {
     #[must_use]
     pub fn new(sz: usize) -> Self {
         let small = sz.max(2);
-        let large = small * 2 - 2;
+        let large = (small * 2 - 2).max(small + 1);
         let mut data = Vec::with_capacity(large);
         for _ in 0..large {
             data.push(Vec::new());
-- 
2.43.0


From 1702e0d5c06b29faf35562b8ec95bcf86ce3b27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:39 +0000
Subject: [PATCH 056/117] fix: transposing a file with no data lines wrote an
 empty value for each column

---
 src/transpose.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transpose.rs b/src/transpose.rs
index a9d4daf..f1ef405 100644
--- a/src/transpose.rs
+++ b/src/transpose.rs
@@ -11,7 +11,7 @@ pub fn transpose(file: &str, head: bool, max_lines: usize, text: &TextFileMode)
     }
     let mut data = Vec::new();
     let mut lines = 0;
-    while lines < max_lines {
+    while lines < max_lines && !f.is_done() {
         data.push(f.curr().clone());
         lines += 1;
         if f.getline()? {
-- 
2.43.0


From f1c1d0434b63328323b59ee4e5d47f1ed4b2a678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:39 +0000
Subject: [PATCH 057/117] fix: wc --columns ignored all files after one with no
 data lines

---
 src/bin/cdx/wc_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/wc_main.rs b/src/bin/cdx/wc_main.rs
index a70ea1e..8f2e371 100644
--- a/src/bin/cdx/wc_main.rs
+++ b/src/bin/cdx/wc_main.rs
@@ -107,7 +107,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                 }
             }
             if f.is_done() {
-                break;
+                continue;
             }
             loop {
                 for (i, x) in f.curr_line().iter().enumerate() {
-- 
2.43.0


From f0617e146b70b586c094f4d05324e9dd9c9e994e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:00 +0000
Subject: [PATCH 058/117] fix: wc --columns panicked on a line with more
 columns than the first

---
 src/bin/cdx/wc_main.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/bin/cdx/wc_main.rs b/src/bin/cdx/wc_main.rs
index 8f2e371..b7e4750 100644
--- a/src/bin/cdx/wc_main.rs
+++ b/src/bin/cdx/wc_main.rs
@@ -111,6 +111,16 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             }
             loop {
                 for (i, x) in f.curr_line().iter().enumerate() {
+                    if i == colmap.len() {
+                        // line has more columns than there are names
+                        let name = format!("c{}", i + 1);
+                        if let Some(pos) = aggs.iter().position(|agg| agg.name == name) {
+                            colmap.push(pos);
+                        } else {
+                            colmap.push(aggs.len());
+                            aggs.push(NamedAgg::new(&name, agg.deep_clone()));
+                        }
+                    }
                     aggs[colmap[i]].agg.add(x);
                 }
                 if f.getline()? {
-- 
2.43.0


From 181daae94e6f0763f76feaf12d169c9d16208cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:01 +0000
Subject: [PATCH 059/117] fix: wc --columns wrote rows not matching the header
 or the totals line

---
 src/bin/cdx/wc_main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/cdx/wc_main.rs b/src/bin/cdx/wc_main.rs
index b7e4750..3e8bb47 100644
--- a/src/bin/cdx/wc_main.rs
+++ b/src/bin/cdx/wc_main.rs
@@ -145,7 +145,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         };
         if do_header {
             let mut ch = ColumnHeader::new();
-            if show_file_name != Tri::No {
+            if show_file {
                 ch.push("column")?;
             }
             let mut c_write = Writer::new(settings.text_out());
@@ -155,7 +155,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         }
         if !total_only {
             for x in &aggs {
-                if show_file_name != Tri::No {
+                if show_file {
                     w.write_all(x.name.as_bytes())?;
                     w.write_all(b"\t")?;
                 }
-- 
2.43.0


From 338b377ea77ebe722a34088ba1d682f53f65248b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:03 +0000
Subject: [PATCH 060/117] fix: wc wrote no counts at all for a file with no
 data lines

---
 src/bin/cdx/wc_main.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/bin/cdx/wc_main.rs b/src/bin/cdx/wc_main.rs
index 3e8bb47..31e2f3c 100644
--- a/src/bin/cdx/wc_main.rs
+++ b/src/bin/cdx/wc_main.rs
@@ -216,16 +216,10 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                 w.write_all(ch.get_head(&settings.text_out()).as_bytes())?;
             }
 
-            if f.is_done() {
-                continue;
-            }
-
             f.do_split(false);
-            loop {
+            while !f.is_done() {
                 agg.add(f.curr_line().line());
-                if f.getline()? {
-                    break;
-                }
+                f.getline()?;
             }
             if !total_only {
                 if show_file {
-- 
2.43.0


From 46cd017ca3151a2027df201f697a9ca9d97775c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:17 +0000
Subject: [PATCH 061/117] fix: wc ignored --format unless a counter was asked
 for

---
 src/bin/cdx/wc_main.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/bin/cdx/wc_main.rs b/src/bin/cdx/wc_main.rs
index 31e2f3c..e12ae3b 100644
--- a/src/bin/cdx/wc_main.rs
+++ b/src/bin/cdx/wc_main.rs
@@ -83,11 +83,15 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
     let mut totals = Vec::new();
     let do_totals;
     let show_file;
+    if agg.is_empty() {
+        agg.push(if do_columns {
+            "bytes,asum,chars"
+        } else {
+            "lines,count"
+        })?;
+    }
     agg.fmt(fmt);
     if do_columns {
-        if agg.is_empty() {
-            agg.push("bytes,asum,chars")?;
-        }
         totals.resize(agg.len(), 0.0);
         let mut aggs: Vec<NamedAgg> = Vec::new();
         let mut colmap: Vec<usize> = Vec::new();
@@ -177,9 +181,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             }
         }
     } else {
-        if agg.is_empty() {
-            agg.push("lines,count")?;
-        }
         totals.resize(agg.len(), 0.0);
         show_file = match show_file_name {
             Tri::Yes => true,
-- 
2.43.0


From 2f1aa092c468b412756a748ccf9463c64f69ce45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:50 +0000
Subject: [PATCH 062/117] fix: sort and binsearch looked for tabs, whatever the
 delimiter of the file

---
 src/bin/cdx/binsearch_main.rs | 1 +
 src/comp.rs                   | 6 ++++++
 src/sort.rs                   | 1 +
 3 files changed, 8 insertions(+)

diff --git a/src/bin/cdx/binsearch_main.rs b/src/bin/cdx/binsearch_main.rs
index 7faf54e..def3912 100644
--- a/src/bin/cdx/binsearch_main.rs
+++ b/src/bin/cdx/binsearch_main.rs
@@ -156,6 +156,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             w.write_all(&not_header)?;
         }
         comp.lookup(&m.names())?;
+        comp.set_delim(m.get_delim());
         let (mut start, mut stop) = equal_range_n(m.get(), &mut comp);
         let (before, after) = context.get(start == stop);
         for _x in 0..before {
diff --git a/src/comp.rs b/src/comp.rs
index b1c5541..69f9d7d 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -1347,6 +1347,12 @@ impl LineCompList {
         }
         true
     }
+    /// set the column delimiter for unsplit lines
+    pub fn set_delim(&mut self, delim: u8) {
+        for x in &mut self.c {
+            x.delim = delim;
+        }
+    }
     /// resolve named columns
     pub fn lookup(&mut self, fieldnames: &[&str]) -> Result<()> {
         self.lookup_n(fieldnames, 0)
diff --git a/src/sort.rs b/src/sort.rs
index 203059d..96b695d 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -532,6 +532,7 @@ impl Sorter {
             let s = make_header(&first_line);
             self.cmp.lookup(&s.vec())?;
             if is_cdx(&first_line) {
+                self.cmp.set_delim(first_line[4]);
                 w.write_all(&first_line)?;
             } else {
                 self.add_data(&first_line)?;
-- 
2.43.0


From 3ca02afca7a3caebd29ba48f27de417061cb979e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:52 +0000
Subject: [PATCH 063/117] fix: binsearch took the header for one of the sorted
 lines

---
 src/binsearch.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/binsearch.rs b/src/binsearch.rs
index e34e486..2daa4e8 100644
--- a/src/binsearch.rs
+++ b/src/binsearch.rs
@@ -44,10 +44,10 @@ impl MemMap {
             delim,
         })
     }
-    /// get underlying memmap data
+    /// get underlying memmap data, without the header
     #[must_use]
     pub fn get(&self) -> &[u8] {
-        &self.map[..]
+        &self.map[self.header_len..]
     }
     /// get column delimiter
     #[must_use]
-- 
2.43.0


From f4bcd99f5a8974e097ce41e53435e7e6921e1f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:54 +0000
Subject: [PATCH 064/117] fix: binsearch never finished on a blank line, and
 panicked looking back from an unterminated one

---
 src/binsearch.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/binsearch.rs b/src/binsearch.rs
index 2daa4e8..79f5372 100644
--- a/src/binsearch.rs
+++ b/src/binsearch.rs
@@ -88,12 +88,9 @@ pub const fn find_end(data: &[u8], mut start: usize) -> usize {
 /// that is, starting in the middle of a line, find the start of it
 #[must_use]
 pub const fn find_start(data: &[u8], mut start: usize) -> usize {
-    while (start > 0) && (data[start] != b'\n') {
+    while (start > 0) && (data[start - 1] != b'\n') {
         start -= 1;
     }
-    if data[start] == b'\n' {
-        start += 1;
-    }
     start
 }
 
@@ -107,7 +104,7 @@ pub const fn find_prev(data: &[u8], start: usize) -> usize {
     if data[start - 1] != b'\n' {
         return find_start(data, start);
     }
-    find_start(data, start - 2)
+    find_start(data, start - 1)
 }
 
 /// return first line that matches (with newline) or empty slice if none
-- 
2.43.0


From d0c0b5e8e6bbd3160633803208178d8185717200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:56 +0000
Subject: [PATCH 065/117] fix: binsearch --sub-delim panicked

---
 src/bin/cdx/binsearch_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/binsearch_main.rs b/src/bin/cdx/binsearch_main.rs
index def3912..7551d27 100644
--- a/src/bin/cdx/binsearch_main.rs
+++ b/src/bin/cdx/binsearch_main.rs
@@ -115,7 +115,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             filename = Some(f);
         } else if x.name == "context" {
             context.set(&x.value)?;
-        } else if x.name == "subdelim" {
+        } else if x.name == "sub-delim" {
             if x.value.len() != 1 {
                 return err!("--sub-delim value must be a single character");
             }
-- 
2.43.0


From 8bb182dc56f13674cb397508dffdd3fc494eb2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:57 +0000
Subject: [PATCH 066/117] fix: binsearch --filename wrote no name unless told
 how much of it

---
 src/bin/cdx/binsearch_main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bin/cdx/binsearch_main.rs b/src/bin/cdx/binsearch_main.rs
index 7551d27..208fc8a 100644
--- a/src/bin/cdx/binsearch_main.rs
+++ b/src/bin/cdx/binsearch_main.rs
@@ -174,7 +174,11 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             let file: &FileNameColumn = filename.as_ref().unwrap();
             while start < stop {
                 let end = find_end(m.get(), start);
-                w.write_all(f.tail_path_u8(file.tail, b'/').as_bytes())?;
+                if file.tail == 0 {
+                    w.write_all(f.as_bytes())?;
+                } else {
+                    w.write_all(f.tail_path_u8(file.tail, b'/').as_bytes())?;
+                }
                 w.write_all(&[b'\t'])?;
                 write_all_nl(&mut w.0, &m.get()[start..end])?;
                 start = end;
-- 
2.43.0


From a400dece3fb17260b3e773c23b8b53b53de3a815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:59 +0000
Subject: [PATCH 067/117] fix: binsearch never found a whole line, because of
 its newline

---
 src/comp.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index 69f9d7d..d47e863 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -469,11 +469,12 @@ impl LineCompare for LineCompWhole {
     }
 
     fn comp_self_line(&mut self, right: &[u8], _delim: u8) -> Ordering {
-        self.comp.comp_self(right)
+        self.comp.comp_self(right.strip_suffix(b"\n").unwrap_or(right))
     }
 
     fn equal_self_line(&mut self, right: &[u8], _delim: u8) -> bool {
-        self.comp.equal_self(right)
+        self.comp
+            .equal_self(right.strip_suffix(b"\n").unwrap_or(right))
     }
 }
 
-- 
2.43.0


From b07f4c7a0f9895e4c837b87b17e921960a540b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:31 +0000
Subject: [PATCH 068/117] fix: binsearch --filename always used a tab, whatever
 the delimiter

---
 src/bin/cdx/binsearch_main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bin/cdx/binsearch_main.rs b/src/bin/cdx/binsearch_main.rs
index 208fc8a..16b5765 100644
--- a/src/bin/cdx/binsearch_main.rs
+++ b/src/bin/cdx/binsearch_main.rs
@@ -145,7 +145,8 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         not_header.clear();
         if m.has_header() {
             if let Some(f) = &filename {
-                not_header.extend(b" CDX\t");
+                not_header.extend(b" CDX");
+                not_header.push(m.get_delim());
                 not_header.extend(f.name.as_bytes());
                 not_header.extend(&m.header()[4..]);
             } else {
@@ -179,7 +180,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                 } else {
                     w.write_all(f.tail_path_u8(file.tail, b'/').as_bytes())?;
                 }
-                w.write_all(&[b'\t'])?;
+                w.write_all(&[m.get_delim()])?;
                 write_all_nl(&mut w.0, &m.get()[start..end])?;
                 start = end;
             }
-- 
2.43.0


From 68ff4be9557aba131ca0af4a77d7147a0e5cdc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:24 +0000
Subject: [PATCH 069/117] fix: the operators <= >= == and != were all rejected
 in expressions

---
 src/tok2.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tok2.rs b/src/tok2.rs
index 12fa02d..8c8975a 100644
--- a/src/tok2.rs
+++ b/src/tok2.rs
@@ -119,7 +119,7 @@ pub(crate) fn tokenize<S: AsRef<str>>(orig: S) -> Result<Vec<Token>> {
             '!' => {
                 if next == '=' {
                     res.push(Token::Binary(BinaryOp::NE));
-                    input.skip_first();
+                    input = input.skip_first();
                 } else {
                     res.push(Token::Unary(UnaryOp::Fact));
                 }
@@ -127,7 +127,7 @@ pub(crate) fn tokenize<S: AsRef<str>>(orig: S) -> Result<Vec<Token>> {
             '<' => {
                 if next == '=' {
                     res.push(Token::Binary(BinaryOp::LE));
-                    input.skip_first();
+                    input = input.skip_first();
                 } else {
                     res.push(Token::Binary(BinaryOp::LT));
                 }
@@ -135,7 +135,7 @@ pub(crate) fn tokenize<S: AsRef<str>>(orig: S) -> Result<Vec<Token>> {
             '>' => {
                 if next == '=' {
                     res.push(Token::Binary(BinaryOp::GE));
-                    input.skip_first();
+                    input = input.skip_first();
                 } else {
                     res.push(Token::Binary(BinaryOp::GT));
                 }
@@ -143,7 +143,7 @@ pub(crate) fn tokenize<S: AsRef<str>>(orig: S) -> Result<Vec<Token>> {
             '=' => {
                 if next == '=' {
                     res.push(Token::Binary(BinaryOp::EQ));
-                    input.skip_first();
+                    input = input.skip_first();
                 } else {
                     return err!("Equal can't be followed by {} in '{}'", next, orig);
                 }
-- 
2.43.0


From 0f9ad16e0baa63de78089e532235dab69bf5befa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:26 +0000
Subject: [PATCH 070/117] fix: a sign first in a function argument, or after a
 factorial, was rejected in expressions

---
 src/tok2.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tok2.rs b/src/tok2.rs
index 8c8975a..fe3a17d 100644
--- a/src/tok2.rs
+++ b/src/tok2.rs
@@ -63,13 +63,13 @@ const fn can_binary(tok: &Token) -> bool {
     use Token::{Binary, Comma, Func, LParen, Number, RParen, Unary, Var};
     match tok {
         Binary(_) => false,
-        Unary(_) => false,
+        Unary(op) => matches!(op, UnaryOp::Fact),
         LParen => false,
         RParen => true,
         Comma => false,
         Number(_) => true,
         Var(_) => true,
-        Func(_, _) => true,
+        Func(_, _) => false,
     }
 }
 pub(crate) fn tokenize<S: AsRef<str>>(orig: S) -> Result<Vec<Token>> {
-- 
2.43.0


From e7ba0eb3c9d6ab5931bb0ee8153eb6b078a7571c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:28 +0000
Subject: [PATCH 071/117] fix: an empty expression panicked

---
 src/shunting_yard.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/shunting_yard.rs b/src/shunting_yard.rs
index d4899ee..4922004 100644
--- a/src/shunting_yard.rs
+++ b/src/shunting_yard.rs
@@ -138,6 +138,9 @@ pub(crate) fn to_rpn(input: &[Token]) -> Result<Vec<Token>> {
         }
     }
 
+    if n_operands == 0 {
+        return err!("Empty Expression");
+    }
     if n_operands > 1 {
         return err!("Too Many Operands");
     }
-- 
2.43.0


From 6aaf36f69f26a1cbd96dfdd3a29c63f75a2e968d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:30 +0000
Subject: [PATCH 072/117] fix: no name with an underscore could be used in an
 expression, such as M_PI

---
 src/tok2.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tok2.rs b/src/tok2.rs
index fe3a17d..4dc5790 100644
--- a/src/tok2.rs
+++ b/src/tok2.rs
@@ -152,7 +152,9 @@ pub(crate) fn tokenize<S: AsRef<str>>(orig: S) -> Result<Vec<Token>> {
                 if ch.is_alphabetic() {
                     let mut var = String::new();
                     var.push(ch);
-                    while !input.is_empty() && input.first().is_alphanumeric() {
+                    while !input.is_empty()
+                        && (input.first().is_alphanumeric() || input.first() == '_')
+                    {
                         var.push(input.take_first());
                     }
                     res.push(Token::Var(var));
-- 
2.43.0


From a56b4a0ccfcba524f6916605ed0f74c18978e13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:32 +0000
Subject: [PATCH 073/117] fix: acos gave the absolute value

---
 src/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr.rs b/src/expr.rs
index 8d19549..60123b8 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -319,7 +319,7 @@ fn apply_func(op: FuncOp, args: &[f64]) -> f64 {
         Sin, Sinh, Sqrt, Tan, Tanh, Tgamma, Trunc, Yn, J0, J1, Y0, Y1,
     };
     match op {
-        Acos => args[0].abs(),
+        Acos => args[0].acos(),
         Acosh => args[0].acosh(),
         Asinh => args[0].asinh(),
         Asin => args[0].asin(),
-- 
2.43.0


From 35008ae9a57f9b6dd1595253a891977b3b9ba28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:34 +0000
Subject: [PATCH 074/117] fix: the factorial of zero was zero

---
 src/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr.rs b/src/expr.rs
index 60123b8..20b66f2 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -649,7 +649,7 @@ fn factorial(x: f64) -> f64 {
 }
 
 const FACTORIAL: [f64; 171] = [
-    0.0,
+    1.0,
     1.0,
     2.0,
     6.0,
-- 
2.43.0


From ab3ba8b16211573a053cc4495d7ba7c98c2575f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:51 +0000
Subject: [PATCH 075/117] fix: column c0 in an expression panicked

---
 src/expr.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/expr.rs b/src/expr.rs
index 20b66f2..724b378 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -492,7 +492,11 @@ impl Expr {
                 static ref CN: Regex = Regex::new("^c([0-9]+)$").unwrap();
             }
             if let Some(cn) = CN.captures(&y.name) {
-                y.col = Some(cn.get(1).unwrap().as_str().to_usize_whole(b"", "").unwrap() - 1);
+                let num = cn.get(1).unwrap().as_str().to_usize_whole(b"", "")?;
+                if num == 0 {
+                    return err!("Invalid column number in {}", y.name);
+                }
+                y.col = Some(num - 1);
                 continue;
             }
             // FIXME - some way to declare other variables
-- 
2.43.0


From 6d56d9c28fcb75ffe48403ebe3bb597638c46328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:20 +0000
Subject: [PATCH 076/117] fix: the count aggregator panicked when starting at
 the largest integer

---
 src/agg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/agg.rs b/src/agg.rs
index 11c8b5d..6d00312 100644
--- a/src/agg.rs
+++ b/src/agg.rs
@@ -1235,7 +1235,7 @@ impl Agg for Count {
         self.val as f64
     }
     fn add(&mut self, _data: &[u8]) {
-        self.val += 1;
+        self.val = self.val.saturating_add(1);
     }
     fn result(&mut self, w: &mut dyn Write, fmt: NumFormat) -> Result<()> {
         fmt.print(self.value(), w)
-- 
2.43.0


From 5fbf9c005934d61ac8ee31017ad3a2d96fff91aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:23 +0000
Subject: [PATCH 077/117] fix: headers and gzip data were not recognized when
 the first bytes came in pieces

---
 src/util.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 4cacb03..31a6847 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1238,6 +1238,14 @@ fn unescape_vec(data: &[u8]) -> Vec<u8> {
     ret
 }
 
+/// Ensure that the first read yields enough to recognize the kind of file,
+/// even if the data arrives a byte at a time.
+fn look_ahead(mut inner: Box<dyn Read>) -> Result<Box<dyn Read>> {
+    let mut start = Vec::new();
+    inner.by_ref().take(4).read_to_end(&mut start)?;
+    Ok(Box::new(io::Cursor::new(start).chain(inner)))
+}
+
 /// Make an Infile from a file name
 pub fn get_reader(name: &str) -> Result<Infile> {
     let inner: Box<dyn Read> = {
@@ -1252,10 +1260,10 @@ pub fn get_reader(name: &str) -> Result<Infile> {
             Box::new(fs::File::open(name)?)
         }
     };
-    let mut outer = io::BufReader::new(inner);
+    let mut outer = io::BufReader::new(look_ahead(inner)?);
     let start = outer.fill_buf()?;
     if start.starts_with(&[0x1fu8, 0x8bu8, 0x08u8]) {
-        outer = io::BufReader::new(Box::new(MultiGzDecoder::new(outer)));
+        outer = io::BufReader::new(look_ahead(Box::new(MultiGzDecoder::new(outer)))?);
     }
     Ok(Infile::new(outer, name))
 }
-- 
2.43.0


From 3839f539a01cad222ab2aacd1ac2aa212078076e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:54 +0000
Subject: [PATCH 078/117] fix: errors writing the last of the output were
 ignored

---
 src/bin/cdx/binsearch_main.rs | 1 +
 src/bin/cdx/cat_main.rs       | 1 +
 src/bin/cdx/cgrep_main.rs     | 1 +
 src/bin/cdx/cut_main.rs       | 1 +
 src/bin/cdx/filegen_main.rs   | 1 +
 src/bin/cdx/paste_main.rs     | 1 +
 src/bin/cdx/sample_main.rs    | 1 +
 src/bin/cdx/sort_main.rs      | 1 +
 src/bin/cdx/uniq_main.rs      | 2 ++
 src/bin/cdx/wc_main.rs        | 1 +
 src/join.rs                   | 4 ++++
 src/sort.rs                   | 1 +
 src/tabs.rs                   | 1 +
 src/tooltest.rs               | 1 +
 src/transpose.rs              | 1 +
 15 files changed, 19 insertions(+)

diff --git a/src/bin/cdx/binsearch_main.rs b/src/bin/cdx/binsearch_main.rs
index 16b5765..f108a4e 100644
--- a/src/bin/cdx/binsearch_main.rs
+++ b/src/bin/cdx/binsearch_main.rs
@@ -186,5 +186,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             }
         }
     }
+    w.flush()?;
     Ok(())
 }
diff --git a/src/bin/cdx/cat_main.rs b/src/bin/cdx/cat_main.rs
index 1c1932a..18f0d1c 100644
--- a/src/bin/cdx/cat_main.rs
+++ b/src/bin/cdx/cat_main.rs
@@ -209,5 +209,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             w.write_all(b"\n")?;
         }
     }
+    w.flush()?;
     Ok(())
 }
diff --git a/src/bin/cdx/cgrep_main.rs b/src/bin/cdx/cgrep_main.rs
index 7e3da09..55048dd 100644
--- a/src/bin/cdx/cgrep_main.rs
+++ b/src/bin/cdx/cgrep_main.rs
@@ -71,5 +71,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             }
         }
     }
+    w.flush()?;
     Ok(())
 }
diff --git a/src/bin/cdx/cut_main.rs b/src/bin/cdx/cut_main.rs
index b94ad97..0d3dd4f 100644
--- a/src/bin/cdx/cut_main.rs
+++ b/src/bin/cdx/cut_main.rs
@@ -64,5 +64,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             }
         }
     }
+    w.flush()?;
     Ok(())
 }
diff --git a/src/bin/cdx/filegen_main.rs b/src/bin/cdx/filegen_main.rs
index 4a74263..cc1834a 100644
--- a/src/bin/cdx/filegen_main.rs
+++ b/src/bin/cdx/filegen_main.rs
@@ -53,5 +53,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
     for _i in 0..num_lines {
         list.write(&mut w.0, b'\t')?;
     }
+    w.flush()?;
     Ok(())
 }
diff --git a/src/bin/cdx/paste_main.rs b/src/bin/cdx/paste_main.rs
index 9abfb96..528e16c 100644
--- a/src/bin/cdx/paste_main.rs
+++ b/src/bin/cdx/paste_main.rs
@@ -153,5 +153,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         }
         w.write_all(b"\n")?;
     }
+    w.flush()?;
     Ok(())
 }
diff --git a/src/bin/cdx/sample_main.rs b/src/bin/cdx/sample_main.rs
index 23ec2aa..0e0eb8c 100644
--- a/src/bin/cdx/sample_main.rs
+++ b/src/bin/cdx/sample_main.rs
@@ -176,5 +176,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             }
         }
     }
+    w.flush()?;
     Ok(())
 }
diff --git a/src/bin/cdx/sort_main.rs b/src/bin/cdx/sort_main.rs
index 7a5594b..ee363bf 100644
--- a/src/bin/cdx/sort_main.rs
+++ b/src/bin/cdx/sort_main.rs
@@ -81,6 +81,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         } else {
             config.sort(&files, comp, &mut w.0, unique)?;
         }
+        w.flush()?;
     }
     Ok(())
 }
diff --git a/src/bin/cdx/uniq_main.rs b/src/bin/cdx/uniq_main.rs
index ccd7450..74e6bc9 100644
--- a/src/bin/cdx/uniq_main.rs
+++ b/src/bin/cdx/uniq_main.rs
@@ -230,6 +230,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         w.write_all(ch.get_head(&settings.text_out()).as_bytes())?;
     }
     if f.is_done() {
+        w.flush()?;
         return Ok(());
     }
 
@@ -293,5 +294,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             }
         }
     }
+    w.flush()?;
     Ok(())
 }
diff --git a/src/bin/cdx/wc_main.rs b/src/bin/cdx/wc_main.rs
index e12ae3b..bef2fa5 100644
--- a/src/bin/cdx/wc_main.rs
+++ b/src/bin/cdx/wc_main.rs
@@ -248,5 +248,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         }
         w.write_all(b"\n")?;
     }
+    w.flush()?;
     Ok(())
 }
diff --git a/src/join.rs b/src/join.rs
index c4f0712..e25c78d 100644
--- a/src/join.rs
+++ b/src/join.rs
@@ -328,6 +328,10 @@ impl Joiner {
             }
             self.r[1].getline()?;
         }
+        self.yes_match.flush()?;
+        for x in self.no_match.iter_mut().flatten() {
+            x.flush()?;
+        }
         Ok(())
     }
 }
diff --git a/src/sort.rs b/src/sort.rs
index 96b695d..60c0a69 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -473,6 +473,7 @@ impl Sorter {
         for &x in &self.ptrs {
             new_w.write_all(x.get(&self.data))?;
         }
+        new_w.flush()?;
         self.tmp_files.push(tmp_name.to_string());
         self.ptrs.clear();
         let nsize = self.data_used - self.data_calc;
diff --git a/src/tabs.rs b/src/tabs.rs
index dd64fc7..fc24973 100644
--- a/src/tabs.rs
+++ b/src/tabs.rs
@@ -127,6 +127,7 @@ pub fn show(file: &str, screen: &Rect, text: &TextFileMode) -> Result<()> {
         do_center = false;
         w.write_all(b"\n")?;
     }
+    w.flush()?;
     Ok(())
 }
 
diff --git a/src/tooltest.rs b/src/tooltest.rs
index 5a2b52f..600daa3 100644
--- a/src/tooltest.rs
+++ b/src/tooltest.rs
@@ -267,6 +267,7 @@ impl Test {
             fname.push_str(&x.name);
             let mut w = get_writer(&fname)?;
             w.write_all(&x.content)?;
+            w.flush()?;
         }
         let mut tmp_stdin = tmp.clone();
         tmp_stdin.push_str("stdin");
diff --git a/src/transpose.rs b/src/transpose.rs
index f1ef405..8ec172a 100644
--- a/src/transpose.rs
+++ b/src/transpose.rs
@@ -38,5 +38,6 @@ pub fn transpose(file: &str, head: bool, max_lines: usize, text: &TextFileMode)
         }
         w.write_all(b"\n")?;
     }
+    w.flush()?;
     Ok(())
 }
-- 
2.43.0


From 19947bba20475efde216fcc095395feaadb1f373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:24 +0000
Subject: [PATCH 079/117] fix: files without header and with another delimiter
 than tab had no usable columns

---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 31a6847..b2855b3 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1331,7 +1331,7 @@ impl InfileContext {
             for i in 1..=line.len() {
                 head_str += "c";
                 head_str += &i.to_string();
-                head_str += "\t";
+                head_str.push(self.text.delim as char);
             }
             head_str.pop();
             head_str += "\n";
-- 
2.43.0


From 92ddc0f35d1933b335670de671aaf8ae1b19403f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:24 +0000
Subject: [PATCH 080/117] fix: cgrep --location, transpose and wc wrote tabs
 whatever the delimiter

---
 src/bin/cdx/cgrep_main.rs |  2 +-
 src/bin/cdx/wc_main.rs    | 12 +++++++-----
 src/transpose.rs          |  5 +++--
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/bin/cdx/cgrep_main.rs b/src/bin/cdx/cgrep_main.rs
index 55048dd..c53eaf5 100644
--- a/src/bin/cdx/cgrep_main.rs
+++ b/src/bin/cdx/cgrep_main.rs
@@ -61,7 +61,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         loop {
             if list.ok(f.curr_line()) ^ reverse {
                 // write previous lines of context if necessary
-                loc.write_data(&mut w.0, b'\t', f.loc())?;
+                loc.write_data(&mut w.0, settings.text_out().delim, f.loc())?;
                 f.write_curr(&mut w.0)?;
             } else {
                 // write more lines of context if necessary
diff --git a/src/bin/cdx/wc_main.rs b/src/bin/cdx/wc_main.rs
index bef2fa5..3841a94 100644
--- a/src/bin/cdx/wc_main.rs
+++ b/src/bin/cdx/wc_main.rs
@@ -78,6 +78,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         }
     }
     let nada = TextLine::new();
+    let delim = [settings.text_out().delim];
     let mut w = get_writer("-")?;
     let mut first_file = true;
     let mut totals = Vec::new();
@@ -161,11 +162,11 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             for x in &aggs {
                 if show_file {
                     w.write_all(x.name.as_bytes())?;
-                    w.write_all(b"\t")?;
+                    w.write_all(&delim)?;
                 }
                 for i in 0..x.agg.len() {
                     if i != 0 {
-                        w.write_all(b"\t")?;
+                        w.write_all(&delim)?;
                     }
                     x.agg.get(i).agg.borrow_mut().result(&mut w.0, fmt)?;
                 }
@@ -225,7 +226,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             if !total_only {
                 if show_file {
                     w.write_all(x.as_bytes())?;
-                    w.write_all(b"\t")?;
+                    w.write_all(&delim)?;
                 }
                 c_write.write(&mut w.0, &nada)?;
             }
@@ -238,11 +239,12 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
     }
     if do_totals {
         if show_file {
-            w.write_all(b"totals\t")?;
+            w.write_all(b"totals")?;
+            w.write_all(&delim)?;
         }
         for (i, t) in totals.iter().enumerate() {
             if i != 0 {
-                w.write_all(b"\t")?;
+                w.write_all(&delim)?;
             }
             fmt.print(*t, &mut w.0)?;
         }
diff --git a/src/transpose.rs b/src/transpose.rs
index 8ec172a..644b41e 100644
--- a/src/transpose.rs
+++ b/src/transpose.rs
@@ -20,7 +20,8 @@ pub fn transpose(file: &str, head: bool, max_lines: usize, text: &TextFileMode)
     }
     let mut w = get_writer("-")?;
     if head {
-        w.write_all(b" CDX\t")?;
+        w.write_all(b" CDX")?;
+        w.write_all(&[text.delim])?;
     }
     for i in 0..f.header().len() {
         let mut need_tab = if f.has_header() {
@@ -31,7 +32,7 @@ pub fn transpose(file: &str, head: bool, max_lines: usize, text: &TextFileMode)
         };
         for x in &data {
             if need_tab {
-                w.write_all(b"\t")?;
+                w.write_all(&[text.delim])?;
             }
             need_tab = true;
             w.write_all(&x[i])?;
-- 
2.43.0


From db833325277a1493065e3db9aacde522e2e03140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:24 +0000
Subject: [PATCH 081/117] fix: sort ignored the delimiter of its input files

---
 src/bin/cdx/sort_main.rs |  5 ++++-
 src/sort.rs              | 17 ++++++++++++++---
 src/util.rs              |  8 ++++----
 3 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/bin/cdx/sort_main.rs b/src/bin/cdx/sort_main.rs
index ee363bf..3c3a07c 100644
--- a/src/bin/cdx/sort_main.rs
+++ b/src/bin/cdx/sort_main.rs
@@ -21,7 +21,10 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
     let mut comp = LineCompList::new();
     let mut check = false;
     let mut num_checks = 1;
-    let mut config = SortConfig::default();
+    let mut config = SortConfig {
+        text_in: settings.text_in,
+        ..SortConfig::default()
+    };
     for x in args {
         if x.name == "key" {
             comp.add(&x.value)?;
diff --git a/src/sort.rs b/src/sort.rs
index 60c0a69..77ab5ab 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -42,6 +42,8 @@ pub struct SortConfig {
     pub alt_merge: bool,
     /// files to be merged hold nothing but data, and the named columns have already been resolved
     pub raw_merge: bool,
+    /// format of the input files
+    pub text_in: TextFileMode,
 }
 
 impl SortConfig {
@@ -56,7 +58,7 @@ impl SortConfig {
         let mut checker = HeaderChecker::new();
         let mut first = true;
         for x in in_files {
-            let mut text = TextFileMode::default();
+            let mut text = self.text_in;
             if self.raw_merge {
                 text.head_mode = HeadMode::No;
             }
@@ -303,6 +305,7 @@ impl SortConfig {
     ) -> Result<()> // maybe return some useful stats?
     {
         let mut s = Sorter::new(cmp, 500_000_000, unique);
+        s.set_delim(self.text_in.delim);
         for fname in files {
             s.add_file(fname, w)?;
         }
@@ -369,6 +372,12 @@ impl Sorter {
         }
     }
 
+    /// set the column delimiter
+    pub fn set_delim(&mut self, delim: u8) {
+        self.cmp.set_delim(delim);
+        self.config.text_in.delim = delim;
+    }
+
     fn check(&self) -> bool {
         debug_assert!(self.data_used <= self.data.len());
         debug_assert!(self.data_calc <= self.data_used);
@@ -530,10 +539,12 @@ impl Sorter {
             return Ok(());
         }
         if self.checker.check(&first_line, fname)? {
-            let s = make_header(&first_line);
+            if is_cdx(&first_line) {
+                self.set_delim(first_line[4]);
+            }
+            let s = make_header(&first_line, self.config.text_in.delim);
             self.cmp.lookup(&s.vec())?;
             if is_cdx(&first_line) {
-                self.cmp.set_delim(first_line[4]);
                 w.write_all(&first_line)?;
             } else {
                 self.add_data(&first_line)?;
diff --git a/src/util.rs b/src/util.rs
index b2855b3..a0e1613 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1284,18 +1284,18 @@ pub struct InfileContext {
 
 /// create appropriate header from first line of file
 #[must_use]
-pub fn make_header(line: &[u8]) -> StringLine {
+pub fn make_header(line: &[u8], delim: u8) -> StringLine {
     let mut s = StringLine::new();
     if is_cdx(line) {
         s.line = String::from_utf8_lossy(&line[5..]).to_string();
     } else {
         s.line = String::new();
-        for x in 1..=line.split(|ch| *ch == b'\t').count() {
-            write!(s.line, "c{x}\t").unwrap();
+        for x in 1..=line.split(|ch| *ch == delim).count() {
+            write!(s.line, "c{x}{}", delim as char).unwrap();
         }
         s.line.pop();
     }
-    s.split(b'\t');
+    s.split(delim);
     s
 }
 
-- 
2.43.0


From 103a0f97759e6aaf380367db3445d24633dc1965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:24 +0000
Subject: [PATCH 082/117] fix: join ignored --text-in and --text-out

---
 src/bin/cdx/join_main.rs | 2 ++
 src/join.rs              | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bin/cdx/join_main.rs b/src/bin/cdx/join_main.rs
index c9a41b4..2ed0456 100644
--- a/src/bin/cdx/join_main.rs
+++ b/src/bin/cdx/join_main.rs
@@ -14,6 +14,8 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
 
     let mut config = JoinConfig::new();
     config.infiles = files;
+    config.text_in = settings.text_in;
+    config.out_delim = settings.text_out().delim;
     for x in args {
         if x.name == "key" {
             config.keys.push(x.value);
diff --git a/src/join.rs b/src/join.rs
index e25c78d..4f030ce 100644
--- a/src/join.rs
+++ b/src/join.rs
@@ -85,6 +85,8 @@ pub struct JoinConfig {
     pub col_specs: Vec<OutColSpec>,
     /// skip sortedness check, normally join fails if input file is not sorted
     pub skip_check: bool,
+    /// format of the input files
+    pub text_in: TextFileMode,
     /// output delimiter, default tab
     pub out_delim: u8,
     /// lookback limit for JoinType::Full. Default 100.
@@ -180,7 +182,7 @@ impl Joiner {
         }
 
         for x in &config.infiles {
-            self.r.push(Reader::new_open2(x)?);
+            self.r.push(Reader::new_open(x, &config.text_in)?);
         }
 
         for _x in 0..config.infiles.len() {
-- 
2.43.0


From 314e1c9dbfb7d54a328e94f144753a36401af219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:24 +0000
Subject: [PATCH 083/117] fix: binsearch ignored --text-in

---
 src/bin/cdx/binsearch_main.rs | 2 +-
 src/binsearch.rs              | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/bin/cdx/binsearch_main.rs b/src/bin/cdx/binsearch_main.rs
index f108a4e..6d250c1 100644
--- a/src/bin/cdx/binsearch_main.rs
+++ b/src/bin/cdx/binsearch_main.rs
@@ -141,7 +141,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
     let mut not_header: Vec<u8> = Vec::new();
 
     for f in &files {
-        let m = MemMap::new(f)?;
+        let m = MemMap::new_with(f, settings.text_in.delim)?;
         not_header.clear();
         if m.has_header() {
             if let Some(f) = &filename {
diff --git a/src/binsearch.rs b/src/binsearch.rs
index 79f5372..51d7226 100644
--- a/src/binsearch.rs
+++ b/src/binsearch.rs
@@ -21,10 +21,13 @@ pub struct MemMap {
 impl MemMap {
     /// create new read-only memory map to be searched
     pub fn new(fname: &str) -> Result<Self> {
-        // needs delim as input if no CDX header
+        Self::new_with(fname, b'\t')
+    }
+    /// create new read-only memory map to be searched, with delimiter to be used if there's no CDX header
+    pub fn new_with(fname: &str, delim: u8) -> Result<Self> {
         let file = fs::File::open(fname)?;
         let map = unsafe { memmap2::Mmap::map(&file)? };
-        let mut delim = b'\t';
+        let mut delim = delim;
         let mut header_len = find_end(&map[..], 0);
         let mut header = StringLine::new();
         if is_cdx(&map[..]) {
-- 
2.43.0


From 9ad7a45bd40963118860baf8299039a0b4c4bb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:51 +0000
Subject: [PATCH 084/117] fix: tools copying lines lost the newline and the
 quoting of quoted and backslashed files

---
 src/util.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index a0e1613..25e2d3d 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -785,7 +785,7 @@ impl TextLine {
     /// whole line, without newline
     #[must_use]
     pub fn line_nl(&self) -> &[u8] {
-        &self.line[..self.line.len() - 1]
+        &self.line()[..self.line().len() - 1]
     }
     /// whole line, with newline, as Vec
     pub fn raw(&mut self) -> &mut Vec<u8> {
@@ -797,6 +797,8 @@ impl TextLine {
         self.line.extend_from_slice(&x.line[..]);
         self.parts.clear();
         self.parts.extend_from_slice(&x.parts[..]);
+        self.orig.clear();
+        self.orig.extend_from_slice(&x.orig[..]);
     }
     /// make a new `TextLine`
     #[must_use]
@@ -819,6 +821,7 @@ impl TextLine {
     pub fn clear(&mut self) {
         self.parts.clear();
         self.line.clear();
+        self.orig.clear();
     }
     /// How many column in the line
     #[must_use]
@@ -1563,13 +1566,13 @@ impl Reader {
     #[must_use]
     pub fn curr_nl(&self) -> &[u8] {
         let line = self.curr_line();
-        &line.line[0..line.line.len() - 1]
+        &line.line()[0..line.line().len() - 1]
     }
     /// get previous line contents, without the trailing newline
     #[must_use]
     pub fn prev_nl(&self, n: usize) -> &[u8] {
         let line = self.prev_line(n);
-        &line.line[0..line.line.len() - 1]
+        &line.line()[0..line.line().len() - 1]
     }
     /// get delimiter
     #[must_use]
@@ -1583,7 +1586,7 @@ impl Reader {
     }
     /// write the current text line with newline
     pub fn write(&self, w: &mut impl Write) -> Result<()> {
-        w.write_all(&self.curr_line().line)?;
+        w.write_all(self.curr_line().line())?;
         Ok(())
     }
     /// open file for reading
@@ -1632,8 +1635,9 @@ impl Reader {
     }
     /// get next line of text
     pub fn getline(&mut self) -> Result<bool> {
-        self.loc.bytes += self.curr().line.len();
+        self.loc.bytes += self.curr().line().len();
         self.incr();
+        self.lines[self.curr].orig.clear();
         if self
             .cont
             .text
@@ -1671,12 +1675,12 @@ impl Reader {
     }
     /// write the current text line with newline
     pub fn write_curr(&self, w: &mut impl Write) -> Result<()> {
-        w.write_all(&self.curr_line().line)?;
+        w.write_all(self.curr_line().line())?;
         Ok(())
     }
     /// write previous text line with newline
     pub fn write_prev(&self, w: &mut impl Write, lookback: usize) -> Result<()> {
-        w.write_all(&self.prev_line(lookback).line)?;
+        w.write_all(self.prev_line(lookback).line())?;
         Ok(())
     }
     /// write header
@@ -2133,7 +2137,7 @@ impl CompareOp {
     ) -> bool {
         if !self.invert().line_ok(line, comp) {
             eprint!("Line {line_num} : ");
-            prerr_n(&[&line.line]);
+            prerr_n(&[line.line()]);
             eprint!("should have been {self:?} ");
             prerr_n(&[comp.get_value()]);
             eprintln!(" but wasn't");
-- 
2.43.0


From d6d3c0b22681f08c8e68e9c9fb9f3e6298953708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:19 +0000
Subject: [PATCH 085/117] fix: delimiters inside quotes split columns, and
 quotes were never closed

---
 src/util.rs | 51 +++++++++++++++++++++------------------------------
 1 file changed, 21 insertions(+), 30 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 25e2d3d..f7d8995 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -546,18 +546,18 @@ fn write_backslash(w: &mut dyn Write, buf: &[u8], tab: u8, eol: u8) -> Result<()
 }
 
 fn write_quotes(w: &mut dyn Write, buf: &[u8], tab: u8, eol: u8) -> Result<()> {
-    let mut made_quote = false;
+    if !buf.iter().any(|ch| *ch == tab || *ch == eol || *ch == b'"') {
+        w.write_all(buf)?;
+        return Ok(());
+    }
+    w.write_all(b"\"")?;
     for ch in buf {
         if *ch == b'"' {
-            w.write_all(b"\"\"")?;
-            continue;
-        }
-        if !made_quote && (*ch == tab || *ch == eol) {
-            made_quote = true;
-            w.write_all(&[b'"'])?;
+            w.write_all(b"\"")?;
         }
         w.write_all(&[*ch])?;
     }
+    w.write_all(b"\"")?;
     Ok(())
 }
 
@@ -651,39 +651,30 @@ pub fn split_quotes(parts: &mut Vec<FakeSlice>, line: &[u8], tmp: &mut Vec<u8>,
     }
     let mut begin: u32 = 0;
     let mut end: u32 = 0;
-    let mut last_was_quote = false;
     let mut in_quote = false;
-    for ch in line {
-        if in_quote {
-            if last_was_quote {
-                if *ch == b'"' {
-                    tmp.push(*ch);
-                    end += 1;
-                    continue;
-                } else {
-                    in_quote = false;
-                    // not continue
-                }
-            } else if *ch == b'"' {
-                last_was_quote = true;
+    let mut field_start = true;
+    let mut chars = line.iter().peekable();
+    while let Some(ch) = chars.next() {
+        if *ch == b'"' {
+            // a doubled quote is a quote, unless it's an empty quoted string
+            if (in_quote || !field_start) && chars.peek() == Some(&&b'"') {
+                chars.next();
+            } else {
+                in_quote = !in_quote;
+                field_start = false;
                 continue;
             }
-        } else if *ch == b'"' {
-            in_quote = true;
-            last_was_quote = true;
-            continue;
         }
-
         tmp.push(*ch);
-        if *ch == delim {
+        field_start = false;
+        if *ch == delim && !in_quote {
             parts.push(FakeSlice { begin, end });
             begin = end + 1;
+            field_start = true;
         }
         end += 1;
     }
-    if begin != end {
-        parts.push(FakeSlice { begin, end });
-    }
+    parts.push(FakeSlice { begin, end });
 }
 
 /// A line of a text file, broken into columns.
-- 
2.43.0


From bf50b7a4a176a82bbced7807ee65277c6f9d4239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:19 +0000
Subject: [PATCH 086/117] fix: backslashed lines lost an empty last column

---
 src/util.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index f7d8995..6dacf16 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -636,9 +636,7 @@ pub fn split_backslash(parts: &mut Vec<FakeSlice>, line: &[u8], tmp: &mut Vec<u8
         end += 1;
         last_was_slash = false;
     }
-    if begin != end {
-        parts.push(FakeSlice { begin, end });
-    }
+    parts.push(FakeSlice { begin, end });
 }
 
 /// split a line by a delimiter. Remove trailing newline, if any.
-- 
2.43.0


From 4a24c281bcb6a397771d964aea1d33151a3bb25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:23 +0000
Subject: [PATCH 087/117] fix: headers delimited by spaces had an extra column

---
 src/binsearch.rs | 4 ++++
 src/util.rs      | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/binsearch.rs b/src/binsearch.rs
index 51d7226..06beb0d 100644
--- a/src/binsearch.rs
+++ b/src/binsearch.rs
@@ -40,6 +40,10 @@ impl MemMap {
         }
         header.split(delim);
         header.parts.remove(0);
+        // the marker itself starts with a space
+        if delim == b' ' {
+            header.parts.remove(0);
+        }
         Ok(Self {
             map,
             header_len,
diff --git a/src/util.rs b/src/util.rs
index 6dacf16..ebe38f3 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -373,6 +373,10 @@ impl TextFileMode {
         line.split(self.delim);
         if line.line.starts_with(" CDX") {
             line.parts.remove(0);
+            // the marker itself starts with a space
+            if self.delim == b' ' && !line.parts.is_empty() {
+                line.parts.remove(0);
+            }
         }
     }
     /// append a newline, if line does not already end with one. Return false.
-- 
2.43.0


From 07e3287b018357de32cd9fa33a56a4565f404eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:34 +0000
Subject: [PATCH 088/117] fix: verify exited 0 when only the last line failed

---
 src/bin/cdx/verify_main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bin/cdx/verify_main.rs b/src/bin/cdx/verify_main.rs
index 878a985..cd552a4 100644
--- a/src/bin/cdx/verify_main.rs
+++ b/src/bin/cdx/verify_main.rs
@@ -110,6 +110,9 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                 did_fail = true;
             }
             if f.getline()? {
+                if did_fail {
+                    fails += 1;
+                }
                 if last.is_some()
                     && !last.as_ref().unwrap().line_ok_verbose(
                         f.prev_line(1),
-- 
2.43.0


From 236e8890a6d150c9db90ad020b0b7b76b2001dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:45 +0000
Subject: [PATCH 089/117] fix: verify --report and --show-matchers panicked

---
 src/bin/cdx/verify_main.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bin/cdx/verify_main.rs b/src/bin/cdx/verify_main.rs
index cd552a4..487a70a 100644
--- a/src/bin/cdx/verify_main.rs
+++ b/src/bin/cdx/verify_main.rs
@@ -1,7 +1,7 @@
 use crate::prelude::*;
 use cdx::comp::comp_check;
 use cdx::expr;
-use cdx::matcher::Combiner;
+use cdx::matcher::{Combiner, MatchMaker};
 use cdx::prelude::*;
 use cdx::util::CheckLine;
 
@@ -48,7 +48,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             comp.add(&x.value)?;
         } else if x.name == "or" {
             list.multi = Combiner::Or;
-        } else if x.name == "fail" {
+        } else if x.name == "report" {
             max_fails = x.value.to_usize_whole(x.value.as_bytes(), "max fails")?;
         } else if x.name == "sort" {
             do_sort = true;
@@ -59,6 +59,9 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         } else if x.name == "unique" {
             do_sort = true;
             do_unique = true;
+        } else if x.name == "show-matchers" {
+            MatchMaker::help();
+            return Ok(());
         } else if x.name == "show-const" {
             expr::show_const();
             return Ok(());
-- 
2.43.0


From 7dfda8caea1ce960ba25dffbb1a69dcf09eaf977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:46 +0000
Subject: [PATCH 090/117] fix: uniq --agg-help panicked

---
 src/bin/cdx/uniq_main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bin/cdx/uniq_main.rs b/src/bin/cdx/uniq_main.rs
index 74e6bc9..263acc3 100644
--- a/src/bin/cdx/uniq_main.rs
+++ b/src/bin/cdx/uniq_main.rs
@@ -182,6 +182,9 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             agg.push_append(&x.value)?;
         } else if x.name == "agg-pre" {
             agg.push_prefix(&x.value)?;
+        } else if x.name == "agg-help" {
+            cdx::agg::AggMaker::help();
+            return Ok(());
         } else {
             unreachable!();
         }
-- 
2.43.0


From a78f9a320c643d2c3478b3c5332ce333caae8f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:48 +0000
Subject: [PATCH 091/117] fix: verify ignored the second half of a two-sided
 range

---
 src/util.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index ebe38f3..065f047 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -2128,7 +2128,7 @@ impl CompareOp {
         comp: &mut LineCompList,
         line_num: usize,
     ) -> bool {
-        if !self.invert().line_ok(line, comp) {
+        if !self.line_ok(line, comp) {
             eprint!("Line {line_num} : ");
             prerr_n(&[line.line()]);
             eprint!("should have been {self:?} ");
@@ -2142,7 +2142,7 @@ impl CompareOp {
     /// return (line OP value)
     pub fn line_ok(&self, line: &TextLine, comp: &mut LineCompList) -> bool {
         let o = comp.comp_self_cols(line);
-        self.ord_ok(o)
+        self.invert().ord_ok(o)
     }
     /// does Ordering satisfy `CompareOp`
     #[must_use]
@@ -2292,7 +2292,7 @@ impl CheckLine {
         self.val2 = if r.val2.is_none() {
             None
         } else {
-            Some(r.op2.unwrap().to_owned())
+            Some(r.val2.unwrap().to_owned())
         };
         Ok(())
     }
@@ -2308,7 +2308,16 @@ impl CheckLine {
         line_num: usize,
     ) -> Result<bool> {
         comp.set(self.val.as_bytes(), b',')?;
-        Ok(self.op.line_ok_verbose(line, comp, line_num))
+        if !self.op.line_ok_verbose(line, comp, line_num) {
+            return Ok(false);
+        }
+        match self.op2 {
+            None => Ok(true),
+            Some(o) => {
+                comp.set(self.val2.as_ref().unwrap().as_bytes(), b',')?;
+                Ok(o.line_ok_verbose(line, comp, line_num))
+            }
+        }
     }
     /// compare line OP text, return true if match
     pub fn line_ok(&self, line: &TextLine, comp: &mut LineCompList) -> Result<bool> {
-- 
2.43.0


From 7dfd4815aadb407c93bca2a8255bb5d7c501d3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:51 +0000
Subject: [PATCH 092/117] fix: whole lines were compared to values with their
 newline

---
 src/comp.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index d47e863..a323a22 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -461,11 +461,15 @@ impl LineCompare for LineCompWhole {
     }
 
     fn comp_self_cols(&mut self, right: &TextLine) -> Ordering {
-        self.comp.comp_self(right.line())
+        let right = right.line();
+        self.comp
+            .comp_self(right.strip_suffix(b"\n").unwrap_or(right))
     }
 
     fn equal_self_cols(&mut self, right: &TextLine) -> bool {
-        self.comp.equal_self(right.line())
+        let right = right.line();
+        self.comp
+            .equal_self(right.strip_suffix(b"\n").unwrap_or(right))
     }
 
     fn comp_self_line(&mut self, right: &[u8], _delim: u8) -> Ordering {
-- 
2.43.0


From 74f861b8bf44cb6eaf2f2b9da9e24180af433601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:29 +0000
Subject: [PATCH 093/117] fix: verify reported column counts for the wrong line
 number

---
 src/bin/cdx/verify_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/verify_main.rs b/src/bin/cdx/verify_main.rs
index 487a70a..743dbda 100644
--- a/src/bin/cdx/verify_main.rs
+++ b/src/bin/cdx/verify_main.rs
@@ -103,7 +103,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             if f.curr().len() != num_cols {
                 eprintln!(
                     "Expected {num_cols} columns, but line {} of {} had {}",
-                    f.line_number() + 1,
+                    f.line_number(),
                     x,
                     f.curr().len()
                 );
-- 
2.43.0


From 5e631a40e525bdb6c17dfd304716003e165dc52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:12 +0000
Subject: [PATCH 094/117] fix: tabs panicked on lines with more columns than
 the first

---
 src/tabs.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tabs.rs b/src/tabs.rs
index fc24973..3fdedbf 100644
--- a/src/tabs.rs
+++ b/src/tabs.rs
@@ -85,6 +85,9 @@ pub fn show(file: &str, screen: &Rect, text: &TextFileMode) -> Result<()> {
     for x in &lines {
         for (i, c) in x.iter().enumerate() {
             let width = UnicodeWidthStr::width(c);
+            if i >= sizes.len() {
+                sizes.resize(i + 1, 0);
+            }
             if sizes[i] < width {
                 sizes[i] = width;
             }
@@ -157,6 +160,9 @@ pub fn show2(file: &str, screen: &Rect, w: &mut Vec<String>, text: &TextFileMode
     for x in &lines {
         for (i, c) in x.iter().enumerate() {
             let width = UnicodeWidthStr::width(c);
+            if i >= sizes.len() {
+                sizes.resize(i + 1, 0);
+            }
             if sizes[i] < width {
                 sizes[i] = width;
             }
-- 
2.43.0


From 7bb3c1a27190454b9fbca2d9e61b3e3f096655d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:14 +0000
Subject: [PATCH 095/117] fix: tabs panicked when the columns or files
 outnumbered the screen's columns or lines

---
 src/bin/cdx/tabs_main.rs | 4 ++--
 src/tabs.rs              | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/bin/cdx/tabs_main.rs b/src/bin/cdx/tabs_main.rs
index ae42ba1..6d305fd 100644
--- a/src/bin/cdx/tabs_main.rs
+++ b/src/bin/cdx/tabs_main.rs
@@ -41,7 +41,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         }
     } else {
         let base_rect = tabs::Rect::from_screen();
-        let mut lines_left = base_rect.height - (2 * files.len()) + 1;
+        let mut lines_left = (base_rect.height + 1).saturating_sub(2 * files.len());
         let mut files_left = files.len();
         for x in &files {
             let mut v = Vec::new();
@@ -51,7 +51,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             for x in &v {
                 println!("{}", x);
             }
-            lines_left -= v.len();
+            lines_left = lines_left.saturating_sub(v.len());
             files_left -= 1;
             if files_left > 0 {
                 println!("{:-<1$}", "", real);
diff --git a/src/tabs.rs b/src/tabs.rs
index 3fdedbf..69d5431 100644
--- a/src/tabs.rs
+++ b/src/tabs.rs
@@ -30,7 +30,7 @@ impl Rect {
         if unsafe { libc::ioctl(2, libc::TIOCGWINSZ, &mut ws) } >= 0 {
             Self {
                 width: ws.ws_col as usize,
-                height: (ws.ws_row - 1) as usize,
+                height: ws.ws_row.saturating_sub(1) as usize,
             }
         } else {
             Self {
@@ -56,7 +56,7 @@ fn dec_max(sizes: &mut [usize]) {
 /// show the file on the screen
 pub fn basic(file: &str, text: &TextFileMode) -> Result<()> {
     let mut x = Rect::from_screen();
-    x.width -= 1;
+    x.width = x.width.saturating_sub(1);
     show(file, &Rect::from_screen(), text)
 }
 /// show the file in a specific rectangle
@@ -94,7 +94,7 @@ pub fn show(file: &str, screen: &Rect, text: &TextFileMode) -> Result<()> {
         }
     }
     let mut total: usize = sizes.iter().sum();
-    let target = screen.width - sizes.len();
+    let target = screen.width.saturating_sub(sizes.len());
     while total > target {
         dec_max(&mut sizes);
         total = sizes.iter().sum();
@@ -169,7 +169,7 @@ pub fn show2(file: &str, screen: &Rect, w: &mut Vec<String>, text: &TextFileMode
         }
     }
     let mut total: usize = sizes.iter().sum();
-    let target = screen.width - sizes.len();
+    let target = screen.width.saturating_sub(sizes.len());
     while total > target {
         dec_max(&mut sizes);
         total = sizes.iter().sum();
-- 
2.43.0


From 3c9809fe7c70e7b061a79bd7cb0cd3a7a7b7aaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:51 +0000
Subject: [PATCH 096/117] fix: filegen wrote debugging output for decimal
 columns

---
 src/textgen.rs | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/src/textgen.rs b/src/textgen.rs
index c314f7a..4fbebb0 100644
--- a/src/textgen.rs
+++ b/src/textgen.rs
@@ -50,15 +50,6 @@ impl DecimalGen {
                 }
             }
         }
-        eprintln!(
-            "{:?}",
-            Self {
-                sign,
-                pre,
-                post,
-                post_size
-            }
-        );
         Ok(Self {
             sign,
             pre,
-- 
2.43.0


From 0271e2b167fd574cbb20244098bc3d9bd4e95e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:53 +0000
Subject: [PATCH 097/117] fix: filegen panicked on decimal, normal and count
 columns out of range

---
 src/textgen.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/textgen.rs b/src/textgen.rs
index 4fbebb0..37d1047 100644
--- a/src/textgen.rs
+++ b/src/textgen.rs
@@ -28,6 +28,12 @@ struct DecimalGen {
     post_size: usize,
 }
 impl DecimalGen {
+    fn power(digits: &str) -> Result<usize> {
+        match 10_usize.checked_pow(digits.len() as u32) {
+            Some(x) => Ok(x),
+            None => err!("Too many digits for decimal : '{}'", digits),
+        }
+    }
     // [-]NNN[.NNNN]
     fn new(spec: &str) -> Result<Self> {
         let mut sign = false;
@@ -42,11 +48,11 @@ impl DecimalGen {
             }
             if !spec.is_empty() {
                 if let Some((a, b)) = spec.split_once('.') {
-                    pre = 10_usize.pow(a.len() as u32);
+                    pre = Self::power(a)?;
                     post_size = b.len();
-                    post = 10_usize.pow(post_size as u32);
+                    post = Self::power(b)?;
                 } else {
-                    pre = 10_usize.pow(spec.len() as u32);
+                    pre = Self::power(spec)?;
                 }
             }
         }
@@ -134,7 +140,10 @@ impl NormalDistGen {
         }
         Ok(Self {
             fmt,
-            norm: Normal::new(mean, dev).unwrap(),
+            norm: match Normal::new(mean, dev) {
+                Ok(x) => x,
+                Err(e) => return err!("Bad normal distribution '{}' : {}", spec, e),
+            },
         })
     }
 }
@@ -176,7 +185,7 @@ impl CountGen {
 }
 impl Gen for CountGen {
     fn write(&mut self, w: &mut dyn Write, loc: &Where) -> Result<()> {
-        write!(w, "{}", loc.line as isize + self.start - 1)?;
+        write!(w, "{}", loc.line as i128 + self.start as i128 - 1)?;
         Ok(())
     }
 }
-- 
2.43.0


From 4f2325e7d0c9aa6c9fc3536dad94e33040b0e67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:55 +0000
Subject: [PATCH 098/117] fix: a failed tooltest left files behind that failed
 the following tests

---
 src/tooltest.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tooltest.rs b/src/tooltest.rs
index 600daa3..db20cf3 100644
--- a/src/tooltest.rs
+++ b/src/tooltest.rs
@@ -450,6 +450,10 @@ impl Config {
     fn do_run(&mut self, file: &str) -> Result<bool> {
         let mut t = Test::new();
         t.open(file)?;
+        if self.tmpdir.is_empty() {
+            // whatever an earlier test left behind must not affect this one
+            self.tmp = TempDir::new()?;
+        }
         t.run(self)
     }
     /// run
-- 
2.43.0


From 1e699d6cc6a2bb0f313faa2df5de3a80ef35492b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:36 +0000
Subject: [PATCH 099/117] fix: sample panicked or ran out of memory on large
 numbers

---
 src/bin/cdx/sample_main.rs |  2 +-
 src/sampler.rs             | 18 ++++++++++--------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/bin/cdx/sample_main.rs b/src/bin/cdx/sample_main.rs
index 0e0eb8c..9a0991f 100644
--- a/src/bin/cdx/sample_main.rs
+++ b/src/bin/cdx/sample_main.rs
@@ -158,7 +158,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             while f.line_number() <= floop.to {
                 if f.line_number() == next {
                     w.write_all(f.curr_line().line())?;
-                    next += floop.by;
+                    next = next.saturating_add(floop.by);
                 }
                 if f.getline()? {
                     break;
diff --git a/src/sampler.rs b/src/sampler.rs
index 4255f03..1d9c4fb 100644
--- a/src/sampler.rs
+++ b/src/sampler.rs
@@ -11,7 +11,7 @@ use crate::prelude::*;
 pub struct Smooth {
     small: usize,       // goal size
     large: usize,       // maximum size
-    data: Vec<Vec<u8>>, // always length large
+    data: Vec<Vec<u8>>, // never more than large
     jump: usize,        // number of lines between entries
     pos: usize,         // number of lines between last and penultimate entries in data
     size: usize,        // current number of 'live' elements in data
@@ -22,22 +22,21 @@ impl Smooth {
     #[must_use]
     pub fn new(sz: usize) -> Self {
         let small = sz.max(2);
-        let large = (small * 2 - 2).max(small + 1);
-        let mut data = Vec::with_capacity(large);
-        for _ in 0..large {
-            data.push(Vec::new());
-        }
+        let large = small
+            .saturating_mul(2)
+            .saturating_sub(2)
+            .max(small.saturating_add(1));
         Self {
             small,
             large,
-            data,
+            data: Vec::new(),
             jump: 1,
             pos: 0,
             size: 0,
         }
     }
     fn verify(&self) -> bool {
-        debug_assert!(self.data.len() == self.large);
+        debug_assert!(self.data.len() <= self.large);
         debug_assert!(self.size <= self.large);
         debug_assert!(self.size <= self.large);
         //	debug_assert!(self.pos <= self.jump);
@@ -51,6 +50,9 @@ impl Smooth {
                 self.jump *= 2;
                 self.collapse();
             }
+            if self.size == self.data.len() {
+                self.data.push(Vec::new());
+            }
             self.data[self.size].clear();
             self.data[self.size].extend(x);
             self.size += 1;
-- 
2.43.0


From 490c40fde2bdc0812085ac282e687c937a9574c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:39 +0000
Subject: [PATCH 100/117] fix: uniq panicked aggregating files with unusual
 column names

---
 src/agg.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/agg.rs b/src/agg.rs
index 6d00312..e968a6d 100644
--- a/src/agg.rs
+++ b/src/agg.rs
@@ -668,14 +668,17 @@ impl LineAggList {
                 w.push(Box::new(x.clone()));
             }
         }
-        'outer: for (i, x) in head.iter().enumerate() {
+        'outer: for i in 0..head.len() {
             for y in &self.v {
                 if matches!(&y.out, AggType::Replace) && y.is_col(i) {
                     w.push(Box::new(y.clone()));
                     continue 'outer;
                 }
             }
-            w.push(Box::new(ColumnSingle::with_name(x).unwrap()));
+            // by number, because not everything found in a header is usable as a column spec
+            w.push(Box::new(
+                ColumnSingle::with_name(&(i + 1).to_string()).unwrap(),
+            ));
         }
         for x in &self.v {
             if let AggType::Append(_s) = &x.out {
-- 
2.43.0


From c69092393ad13feab70c3b6f92c88375726ad79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:41 +0000
Subject: [PATCH 101/117] fix: number formats with huge precisions panicked

---
 src/num.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/num.rs b/src/num.rs
index 8b93d53..27d34d1 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -157,6 +157,9 @@ impl NumFormat {
             Ok(Self::Power10)
         } else if let Some((a, b)) = spec.split_once('.') {
             let p = b.to_usize_whole(spec.as_bytes(), "Num Format")?;
+            if p > u16::MAX as usize {
+                return err!("Number format precision too large : '{}'", spec);
+            }
             if a.eq_ignore_ascii_case("plain") {
                 Ok(Self::Plain(Some(p)))
             } else if a.eq_ignore_ascii_case("short") {
-- 
2.43.0


From 2ec8418188821a3eb54987ce42d9d4163b842391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:43 +0000
Subject: [PATCH 102/117] fix: text formats with a delimiter other than ASCII
 panicked

---
 src/util.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index 065f047..89708f9 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -277,6 +277,9 @@ impl TextFileMode {
     }
     /// new from spec, with defaults
     pub fn new_with(spec: &str, dflt: &Self) -> Result<Self> {
+        if !spec.is_ascii() {
+            return err!("text-fmt spec must contain only ASCII characters : '{spec}'");
+        }
         let mut spec = spec;
         let mut head_mode = dflt.head_mode;
         let mut col_mode = dflt.col_mode;
-- 
2.43.0


From 23f04d552de44f31cc892de7e9bd2e821af36b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:46 +0000
Subject: [PATCH 103/117] fix: binsearch panicked on truncated header lines

---
 src/binsearch.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/binsearch.rs b/src/binsearch.rs
index 06beb0d..c1a2574 100644
--- a/src/binsearch.rs
+++ b/src/binsearch.rs
@@ -31,6 +31,9 @@ impl MemMap {
         let mut header_len = find_end(&map[..], 0);
         let mut header = StringLine::new();
         if is_cdx(&map[..]) {
+            if header_len < 6 {
+                return err!("File {} has an oddly truncated header line", fname);
+            }
             delim = map[4];
             header.line = std::str::from_utf8(&map[0..header_len])?.to_string();
         } else {
-- 
2.43.0


From 97e5873d0eb2ad7bbb97486014a82849adf2ca5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:51 +0000
Subject: [PATCH 104/117] fix: binsearch with a huge context never ended

---
 src/bin/cdx/binsearch_main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bin/cdx/binsearch_main.rs b/src/bin/cdx/binsearch_main.rs
index 6d250c1..a8cf7c7 100644
--- a/src/bin/cdx/binsearch_main.rs
+++ b/src/bin/cdx/binsearch_main.rs
@@ -167,6 +167,9 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             start = find_prev(m.get(), start);
         }
         for _x in 0..after {
+            if stop >= m.get().len() {
+                break;
+            }
             stop = find_end(m.get(), stop);
         }
         if filename.is_none() {
-- 
2.43.0


From f59cba898068bf4cfe791c933a5c5610cd0ebd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:53 +0000
Subject: [PATCH 105/117] fix: line numbers starting near the largest integer
 panicked

---
 src/column.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/column.rs b/src/column.rs
index d109fa4..f18645c 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -664,7 +664,7 @@ impl ColumnFun for ColumnWhole {
 /// write an increasing count, e.g. cat -n
 #[derive(Debug, Default, Clone)]
 pub struct ColumnCount {
-    num: isize,
+    num: i128,
     name: String,
 }
 
@@ -673,7 +673,7 @@ impl ColumnCount {
     #[must_use]
     pub fn new(num: isize, name: &str) -> Self {
         Self {
-            num,
+            num: num as i128,
             name: name.to_string(),
         }
     }
-- 
2.43.0


From 8637fc6507d448a57faf448cda7604c88438fbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:34 +0000
Subject: [PATCH 106/117] fix: sort panicked when no temporary directory could
 be made, even if it needed none

---
 src/sort.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/sort.rs b/src/sort.rs
index 77ab5ab..44a0fec 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -321,7 +321,8 @@ pub struct Sorter {
     config: SortConfig,
     ptrs: Vec<Item>,
     cmp: LineCompList,
-    tmp: TempDir,
+    // created when first needed
+    tmp: Option<TempDir>,
     tmp_files: Vec<String>,
     unique: bool,
     checker: HeaderChecker,
@@ -362,7 +363,7 @@ impl Sorter {
             ptrs: Vec::with_capacity(ptr_size),
             data: Vec::with_capacity(data_size),
             cmp,
-            tmp: TempDir::new().unwrap(), // FIXME - new should return Result
+            tmp: None,
             tmp_files: Vec::new(),
             unique,
             checker: HeaderChecker::new(),
@@ -475,7 +476,10 @@ impl Sorter {
 
     /// write ptrs to tmp file
     fn write_tmp(&mut self) -> Result<()> {
-        let mut tmp_file = self.tmp.path().to_owned();
+        if self.tmp.is_none() {
+            self.tmp = Some(TempDir::new()?);
+        }
+        let mut tmp_file = self.tmp.as_ref().unwrap().path().to_owned();
         tmp_file.push(format!("sort_{}.txt", self.tmp_files.len()));
         let tmp_name = tmp_file.to_str().unwrap();
         let mut new_w = get_writer(tmp_name)?;
@@ -517,18 +521,25 @@ impl Sorter {
             }
         } else {
             self.write_tmp()?;
-            self.config
-                .merge_t(&self.tmp_files, &mut self.cmp, w, self.unique, &self.tmp)?;
+            self.config.merge_t(
+                &self.tmp_files,
+                &mut self.cmp,
+                w,
+                self.unique,
+                self.tmp.as_ref().unwrap(),
+            )?;
         }
         Ok(())
     }
 
     #[allow(dead_code)]
     fn no_del(self) {
-        eprintln!(
-            "Not deleting {}",
-            self.tmp.into_path().into_os_string().to_string_lossy()
-        );
+        if let Some(tmp) = self.tmp {
+            eprintln!(
+                "Not deleting {}",
+                tmp.into_path().into_os_string().to_string_lossy()
+            );
+        }
     }
     /// add another file to be sorted
     pub fn add_file<W: Write>(&mut self, fname: &str, w: &mut W) -> Result<()> {
-- 
2.43.0


From ac343c1ca31ee55651901223dd828d06f78174ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:55 +0000
Subject: [PATCH 107/117] fix: a Reader opened on a second file showed lines of
 the first

---
 src/util.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index 89708f9..5bdd23b 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1592,6 +1592,12 @@ impl Reader {
     }
     /// read the header, and remember where we are
     fn start(&mut self, name: &str) -> Result<()> {
+        // nothing of any previous file may remain
+        self.cont = InfileContext::new(&self.cont.text);
+        self.curr = 0;
+        for x in &mut self.lines {
+            x.clear();
+        }
         self.cont.read_header(&mut *self.file, &mut self.lines[0])?;
         self.loc.name = name.to_string();
         self.loc.line = 1;
-- 
2.43.0


From f625a4cee761cf89f4d6227a2370778e20d93b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:59 +0000
Subject: [PATCH 108/117] fix: header modes strip, none and require did not do
 what they say

---
 src/util.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 5bdd23b..4f8d689 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1971,7 +1971,7 @@ impl HeaderChecker {
         } else {
             self.check(b"fake", fname)?;
         }
-        Ok(file.has_header() && first)
+        Ok(file.has_header() && first && self.mode != HeaderMode::Strip)
     }
 
     /// call for the first line of every input file
@@ -2016,6 +2016,14 @@ impl HeaderChecker {
                     if !cdx {
                         return err!("No CDX Header found in {} where one was required.", fname);
                     }
+                    if first_line != self.head {
+                        return err!(
+                            "Header Mismatch. First was {}, File {} has {}",
+                            String::from_utf8_lossy(&self.head),
+                            fname,
+                            String::from_utf8_lossy(first_line)
+                        );
+                    }
                     Ok(false)
                 }
                 HeaderMode::Strip => Ok(!cdx),
@@ -2030,7 +2038,7 @@ impl HeaderChecker {
             }
         } else {
             self.saw_one = true;
-            if cdx && self.mode == HeaderMode::Strip {
+            if cdx && self.mode == HeaderMode::None {
                 return err!("Found CDX header in {} where one was forbidden", fname);
             } else if !cdx && self.mode == HeaderMode::Require {
                 return err!("Found no CDX header in {} where one was required", fname);
-- 
2.43.0


From fb28b625bd4b4acc8411b8de9ac5ec0502ef295a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:47 +0000
Subject: [PATCH 109/117] fix: a spilled sort run starting with a gzip
 signature was taken for compressed data

---
 src/sort.rs |  7 ++++++-
 src/util.rs | 20 +++++++++++++++++++-
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/sort.rs b/src/sort.rs
index 44a0fec..6fcbdfd 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -62,7 +62,12 @@ impl SortConfig {
             if self.raw_merge {
                 text.head_mode = HeadMode::No;
             }
-            let mut f = Reader::new_open(x, &text)?;
+            // temporary files are never compressed, even if the data looks like it
+            let mut f = if self.raw_merge {
+                Reader::new_open_plain(x, &text)?
+            } else {
+                Reader::new_open(x, &text)?
+            };
             f.do_split(cmp.need_split());
             if !f.is_empty() && !self.raw_merge {
                 if checker.check_file(&f, x)? {
diff --git a/src/util.rs b/src/util.rs
index 4f8d689..de8b7d2 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1267,6 +1267,12 @@ pub fn get_reader(name: &str) -> Result<Infile> {
     Ok(Infile::new(outer, name))
 }
 
+/// Make an Infile from a file name, taking the contents as they are, compressed or not
+pub fn get_plain_reader(name: &str) -> Result<Infile> {
+    let inner: Box<dyn Read> = Box::new(fs::File::open(name)?);
+    Ok(Infile::new(io::BufReader::new(inner), name))
+}
+
 #[derive(Debug, Default)]
 /// shared context for any input file type
 pub struct InfileContext {
@@ -1545,10 +1551,22 @@ impl Reader {
     }
     /// make a new Reader
     pub fn new_open_with(name: &str, lookback: usize, text_in: &TextFileMode) -> Result<Self> {
+        Self::new_start(get_reader(name)?, name, lookback, text_in)
+    }
+    /// make a new Reader for a file whose contents are to be taken as they are, compressed or not
+    pub fn new_open_plain(name: &str, text_in: &TextFileMode) -> Result<Self> {
+        Self::new_start(get_plain_reader(name)?, name, 1, text_in)
+    }
+    fn new_start(
+        file: Infile,
+        name: &str,
+        lookback: usize,
+        text_in: &TextFileMode,
+    ) -> Result<Self> {
         let mut lines: Vec<TextLine> = Vec::new();
         lines.resize(lookback + 1, TextLine::new());
         let mut tmp = Self {
-            file: get_reader(name)?,
+            file,
             lines,
             cont: InfileContext::new(text_in),
             do_split: true,
-- 
2.43.0


From 49444be9c32de77f870b922cfd93abdd4c08d916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:47 +0000
Subject: [PATCH 110/117] fix: malformed expressions such as '(1)(2)+', '3()'
 and '!5' were given a value

---
 src/shunting_yard.rs | 10 ++++++++++
 src/tok2.rs          |  3 ++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/shunting_yard.rs b/src/shunting_yard.rs
index 4922004..0adadd7 100644
--- a/src/shunting_yard.rs
+++ b/src/shunting_yard.rs
@@ -9,6 +9,7 @@
 use self::Associativity::{Left, Right, NA};
 use crate::prelude::*;
 use crate::tok2::BinaryOp::{Div, Minus, Plus, Pow, Rem, Times, EQ, GE, GT, LE, LT, NE};
+use crate::tok2::can_binary;
 use crate::tok2::Token;
 use crate::tok2::Token::{Binary, Comma, Func, LParen, Number, RParen, Unary, Var};
 use crate::tok2::UnaryOp;
@@ -48,6 +49,15 @@ pub(crate) fn to_rpn(input: &[Token]) -> Result<Vec<Token>> {
 
     for (index, token) in input.iter().enumerate() {
         let token = token.clone();
+        // these follow an operand, and nothing else does
+        let after = matches!(token, Binary(_) | Unary(UnaryOp::Fact) | RParen | Comma);
+        let have = index > 0 && can_binary(&input[index - 1]);
+        if after && !have {
+            return err!("Not Enough Operands");
+        }
+        if have && !after {
+            return err!("Too Many Operands");
+        }
         match token {
             Number(_) | Var(_) => output.push(token),
             Unary(_) => stack.push((index, token)),
diff --git a/src/tok2.rs b/src/tok2.rs
index 4dc5790..788ad97 100644
--- a/src/tok2.rs
+++ b/src/tok2.rs
@@ -59,7 +59,8 @@ impl Token {
     }
 }
 
-const fn can_binary(tok: &Token) -> bool {
+/// can this token be the end of an operand?
+pub(crate) const fn can_binary(tok: &Token) -> bool {
     use Token::{Binary, Comma, Func, LParen, Number, RParen, Unary, Var};
     match tok {
         Binary(_) => false,
-- 
2.43.0


From cf20b70bb5f9942608ed02a01b24df1480342aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:25 +0000
Subject: [PATCH 111/117] fix: the factorial of NaN was 1

---
 src/expr.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/expr.rs b/src/expr.rs
index 724b378..5449cb0 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -641,6 +641,9 @@ impl Expr {
 }
 
 fn factorial(x: f64) -> f64 {
+    if x.is_nan() {
+        return x;
+    }
     if x < 0.0 {
         return 0.0;
     }
-- 
2.43.0


From 71a3ffdf01a43159c7689edf50604e5dcbd058d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:55 +0000
Subject: [PATCH 112/117] fix: text without any digit, such as '-' or 'k', was
 accepted as the float 0

---
 src/text.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index 7939429..4c42f5f 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -694,10 +694,13 @@ impl Text for [u8] {
             }
         }
         // Accumulating digit by digit loses accuracy
-        let mut ret: f64 = std::str::from_utf8(&self[..self.len() - curr.len()])
+        let mut ret: f64 = match std::str::from_utf8(&self[..self.len() - curr.len()])
             .ok()
             .and_then(|x| x.parse().ok())
-            .unwrap_or(0.0);
+        {
+            Some(x) => x,
+            None => return (0.0, self),
+        };
         if !curr.is_empty() {
             if let Some(mul) = suffix_valf(curr[0]) {
                 curr = &curr[1..];
-- 
2.43.0


From d2c45445c84ff596a302fbad3a52a109578e349f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:58 +0000
Subject: [PATCH 113/117] fix: case insensitive comparison of strings depended
 on their length in bytes

---
 src/text.rs | 36 ++++++------------------------------
 1 file changed, 6 insertions(+), 30 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index 4c42f5f..86512c9 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -382,16 +382,9 @@ impl Text for str {
     }
 
     fn equal_insens(&self, other: &Self) -> bool {
-        for ch in self
-            .chars()
+        self.chars()
             .flat_map(char::to_lowercase)
-            .zip(other.chars().flat_map(char::to_lowercase))
-        {
-            if ch.0 != ch.1 {
-                return false;
-            }
-        }
-        self.len() == other.len()
+            .eq(other.chars().flat_map(char::to_lowercase))
     }
 
     fn equal_insens_quick(&self, other: &Self) -> bool {
@@ -399,31 +392,14 @@ impl Text for str {
     }
 
     fn cmp_insens(&self, other: &Self) -> Ordering {
-        for ch in self
-            .chars()
+        self.chars()
             .flat_map(char::to_lowercase)
-            .zip(other.chars().flat_map(char::to_lowercase))
-        {
-            if ch.0 < ch.1 {
-                return Ordering::Less;
-            }
-            if ch.0 > ch.1 {
-                return Ordering::Greater;
-            }
-        }
-        self.len().cmp(&other.len())
+            .cmp(other.chars().flat_map(char::to_lowercase))
     }
 
     fn cmp_insens_quick(&self, other: &Self) -> Ordering {
-        for ch in self.chars().zip(other.chars().flat_map(char::to_lowercase)) {
-            if ch.0 < ch.1 {
-                return Ordering::Less;
-            }
-            if ch.0 > ch.1 {
-                return Ordering::Greater;
-            }
-        }
-        self.len().cmp(&other.len())
+        self.chars()
+            .cmp(other.chars().flat_map(char::to_lowercase))
     }
     fn assign_lower(&self, dst: &mut String) {
         dst.clear();
-- 
2.43.0


From 645d35166c82834712dc6789440125180d851d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:04 +0000
Subject: [PATCH 114/117] fix: ColumnSet::write panicked if its first column
 was missing from the line

---
 src/column.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/column.rs b/src/column.rs
index f18645c..ff1cecb 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -1066,7 +1066,15 @@ impl ColumnSet {
         match iter.next() {
             None => {}
             Some(first) => {
-                w.write_all(cols[first.num].as_bytes())?;
+                if first.num < cols.len() {
+                    w.write_all(cols[first.num].as_bytes())?;
+                } else {
+                    return err!(
+                        "Line has only {} columns, but column {} was requested.",
+                        cols.len(),
+                        first.num + 1
+                    );
+                }
 
                 for x in iter {
                     w.write_all(delim.as_bytes())?;
-- 
2.43.0


From 63722d6488c59d9f64184b79990fa9abfe723cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:08 +0000
Subject: [PATCH 115/117] fix: ScopedValues make_ints and make_floats panicked
 for any columns at all

---
 src/column.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/column.rs b/src/column.rs
index ff1cecb..be999ca 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -475,9 +475,10 @@ impl ScopedValues {
     pub fn make_ints(&mut self) -> Result<()> {
         self.ints.clear();
         for i in 0..self.strings.len() {
-            self.ints[i] = self
+            let val = self
                 .get(i)
                 .to_isize_whole(self.get(i).as_bytes(), "number")?;
+            self.ints.push(val);
         }
         Ok(())
     }
@@ -485,7 +486,8 @@ impl ScopedValues {
     pub fn make_floats(&mut self) -> Result<()> {
         self.floats.clear();
         for i in 0..self.strings.len() {
-            self.floats[i] = self.get(i).to_f64_whole(self.get(i).as_bytes(), "float")?;
+            let val = self.get(i).to_f64_whole(self.get(i).as_bytes(), "float")?;
+            self.floats.push(val);
         }
         Ok(())
     }
-- 
2.43.0


From 3b298177fb919370e83e5fee6708316b60d3cbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:51 +0000
Subject: [PATCH 116/117] fix: verbose matching reported failure when it
 matched, and nothing when it did not

---
 src/matcher.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index 9a46454..35c02d6 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -80,7 +80,7 @@ pub trait Match {
     /// smatch, but print to stderr if fail
     fn verbose_smatch(&self, buff: &str, negate: bool) -> bool {
         let res = self.smatch(buff);
-        if res != negate {
+        if res == negate {
             eprintln!(
                 "Failed to {}match {} against {}",
                 not_str(negate),
@@ -93,7 +93,7 @@ pub trait Match {
     /// umatch, but print to stderr if fail
     fn verbose_umatch(&self, buff: &[u8], negate: bool) -> bool {
         let res = self.umatch(buff);
-        if res != negate {
+        if res == negate {
             eprintln!(
                 "Failed to {}match {} against {}",
                 not_str(negate),
@@ -1450,7 +1450,7 @@ impl MatcherList {
     #[must_use]
     pub fn verbose_smatch(&self, buff: &str, negate: bool) -> bool {
         let res = self.smatch(buff);
-        if res != negate {
+        if res == negate {
             eprintln!(
                 "Failed to {}match {} against {}",
                 not_str(negate),
-- 
2.43.0


From bbf4231d5cecb479c762165b911d2c7c42fc0a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:57 +0000
Subject: [PATCH 117/117] fix: a copy of a Matcher matched everything

---
 src/matcher.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index 35c02d6..d46fc58 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -39,6 +39,7 @@ use memchr::memmem::find;
 use regex::Regex;
 use std::collections::HashSet;
 use std::fmt::Write;
+use std::rc::Rc;
 use std::sync::Mutex;
 
 /// Match against [`TextLine`]
@@ -1497,7 +1498,7 @@ pub struct Matcher {
     /// for multi-matches, combine with AND or OR
     multi_mode: Option<Combiner>,
     /// the matching object
-    matcher: Box<dyn Match>,
+    matcher: Rc<dyn Match>,
 }
 
 impl fmt::Display for Matcher {
@@ -1525,7 +1526,7 @@ impl Default for Matcher {
             trim: false,
             empty: false,
             multi_mode: None,
-            matcher: Box::new(YesMatch {}),
+            matcher: Rc::new(YesMatch {}),
         }
     }
 }
@@ -1540,7 +1541,7 @@ impl Clone for Matcher {
             trim: self.trim,
             empty: self.empty,
             multi_mode: self.multi_mode,
-            matcher: Box::new(YesMatch {}),
+            matcher: self.matcher.clone(),
         }
     }
 }
@@ -1894,7 +1895,7 @@ impl MatchMaker {
             m.ctype = Self::resolve_alias(m.ctype);
         }
         if let Some(mm) = m.multi_mode {
-            let mut outer = Box::new(MatcherList::new_with(mm));
+            let mut outer = MatcherList::new_with(mm);
             let mut pattern = pattern;
             if pattern.is_empty() {
                 return err!("Pattern for {} must start with a delimiter", matcher);
@@ -1908,7 +1909,7 @@ impl MatchMaker {
                 Self::remake(&mut m2, x)?;
                 outer.push_obj(m2);
             }
-            m.matcher = outer;
+            m.matcher = Rc::new(outer);
         } else {
             Self::remake(&mut m, pattern)?;
         }
@@ -1976,7 +1977,7 @@ impl MatchMaker {
         Self::init()?;
         for x in &*MATCH_MAKER.lock().unwrap() {
             if x.tag == m.ctype {
-                m.matcher = (x.maker)(m, pattern)?;
+                m.matcher = (x.maker)(m, pattern)?.into();
                 return Ok(());
             }
         }
-- 
2.43.0

