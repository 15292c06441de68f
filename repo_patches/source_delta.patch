From 424b33d2198de13c0f923a19b6e5335ad993e702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:29 +0000
Subject: [PATCH 01/57] fix: return an error from del_states for a state that
 does not exist

---
 rustfst/src/fst_impls/vector_fst/mutable_fst.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rustfst/src/fst_impls/vector_fst/mutable_fst.rs b/rustfst/src/fst_impls/vector_fst/mutable_fst.rs
index b7eb7d3..731a0bb 100644
--- a/rustfst/src/fst_impls/vector_fst/mutable_fst.rs
+++ b/rustfst/src/fst_impls/vector_fst/mutable_fst.rs
@@ -133,7 +133,9 @@ impl<W: Semiring> MutableFst<W> for VectorFst<W> {
         let mut new_id = vec![0_i32; self.states.len()];
 
         for s in dstates {
-            new_id[s as usize] = -1;
+            *new_id
+                .get_mut(s as usize)
+                .ok_or_else(|| format_err!("State id {:?} doesn't exist", s))? = -1;
         }
 
         let mut nstates = 0_usize;
-- 
2.43.0


From 790438e2f535ff1f67b02d059d136cb8c85e48e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:01 +0000
Subject: [PATCH 02/57] fix: approx_equal returned false for two equal infinite
 weights

---
 rustfst/src/semirings/utils_float.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rustfst/src/semirings/utils_float.rs b/rustfst/src/semirings/utils_float.rs
index 0fc9f14..4846f83 100644
--- a/rustfst/src/semirings/utils_float.rs
+++ b/rustfst/src/semirings/utils_float.rs
@@ -1,3 +1,4 @@
 pub(crate) fn float_approx_equal(w1: f32, w2: f32, delta: f32) -> bool {
-    (w1 - w2).abs() <= delta
+    // The first test is needed for infinite values, whose difference is NaN.
+    w1 == w2 || (w1 - w2).abs() <= delta
 }
-- 
2.43.0


From 4430791ba7c038b78a3a19688721771e292f5cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:21 +0000
Subject: [PATCH 03/57] fix: implement reverse_back for ProbabilityWeight

---
 rustfst/src/semirings/probability_weight.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst/src/semirings/probability_weight.rs b/rustfst/src/semirings/probability_weight.rs
index 0591345..5da8a8a 100644
--- a/rustfst/src/semirings/probability_weight.rs
+++ b/rustfst/src/semirings/probability_weight.rs
@@ -84,7 +84,7 @@ impl Semiring for ProbabilityWeight {
 
 impl ReverseBack<ProbabilityWeight> for ProbabilityWeight {
     fn reverse_back(&self) -> Result<ProbabilityWeight> {
-        unimplemented!()
+        Ok(*self)
     }
 }
 
-- 
2.43.0


From 7f6c5f55d057af8b916c3692876ca0232142236e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:39 +0000
Subject: [PATCH 04/57] fix: closure of a log weight is the sum of the
 geometric series

---
 rustfst/src/semirings/log_weight.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rustfst/src/semirings/log_weight.rs b/rustfst/src/semirings/log_weight.rs
index 09ee25d..11ec77b 100644
--- a/rustfst/src/semirings/log_weight.rs
+++ b/rustfst/src/semirings/log_weight.rs
@@ -124,8 +124,9 @@ impl CompleteSemiring for LogWeight {}
 
 impl StarSemiring for LogWeight {
     fn closure(&self) -> Self {
-        if self.value.0 >= 0.0 && self.value.0 < 1.0 {
-            Self::new((1.0 - self.value.0).ln())
+        if self.value.0 > 0.0 {
+            // Sum of the geometric series of ratio exp(-x), which converges for x > 0.
+            Self::new((-(-self.value.0).exp()).ln_1p())
         } else {
             Self::new(f32::NEG_INFINITY)
         }
-- 
2.43.0


From e55d3bcc86ff343b7de7bf555899a53a6386a163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:56 +0000
Subject: [PATCH 05/57] fix: closure of the tropical zero is one

---
 rustfst/src/semirings/tropical_weight.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst/src/semirings/tropical_weight.rs b/rustfst/src/semirings/tropical_weight.rs
index 13663fa..bfbc062 100644
--- a/rustfst/src/semirings/tropical_weight.rs
+++ b/rustfst/src/semirings/tropical_weight.rs
@@ -116,7 +116,7 @@ impl CompleteSemiring for TropicalWeight {}
 
 impl StarSemiring for TropicalWeight {
     fn closure(&self) -> Self {
-        if self.value.is_sign_positive() && self.value.is_finite() {
+        if self.value.0 >= 0.0 {
             Self::new(0.0)
         } else {
             Self::new(f32::NEG_INFINITY)
-- 
2.43.0


From 6d1a2f28557c4456c5f038af8527574cfebf86d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:22 +0000
Subject: [PATCH 06/57] fix: to_trs_vec on a ConstFst returned the transitions
 of every state

---
 rustfst/src/trs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst/src/trs.rs b/rustfst/src/trs.rs
index b20ec1f..d1f8247 100644
--- a/rustfst/src/trs.rs
+++ b/rustfst/src/trs.rs
@@ -77,7 +77,7 @@ impl<W: Semiring> Trs<W> for TrsConst<W> {
     }
 
     fn to_trs_vec(&self) -> TrsVec<W> {
-        TrsVec(Arc::clone(&self.trs))
+        TrsVec(Arc::new(self.trs().to_vec()))
     }
 
     // Doesn't clone the data, only the Arc
-- 
2.43.0


From 15f67a8577ff9c26e1d45e4b00ab92eb20c09aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:42 +0000
Subject: [PATCH 07/57] fix: reading a binary string that is not UTF-8 is an
 error, not a panic

---
 rustfst/src/parsers/bin_fst/fst_header.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/rustfst/src/parsers/bin_fst/fst_header.rs b/rustfst/src/parsers/bin_fst/fst_header.rs
index 7a9ddae..1ca58e8 100644
--- a/rustfst/src/parsers/bin_fst/fst_header.rs
+++ b/rustfst/src/parsers/bin_fst/fst_header.rs
@@ -146,14 +146,8 @@ impl OpenFstString {
     }
     pub(crate) fn parse(i: &[u8]) -> IResult<&[u8], OpenFstString, NomCustomError<&[u8]>> {
         let (i, n) = parse_bin_i32(i)?;
-        let (i, s) = take(n as usize)(i)?;
-        Ok((
-            i,
-            OpenFstString {
-                n,
-                s: String::from_utf8(s.to_vec()).unwrap(),
-            },
-        ))
+        let (i, s) = map_res(take(n as usize), |s: &[u8]| String::from_utf8(s.to_vec()))(i)?;
+        Ok((i, OpenFstString { n, s }))
     }
 
     pub(crate) fn write<W: Write>(&self, file: &mut W) -> Result<()> {
-- 
2.43.0


From be41f6d2ae6376b4ea922f40e7b8028cd40c9f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:03 +0000
Subject: [PATCH 08/57] fix: refuse binary FSTs that refer to states or
 transitions that do not exist

---
 .../fst_impls/const_fst/serializable_fst.rs   | 19 ++++++++++++---
 .../src/fst_impls/vector_fst/parse_const.rs   | 24 +++++++++++--------
 .../fst_impls/vector_fst/serializable_fst.rs  | 10 ++++++--
 rustfst/src/parsers/bin_fst/utils_parsing.rs  | 20 ++++++++++++++++
 4 files changed, 58 insertions(+), 15 deletions(-)

diff --git a/rustfst/src/fst_impls/const_fst/serializable_fst.rs b/rustfst/src/fst_impls/const_fst/serializable_fst.rs
index da7fde4..552f227 100644
--- a/rustfst/src/fst_impls/const_fst/serializable_fst.rs
+++ b/rustfst/src/fst_impls/const_fst/serializable_fst.rs
@@ -4,6 +4,7 @@ use std::sync::Arc;
 use anyhow::Result;
 use itertools::Itertools;
 use nom::bytes::complete::take;
+use nom::error::{ErrorKind, ParseError};
 use nom::multi::count;
 use nom::IResult;
 
@@ -16,7 +17,7 @@ use crate::fst_properties::FstProperties;
 use crate::fst_traits::{ExpandedFst, Fst, SerializableFst};
 use crate::parsers::bin_fst::fst_header::{FstFlags, FstHeader, OpenFstString, FST_MAGIC_NUMBER};
 use crate::parsers::bin_fst::utils_parsing::{
-    parse_bin_fst_tr, parse_final_weight, parse_start_state,
+    check_parsed_states, parse_bin_fst_tr, parse_final_weight, parse_start_state,
 };
 use crate::parsers::nom_utils::NomCustomError;
 use crate::parsers::parse_bin_i32;
@@ -214,14 +215,26 @@ fn parse_const_fst<W: SerializableSemiring>(
     if aligned && hdr.num_states > 0 && pos % CONST_ARCH_ALIGNMENT > 0 {
         i = take(CONST_ARCH_ALIGNMENT - (pos % CONST_ARCH_ALIGNMENT))(i)?.0;
     }
-    let (mut i, const_states) = count(parse_const_state, hdr.num_states as usize)(i)?;
+    let (mut i, mut const_states) = count(parse_const_state, hdr.num_states as usize)(i)?;
     let pos = stream_len - i.len();
 
     // Align input
     if aligned && hdr.num_trs > 0 && pos % CONST_ARCH_ALIGNMENT > 0 {
         i = take(CONST_ARCH_ALIGNMENT - (pos % CONST_ARCH_ALIGNMENT))(i)?.0;
     }
-    let (i, const_trs) = count(parse_bin_fst_tr, hdr.num_trs as usize)(i)?;
+    let (i, const_trs) = count(parse_bin_fst_tr::<W>, hdr.num_trs as usize)(i)?;
+    check_parsed_states(i, hdr.start, const_states.len(), const_trs.iter())?;
+    for state in const_states.iter_mut() {
+        let trs = state
+            .pos
+            .checked_add(state.ntrs)
+            .and_then(|end| const_trs.get(state.pos..end))
+            .ok_or_else(|| {
+                nom::Err::Error(NomCustomError::from_error_kind(i, ErrorKind::Verify))
+            })?;
+        state.niepsilons = trs.iter().filter(|t| t.ilabel == EPS_LABEL).count();
+        state.noepsilons = trs.iter().filter(|t| t.olabel == EPS_LABEL).count();
+    }
 
     Ok((
         i,
diff --git a/rustfst/src/fst_impls/vector_fst/parse_const.rs b/rustfst/src/fst_impls/vector_fst/parse_const.rs
index e5ca2e9..2089237 100644
--- a/rustfst/src/fst_impls/vector_fst/parse_const.rs
+++ b/rustfst/src/fst_impls/vector_fst/parse_const.rs
@@ -17,11 +17,11 @@ use crate::fst_properties::FstProperties;
 use crate::fst_traits::SerializableFst;
 use crate::parsers::bin_fst::fst_header::FstHeader;
 use crate::parsers::bin_fst::utils_parsing::{
-    parse_bin_fst_tr, parse_final_weight, parse_start_state,
+    check_parsed_states, parse_bin_fst_tr, parse_final_weight, parse_start_state,
 };
 use crate::parsers::nom_utils::NomCustomError;
 use crate::semirings::SerializableSemiring;
-use crate::{Tr, TrsVec};
+use crate::{Tr, Trs, TrsVec, EPS_LABEL};
 
 impl<W: SerializableSemiring> VectorFst<W> {
     /// Load a VectorFst directly from a ConstFst file.
@@ -43,8 +43,6 @@ impl<W: SerializableSemiring> VectorFst<W> {
 struct TempState<W> {
     final_weight: Option<W>,
     ntrs: usize,
-    niepsilons: usize,
-    noepsilons: usize,
 }
 
 fn parse_const_state<W: SerializableSemiring>(
@@ -53,16 +51,14 @@ fn parse_const_state<W: SerializableSemiring>(
     let (i, final_weight) = W::parse_binary(i)?;
     let (i, _pos) = le_i32(i)?;
     let (i, ntrs) = le_i32(i)?;
-    let (i, niepsilons) = le_i32(i)?;
-    let (i, noepsilons) = le_i32(i)?;
+    let (i, _niepsilons) = le_i32(i)?;
+    let (i, _noepsilons) = le_i32(i)?;
 
     Ok((
         i,
         TempState {
             final_weight: parse_final_weight(final_weight),
             ntrs: ntrs as usize,
-            niepsilons: niepsilons as usize,
-            noepsilons: noepsilons as usize,
         },
     ))
 }
@@ -98,13 +94,21 @@ fn parse_const_fst<W: SerializableSemiring>(
     for temp_state in temp_states {
         let (j, trs) = count(parse_bin_fst_tr, temp_state.ntrs)(i)?;
         i = j;
+        let niepsilons = trs.iter().filter(|t| t.ilabel == EPS_LABEL).count();
+        let noepsilons = trs.iter().filter(|t| t.olabel == EPS_LABEL).count();
         vector_states.push(VectorFstState {
             final_weight: temp_state.final_weight,
             trs: TrsVec(Arc::new(trs)),
-            niepsilons: temp_state.niepsilons,
-            noepsilons: temp_state.noepsilons,
+            niepsilons,
+            noepsilons,
         });
     }
+    check_parsed_states(
+        i,
+        hdr.start,
+        vector_states.len(),
+        vector_states.iter().flat_map(|s| s.trs.trs()),
+    )?;
 
     Ok((
         i,
diff --git a/rustfst/src/fst_impls/vector_fst/serializable_fst.rs b/rustfst/src/fst_impls/vector_fst/serializable_fst.rs
index 1ca8e1f..28ecf2b 100644
--- a/rustfst/src/fst_impls/vector_fst/serializable_fst.rs
+++ b/rustfst/src/fst_impls/vector_fst/serializable_fst.rs
@@ -12,7 +12,7 @@ use crate::fst_properties::FstProperties;
 use crate::fst_traits::{CoreFst, ExpandedFst, Fst, MutableFst, SerializableFst};
 use crate::parsers::bin_fst::fst_header::{FstFlags, FstHeader, OpenFstString, FST_MAGIC_NUMBER};
 use crate::parsers::bin_fst::utils_parsing::{
-    parse_bin_fst_tr, parse_final_weight, parse_start_state,
+    check_parsed_states, parse_bin_fst_tr, parse_final_weight, parse_start_state,
 };
 use crate::parsers::bin_fst::utils_serialization::write_bin_fst_tr;
 use crate::parsers::nom_utils::NomCustomError;
@@ -154,7 +154,13 @@ fn parse_vector_fst<W: SerializableSemiring>(
         VectorFst::<W>::fst_type(),
         Tr::<W>::tr_type(),
     )?;
-    let (i, states) = count(parse_vector_fst_state, header.num_states as usize)(i)?;
+    let (i, states) = count(parse_vector_fst_state::<W>, header.num_states as usize)(i)?;
+    check_parsed_states(
+        i,
+        header.start,
+        states.len(),
+        states.iter().flat_map(|s| s.trs.trs()),
+    )?;
     Ok((
         i,
         VectorFst {
diff --git a/rustfst/src/parsers/bin_fst/utils_parsing.rs b/rustfst/src/parsers/bin_fst/utils_parsing.rs
index a0c7d76..34b1452 100644
--- a/rustfst/src/parsers/bin_fst/utils_parsing.rs
+++ b/rustfst/src/parsers/bin_fst/utils_parsing.rs
@@ -1,3 +1,4 @@
+use nom::error::{ErrorKind, ParseError};
 use nom::number::complete::le_i32;
 use nom::IResult;
 
@@ -25,6 +26,25 @@ pub(crate) fn parse_final_weight<W: SerializableSemiring>(weight: W) -> Option<W
     }
 }
 
+/// Returns an error if the start state or the destination of a transition is not a state of the
+/// parsed FST.
+pub(crate) fn check_parsed_states<'a, 'b, W: SerializableSemiring>(
+    i: &'a [u8],
+    start: i64,
+    num_states: usize,
+    mut trs: impl Iterator<Item = &'b Tr<W>>,
+) -> Result<(), nom::Err<NomCustomError<&'a [u8]>>> {
+    let valid_start = start == -1 || (start >= 0 && (start as u64) < num_states as u64);
+    if valid_start && trs.all(|tr| (tr.nextstate as usize) < num_states) {
+        Ok(())
+    } else {
+        Err(nom::Err::Error(NomCustomError::from_error_kind(
+            i,
+            ErrorKind::Verify,
+        )))
+    }
+}
+
 pub(crate) fn parse_bin_fst_tr<W: SerializableSemiring>(
     i: &[u8],
 ) -> IResult<&[u8], Tr<W>, NomCustomError<&[u8]>> {
-- 
2.43.0


From ef5ce64783670438849cade6a55da4186eef7160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:21 +0000
Subject: [PATCH 09/57] fix: malformed lines in a text FST are an error instead
 of ending the file

---
 rustfst/src/parsers/text_fst/nom_parser.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rustfst/src/parsers/text_fst/nom_parser.rs b/rustfst/src/parsers/text_fst/nom_parser.rs
index ac58e23..21c2f66 100644
--- a/rustfst/src/parsers/text_fst/nom_parser.rs
+++ b/rustfst/src/parsers/text_fst/nom_parser.rs
@@ -1,9 +1,9 @@
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::character::complete::tab;
-use nom::combinator::opt;
+use nom::character::complete::{multispace0, tab};
+use nom::combinator::{all_consuming, opt};
 use nom::multi::separated_list0;
-use nom::sequence::preceded;
+use nom::sequence::{preceded, terminated};
 use nom::IResult;
 
 use crate::parsers::nom_utils::num;
@@ -54,5 +54,9 @@ fn row_parsed<W: SerializableSemiring>(i: &str) -> IResult<&str, RowParsed<W>> {
 }
 
 pub fn vec_rows_parsed<W: SerializableSemiring>(i: &str) -> IResult<&str, Vec<RowParsed<W>>> {
-    separated_list0(tag("\n"), row_parsed)(i)
+    // Nothing but white space may follow the last row.
+    all_consuming(terminated(
+        separated_list0(tag("\n"), row_parsed),
+        multispace0,
+    ))(i)
 }
-- 
2.43.0


From 6a763f03de9e9acb74e69d00f5034c0c189c2ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:41 +0000
Subject: [PATCH 10/57] fix: text symbol tables lost rows after a malformed
 line or a missing final newline

---
 rustfst/src/parsers/text_symt/nom_parser.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rustfst/src/parsers/text_symt/nom_parser.rs b/rustfst/src/parsers/text_symt/nom_parser.rs
index 6d73061..5352353 100644
--- a/rustfst/src/parsers/text_symt/nom_parser.rs
+++ b/rustfst/src/parsers/text_symt/nom_parser.rs
@@ -1,6 +1,7 @@
 use nom::bytes::complete::tag;
-use nom::character::complete::space1;
-use nom::multi::many0;
+use nom::character::complete::{multispace0, space1};
+use nom::combinator::all_consuming;
+use nom::multi::separated_list0;
 use nom::sequence::terminated;
 use nom::IResult;
 
@@ -16,7 +17,8 @@ fn row(i: &str) -> IResult<&str, (Symbol, Label)> {
 }
 
 fn vec_rows(i: &str) -> IResult<&str, Vec<(Symbol, Label)>> {
-    many0(terminated(row, tag("\n")))(i)
+    // The newline of the last row is optional and nothing but white space may follow it.
+    all_consuming(terminated(separated_list0(tag("\n"), row), multispace0))(i)
 }
 
 pub(crate) fn parse_text_symt(i: &str) -> IResult<&str, ParsedTextSymt> {
-- 
2.43.0


From f28f59d16a65e7619daa58a7e7784307c2b09fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:22 +0000
Subject: [PATCH 11/57] fix: report write errors that surface when the buffer
 is flushed

---
 rustfst/src/algorithms/compose/compose_fst_op.rs           | 3 ++-
 rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs | 1 +
 rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs      | 1 +
 rustfst/src/fst_traits/serializable_fst.rs                 | 7 ++++++-
 rustfst/src/symbol_table.rs                                | 2 ++
 5 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/rustfst/src/algorithms/compose/compose_fst_op.rs b/rustfst/src/algorithms/compose/compose_fst_op.rs
index b947e3a..c7487a2 100644
--- a/rustfst/src/algorithms/compose/compose_fst_op.rs
+++ b/rustfst/src/algorithms/compose/compose_fst_op.rs
@@ -2,7 +2,7 @@ use std::borrow::Borrow;
 use std::fmt::Debug;
 use std::fs::{read, File};
 use std::hash::Hash;
-use std::io::BufWriter;
+use std::io::{BufWriter, Write};
 use std::path::Path;
 use std::sync::Arc;
 
@@ -60,6 +60,7 @@ impl<T: Hash + Eq + Clone + SerializeBinary> SerializableOpState for ComposeFstO
 
         // Write StateTable
         self.state_table.write_binary(&mut file)?;
+        file.flush()?;
         Ok(())
     }
 }
diff --git a/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs b/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs
index 2a3bcdf..f1f216a 100644
--- a/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs
+++ b/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs
@@ -184,6 +184,7 @@ impl<W: SerializableSemiring> SerializableCache for SimpleHashMapCache<W> {
 
         // Serialize SimpleHashMapCache
         write_simple_hashmap_cache(&mut file, self)?;
+        file.flush()?;
 
         Ok(())
     }
diff --git a/rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs b/rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs
index 47c19c5..0b9e39e 100644
--- a/rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs
+++ b/rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs
@@ -195,6 +195,7 @@ impl<W: SerializableSemiring> SerializableCache for SimpleVecCache<W> {
 
         // Write SimpleVecCache
         write_simple_vec_cache(&mut file, self)?;
+        file.flush()?;
 
         Ok(())
     }
diff --git a/rustfst/src/fst_traits/serializable_fst.rs b/rustfst/src/fst_traits/serializable_fst.rs
index 28a53fb..ed733e7 100644
--- a/rustfst/src/fst_traits/serializable_fst.rs
+++ b/rustfst/src/fst_traits/serializable_fst.rs
@@ -45,7 +45,11 @@ pub trait SerializableFst<W: SerializableSemiring>: ExpandedFst<W> {
                 path_bin_fst.as_ref(),
             )
         })?;
-        self.store(BufWriter::new(output))
+        let mut writer = BufWriter::new(output);
+        self.store(&mut writer)?;
+        // Errors are ignored when the BufWriter is dropped.
+        writer.flush()?;
+        Ok(())
     }
 
     // TEXT
@@ -127,6 +131,7 @@ pub trait SerializableFst<W: SerializableSemiring>: ExpandedFst<W> {
 
             writeln!(f, "}}")?;
         }
+        f.flush()?;
         Ok(())
     }
 }
diff --git a/rustfst/src/symbol_table.rs b/rustfst/src/symbol_table.rs
index 8b08f2a..4843cd2 100644
--- a/rustfst/src/symbol_table.rs
+++ b/rustfst/src/symbol_table.rs
@@ -268,6 +268,7 @@ impl<H: BuildHasher> SymbolTable<H> {
         let mut writer = BufWriter::new(LineWriter::new(buffer));
 
         write!(writer, "{}", self)?;
+        writer.flush()?;
 
         Ok(())
     }
@@ -277,6 +278,7 @@ impl<H: BuildHasher> SymbolTable<H> {
         let mut writer = BufWriter::new(LineWriter::new(buffer));
 
         write_bin_symt(&mut writer, self)?;
+        writer.flush()?;
 
         Ok(())
     }
-- 
2.43.0


From c8a6bbcd07a7a5f98ca7148de5165c6dc29fed48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:40 +0000
Subject: [PATCH 12/57] fix: keep the start state in the text form when it has
 no transitions

---
 rustfst/src/fst_traits/macros.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/rustfst/src/fst_traits/macros.rs b/rustfst/src/fst_traits/macros.rs
index 8b90c9e..58c44f4 100644
--- a/rustfst/src/fst_traits/macros.rs
+++ b/rustfst/src/fst_traits/macros.rs
@@ -49,6 +49,19 @@ macro_rules! write_fst {
             // Firstly print the trs leaving the start state
             display_single_state!($fst, start_state, $f, $show_weight_one, $use_symt);
 
+            // The first line designates the start state: without transitions, its final weight
+            // has to come first.
+            let start_without_trs = $fst.num_trs(start_state).unwrap() == 0;
+            if start_without_trs {
+                match $fst.final_weight(start_state).unwrap() {
+                    Some(w) if w.is_one() && !$show_weight_one => {
+                        writeln!($f, "{}", &start_state)?
+                    }
+                    Some(w) => writeln!($f, "{}\t{}", &start_state, &w)?,
+                    None => writeln!($f, "{}\tInfinity", &start_state)?,
+                }
+            }
+
             // Secondly, print the trs leaving all the other states
             for state_id in $fst.states_iter() {
                 if state_id != start_state {
@@ -58,6 +71,9 @@ macro_rules! write_fst {
 
             // Finally, print the final states with their weight
             for final_state in $fst.final_states_iter() {
+                if start_without_trs && final_state == start_state {
+                    continue;
+                }
                 let final_weight =
                     unsafe { $fst.final_weight_unchecked(final_state).unsafe_unwrap() };
                 if final_weight.is_one() && !$show_weight_one {
-- 
2.43.0


From 96a977f4e0714be54addfb7e9aa4bfbd0641a1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:27 +0000
Subject: [PATCH 13/57] fix: union into an FST that has states but no start
 state

---
 rustfst/src/algorithms/union/union_static.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rustfst/src/algorithms/union/union_static.rs b/rustfst/src/algorithms/union/union_static.rs
index 10c8220..012bfcf 100644
--- a/rustfst/src/algorithms/union/union_static.rs
+++ b/rustfst/src/algorithms/union/union_static.rs
@@ -87,8 +87,10 @@ where
 
     let start1 = fst_1.start();
     if start1.is_none() {
-        unsafe { fst_1.set_start_unchecked(start2) };
-        fst_1.set_properties_with_mask(props2, FstProperties::copy_properties());
+        unsafe { fst_1.set_start_unchecked(start2 + numstates1) };
+        if numstates1 == 0 {
+            fst_1.set_properties_with_mask(props2, FstProperties::copy_properties());
+        }
         return Ok(());
     }
     let start1 = unsafe { start1.unsafe_unwrap() };
-- 
2.43.0


From dfe30a8dc1015eeaf3a3ab899a1b52df4986abca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:30 +0000
Subject: [PATCH 14/57] fix: rm_final_epsilon multiplied the final weight on
 the wrong side

---
 rustfst/src/algorithms/rm_final_epsilon.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rustfst/src/algorithms/rm_final_epsilon.rs b/rustfst/src/algorithms/rm_final_epsilon.rs
index e8f1f83..2a55869 100644
--- a/rustfst/src/algorithms/rm_final_epsilon.rs
+++ b/rustfst/src/algorithms/rm_final_epsilon.rs
@@ -52,9 +52,8 @@ where
                             ifst.final_weight_unchecked(state).unwrap_or_else(W::zero)
                         })
                         .plus_assign(
-                            ifst.final_weight_unchecked(tr.nextstate)
-                                .unsafe_unwrap()
-                                .times(&tr.weight)?,
+                            tr.weight
+                                .times(ifst.final_weight_unchecked(tr.nextstate).unsafe_unwrap())?,
                         )?
                 };
                 trs_to_del.push(idx);
-- 
2.43.0


From e5334b0083d78ce91b0f2c93e6dc502eb00ab4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:52 +0000
Subject: [PATCH 15/57] fix: tr_unique kept identical transitions that were not
 adjacent

---
 rustfst/src/fst_impls/vector_fst/mutable_fst.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/rustfst/src/fst_impls/vector_fst/mutable_fst.rs b/rustfst/src/fst_impls/vector_fst/mutable_fst.rs
index 731a0bb..ece902f 100644
--- a/rustfst/src/fst_impls/vector_fst/mutable_fst.rs
+++ b/rustfst/src/fst_impls/vector_fst/mutable_fst.rs
@@ -361,7 +361,19 @@ impl<W: Semiring> MutableFst<W> for VectorFst<W> {
         let state = &mut self.states.get_unchecked_mut(state as usize);
         let trs_vec = Arc::make_mut(&mut state.trs.0);
         trs_vec.sort_by(tr_compare);
-        trs_vec.dedup();
+        // Parallel trs are adjacent but not ordered by weight: compare with the whole group.
+        let mut unique_trs: Vec<Tr<W>> = Vec::with_capacity(trs_vec.len());
+        for tr in trs_vec.drain(..) {
+            let duplicated = unique_trs
+                .iter()
+                .rev()
+                .take_while(|t| tr_compare(t, &tr) == Ordering::Equal)
+                .any(|t| *t == tr);
+            if !duplicated {
+                unique_trs.push(tr);
+            }
+        }
+        *trs_vec = unique_trs;
 
         // There might be a better way to do this
         if state.niepsilons != 0 || state.noepsilons != 0 {
-- 
2.43.0


From b69f139708b7b109136d95331f6fdf7591841661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:31 +0000
Subject: [PATCH 16/57] fix: queue heads of empty queues, and emptiness of the
 component queue

---
 rustfst/src/algorithms/queues/scc_queue.rs         | 8 +++++++-
 rustfst/src/algorithms/queues/state_order_queue.rs | 3 +++
 rustfst/src/algorithms/queues/top_order_queue.rs   | 3 +++
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/rustfst/src/algorithms/queues/scc_queue.rs b/rustfst/src/algorithms/queues/scc_queue.rs
index 757d6f7..3cf7d4f 100644
--- a/rustfst/src/algorithms/queues/scc_queue.rs
+++ b/rustfst/src/algorithms/queues/scc_queue.rs
@@ -31,6 +31,9 @@ impl SccQueue {
 
 impl Queue for SccQueue {
     fn head(&mut self) -> Option<StateId> {
+        if self.is_empty() {
+            return None;
+        }
         self.update_front();
         self.queues[self.front as usize].head()
     }
@@ -53,7 +56,10 @@ impl Queue for SccQueue {
             None
         } else {
             self.update_front();
-            self.queues[self.front as usize].dequeue()
+            let state = self.queues[self.front as usize].dequeue();
+            // Leave no emptied queue at the front: `is_empty` relies on it.
+            self.update_front();
+            state
         }
     }
 
diff --git a/rustfst/src/algorithms/queues/state_order_queue.rs b/rustfst/src/algorithms/queues/state_order_queue.rs
index b7898fa..4439415 100644
--- a/rustfst/src/algorithms/queues/state_order_queue.rs
+++ b/rustfst/src/algorithms/queues/state_order_queue.rs
@@ -10,6 +10,9 @@ pub struct StateOrderQueue {
 
 impl Queue for StateOrderQueue {
     fn head(&mut self) -> Option<StateId> {
+        if self.is_empty() {
+            return None;
+        }
         Some(self.front as StateId)
     }
 
diff --git a/rustfst/src/algorithms/queues/top_order_queue.rs b/rustfst/src/algorithms/queues/top_order_queue.rs
index 5f1c4e2..2196ea3 100644
--- a/rustfst/src/algorithms/queues/top_order_queue.rs
+++ b/rustfst/src/algorithms/queues/top_order_queue.rs
@@ -39,6 +39,9 @@ impl TopOrderQueue {
 
 impl Queue for TopOrderQueue {
     fn head(&mut self) -> Option<StateId> {
+        if self.is_empty() {
+            return None;
+        }
         self.state[self.front as usize]
     }
 
-- 
2.43.0


From 6f8b4f49d20c973d3e63df17cfe91f6ba222a113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:51 +0000
Subject: [PATCH 17/57] fix: the shortest-first queue returned the worst state
 first

---
 rustfst/src/algorithms/queues/shortest_first_queue.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rustfst/src/algorithms/queues/shortest_first_queue.rs b/rustfst/src/algorithms/queues/shortest_first_queue.rs
index bf588f0..ed13dd8 100644
--- a/rustfst/src/algorithms/queues/shortest_first_queue.rs
+++ b/rustfst/src/algorithms/queues/shortest_first_queue.rs
@@ -62,7 +62,10 @@ impl<C: Clone + FnMut(&StateId, &StateId) -> Ordering> Queue for ShortestFirstQu
     }
 
     fn update(&mut self, _state: StateId) {
-        unimplemented!()
+        // The order of the states may have changed.
+        for state in self.heap.drain().collect::<Vec<_>>() {
+            self.heap.push(state);
+        }
     }
 
     fn is_empty(&self) -> bool {
@@ -87,10 +90,13 @@ impl NaturalShortestFirstQueue {
     pub fn new<W: 'static + Semiring>(weights: Vec<W>) -> Self {
         let a = StateWeightCompare::new(weights, natural_less);
         let heap = ShortestFirstQueue::new(move |v1, v2| {
+            // The heap pops the greatest element: the state with the best weight.
             if a.compare(*v1, *v2).unwrap() {
+                Ordering::Greater
+            } else if a.compare(*v2, *v1).unwrap() {
                 Ordering::Less
             } else {
-                Ordering::Greater
+                Ordering::Equal
             }
         });
         NaturalShortestFirstQueue {
-- 
2.43.0


From 8eaa9dbb73fb093cdca492890b45d2f401f2afc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:53 +0000
Subject: [PATCH 18/57] fix: depth-first visits skipped every state of an FST
 without a start state

---
 rustfst/src/algorithms/dfs_visit.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/rustfst/src/algorithms/dfs_visit.rs b/rustfst/src/algorithms/dfs_visit.rs
index d810b21..13b9950 100644
--- a/rustfst/src/algorithms/dfs_visit.rs
+++ b/rustfst/src/algorithms/dfs_visit.rs
@@ -102,13 +102,11 @@ pub fn dfs_visit<'a, W: Semiring, F: ExpandedFst<W>, V: Visitor<'a, W, F>, A: Tr
     access_only: bool,
 ) {
     visitor.init_visit(fst);
-    let start = match fst.start() {
-        None => {
-            visitor.finish_visit();
-            return;
-        }
-        Some(s) => s,
-    };
+    let start = fst.start();
+    if start.is_none() && access_only {
+        visitor.finish_visit();
+        return;
+    }
 
     let nstates = fst.num_states();
     let mut state_color = vec![DfsStateColor::White; nstates];
@@ -116,7 +114,7 @@ pub fn dfs_visit<'a, W: Semiring, F: ExpandedFst<W>, V: Visitor<'a, W, F>, A: Tr
 
     // Continue dfs while true.
     let mut dfs = true;
-    let mut root = start;
+    let mut root = start.unwrap_or(0);
     loop {
         if !dfs || (root as usize) >= nstates {
             break;
@@ -178,7 +176,7 @@ pub fn dfs_visit<'a, W: Semiring, F: ExpandedFst<W>, V: Visitor<'a, W, F>, A: Tr
             break;
         }
 
-        root = if root == start { 0 } else { root + 1 };
+        root = if Some(root) == start { 0 } else { root + 1 };
 
         while (root as usize) < nstates && state_color[root as usize] != DfsStateColor::White {
             root += 1;
-- 
2.43.0


From d81d777739c5686db6c37cd89cd3326d8fa3139c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:35 +0000
Subject: [PATCH 19/57] fix: shortest_distance did not re-enqueue states whose
 distance changed

---
 rustfst/src/algorithms/shortest_distance.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst/src/algorithms/shortest_distance.rs b/rustfst/src/algorithms/shortest_distance.rs
index 715d16f..5030f5b 100644
--- a/rustfst/src/algorithms/shortest_distance.rs
+++ b/rustfst/src/algorithms/shortest_distance.rs
@@ -221,7 +221,7 @@ impl<W: Semiring, Q: Queue, A: TrFilter<W>> ShortestDistanceState<W, Q, A> {
                     na.plus_assign(&weight)?;
                     *nd = na.clone();
                     nr.plus_assign(&weight)?;
-                    if !self.enqueued[state] {
+                    if !self.enqueued[nextstate] {
                         self.state_queue.enqueue(nextstate as StateId);
                         self.enqueued[nextstate] = true;
                     } else {
-- 
2.43.0


From e65079a547b13384260db533728da4c570c10f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:25 +0000
Subject: [PATCH 20/57] fix: rm_epsilon used distances left over from another
 state

---
 rustfst/src/algorithms/rm_epsilon/rm_epsilon_state.rs | 4 +++-
 rustfst/src/algorithms/shortest_distance.rs           | 9 +++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/rustfst/src/algorithms/rm_epsilon/rm_epsilon_state.rs b/rustfst/src/algorithms/rm_epsilon/rm_epsilon_state.rs
index f20a444..3938c53 100644
--- a/rustfst/src/algorithms/rm_epsilon/rm_epsilon_state.rs
+++ b/rustfst/src/algorithms/rm_epsilon/rm_epsilon_state.rs
@@ -71,7 +71,9 @@ impl<W: Semiring, Q: Queue> RmEpsilonState<W, Q> {
                     while self.visited.len() <= (tr.nextstate as usize) {
                         self.visited.push(false);
                     }
-                    if !self.visited[tr.nextstate as usize] {
+                    if !self.visited[tr.nextstate as usize]
+                        && self.sd_state.is_reached(tr.nextstate)
+                    {
                         eps_queue.push(tr.nextstate);
                     }
                 } else {
diff --git a/rustfst/src/algorithms/shortest_distance.rs b/rustfst/src/algorithms/shortest_distance.rs
index 5030f5b..1985414 100644
--- a/rustfst/src/algorithms/shortest_distance.rs
+++ b/rustfst/src/algorithms/shortest_distance.rs
@@ -150,6 +150,15 @@ impl<W: Semiring, Q: Queue, A: TrFilter<W>> ShortestDistanceState<W, Q, A> {
         }
     }
 
+    /// Whether the last call to `shortest_distance` (with `retain`) reached this state.
+    /// If not, its entry in the distances is left over from a previous source.
+    pub fn is_reached(&self, state: StateId) -> bool {
+        match self.sources.get(state as usize) {
+            Some(Some(source_id)) => *source_id as usize + 1 == self.source_id,
+            _ => false,
+        }
+    }
+
     pub fn shortest_distance<F: ExpandedFst<W>, B: Borrow<F>>(
         &mut self,
         source: Option<StateId>,
-- 
2.43.0


From e23a423a1a6b6cf48409e6187148aeccc8223924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:40 +0000
Subject: [PATCH 21/57] fix: invert and project left the symbol tables on the
 wrong side

---
 rustfst/src/algorithms/inversion.rs  | 10 ++++++++++
 rustfst/src/algorithms/projection.rs | 15 +++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/rustfst/src/algorithms/inversion.rs b/rustfst/src/algorithms/inversion.rs
index 169d25a..1833ac8 100644
--- a/rustfst/src/algorithms/inversion.rs
+++ b/rustfst/src/algorithms/inversion.rs
@@ -44,5 +44,15 @@ pub fn invert<W: Semiring, F: MutableFst<W>>(fst: &mut F) {
         }
     }
 
+    // The symbol tables follow the labels.
+    let isymt = fst.take_input_symbols();
+    let osymt = fst.take_output_symbols();
+    if let Some(symt) = osymt {
+        fst.set_input_symbols(symt);
+    }
+    if let Some(symt) = isymt {
+        fst.set_output_symbols(symt);
+    }
+
     fst.set_properties_with_mask(invert_properties(props), FstProperties::all_properties());
 }
diff --git a/rustfst/src/algorithms/projection.rs b/rustfst/src/algorithms/projection.rs
index 3041524..c212f94 100644
--- a/rustfst/src/algorithms/projection.rs
+++ b/rustfst/src/algorithms/projection.rs
@@ -86,6 +86,21 @@ pub fn project<W: Semiring, F: MutableFst<W>>(fst: &mut F, project_type: Project
             }
         }
     };
+    // The symbol tables follow the labels.
+    match project_type {
+        ProjectType::ProjectInput => match fst.input_symbols().cloned() {
+            Some(symt) => fst.set_output_symbols(symt),
+            None => {
+                fst.take_output_symbols();
+            }
+        },
+        ProjectType::ProjectOutput => match fst.output_symbols().cloned() {
+            Some(symt) => fst.set_input_symbols(symt),
+            None => {
+                fst.take_input_symbols();
+            }
+        },
+    }
     fst.set_properties_with_mask(
         project_properties(props, project_type),
         FstProperties::all_properties(),
-- 
2.43.0


From 521b6051af0d3873c2db0c9bb9b93a6c9d4ff19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:38 +0000
Subject: [PATCH 22/57] fix: check_path_in_fst compared output labels at the
 input position

---
 rustfst/src/fst_path.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst/src/fst_path.rs b/rustfst/src/fst_path.rs
index acb3db3..2b09af8 100644
--- a/rustfst/src/fst_path.rs
+++ b/rustfst/src/fst_path.rs
@@ -126,7 +126,7 @@ pub fn check_path_in_fst<W: Semiring, F: Fst<W>>(fst: &F, fst_path: &FstPath<W>)
                 let match_ilabel = next_ilabel_idx < fst_path.ilabels.len()
                     && tr.ilabel == fst_path.ilabels[next_ilabel_idx];
                 let match_olabel = next_olabel_idx < fst_path.olabels.len()
-                    && tr.olabel == fst_path.olabels[next_ilabel_idx];
+                    && tr.olabel == fst_path.olabels[next_olabel_idx];
                 let (new_next_ilabel_idx, new_next_olabel_idx) =
                     if tr.ilabel == EPS_LABEL && tr.olabel == EPS_LABEL {
                         (next_ilabel_idx, next_olabel_idx)
-- 
2.43.0


From 8cee7d95340129410c0a64fc357905b20fa66fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:22 +0000
Subject: [PATCH 23/57] fix: fst_into_iter was not implemented for shared FSTs

---
 rustfst/src/fst_impls/arc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rustfst/src/fst_impls/arc.rs b/rustfst/src/fst_impls/arc.rs
index 8a2b7e4..efe3dcb 100644
--- a/rustfst/src/fst_impls/arc.rs
+++ b/rustfst/src/fst_impls/arc.rs
@@ -100,11 +100,11 @@ impl<'a, F: StateIterator<'a>> StateIterator<'a> for Arc<F> {
     }
 }
 
-impl<W: Semiring, F: FstIntoIterator<W>> FstIntoIterator<W> for Arc<F> {
+impl<W: Semiring, F: FstIntoIterator<W> + Clone> FstIntoIterator<W> for Arc<F> {
     type TrsIter = F::TrsIter;
     type FstIter = F::FstIter;
 
     fn fst_into_iter(self) -> Self::FstIter {
-        unimplemented!()
+        Arc::unwrap_or_clone(self).fst_into_iter()
     }
 }
-- 
2.43.0


From a5dbdf13dcf8a72b6cc8824d7a62d79793394c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:40 +0000
Subject: [PATCH 24/57] fix: copying an FST without a start state lost its
 transitions and final weights

---
 rustfst/src/algorithms/fst_convert.rs | 40 +++++++++++++--------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/rustfst/src/algorithms/fst_convert.rs b/rustfst/src/algorithms/fst_convert.rs
index ea96267..8b53645 100644
--- a/rustfst/src/algorithms/fst_convert.rs
+++ b/rustfst/src/algorithms/fst_convert.rs
@@ -16,18 +16,18 @@ where
 
     if let Some(start) = ifst.start() {
         unsafe { ofst.set_start_unchecked(start) };
+    }
 
-        for data in ifst.fst_iter() {
-            unsafe {
-                ofst.reserve_trs_unchecked(data.state_id, data.num_trs);
-            }
-            for tr in data.trs.trs() {
-                unsafe { ofst.add_tr_unchecked(data.state_id, tr.clone()) };
-            }
+    for data in ifst.fst_iter() {
+        unsafe {
+            ofst.reserve_trs_unchecked(data.state_id, data.num_trs);
+        }
+        for tr in data.trs.trs() {
+            unsafe { ofst.add_tr_unchecked(data.state_id, tr.clone()) };
+        }
 
-            if let Some(final_weight) = data.final_weight {
-                unsafe { ofst.set_final_unchecked(data.state_id, final_weight.clone()) };
-            }
+        if let Some(final_weight) = data.final_weight {
+            unsafe { ofst.set_final_unchecked(data.state_id, final_weight.clone()) };
         }
     }
 
@@ -52,18 +52,18 @@ where
 
     if let Some(start) = ifst.start() {
         unsafe { ofst.set_start_unchecked(start) };
+    }
 
-        for fst_iter_data in ifst.fst_into_iter() {
-            unsafe {
-                ofst.reserve_trs_unchecked(fst_iter_data.state_id, fst_iter_data.num_trs);
-            }
-            for tr in fst_iter_data.trs {
-                unsafe { ofst.add_tr_unchecked(fst_iter_data.state_id, tr) }
-            }
+    for fst_iter_data in ifst.fst_into_iter() {
+        unsafe {
+            ofst.reserve_trs_unchecked(fst_iter_data.state_id, fst_iter_data.num_trs);
+        }
+        for tr in fst_iter_data.trs {
+            unsafe { ofst.add_tr_unchecked(fst_iter_data.state_id, tr) }
+        }
 
-            if let Some(w) = fst_iter_data.final_weight {
-                unsafe { ofst.set_final_unchecked(fst_iter_data.state_id, w) };
-            }
+        if let Some(w) = fst_iter_data.final_weight {
+            unsafe { ofst.set_final_unchecked(fst_iter_data.state_id, w) };
         }
     }
 
-- 
2.43.0


From db452c8378d3226bc45cea1bbb50f0245e483569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:45 +0000
Subject: [PATCH 25/57] fix: isomorphic paired several states with one

---
 rustfst/src/algorithms/isomorphic.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rustfst/src/algorithms/isomorphic.rs b/rustfst/src/algorithms/isomorphic.rs
index 0651e0d..caf364f 100644
--- a/rustfst/src/algorithms/isomorphic.rs
+++ b/rustfst/src/algorithms/isomorphic.rs
@@ -12,6 +12,8 @@ struct Isomorphism<'a, W: Semiring, F1: ExpandedFst<W>, F2: ExpandedFst<W>> {
     fst_1: &'a F1,
     fst_2: &'a F2,
     state_pairs: Vec<Option<StateId>>,
+    // Inverse of `state_pairs`: the correspondence has to be one to one.
+    state_pairs_inv: Vec<Option<StateId>>,
     queue: VecDeque<(StateId, StateId)>,
     w: PhantomData<W>,
     delta: f32,
@@ -53,6 +55,7 @@ impl<'a, W: Semiring, F1: ExpandedFst<W>, F2: ExpandedFst<W>> Isomorphism<'a, W,
             fst_1,
             fst_2,
             state_pairs: vec![None; fst_1.num_states()],
+            state_pairs_inv: vec![None; fst_2.num_states()],
             queue: VecDeque::new(),
             w: PhantomData,
             delta,
@@ -66,8 +69,11 @@ impl<'a, W: Semiring, F1: ExpandedFst<W>, F2: ExpandedFst<W>> Isomorphism<'a, W,
             return true; // already seen this pair
         } else if self.state_pairs[s1 as usize].is_some() {
             return false; // s1 already paired with another s2
+        } else if self.state_pairs_inv[s2 as usize].is_some() {
+            return false; // s2 already paired with another s1
         }
         self.state_pairs[s1 as usize] = Some(s2);
+        self.state_pairs_inv[s2 as usize] = Some(s1);
         self.queue.push_back((s1, s2));
         true
     }
-- 
2.43.0


From 06ffd75881184aa98b92741a172d87ed595355e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:36 +0000
Subject: [PATCH 26/57] fix: condense panicked on an FST that has states but no
 start state

---
 rustfst/src/algorithms/condense.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst/src/algorithms/condense.rs b/rustfst/src/algorithms/condense.rs
index 7a04985..391000e 100644
--- a/rustfst/src/algorithms/condense.rs
+++ b/rustfst/src/algorithms/condense.rs
@@ -27,7 +27,7 @@ pub fn condense<W: Semiring, FI: Fst<W> + ExpandedFst<W>, FO: MutableFst<W>>(
                 let c = c as StateId;
                 let s = s as StateId;
 
-                if s == ifst.start().unwrap() {
+                if Some(s) == ifst.start() {
                     ofst.set_start_unchecked(c);
                 }
                 if let Some(final_weight) = ifst.final_weight_unchecked(s) {
-- 
2.43.0


From 7de9945cbc72e907a143ee7916eb578510dec0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:50 +0000
Subject: [PATCH 27/57] fix: simple weight conversion claimed weight properties
 of the source type

---
 .../algorithms/weight_converters/simple_weight_converter.rs    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rustfst/src/algorithms/weight_converters/simple_weight_converter.rs b/rustfst/src/algorithms/weight_converters/simple_weight_converter.rs
index de59725..a4a5684 100644
--- a/rustfst/src/algorithms/weight_converters/simple_weight_converter.rs
+++ b/rustfst/src/algorithms/weight_converters/simple_weight_converter.rs
@@ -36,6 +36,7 @@ where
     }
 
     fn properties(&self, inprops: FstProperties) -> FstProperties {
-        inprops
+        // The weights of the two types need not have the same identities.
+        inprops & FstProperties::weight_invariant_properties()
     }
 }
-- 
2.43.0


From 9e77b748e0f7837e265dfdc09dcd21bc7f4b1cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:24 +0000
Subject: [PATCH 28/57] fix: keep the symbol tables when a lazy FST without
 start state is computed

---
 rustfst/src/algorithms/lazy/lazy_fst.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/rustfst/src/algorithms/lazy/lazy_fst.rs b/rustfst/src/algorithms/lazy/lazy_fst.rs
index 60b0778..ddafb90 100644
--- a/rustfst/src/algorithms/lazy/lazy_fst.rs
+++ b/rustfst/src/algorithms/lazy/lazy_fst.rs
@@ -227,6 +227,12 @@ where
     pub fn compute<F2: MutableFst<W> + AllocableFst<W>>(&self) -> Result<F2> {
         let start_state = self.start();
         let mut fst_out = F2::new();
+        if let Some(isymt) = &self.isymt {
+            fst_out.set_input_symbols(Arc::clone(isymt));
+        }
+        if let Some(osymt) = &self.osymt {
+            fst_out.set_output_symbols(Arc::clone(osymt));
+        }
         let start_state = match start_state {
             Some(s) => s,
             None => return Ok(fst_out),
@@ -259,13 +265,6 @@ where
             }
         }
         fst_out.set_properties(self.properties());
-
-        if let Some(isymt) = &self.isymt {
-            fst_out.set_input_symbols(Arc::clone(isymt));
-        }
-        if let Some(osymt) = &self.osymt {
-            fst_out.set_output_symbols(Arc::clone(osymt));
-        }
         Ok(fst_out)
     }
 }
-- 
2.43.0


From 2b09e08aa26228011d38a3c93053574f56d1941d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:59 +0000
Subject: [PATCH 29/57] fix: sigma transitions were not matched at a state with
 an explicit match

---
 .../compose/matchers/sigma_matcher.rs         | 24 +++++++++----------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/rustfst/src/algorithms/compose/matchers/sigma_matcher.rs b/rustfst/src/algorithms/compose/matchers/sigma_matcher.rs
index 3abcd41..bb6b8c7 100644
--- a/rustfst/src/algorithms/compose/matchers/sigma_matcher.rs
+++ b/rustfst/src/algorithms/compose/matchers/sigma_matcher.rs
@@ -164,7 +164,8 @@ where
     find_empty: bool,
     sigma_match: Option<Label>,
     matcher_iterator: Peekable<M::Iter>,
-    has_sigma: bool,
+    /// Whether the label looked for can be matched by the sigma transitions of the state
+    can_match_sigma: bool,
     rewrite_both: bool,
     w: PhantomData<(W, F, B)>,
 }
@@ -201,19 +202,17 @@ where
         }
 
         let mut find_empty = false;
-        let has_sigma = has_sigma(state, &matcher, sigma_label)?;
+        let can_match_sigma = has_sigma(state, &matcher, sigma_label)?
+            && match_label != EPS_LABEL
+            && match_label != NO_LABEL
+            && is_match_label_allowed(sigma_allowed_matches, match_label);
 
         let mut matcher_iterator_match_label = matcher.iter(state, match_label)?.peekable();
         let (sigma_match, matcher_iterator) = if matcher_iterator_match_label.peek().is_some() {
             (Some(NO_LABEL), matcher_iterator_match_label)
         } else {
             let mut matcher_iterator_sigma_label = matcher.iter(state, sigma_label)?.peekable();
-            if has_sigma
-                && match_label != EPS_LABEL
-                && match_label != NO_LABEL
-                && is_match_label_allowed(sigma_allowed_matches, match_label)
-                && matcher_iterator_sigma_label.peek().is_some()
-            {
+            if can_match_sigma && matcher_iterator_sigma_label.peek().is_some() {
                 (Some(match_label), matcher_iterator_sigma_label)
             } else {
                 find_empty = true;
@@ -232,7 +231,7 @@ where
             find_empty,
             sigma_match,
             matcher_iterator,
-            has_sigma,
+            can_match_sigma,
             rewrite_both,
             w: PhantomData,
         })
@@ -268,11 +267,10 @@ where
     }
 
     pub fn next_openfst(&mut self) {
-        let r = self.matcher_iterator.next();
-        if r.is_none()
-            && self.has_sigma
+        self.matcher_iterator.next();
+        if self.matcher_iterator.peek().is_none()
+            && self.can_match_sigma
             && self.sigma_match.unwrap() == NO_LABEL
-            && self.match_label > 0
         {
             self.matcher_iterator = self
                 .matcher
-- 
2.43.0


From 79fd9479963f1ef744f921687cd0e1938ba72302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:48 +0000
Subject: [PATCH 30/57] fix: composition with a sigma matcher claimed label
 properties that do not hold

---
 rustfst/src/algorithms/compose/compose_fst_op.rs         | 6 ++++--
 rustfst/src/algorithms/compose/matchers/mod.rs           | 6 ++++++
 rustfst/src/algorithms/compose/matchers/sigma_matcher.rs | 7 +++++++
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/rustfst/src/algorithms/compose/compose_fst_op.rs b/rustfst/src/algorithms/compose/compose_fst_op.rs
index c7487a2..0bb272d 100644
--- a/rustfst/src/algorithms/compose/compose_fst_op.rs
+++ b/rustfst/src/algorithms/compose/compose_fst_op.rs
@@ -152,8 +152,10 @@ where
         let compose_filter = compose_filter_builder.build()?;
         let match_type = Self::match_type(compose_filter.matcher1(), compose_filter.matcher2())?;
 
-        let fprops1 = fst1.borrow().properties();
-        let fprops2 = fst2.borrow().properties();
+        let matcher1 = compose_filter.matcher1();
+        let matcher2 = compose_filter.matcher2();
+        let fprops1 = matcher1.properties(fst1.borrow().properties());
+        let fprops2 = matcher2.properties(fst2.borrow().properties());
         let cprops = compose_properties(fprops1, fprops2);
         let properties = compose_filter.properties(cprops);
 
diff --git a/rustfst/src/algorithms/compose/matchers/mod.rs b/rustfst/src/algorithms/compose/matchers/mod.rs
index 78257a8..6c802fb 100644
--- a/rustfst/src/algorithms/compose/matchers/mod.rs
+++ b/rustfst/src/algorithms/compose/matchers/mod.rs
@@ -8,6 +8,7 @@ pub use multi_eps_matcher::{MultiEpsMatcher, MultiEpsMatcherFlags};
 pub use sigma_matcher::SigmaMatcher;
 pub use sorted_matcher::SortedMatcher;
 
+use crate::fst_properties::FstProperties;
 use crate::fst_traits::Fst;
 use crate::semirings::Semiring;
 use crate::{Label, StateId};
@@ -126,4 +127,9 @@ pub trait Matcher<W: Semiring, F: Fst<W>, B: Borrow<F>>: Debug {
     fn priority(&self, state: StateId) -> Result<usize>;
 
     fn fst(&self) -> &B;
+
+    /// Properties of the FST as seen through the matcher, given the properties of the FST.
+    fn properties(&self, inprops: FstProperties) -> FstProperties {
+        inprops
+    }
 }
diff --git a/rustfst/src/algorithms/compose/matchers/sigma_matcher.rs b/rustfst/src/algorithms/compose/matchers/sigma_matcher.rs
index bb6b8c7..e859d2d 100644
--- a/rustfst/src/algorithms/compose/matchers/sigma_matcher.rs
+++ b/rustfst/src/algorithms/compose/matchers/sigma_matcher.rs
@@ -146,6 +146,13 @@ where
     fn fst(&self) -> &B {
         self.matcher.fst()
     }
+
+    fn properties(&self, inprops: FstProperties) -> FstProperties {
+        // A sigma transition stands for several labels, and possibly only on one side.
+        self.matcher.properties(inprops)
+            & FstProperties::i_label_invariant_properties()
+            & FstProperties::o_label_invariant_properties()
+    }
 }
 
 pub struct IteratorSigmaMatcher<W, F, B, M>
-- 
2.43.0


From e86d6ec2a679e088b19bd87964668a8b0eec0347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:26 +0000
Subject: [PATCH 31/57] fix: normalising an interval set with an empty interval
 did not terminate

---
 rustfst/src/algorithms/compose/interval_set.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rustfst/src/algorithms/compose/interval_set.rs b/rustfst/src/algorithms/compose/interval_set.rs
index 5b9cd75..294f7c2 100644
--- a/rustfst/src/algorithms/compose/interval_set.rs
+++ b/rustfst/src/algorithms/compose/interval_set.rs
@@ -164,6 +164,7 @@ impl IntervalSet {
             let inti_index = i;
             if inti.begin == inti.end {
                 // Empty interval
+                i += 1;
                 continue;
             }
             for j in (inti_index + 1)..n_intervals {
-- 
2.43.0


From 2af83061d26dacfafceee1f1674708a4573195bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:57 +0000
Subject: [PATCH 32/57] fix: counting transitions or epsilons of a lazy FST
 state that is not expanded yet

---
 rustfst/src/algorithms/lazy/lazy_fst.rs   | 43 +++++++++++++++++------
 rustfst/src/algorithms/lazy/lazy_fst_2.rs | 43 +++++++++++++++++------
 2 files changed, 64 insertions(+), 22 deletions(-)

diff --git a/rustfst/src/algorithms/lazy/lazy_fst.rs b/rustfst/src/algorithms/lazy/lazy_fst.rs
index ddafb90..3d927d7 100644
--- a/rustfst/src/algorithms/lazy/lazy_fst.rs
+++ b/rustfst/src/algorithms/lazy/lazy_fst.rs
@@ -18,7 +18,7 @@ use crate::fst_traits::{
     AllocableFst, CoreFst, Fst, FstIterData, FstIterator, MutableFst, StateIterator,
 };
 use crate::semirings::{Semiring, SerializableSemiring};
-use crate::{StateId, SymbolTable, Trs, TrsVec};
+use crate::{StateId, SymbolTable, Trs, TrsVec, EPS_LABEL};
 
 #[derive(Debug, Clone)]
 pub struct LazyFst<W: Semiring, Op: FstOp<W>, Cache> {
@@ -61,13 +61,14 @@ impl<W: Semiring, Op: FstOp<W>, Cache: FstCache<W>> CoreFst<W> for LazyFst<W, Op
     }
 
     fn num_trs(&self, s: StateId) -> Result<usize> {
-        self.cache
-            .num_trs(s)
-            .ok_or_else(|| format_err!("State {:?} doesn't exist", s))
+        match self.cache.num_trs(s) {
+            Some(n) => Ok(n),
+            None => Ok(self.expand(s)?.len()),
+        }
     }
 
     unsafe fn num_trs_unchecked(&self, s: StateId) -> usize {
-        self.cache.num_trs(s).unsafe_unwrap()
+        self.num_trs(s).unsafe_unwrap()
     }
 
     fn get_trs(&self, state_id: StateId) -> Result<Self::TRS> {
@@ -90,15 +91,27 @@ impl<W: Semiring, Op: FstOp<W>, Cache: FstCache<W>> CoreFst<W> for LazyFst<W, Op
     }
 
     fn num_input_epsilons(&self, state: StateId) -> Result<usize> {
-        self.cache
-            .num_input_epsilons(state)
-            .ok_or_else(|| format_err!("State {:?} doesn't exist", state))
+        match self.cache.num_input_epsilons(state) {
+            Some(n) => Ok(n),
+            None => Ok(self
+                .expand(state)?
+                .trs()
+                .iter()
+                .filter(|tr| tr.ilabel == EPS_LABEL)
+                .count()),
+        }
     }
 
     fn num_output_epsilons(&self, state: StateId) -> Result<usize> {
-        self.cache
-            .num_output_epsilons(state)
-            .ok_or_else(|| format_err!("State {:?} doesn't exist", state))
+        match self.cache.num_output_epsilons(state) {
+            Some(n) => Ok(n),
+            None => Ok(self
+                .expand(state)?
+                .trs()
+                .iter()
+                .filter(|tr| tr.olabel == EPS_LABEL)
+                .count()),
+        }
     }
 }
 
@@ -223,6 +236,14 @@ where
         }
     }
 
+    /// Transitions of a state that has been discovered but maybe not expanded yet.
+    fn expand(&self, state: StateId) -> Result<TrsVec<W>> {
+        if state as usize >= self.cache.num_known_states() {
+            bail!("State {:?} doesn't exist", state);
+        }
+        self.get_trs(state)
+    }
+
     /// Turns the Lazy FST into a static one.
     pub fn compute<F2: MutableFst<W> + AllocableFst<W>>(&self) -> Result<F2> {
         let start_state = self.start();
diff --git a/rustfst/src/algorithms/lazy/lazy_fst_2.rs b/rustfst/src/algorithms/lazy/lazy_fst_2.rs
index 853f34e..eea7a90 100644
--- a/rustfst/src/algorithms/lazy/lazy_fst_2.rs
+++ b/rustfst/src/algorithms/lazy/lazy_fst_2.rs
@@ -11,7 +11,7 @@ use crate::algorithms::lazy::{CacheStatus, FstCache};
 use crate::fst_properties::FstProperties;
 use crate::fst_traits::{CoreFst, Fst, FstIterData, FstIterator, MutableFst, StateIterator};
 use crate::semirings::Semiring;
-use crate::{StateId, SymbolTable, Trs, TrsVec};
+use crate::{StateId, SymbolTable, Trs, TrsVec, EPS_LABEL};
 use std::collections::{HashSet, VecDeque};
 
 #[derive(Debug)]
@@ -56,13 +56,14 @@ impl<W: Semiring, Op: FstOp2<W>, Cache: FstCache<W>> CoreFst<W> for LazyFst2<W,
     }
 
     fn num_trs(&self, s: StateId) -> Result<usize> {
-        self.cache
-            .num_trs(s)
-            .ok_or_else(|| format_err!("State {:?} doesn't exist", s))
+        match self.cache.num_trs(s) {
+            Some(n) => Ok(n),
+            None => Ok(self.expand(s)?.len()),
+        }
     }
 
     unsafe fn num_trs_unchecked(&self, s: StateId) -> usize {
-        self.cache.num_trs(s).unsafe_unwrap()
+        self.num_trs(s).unsafe_unwrap()
     }
 
     fn get_trs(&self, state_id: StateId) -> Result<Self::TRS> {
@@ -86,15 +87,27 @@ impl<W: Semiring, Op: FstOp2<W>, Cache: FstCache<W>> CoreFst<W> for LazyFst2<W,
     }
 
     fn num_input_epsilons(&self, state: StateId) -> Result<usize> {
-        self.cache
-            .num_input_epsilons(state)
-            .ok_or_else(|| format_err!("State {:?} doesn't exist", state))
+        match self.cache.num_input_epsilons(state) {
+            Some(n) => Ok(n),
+            None => Ok(self
+                .expand(state)?
+                .trs()
+                .iter()
+                .filter(|tr| tr.ilabel == EPS_LABEL)
+                .count()),
+        }
     }
 
     fn num_output_epsilons(&self, state: StateId) -> Result<usize> {
-        self.cache
-            .num_output_epsilons(state)
-            .ok_or_else(|| format_err!("State {:?} doesn't exist", state))
+        match self.cache.num_output_epsilons(state) {
+            Some(n) => Ok(n),
+            None => Ok(self
+                .expand(state)?
+                .trs()
+                .iter()
+                .filter(|tr| tr.olabel == EPS_LABEL)
+                .count()),
+        }
     }
 }
 
@@ -219,6 +232,14 @@ where
         }
     }
 
+    /// Transitions of a state that has been discovered but maybe not expanded yet.
+    fn expand(&self, state: StateId) -> Result<TrsVec<W>> {
+        if state as usize >= self.cache.num_known_states() {
+            bail!("State {:?} doesn't exist", state);
+        }
+        self.get_trs(state)
+    }
+
     /// Turns the Lazy FST into a static one.
     pub fn compute<F2: MutableFst<W>>(&self) -> Result<F2> {
         let start_state = self.start();
-- 
2.43.0


From 305b9b6a0bc2863ecf5bb9e4d9bb23640a364820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:35 +0000
Subject: [PATCH 33/57] fix: determinize treated equal subsets listed in
 another order as different states

---
 .../src/algorithms/determinize/determinize_fsa_op.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rustfst/src/algorithms/determinize/determinize_fsa_op.rs b/rustfst/src/algorithms/determinize/determinize_fsa_op.rs
index c137f1a..a343b2f 100644
--- a/rustfst/src/algorithms/determinize/determinize_fsa_op.rs
+++ b/rustfst/src/algorithms/determinize/determinize_fsa_op.rs
@@ -1,7 +1,6 @@
 use std::borrow::Borrow;
 use std::collections::btree_map::Entry as EntryBTreeMap;
-use std::collections::hash_map::Entry as EntryHashMap;
-use std::collections::{BTreeMap, HashMap};
+use std::collections::BTreeMap;
 use std::fmt::Debug;
 use std::marker::PhantomData;
 use std::sync::Arc;
@@ -155,19 +154,20 @@ where
             det_tr.weight = CD::common_divisor(&det_tr.weight, &dest_elt.weight)?;
         }
 
-        let mut new_pairs = HashMap::new();
+        // Ordered by state, so that equal subsets are recognised as such.
+        let mut new_pairs = BTreeMap::new();
         for x in &mut det_tr.dest_tuple.subset.pairs {
             match new_pairs.entry(x.state) {
-                EntryHashMap::Vacant(e) => {
+                EntryBTreeMap::Vacant(e) => {
                     e.insert(x.clone());
                 }
-                EntryHashMap::Occupied(mut e) => {
+                EntryBTreeMap::Occupied(mut e) => {
                     e.get_mut().weight.plus_assign(&x.weight)?;
                 }
             };
         }
 
-        det_tr.dest_tuple.subset.pairs = new_pairs.values().cloned().collect();
+        det_tr.dest_tuple.subset.pairs = new_pairs.into_values().collect();
 
         for dest_elt in det_tr.dest_tuple.subset.pairs.iter_mut() {
             dest_elt.weight = dest_elt
-- 
2.43.0


From c530d423f5a3f4b4faaf4f7ab1b8d34591d4c0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:48 +0000
Subject: [PATCH 34/57] fix: cyclic minimization kept equivalent states whose
 transitions are in another order

---
 rustfst/src/algorithms/minimize.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rustfst/src/algorithms/minimize.rs b/rustfst/src/algorithms/minimize.rs
index 05e0e3a..ea9d374 100644
--- a/rustfst/src/algorithms/minimize.rs
+++ b/rustfst/src/algorithms/minimize.rs
@@ -486,6 +486,7 @@ fn pre_partition<W: Semiring, F: MutableFst<W>>(
                 .trs()
                 .iter()
                 .map(|e| e.ilabel)
+                .sorted()
                 .dedup()
                 .collect_vec();
 
-- 
2.43.0


From 8675ec82dc59c7c14b3257add183187599631c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:54 +0000
Subject: [PATCH 35/57] fix: minimize machines with states but no start state
 instead of refusing them

---
 rustfst/src/algorithms/minimize.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rustfst/src/algorithms/minimize.rs b/rustfst/src/algorithms/minimize.rs
index ea9d374..691d697 100644
--- a/rustfst/src/algorithms/minimize.rs
+++ b/rustfst/src/algorithms/minimize.rs
@@ -183,6 +183,12 @@ pub fn acceptor_minimize<W: Semiring, F: MutableFst<W> + ExpandedFst<W>>(
     ifst: &mut F,
     allow_acyclic_minimization: bool,
 ) -> Result<()> {
+    connect(ifst)?;
+
+    if ifst.num_states() == 0 {
+        return Ok(());
+    }
+
     let props = ifst.compute_and_update_properties(
         FstProperties::ACCEPTOR | FstProperties::UNWEIGHTED | FstProperties::ACYCLIC,
     )?;
@@ -190,12 +196,6 @@ pub fn acceptor_minimize<W: Semiring, F: MutableFst<W> + ExpandedFst<W>>(
         bail!("FST is not an unweighted acceptor");
     }
 
-    connect(ifst)?;
-
-    if ifst.num_states() == 0 {
-        return Ok(());
-    }
-
     if allow_acyclic_minimization && props.contains(FstProperties::ACYCLIC) {
         // Acyclic minimization
         tr_sort(ifst, ILabelCompare {});
-- 
2.43.0


From 483b575e89186a7fa629d03c00d45bb1c4dbfa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:19 +0000
Subject: [PATCH 36/57] fix: keep symbol tables in weight_convert when the
 input has no start state

---
 rustfst/src/algorithms/weight_convert.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rustfst/src/algorithms/weight_convert.rs b/rustfst/src/algorithms/weight_convert.rs
index a7fe862..66c5745 100644
--- a/rustfst/src/algorithms/weight_convert.rs
+++ b/rustfst/src/algorithms/weight_convert.rs
@@ -32,6 +32,7 @@ where
 
     // Empty FST.
     if fst_in.start().is_none() {
+        fst_out.set_symts_from_fst(fst_in);
         return Ok(fst_out);
     }
 
-- 
2.43.0


From 7930e45fe6baa34e54c5165c7d8230772c2b47bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:19 +0000
Subject: [PATCH 37/57] fix: process both halves of a split class when
 minimizing a non-deterministic machine

---
 rustfst/src/algorithms/minimize.rs  | 8 ++++++--
 rustfst/src/algorithms/partition.rs | 8 +++++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/rustfst/src/algorithms/minimize.rs b/rustfst/src/algorithms/minimize.rs
index 691d697..6c1da45 100644
--- a/rustfst/src/algorithms/minimize.rs
+++ b/rustfst/src/algorithms/minimize.rs
@@ -514,6 +514,10 @@ fn pre_partition<W: Semiring, F: MutableFst<W>>(
 }
 
 fn cyclic_minimize<W: Semiring, F: MutableFst<W>>(fst: &mut F) -> Result<Rc<RefCell<Partition>>> {
+    let deterministic = fst
+        .compute_and_update_properties(FstProperties::I_DETERMINISTIC)?
+        .contains(FstProperties::I_DETERMINISTIC);
+
     // Initialize
     let mut tr: VectorFst<W::ReverseWeight> = reverse(fst)?;
     tr_sort(&mut tr, ILabelCompare {});
@@ -555,7 +559,7 @@ fn cyclic_minimize<W: Semiring, F: MutableFst<W>>(fst: &mut F) -> Result<Rc<RefC
             let from_state = tr.nextstate - 1;
             let from_label = tr.ilabel;
             if prev_label != from_label as i32 {
-                partition.borrow_mut().finalize_split(&mut Some(&mut queue));
+                partition.borrow_mut().finalize_split(&mut Some(&mut queue), deterministic);
             }
             let from_class = partition.borrow().get_class_id(from_state as usize);
             if partition.borrow().get_class_size(from_class) > 1 {
@@ -568,7 +572,7 @@ fn cyclic_minimize<W: Semiring, F: MutableFst<W>>(fst: &mut F) -> Result<Rc<RefC
             }
         }
 
-        partition.borrow_mut().finalize_split(&mut Some(&mut queue));
+        partition.borrow_mut().finalize_split(&mut Some(&mut queue), deterministic);
     }
 
     // Get Partition
diff --git a/rustfst/src/algorithms/partition.rs b/rustfst/src/algorithms/partition.rs
index 118a78d..58b04d5 100644
--- a/rustfst/src/algorithms/partition.rs
+++ b/rustfst/src/algorithms/partition.rs
@@ -164,12 +164,18 @@ impl Partition {
         }
     }
 
-    pub fn finalize_split<Q: Queue>(&mut self, queue: &mut Option<&mut Q>) {
+    /// Processing only the smaller half of a split class is enough when every state has at most
+    /// one transition per label (Hopcroft). Otherwise a state may reach both halves, so both
+    /// have to be processed.
+    pub fn finalize_split<Q: Queue>(&mut self, queue: &mut Option<&mut Q>, deterministic: bool) {
         let visited_classes = self.visited_classes.clone();
         for visited_class in visited_classes {
             let new_class = self.split_refine(visited_class);
             if new_class != -1 && queue.as_ref().is_some() {
                 queue.as_mut().unwrap().enqueue(new_class as StateId);
+                if !deterministic {
+                    queue.as_mut().unwrap().enqueue(visited_class as StateId);
+                }
             }
         }
         self.visited_classes.clear();
-- 
2.43.0


From 8ea2910b93f6e887bf0a02b3c90450f5d7cb21a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:12 +0000
Subject: [PATCH 38/57] fix: do not divide by an infinite string when pushing
 labels in a machine that accepts nothing

---
 rustfst/src/algorithms/push.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/rustfst/src/algorithms/push.rs b/rustfst/src/algorithms/push.rs
index cfdf649..3977274 100644
--- a/rustfst/src/algorithms/push.rs
+++ b/rustfst/src/algorithms/push.rs
@@ -203,11 +203,14 @@ macro_rules! m_labels_pushing {
                 &gdistance,
                 $reweight_type == ReweightType::ReweightToInitial,
             )?;
-            if !$push_type.intersects(PushType::REMOVE_COMMON_AFFIX) {
-                total_weight.set_value1($string_weight::one());
-            }
-            if !$push_type.intersects(PushType::REMOVE_TOTAL_WEIGHT) {
-                total_weight.set_value2(W::one());
+            // There is nothing to remove when no path is accepted.
+            if !total_weight.is_zero() {
+                if !$push_type.intersects(PushType::REMOVE_COMMON_AFFIX) {
+                    total_weight.set_value1($string_weight::one());
+                }
+                if !$push_type.intersects(PushType::REMOVE_TOTAL_WEIGHT) {
+                    total_weight.set_value2(W::one());
+                }
             }
             reweight(&mut gfst, gdistance.as_slice(), $reweight_type)?;
             remove_weight(
-- 
2.43.0


From 063f73ced726f8b0d9156fc2e9fd8e9a68ae024a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:09 +0000
Subject: [PATCH 39/57] fix: leave epsilon transitions alone when decoding
 instead of underflowing

---
 rustfst/src/algorithms/encode/decode_static.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rustfst/src/algorithms/encode/decode_static.rs b/rustfst/src/algorithms/encode/decode_static.rs
index 58bcf59..fe5a205 100644
--- a/rustfst/src/algorithms/encode/decode_static.rs
+++ b/rustfst/src/algorithms/encode/decode_static.rs
@@ -4,7 +4,7 @@ use crate::algorithms::{encode::EncodeTable, rm_final_epsilon};
 use crate::algorithms::{FinalTr, MapFinalAction, TrMapper};
 use crate::fst_properties::FstProperties;
 use crate::fst_traits::MutableFst;
-use crate::{Semiring, Tr};
+use crate::{Semiring, Tr, EPS_LABEL};
 
 struct DecodeMapper<W: Semiring> {
     encode_table: EncodeTable<W>,
@@ -26,6 +26,11 @@ impl<W: Semiring> DecodeMapper<W> {
 
 impl<W: Semiring> TrMapper<W> for DecodeMapper<W> {
     fn tr_map(&self, tr: &mut Tr<W>) -> Result<()> {
+        // Epsilon is never the result of an encoding, but algorithms run on the encoded FST
+        // may have introduced it.
+        if tr.ilabel == EPS_LABEL {
+            return Ok(());
+        }
         let tuple = self
             .encode_table
             .0
-- 
2.43.0


From a72a2b92752e8c3ee9aa99f99081454919a0bea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:43 +0000
Subject: [PATCH 40/57] fix: keep the symbol tables when random generation
 starts from a machine without start state

---
 rustfst/src/algorithms/lazy/lazy_fst_2.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rustfst/src/algorithms/lazy/lazy_fst_2.rs b/rustfst/src/algorithms/lazy/lazy_fst_2.rs
index eea7a90..bfd9f04 100644
--- a/rustfst/src/algorithms/lazy/lazy_fst_2.rs
+++ b/rustfst/src/algorithms/lazy/lazy_fst_2.rs
@@ -244,6 +244,12 @@ where
     pub fn compute<F2: MutableFst<W>>(&self) -> Result<F2> {
         let start_state = self.start();
         let mut fst_out = F2::new();
+        if let Some(isymt) = &self.isymt {
+            fst_out.set_input_symbols(Arc::clone(isymt));
+        }
+        if let Some(osymt) = &self.osymt {
+            fst_out.set_output_symbols(Arc::clone(osymt));
+        }
         let start_state = match start_state {
             Some(s) => s,
             None => return Ok(fst_out),
@@ -273,12 +279,6 @@ where
             }
         }
         fst_out.set_properties(self.properties());
-        if let Some(isymt) = &self.isymt {
-            fst_out.set_input_symbols(Arc::clone(isymt));
-        }
-        if let Some(osymt) = &self.osymt {
-            fst_out.set_output_symbols(Arc::clone(osymt));
-        }
         Ok(fst_out)
     }
 }
-- 
2.43.0


From 36ae8c891bb8dae3b4ea5a982fa97de2880bee67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:15 +0000
Subject: [PATCH 41/57] fix: sort the states of machines without start state
 too

---
 rustfst/src/algorithms/state_sort.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/rustfst/src/algorithms/state_sort.rs b/rustfst/src/algorithms/state_sort.rs
index 30e5463..d810768 100644
--- a/rustfst/src/algorithms/state_sort.rs
+++ b/rustfst/src/algorithms/state_sort.rs
@@ -24,20 +24,17 @@ where
         order.len(),
         fst.num_states()
     );
-    if fst.start().is_none() {
-        return Ok(());
-    }
     // TODO: Use properties with mask once available
     let props = fst.properties_with_mask(FstProperties::statesort_properties());
 
-    let start_state = fst.start().unwrap();
-
     let mut done = vec![false; order.len()];
 
-    debug_assert!((start_state as usize) < order.len());
-    debug_assert!((order[start_state as usize] as usize) < fst.num_states());
+    if let Some(start_state) = fst.start() {
+        debug_assert!((start_state as usize) < order.len());
+        debug_assert!((order[start_state as usize] as usize) < fst.num_states());
 
-    fst.set_start(order[start_state as usize])?;
+        fst.set_start(order[start_state as usize])?;
+    }
 
     for mut s1 in fst.states_range() {
         if done[s1 as usize] {
-- 
2.43.0


From ecedac249e839eda8f72384d1d50cc7e9c808150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:30 +0000
Subject: [PATCH 42/57] fix: do not leave zero final weights behind when
 reweighting towards the final states

---
 rustfst/src/algorithms/reweight.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rustfst/src/algorithms/reweight.rs b/rustfst/src/algorithms/reweight.rs
index 820ed9f..6342aef 100644
--- a/rustfst/src/algorithms/reweight.rs
+++ b/rustfst/src/algorithms/reweight.rs
@@ -42,10 +42,8 @@ where
             match reweight_type {
                 ReweightType::ReweightToInitial => {}
                 ReweightType::ReweightToFinal => {
-                    if let Some(final_weight) = fst.final_weight(state)? {
-                        let new_weight = W::zero().times(final_weight)?;
-                        fst.set_final(state, new_weight)?;
-                    }
+                    // Not accessible.
+                    fst.delete_final_weight(state)?;
                 }
             };
             continue;
@@ -87,6 +85,11 @@ where
 
             match reweight_type {
                 ReweightType::ReweightToFinal => {
+                    if d_s.is_zero() {
+                        // Not accessible.
+                        unsafe { fst.delete_final_weight_unchecked(state_id) };
+                        continue;
+                    }
                     final_weight.times_assign(d_s)?;
                 }
                 ReweightType::ReweightToInitial => {
-- 
2.43.0


From 56991f092dad41d7227c17800f926b5cdee6986c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:19 +0000
Subject: [PATCH 43/57] fix: do not claim properties of replaced machines that
 need not hold

---
 .../src/fst_properties/mutate_properties.rs   | 41 +++++--------------
 1 file changed, 11 insertions(+), 30 deletions(-)

diff --git a/rustfst/src/fst_properties/mutate_properties.rs b/rustfst/src/fst_properties/mutate_properties.rs
index 6fff2c0..be38ba1 100644
--- a/rustfst/src/fst_properties/mutate_properties.rs
+++ b/rustfst/src/fst_properties/mutate_properties.rs
@@ -520,36 +520,10 @@ pub fn replace_properties(
         access_props &= *inprop & (FstProperties::ACCESSIBLE | FstProperties::COACCESSIBLE);
     }
 
+    // Whether a sub-FST is reached from the root, and whether a call returns, is not known here:
+    // nothing else can be said to be present in the result because it is present in a sub-FST.
     if access_props == (FstProperties::ACCESSIBLE | FstProperties::COACCESSIBLE) {
-        outprops |= access_props;
-        if inprops[root as usize].contains(FstProperties::INITIAL_CYCLIC) {
-            outprops |= FstProperties::INITIAL_CYCLIC;
-        }
-        let mut props = FstProperties::empty();
-        let mut string = true;
-        for inprop in inprops {
-            if replace_transducer {
-                props |= FstProperties::NOT_ACCEPTOR & *inprop;
-            }
-            props |= (FstProperties::NOT_I_DETERMINISTIC
-                | FstProperties::NOT_O_DETERMINISTIC
-                | FstProperties::EPSILONS
-                | FstProperties::I_EPSILONS
-                | FstProperties::O_EPSILONS
-                | FstProperties::WEIGHTED
-                | FstProperties::WEIGHTED_CYCLES
-                | FstProperties::CYCLIC
-                | FstProperties::NOT_TOP_SORTED
-                | FstProperties::NOT_STRING)
-                & *inprop;
-            if !inprop.contains(FstProperties::STRING) {
-                string = false;
-            }
-        }
-        outprops |= props;
-        if string {
-            outprops |= FstProperties::STRING;
-        }
+        outprops |= FstProperties::ACCESSIBLE;
     }
     let mut acceptor = !replace_transducer;
     let mut ideterministic = !epsilon_on_call && epsilon_on_return;
@@ -602,7 +576,14 @@ pub fn replace_properties(
     //  1. the input label of the call arc is not epsilon
     //  2. all non-terminals are negative, or
     //  3. all non-terninals are positive and form a dense range containing 1.
-    if all_ilabel_sorted && epsilon_on_return && (!epsilon_on_call || all_negative_or_dense) {
+    //
+    // Non-terminals are output labels, so conditions 2. and 3. say something about the input
+    // labels only when all sub-FSTs are acceptors.
+    let all_acceptors = inprops.iter().all(|p| p.contains(FstProperties::ACCEPTOR));
+    if all_ilabel_sorted
+        && epsilon_on_return
+        && (!epsilon_on_call || (all_negative_or_dense && all_acceptors))
+    {
         outprops |= FstProperties::I_LABEL_SORTED;
     }
     // Similarly, the resulting ReplaceFst is known to be FstProperties::O_LABEL_SORTED when: (1)
-- 
2.43.0


From 5f7a1620a68e3ea4532125711cb7f078ea6a8acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:34 +0000
Subject: [PATCH 44/57] fix: do not claim epsilons when mapping a machine
 without transitions to epsilon labels

---
 rustfst/src/algorithms/tr_mappers/input_epsilon_mapper.rs  | 4 +---
 rustfst/src/algorithms/tr_mappers/output_epsilon_mapper.rs | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/rustfst/src/algorithms/tr_mappers/input_epsilon_mapper.rs b/rustfst/src/algorithms/tr_mappers/input_epsilon_mapper.rs
index 136c858..dfa682d 100644
--- a/rustfst/src/algorithms/tr_mappers/input_epsilon_mapper.rs
+++ b/rustfst/src/algorithms/tr_mappers/input_epsilon_mapper.rs
@@ -24,9 +24,7 @@ impl<S: Semiring> TrMapper<S> for InputEpsilonMapper {
     }
 
     fn properties(&self, inprops: FstProperties) -> FstProperties {
-        (inprops & FstProperties::set_arc_properties())
-            | FstProperties::I_EPSILONS
-            | FstProperties::I_LABEL_SORTED
+        (inprops & FstProperties::set_arc_properties()) | FstProperties::I_LABEL_SORTED
     }
 }
 
diff --git a/rustfst/src/algorithms/tr_mappers/output_epsilon_mapper.rs b/rustfst/src/algorithms/tr_mappers/output_epsilon_mapper.rs
index 42e4ac4..73fe89a 100644
--- a/rustfst/src/algorithms/tr_mappers/output_epsilon_mapper.rs
+++ b/rustfst/src/algorithms/tr_mappers/output_epsilon_mapper.rs
@@ -24,9 +24,7 @@ impl<S: Semiring> TrMapper<S> for OutputEpsilonMapper {
     }
 
     fn properties(&self, inprops: FstProperties) -> FstProperties {
-        (inprops & FstProperties::set_arc_properties())
-            | FstProperties::O_EPSILONS
-            | FstProperties::O_LABEL_SORTED
+        (inprops & FstProperties::set_arc_properties()) | FstProperties::O_LABEL_SORTED
     }
 }
 
-- 
2.43.0


From 60e10939618b5c4918bb6cbd64b34d53be265d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:23 +0000
Subject: [PATCH 45/57] fix: exit with a failure status when a command of the
 CLI fails

---
 rustfst-cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst-cli/src/main.rs b/rustfst-cli/src/main.rs
index 1311e09..3bf5b98 100644
--- a/rustfst-cli/src/main.rs
+++ b/rustfst-cli/src/main.rs
@@ -202,7 +202,7 @@ fn main() {
 
     if let Err(e) = handle(matches) {
         error!("{:?}", e);
-        process::exit(exitcode::OK)
+        process::exit(exitcode::SOFTWARE)
     }
 }
 
-- 
2.43.0


From df8eb4f1945b22e85d00ce51ff6c41211f55fe03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:34 +0000
Subject: [PATCH 46/57] fix: run the CLI benchmark only when --bench is given

---
 rustfst-cli/src/binary_fst_algorithm.rs | 2 +-
 rustfst-cli/src/main.rs                 | 2 +-
 rustfst-cli/src/unary_fst_algorithm.rs  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/rustfst-cli/src/binary_fst_algorithm.rs b/rustfst-cli/src/binary_fst_algorithm.rs
index c7c5835..6298139 100644
--- a/rustfst-cli/src/binary_fst_algorithm.rs
+++ b/rustfst-cli/src/binary_fst_algorithm.rs
@@ -46,7 +46,7 @@ pub trait BinaryFstAlgorithm {
     }
 
     fn run_cli_or_bench(&self, m: &ArgMatches) -> Result<()> {
-        if m.contains_id("bench") {
+        if m.get_flag("bench") {
             // Run bench
             self.run_bench(
                 m.get_one::<String>("n_warm_ups").unwrap().parse().unwrap(),
diff --git a/rustfst-cli/src/main.rs b/rustfst-cli/src/main.rs
index 3bf5b98..d9274da 100644
--- a/rustfst-cli/src/main.rs
+++ b/rustfst-cli/src/main.rs
@@ -364,7 +364,7 @@ fn two_in_one_out_options(command: Command) -> clap::Command {
         Arg::new("bench")
             .long("bench")
             .help("Whether to run multiple times the algorithm in order to have a reliable time measurement.")
-            .action(ArgAction::Set)
+            .action(ArgAction::SetTrue)
     ).arg(
         Arg::new("n_iters")
             .long("n_iters")
diff --git a/rustfst-cli/src/unary_fst_algorithm.rs b/rustfst-cli/src/unary_fst_algorithm.rs
index 5abd77a..e5a4797 100644
--- a/rustfst-cli/src/unary_fst_algorithm.rs
+++ b/rustfst-cli/src/unary_fst_algorithm.rs
@@ -38,7 +38,7 @@ pub trait UnaryFstAlgorithm {
     }
 
     fn run_cli_or_bench(&self, m: &ArgMatches) -> Result<()> {
-        if m.contains_id("bench") {
+        if m.get_flag("bench") {
             // Run bench
             self.run_bench(
                 m.get_one::<String>("n_warm_ups").unwrap().parse().unwrap(),
-- 
2.43.0


From cc220b53ca4322c3fa4c3c9acddaa98b18915a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:42 +0000
Subject: [PATCH 47/57] fix: transition iterators of the bindings return no
 transition past the end

---
 rustfst-ffi/src/iterators.rs        | 8 ++++----
 rustfst-python/rustfst/iterators.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/rustfst-ffi/src/iterators.rs b/rustfst-ffi/src/iterators.rs
index 6130cfd..9d1a51f 100644
--- a/rustfst-ffi/src/iterators.rs
+++ b/rustfst-ffi/src/iterators.rs
@@ -69,7 +69,7 @@ pub unsafe extern "C" fn trs_iterator_new(
 #[no_mangle]
 pub unsafe extern "C" fn trs_iterator_next(
     iter_ptr: *mut CTrsIterator,
-    mut tr_ptr: *mut *const CTr,
+    tr_ptr: *mut *const CTr,
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
         let trs_iter = get_mut!(CTrsIterator, iter_ptr);
@@ -81,7 +81,7 @@ pub unsafe extern "C" fn trs_iterator_next(
                 Ok(())
             })
             .unwrap_or_else(|| -> Result<()> {
-                tr_ptr = std::ptr::null_mut();
+                unsafe { *tr_ptr = std::ptr::null() };
                 Ok(())
             })?;
 
@@ -236,7 +236,7 @@ pub unsafe extern "C" fn mut_trs_iterator_next(
 #[no_mangle]
 pub unsafe extern "C" fn mut_trs_iterator_value(
     iter_ptr: *mut CMutTrsIterator,
-    mut tr_ptr: *mut *const CTr,
+    tr_ptr: *mut *const CTr,
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
         let trs_iter = get_mut!(CMutTrsIterator, iter_ptr);
@@ -248,7 +248,7 @@ pub unsafe extern "C" fn mut_trs_iterator_value(
                 Ok(())
             })
             .unwrap_or_else(|| -> Result<()> {
-                tr_ptr = std::ptr::null_mut();
+                unsafe { *tr_ptr = std::ptr::null() };
                 Ok(())
             })?;
         Ok(())
diff --git a/rustfst-python/rustfst/iterators.py b/rustfst-python/rustfst/iterators.py
index e8acd2e..22d0901 100644
--- a/rustfst-python/rustfst/iterators.py
+++ b/rustfst-python/rustfst/iterators.py
@@ -51,7 +51,7 @@ class TrsIterator:
         err_msg = "`next` failed"
         check_ffi_error(ret_code, err_msg)
 
-        if tr_ptr is None:
+        if not tr_ptr:
             return None
 
         return Tr(tr_ptr)
@@ -149,7 +149,7 @@ class MutableTrsIterator:
         err_msg = "`value` failed"
         check_ffi_error(ret_code, err_msg)
 
-        if tr_ptr is None:
+        if not tr_ptr:
             return None
 
         return Tr(tr_ptr)
-- 
2.43.0


From 5d259b578106268e2046a4773f6c47f1f3a348c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:53 +0000
Subject: [PATCH 48/57] fix: the C interface reports panics as errors instead
 of aborting

---
 rustfst-ffi/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rustfst-ffi/src/lib.rs b/rustfst-ffi/src/lib.rs
index 189262d..90173c4 100644
--- a/rustfst-ffi/src/lib.rs
+++ b/rustfst-ffi/src/lib.rs
@@ -41,7 +41,10 @@ thread_local! {
 }
 
 pub fn wrap<F: FnOnce() -> Result<()>>(func: F) -> RUSTFST_FFI_RESULT {
-    match func() {
+    // A panic must not unwind into the caller: report it as an error.
+    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(func))
+        .unwrap_or_else(|_| Err(anyhow::anyhow!("The operation panicked")));
+    match res {
         Ok(_) => RUSTFST_FFI_RESULT::RUSTFST_FFI_RESULT_OK,
         Err(e) => {
             let msg = format!("{:#?}", e);
-- 
2.43.0


From 9364fb6ebc5c03ed48a558b350c23726c3b6ada5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:02 +0000
Subject: [PATCH 49/57] fix: Python Trs.shallow_clone passes a valid
 destination

---
 rustfst-python/rustfst/trs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst-python/rustfst/trs.py b/rustfst-python/rustfst/trs.py
index f9ee386..91a3808 100755
--- a/rustfst-python/rustfst/trs.py
+++ b/rustfst-python/rustfst/trs.py
@@ -57,7 +57,7 @@ class Trs:
 
     def shallow_clone(self) -> Trs:
         new_trs_ptr = c_void_p()
-        exit_code = lib.trs_vec_shallow_clone(self._ptr, new_trs_ptr)
+        exit_code = lib.trs_vec_shallow_clone(self._ptr, byref(new_trs_ptr))
         err_msg = "Something went wrong when cloning Trs"
         check_ffi_error(exit_code, err_msg)
 
-- 
2.43.0


From f2c797e1320e16a92782d4b78c44e2c774921bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:03 +0000
Subject: [PATCH 50/57] fix: report an error when iterating the transitions of
 an unknown state

---
 rustfst-ffi/src/iterators.rs        | 34 +++++++++--------------------
 rustfst-python/rustfst/iterators.py |  6 +++--
 2 files changed, 14 insertions(+), 26 deletions(-)

diff --git a/rustfst-ffi/src/iterators.rs b/rustfst-ffi/src/iterators.rs
index 9d1a51f..ac4190e 100644
--- a/rustfst-ffi/src/iterators.rs
+++ b/rustfst-ffi/src/iterators.rs
@@ -44,21 +44,14 @@ pub struct CTrsIterator(pub(crate) TrsIterator);
 pub unsafe extern "C" fn trs_iterator_new(
     fst_ptr: *mut CFst,
     state_id: CStateId,
-    mut iter_ptr: *mut *const CTrsIterator,
+    iter_ptr: *mut *const CTrsIterator,
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
         let fst = get!(CFst, fst_ptr);
-        fst.fst_get_trs(state_id)
-            .map(|trs| {
-                let raw_ptr = {
-                    let trs_iterator = TrsIterator { trs, index: 0 };
-                    CTrsIterator(trs_iterator).into_raw_pointer()
-                };
-
-                unsafe { *iter_ptr = raw_ptr };
-            })
-            .unwrap_or_else(|_| iter_ptr = std::ptr::null_mut());
-
+        let trs = fst.fst_get_trs(state_id)?;
+        let trs_iterator = TrsIterator { trs, index: 0 };
+        let raw_ptr = CTrsIterator(trs_iterator).into_raw_pointer();
+        unsafe { *iter_ptr = raw_ptr };
         Ok(())
     })
 }
@@ -197,21 +190,14 @@ impl<'a> RawPointerConverter<CMutTrsIterator<'a>> for CMutTrsIterator<'a> {
 pub unsafe extern "C" fn mut_trs_iterator_new(
     fst_ptr: *mut CVecFst,
     state_id: CStateId,
-    mut iter_ptr: *mut *const CMutTrsIterator,
+    iter_ptr: *mut *const CMutTrsIterator,
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
         let fst = get_mut!(CVecFst, fst_ptr);
-        fst.tr_iter_mut(state_id)
-            .map(|trs| {
-                let raw_ptr = {
-                    let trs_iterator = MutTrsIterator { trs, index: 0 };
-                    CMutTrsIterator(trs_iterator).into_raw_pointer()
-                };
-
-                unsafe { *iter_ptr = raw_ptr };
-            })
-            .unwrap_or_else(|_| iter_ptr = std::ptr::null_mut());
-
+        let trs = fst.tr_iter_mut(state_id)?;
+        let trs_iterator = MutTrsIterator { trs, index: 0 };
+        let raw_ptr = CMutTrsIterator(trs_iterator).into_raw_pointer();
+        unsafe { *iter_ptr = raw_ptr };
         Ok(())
     })
 }
diff --git a/rustfst-python/rustfst/iterators.py b/rustfst-python/rustfst/iterators.py
index 22d0901..8969baa 100644
--- a/rustfst-python/rustfst/iterators.py
+++ b/rustfst-python/rustfst/iterators.py
@@ -74,7 +74,8 @@ class TrsIterator:
         return f"<TrsIterator at 0x{id(self):x}>"
 
     def __del__(self):
-        lib.trs_iterator_destroy(self._ptr)
+        if hasattr(self, "_ptr"):
+            lib.trs_iterator_destroy(self._ptr)
 
 
 class MutableTrsIterator:
@@ -163,7 +164,8 @@ class MutableTrsIterator:
         return f"<MutableTrsIterator at 0x{id(self):x}>"
 
     def __del__(self):
-        lib.mut_trs_iterator_destroy(self._ptr)
+        if hasattr(self, "_ptr"):
+            lib.mut_trs_iterator_destroy(self._ptr)
 
 
 class StateIterator:
-- 
2.43.0


From 093b2f58457d7bb5da7e8a0a6b8a9e5c61a6f0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:13 +0000
Subject: [PATCH 51/57] fix: Python start and final return None when there is
 no start state or final weight

---
 rustfst-python/rustfst/fst/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rustfst-python/rustfst/fst/__init__.py b/rustfst-python/rustfst/fst/__init__.py
index 9a05b8b..6601db8 100644
--- a/rustfst-python/rustfst/fst/__init__.py
+++ b/rustfst-python/rustfst/fst/__init__.py
@@ -31,7 +31,8 @@ class Fst:
         err_msg = "Error getting start state"
         check_ffi_error(ret_code, err_msg)
 
-        if start is None:
+        # `start` is left untouched when there is no start state.
+        if start.value == 0 and not self.is_start(0):
             return None
         return int(start.value)
 
@@ -45,6 +46,9 @@ class Fst:
         Raises:
           Exception: If State index out of range.
         """
+        if not self.is_final(state):
+            return None
+
         state = ctypes.c_size_t(state)
         weight = ctypes.c_float()
 
@@ -52,9 +56,6 @@ class Fst:
         err_msg = "Error getting final weight"
         check_ffi_error(ret_code, err_msg)
 
-        if weight is None:
-            return None
-
         return weight.value
 
     def num_trs(self, state: int) -> int:
-- 
2.43.0


From ca776e97bea261643fcbaf1b99de95cd224b9770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:23 +0000
Subject: [PATCH 52/57] fix: Python top_sort and rm_epsilon return the modified
 Fst

---
 rustfst-python/rustfst/algorithms/rm_epsilon.py | 6 ++----
 rustfst-python/rustfst/algorithms/top_sort.py   | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/rustfst-python/rustfst/algorithms/rm_epsilon.py b/rustfst-python/rustfst/algorithms/rm_epsilon.py
index 9738689..48372d2 100644
--- a/rustfst-python/rustfst/algorithms/rm_epsilon.py
+++ b/rustfst-python/rustfst/algorithms/rm_epsilon.py
@@ -1,5 +1,4 @@
 from __future__ import annotations
-import ctypes
 from rustfst.ffi_utils import (
     lib,
     check_ffi_error,
@@ -16,9 +15,8 @@ def rm_epsilon(fst: VectorFst):
     :return: Fst
     """
 
-    rm_epsilon_fst = ctypes.c_void_p()
-    ret_code = lib.fst_rm_epsilon(fst.ptr, ctypes.byref(rm_epsilon_fst))
+    ret_code = lib.fst_rm_epsilon(fst.ptr)
     err_msg = "Error during rm_epsilon"
     check_ffi_error(ret_code, err_msg)
 
-    return VectorFst(ptr=rm_epsilon_fst)
+    return fst
diff --git a/rustfst-python/rustfst/algorithms/top_sort.py b/rustfst-python/rustfst/algorithms/top_sort.py
index cdbf1c3..e2ef788 100644
--- a/rustfst-python/rustfst/algorithms/top_sort.py
+++ b/rustfst-python/rustfst/algorithms/top_sort.py
@@ -1,5 +1,4 @@
 from __future__ import annotations
-import ctypes
 from rustfst.ffi_utils import (
     lib,
     check_ffi_error,
@@ -28,9 +27,8 @@ def top_sort(fst: VectorFst) -> VectorFst:
         Equivalent top sorted Fst. Modification also happens in-place.
     """
 
-    top_sorted_fst = ctypes.c_void_p()
-    ret_code = lib.fst_top_sort(fst.ptr, ctypes.byref(top_sorted_fst))
+    ret_code = lib.fst_top_sort(fst.ptr)
     err_msg = "Error during top_sort"
     check_ffi_error(ret_code, err_msg)
 
-    return VectorFst(ptr=top_sorted_fst)
+    return fst
-- 
2.43.0


From 878c0403823ff2466e746e17ef5ee06613f6160b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:00 +0000
Subject: [PATCH 53/57] fix: Python project updates the cached symbol tables

---
 rustfst-python/rustfst/algorithms/project.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rustfst-python/rustfst/algorithms/project.py b/rustfst-python/rustfst/algorithms/project.py
index 75926cb..aa758e2 100644
--- a/rustfst-python/rustfst/algorithms/project.py
+++ b/rustfst-python/rustfst/algorithms/project.py
@@ -45,6 +45,12 @@ def project(fst: VectorFst, proj_type: ProjectType) -> VectorFst:
     err_msg = "Error during projection"
     check_ffi_error(ret_code, err_msg)
 
+    # Necessary because the symts are cached on the python side.
+    if proj_type == ProjectType.PROJECT_INPUT:
+        fst._output_symbols = fst._input_symbols
+    else:
+        fst._input_symbols = fst._output_symbols
+
     return fst
 
 
-- 
2.43.0


From 3edc95c6f14016a5dc229d0f5bb6197e6e594fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:09 +0000
Subject: [PATCH 54/57] fix: Python reverse and shortest_path results can be
 passed to replace

---
 rustfst-python/rustfst/algorithms/reverse.py       | 2 +-
 rustfst-python/rustfst/algorithms/shortest_path.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/rustfst-python/rustfst/algorithms/reverse.py b/rustfst-python/rustfst/algorithms/reverse.py
index 12fcbb4..a4be739 100644
--- a/rustfst-python/rustfst/algorithms/reverse.py
+++ b/rustfst-python/rustfst/algorithms/reverse.py
@@ -16,7 +16,7 @@ def reverse(fst: VectorFst):
     :return: Fst
     """
 
-    reversed_fst = ctypes.c_void_p()
+    reversed_fst = ctypes.pointer(ctypes.c_void_p())
     ret_code = lib.fst_reverse(fst.ptr, ctypes.byref(reversed_fst))
     err_msg = "Error during reverse"
     check_ffi_error(ret_code, err_msg)
diff --git a/rustfst-python/rustfst/algorithms/shortest_path.py b/rustfst-python/rustfst/algorithms/shortest_path.py
index 74b0854..04abd6f 100644
--- a/rustfst-python/rustfst/algorithms/shortest_path.py
+++ b/rustfst-python/rustfst/algorithms/shortest_path.py
@@ -34,7 +34,7 @@ def shortestpath(fst: VectorFst) -> VectorFst:
     :return: Fst
     """
 
-    shortest_path = ctypes.c_void_p()
+    shortest_path = ctypes.pointer(ctypes.c_void_p())
     ret_code = lib.fst_shortest_path(fst.ptr, ctypes.byref(shortest_path))
     err_msg = "Error computing shortest path"
     check_ffi_error(ret_code, err_msg)
@@ -51,7 +51,7 @@ def shortestpath_with_config(fst: VectorFst, config: ShortestPathConfig) -> Vect
     :return: Fst
     """
 
-    shortest_path = ctypes.c_void_p()
+    shortest_path = ctypes.pointer(ctypes.c_void_p())
 
     ret_code = lib.fst_shortest_path_with_config(
         fst.ptr, config.ptr, ctypes.byref(shortest_path)
-- 
2.43.0


From e39ae59be671f4eeeb84aaed9bf7cc8a05cf13d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:20 +0000
Subject: [PATCH 55/57] fix: drawing through the C interface leaves the symbol
 tables of the fst unchanged

---
 rustfst-ffi/src/fst/const_fst.rs  | 5 +++--
 rustfst-ffi/src/fst/vector_fst.rs | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/rustfst-ffi/src/fst/const_fst.rs b/rustfst-ffi/src/fst/const_fst.rs
index dc0a438..afb77e0 100644
--- a/rustfst-ffi/src/fst/const_fst.rs
+++ b/rustfst-ffi/src/fst/const_fst.rs
@@ -97,8 +97,9 @@ pub unsafe fn const_fst_draw(
     print_weight: libc::size_t,
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
-        let fst = get_mut!(CFst, fst_ptr);
-        let const_fst = as_mut_fst!(ConstFst<TropicalWeight>, fst);
+        let fst = get!(CFst, fst_ptr);
+        // The symbol tables only serve the drawing: the fst itself is left unchanged.
+        let mut const_fst = as_fst!(ConstFst<TropicalWeight>, fst).clone();
 
         if !isyms.is_null() {
             let isymt = get!(CSymbolTable, isyms);
diff --git a/rustfst-ffi/src/fst/vector_fst.rs b/rustfst-ffi/src/fst/vector_fst.rs
index 7fd7e9b..6878a3a 100644
--- a/rustfst-ffi/src/fst/vector_fst.rs
+++ b/rustfst-ffi/src/fst/vector_fst.rs
@@ -205,8 +205,9 @@ pub unsafe fn vec_fst_draw(
     print_weight: libc::size_t,
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
-        let fst = get_mut!(CFst, fst_ptr);
-        let vec_fst = as_mut_fst!(VectorFst<TropicalWeight>, fst);
+        let fst = get!(CFst, fst_ptr);
+        // The symbol tables only serve the drawing: the fst itself is left unchanged.
+        let mut vec_fst = as_fst!(VectorFst<TropicalWeight>, fst).clone();
 
         if !isyms.is_null() {
             let isymt = get!(CSymbolTable, isyms);
-- 
2.43.0


From d79efc9449b6eb3f088de12090a0a4359325b5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:38 +0000
Subject: [PATCH 56/57] fix: the multi-epsilon matcher lost labels when it had
 more than one

---
 rustfst/src/algorithms/compose/matchers/multi_eps_matcher.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rustfst/src/algorithms/compose/matchers/multi_eps_matcher.rs b/rustfst/src/algorithms/compose/matchers/multi_eps_matcher.rs
index 4f29eaf..889ed6d 100644
--- a/rustfst/src/algorithms/compose/matchers/multi_eps_matcher.rs
+++ b/rustfst/src/algorithms/compose/matchers/multi_eps_matcher.rs
@@ -105,7 +105,7 @@ where
                     }
                     if *pos_labels < multi_eps_labels.len() {
                         self.done = false;
-                        res
+                        matcher_iter.next()
                     } else {
                         *matcher_iter = self
                             .matcher
@@ -311,7 +311,7 @@ impl<K: Copy + Ord> CompactSet<K> {
         if self.min_key == self.no_key || key < self.min_key {
             self.min_key = key;
         }
-        if self.max_key == self.no_key || self.max_key > key {
+        if self.max_key == self.no_key || self.max_key < key {
             self.max_key = key;
         }
     }
-- 
2.43.0


From 40842b6f8ac53a496e4dfc871dc5d108463d879c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:10 +0000
Subject: [PATCH 57/57] fix: escape quotes and backslashes in drawings

---
 rustfst/src/fst_traits/serializable_fst.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/rustfst/src/fst_traits/serializable_fst.rs b/rustfst/src/fst_traits/serializable_fst.rs
index ed733e7..21415b6 100644
--- a/rustfst/src/fst_traits/serializable_fst.rs
+++ b/rustfst/src/fst_traits/serializable_fst.rs
@@ -103,7 +103,7 @@ pub trait SerializableFst<W: SerializableSemiring>: ExpandedFst<W> {
                 writeln!(f, "size = \"{},{}\";", width, height)?;
             }
 
-            writeln!(f, "label = \"{}\";", config.title)?;
+            writeln!(f, "label = \"{}\";", config.title.replace('"', "\\\""))?;
             writeln!(f, "center = 1;")?;
 
             if config.portrait {
@@ -136,6 +136,11 @@ pub trait SerializableFst<W: SerializableSemiring>: ExpandedFst<W> {
     }
 }
 
+/// Escapes the characters that have a meaning inside a quoted string of the DOT language.
+fn escape_dot(symbol: &str) -> String {
+    symbol.replace('\\', "\\\\").replace('"', "\\\"")
+}
+
 fn draw_single_fst_state<S: SerializableSemiring, F: SerializableFst<S>, W: Write>(
     fst: &F,
     writer: &mut W,
@@ -185,9 +190,9 @@ fn draw_single_fst_state<S: SerializableSemiring, F: SerializableFst<S>, W: Writ
             },
         )?;
 
-        write!(writer, " [label = \"{}", ilabel)?;
+        write!(writer, " [label = \"{}", escape_dot(&ilabel))?;
         if !config.acceptor {
-            write!(writer, ":{}", olabel)?;
+            write!(writer, ":{}", escape_dot(&olabel))?;
         }
 
         if config.print_weight && (config.show_weight_one || !tr.weight.is_one()) {
-- 
2.43.0

