From 1b2a94ed00f7073b3a592061e2e4ad622761622f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:18 +0000
Subject: [PATCH 01/10] fix: Allocation::from_bits asserted that the kind bits
 are invalid

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5eab7d3..4c78c99 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1189,7 +1189,7 @@ impl Allocation {
     /// Construct an allocation from its packed encoding.
     #[inline(always)]
     pub fn from_bits(bits: u32) -> Self {
-        debug_assert!(bits >> 29 >= 5);
+        debug_assert!(bits >> 29 <= AllocationKind::Stack as u32);
         Self { bits }
     }
 }
-- 
2.43.0


From c8e3c175d9bd3c8189bcf35417e69bfc266c1770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:18 +0000
Subject: [PATCH 02/10] fix: PRegSet::add_up_to dropped registers already in
 the set

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4c78c99..74eda3c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -310,7 +310,7 @@ impl PRegSet {
         for i in 0..index {
             self.bits[i] = !0;
         }
-        self.bits[index] = (1 << bit) - 1;
+        self.bits[index] |= (1 << bit) - 1;
     }
 }
 
-- 
2.43.0


From b8bff34a9b88f1da0e91af80cb385f507bff0bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:18 +0000
Subject: [PATCH 03/10] fix: checker kept the old value of a move's destination
 when its source is undefined

---
 src/checker.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/checker.rs b/src/checker.rs
index 58719e6..e5f9cac 100644
--- a/src/checker.rs
+++ b/src/checker.rs
@@ -559,6 +559,9 @@ impl CheckerState {
                         val
                     );
                     self.set_value(into, val);
+                } else {
+                    // The destination was overwritten with an unknown value.
+                    self.remove_value(&into);
                 }
             }
             &CheckerInst::ParallelMove { ref moves } => {
-- 
2.43.0


From 3cc550b7a9772a28db35c15a8d3b81f663c53d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:18 +0000
Subject: [PATCH 04/10] fix: checker skipped the late defs of instructions that
 reuse an input

---
 src/checker.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/checker.rs b/src/checker.rs
index e5f9cac..f47936d 100644
--- a/src/checker.rs
+++ b/src/checker.rs
@@ -488,10 +488,6 @@ impl CheckerState {
                 let has_reused_input = operands
                     .iter()
                     .any(|op| matches!(op.constraint(), OperandConstraint::Reuse(_)));
-                if has_reused_input && pos == InstPosition::After {
-                    return Ok(());
-                }
-
                 // For each operand, check (i) that the allocation
                 // contains the expected vreg, and (ii) that it meets
                 // the requirements of the OperandConstraint.
@@ -504,6 +500,12 @@ impl CheckerState {
                     if !is_here {
                         continue;
                     }
+                    if has_reused_input
+                        && pos == InstPosition::After
+                        && op.kind() == OperandKind::Use
+                    {
+                        continue;
+                    }
 
                     let val = self.get_value(alloc).unwrap_or(&default_val);
                     trace!(
-- 
2.43.0


From ad8c581a347755434fbb08a19263bc660eff582f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:18 +0000
Subject: [PATCH 05/10] fix: checker accepted memory locations for reused and
 limited registers

---
 src/checker.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/checker.rs b/src/checker.rs
index f47936d..d393737 100644
--- a/src/checker.rs
+++ b/src/checker.rs
@@ -669,8 +669,9 @@ impl CheckerState {
                 }
             }
             OperandConstraint::Reuse(idx) => {
-                if alloc.kind() != AllocationKind::Reg {
-                    return Err(CheckerError::AllocationIsNotReg { inst, op, alloc });
+                match alloc.as_reg() {
+                    Some(preg) if !checker.stack_pregs.contains(preg) => {}
+                    _ => return Err(CheckerError::AllocationIsNotReg { inst, op, alloc }),
                 }
                 if alloc != allocs[idx] {
                     return Err(CheckerError::AllocationIsNotReuse {
@@ -682,15 +683,17 @@ impl CheckerState {
                 }
             }
             OperandConstraint::Limit(max) => {
-                if let Some(preg) = alloc.as_reg() {
-                    if preg.hw_enc() >= max {
-                        return Err(CheckerError::AllocationOutsideLimit {
-                            inst,
-                            op,
-                            alloc,
-                            range: (0..max),
-                        });
-                    }
+                let preg = match alloc.as_reg() {
+                    Some(preg) if !checker.stack_pregs.contains(preg) => preg,
+                    _ => return Err(CheckerError::AllocationIsNotReg { inst, op, alloc }),
+                };
+                if preg.hw_enc() >= max {
+                    return Err(CheckerError::AllocationOutsideLimit {
+                        inst,
+                        op,
+                        alloc,
+                        range: (0..max),
+                    });
                 }
             }
         }
-- 
2.43.0


From 5d3c7448a178024345e74c9b9a5b99cf0cc1796e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:17 +0000
Subject: [PATCH 06/10] fix: checker skipped every late use of an instruction
 that reuses an input

Only the reused input itself is overwritten before the After point; the
other late uses of the instruction must still be checked there.
---
 src/checker.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/checker.rs b/src/checker.rs
index d393737..4faa35d 100644
--- a/src/checker.rs
+++ b/src/checker.rs
@@ -482,17 +482,21 @@ impl CheckerState {
                 ref allocs,
                 ..
             } => {
-                // Skip Use-checks at the After point if there are any
-                // reused inputs: the Def which reuses the input
-                // happens early.
-                let has_reused_input = operands
-                    .iter()
-                    .any(|op| matches!(op.constraint(), OperandConstraint::Reuse(_)));
                 // For each operand, check (i) that the allocation
                 // contains the expected vreg, and (ii) that it meets
                 // the requirements of the OperandConstraint.
-                for (op, alloc) in operands.iter().zip(allocs.iter()) {
-                    let is_here = match (op.pos(), pos) {
+                for (i, (op, alloc)) in operands.iter().zip(allocs.iter()).enumerate() {
+                    // A reused input is overwritten by the def that
+                    // reuses it, so it is always checked Before.
+                    let is_reused = operands
+                        .iter()
+                        .any(|op| op.constraint() == OperandConstraint::Reuse(i));
+                    let op_pos = if is_reused && op.kind() == OperandKind::Use {
+                        OperandPos::Early
+                    } else {
+                        op.pos()
+                    };
+                    let is_here = match (op_pos, pos) {
                         (OperandPos::Early, InstPosition::Before) => true,
                         (OperandPos::Late, InstPosition::After) => true,
                         _ => false,
@@ -500,12 +504,6 @@ impl CheckerState {
                     if !is_here {
                         continue;
                     }
-                    if has_reused_input
-                        && pos == InstPosition::After
-                        && op.kind() == OperandKind::Use
-                    {
-                        continue;
-                    }
 
                     let val = self.get_value(alloc).unwrap_or(&default_val);
                     trace!(
-- 
2.43.0


From e5dcd7c7c75d84b44e73c3de59538c7aeeab1664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:31 +0000
Subject: [PATCH 07/10] fix: fastalloc stores a defined value to its spillslot
 from where it is defined

When a vreg is kept in a register after the defining instruction but the
definition itself is constrained to the spillslot (or another location), the
store to the spillslot read the register before the move from the definition
had filled it, overwriting the just-defined value.
---
 src/fastalloc/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fastalloc/mod.rs b/src/fastalloc/mod.rs
index 91fdaa7..aaa1620 100644
--- a/src/fastalloc/mod.rs
+++ b/src/fastalloc/mod.rs
@@ -1114,8 +1114,12 @@ impl<'a, F: Function> Env<'a, F> {
             self.vreg_to_live_inst_range[op.vreg().vreg()].2 = Allocation::stack(slot);
             let curr_alloc = self.vreg_allocs[op.vreg().vreg()];
             let new_alloc = Allocation::stack(self.vreg_spillslots[op.vreg().vreg()]);
-            if curr_alloc != new_alloc {
-                self.add_move(inst, curr_alloc, new_alloc, op.class(), InstPosition::After)?;
+            // The value is stored from the allocation the instruction defines it
+            // in: when that isn't `curr_alloc`, the move from it to `curr_alloc`
+            // is only executed after this one.
+            let def_alloc = self.allocs[(inst.index(), op_idx)];
+            if curr_alloc != new_alloc && def_alloc != new_alloc {
+                self.add_move(inst, def_alloc, new_alloc, op.class(), InstPosition::After)?;
             }
         }
         self.vreg_to_live_inst_range[op.vreg().vreg()].0 = ProgPoint::after(inst);
-- 
2.43.0


From b0e0aa183ad1efe26130efd45fd9aa1ea97a0f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:34 +0000
Subject: [PATCH 08/10] fix: fastalloc sorts debug locations by program point
 within a label

---
 src/fastalloc/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastalloc/mod.rs b/src/fastalloc/mod.rs
index aaa1620..e4ba96e 100644
--- a/src/fastalloc/mod.rs
+++ b/src/fastalloc/mod.rs
@@ -1554,7 +1554,7 @@ impl<'a, F: Function> Env<'a, F> {
                     .push((label, point_start, point_end, alloc));
             }
         }
-        self.debug_locations.sort_by_key(|loc| loc.0);
+        self.debug_locations.sort_unstable();
     }
 
     fn run(&mut self) -> Result<(), RegAllocError> {
-- 
2.43.0


From d4f6271360a573ea524a8d7a1aaa2370eec07038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:59 +0000
Subject: [PATCH 09/10] fix: report a use of a value beyond num_vregs as an SSA
 error instead of panicking

---
 src/ssa.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ssa.rs b/src/ssa.rs
index 29a82cf..41c1f53 100644
--- a/src/ssa.rs
+++ b/src/ssa.rs
@@ -61,7 +61,10 @@ pub fn validate_ssa<F: Function>(f: &F, cfginfo: &CFGInfo) -> Result<(), RegAllo
 
                 match operand.kind() {
                     OperandKind::Use => {
-                        let def_block = defined_in[operand.vreg().vreg()];
+                        let def_block = defined_in
+                            .get(operand.vreg().vreg())
+                            .copied()
+                            .unwrap_or(Block::invalid());
                         let okay = def_block.is_valid()
                             && if def_block == block {
                                 local.contains(&operand.vreg())
-- 
2.43.0


From 9bed641cff60d6ee5af0127e65d6fb02ab3ee124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:16 +0000
Subject: [PATCH 10/10] fix: refuse an empty block, which has no terminator

---
 src/cfg.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cfg.rs b/src/cfg.rs
index 5b125f7..05690e5 100644
--- a/src/cfg.rs
+++ b/src/cfg.rs
@@ -78,6 +78,10 @@ impl CFGInfo {
 
         for block in 0..f.num_blocks() {
             let block = Block::new(block);
+            // An empty block has no terminator.
+            if f.block_insns(block).len() == 0 {
+                return Err(RegAllocError::BB(block));
+            }
             for inst in f.block_insns(block).iter() {
                 insn_block[inst.index()] = block;
             }
-- 
2.43.0

