From 41da6d1c486b49773945e7d29ac9ae978138bfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:20 +0000
Subject: [PATCH 01/11] fix: encode EXCHANGE pairs whose second index exceeds
 16

encode_pair only tried the q >= r form when n >= m, but that form also
yields n < m (m = 29 - q). Encodable pairs such as (1, 20) were rejected.
---
 crates/revmc-codegen/src/bytecode/opcode.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/crates/revmc-codegen/src/bytecode/opcode.rs b/crates/revmc-codegen/src/bytecode/opcode.rs
index 6237bc6..25c2bf2 100644
--- a/crates/revmc-codegen/src/bytecode/opcode.rs
+++ b/crates/revmc-codegen/src/bytecode/opcode.rs
@@ -258,12 +258,8 @@ pub fn encode_pair(n: u8, m: u8) -> Option<u8> {
     };
 
     // Case 1: q < r → n = q+1, m = r+1.
-    if n < m {
-        try_k(n - 1, m - 1)
-    } else {
-        // Case 2: q >= r → n = r+1, m = 29-q.
-        if let Some(q) = 29u8.checked_sub(m) { try_k(q, n - 1) } else { None }
-    }
+    // Case 2: q >= r → n = r+1, m = 29-q.
+    try_k(n - 1, m - 1).or_else(|| try_k(29u8.checked_sub(m)?, n - 1))
 }
 
 /// Returns a string representation of the given bytecode.
-- 
2.43.0


From 2a7ee1b8c137336c482d80d38cd84d5170e24f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:43 +0000
Subject: [PATCH 02/11] fix: make the block dedup fingerprint injective

Immediates were encoded with their leading zero bytes stripped and without
a length, so different blocks could share a fingerprint and be merged, e.g.
[JUMPDEST PUSH4 0x00800000 ...] and [JUMPDEST PUSH4 0 DUP1 ...].
---
 crates/revmc-codegen/src/bytecode/passes/dedup.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/crates/revmc-codegen/src/bytecode/passes/dedup.rs b/crates/revmc-codegen/src/bytecode/passes/dedup.rs
index ac0d70d..c1e8ab6 100644
--- a/crates/revmc-codegen/src/bytecode/passes/dedup.rs
+++ b/crates/revmc-codegen/src/bytecode/passes/dedup.rs
@@ -203,11 +203,8 @@ fn block_fingerprint(insts: &IndexVec<Inst, InstData>, block: &BlockData) -> Sma
         let data = &insts[i];
         buf.push(data.opcode);
         if data.imm_len() > 0 {
-            let mut imm = &data.data.to_ne_bytes()[..];
-            while let [0, rest @ ..] = imm {
-                imm = rest;
-            }
-            buf.extend_from_slice(imm);
+            // Fixed width, so that the encoding stays uniquely decodable.
+            buf.extend_from_slice(&data.data.to_ne_bytes());
         }
     }
     buf
-- 
2.43.0


From f4d115d170fddd85cddfe6c2e6a9f5445475b798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:15 +0000
Subject: [PATCH 03/11] hook: include verification harnesses under
 cfg(revmc_verif)

---
 crates/revmc-codegen/src/bytecode/info.rs                | 6 ++++++
 crates/revmc-codegen/src/bytecode/interner.rs            | 6 ++++++
 crates/revmc-codegen/src/bytecode/mod.rs                 | 6 ++++++
 crates/revmc-codegen/src/bytecode/opcode.rs              | 6 ++++++
 .../revmc-codegen/src/bytecode/passes/block_analysis.rs  | 6 ++++++
 crates/revmc-codegen/src/bytecode/passes/const_fold.rs   | 6 ++++++
 .../revmc-codegen/src/bytecode/passes/dead_store_elim.rs | 6 ++++++
 crates/revmc-codegen/src/bytecode/passes/dedup.rs        | 6 ++++++
 .../revmc-codegen/src/bytecode/passes/memory_sections.rs | 6 ++++++
 crates/revmc-codegen/src/bytecode/passes/sections.rs     | 6 ++++++
 crates/revmc-codegen/src/compiler/translate/vstack.rs    | 6 ++++++
 crates/revmc-codegen/src/lib.rs                          | 9 +++++++++
 12 files changed, 75 insertions(+)

diff --git a/crates/revmc-codegen/src/bytecode/info.rs b/crates/revmc-codegen/src/bytecode/info.rs
index 37a443b..a003ee2 100644
--- a/crates/revmc-codegen/src/bytecode/info.rs
+++ b/crates/revmc-codegen/src/bytecode/info.rs
@@ -345,3 +345,9 @@ mod tests {
         assert_eq!(berlin[op::EXTCODESIZE as usize].base_gas(), 100);
     }
 }
+
+#[cfg(revmc_verif)]
+#[allow(missing_docs, unreachable_pub, dead_code)]
+mod verif {
+    include!(concat!(env!("REVMC_VERIF"), "/codegen/info.rs"));
+}
diff --git a/crates/revmc-codegen/src/bytecode/interner.rs b/crates/revmc-codegen/src/bytecode/interner.rs
index 6afb1c3..dd9c268 100644
--- a/crates/revmc-codegen/src/bytecode/interner.rs
+++ b/crates/revmc-codegen/src/bytecode/interner.rs
@@ -110,3 +110,9 @@ mod tests {
         assert_eq!(*interner.get(idx), "test");
     }
 }
+
+#[cfg(revmc_verif)]
+#[allow(missing_docs, unreachable_pub, dead_code)]
+mod verif {
+    include!(concat!(env!("REVMC_VERIF"), "/codegen/interner.rs"));
+}
diff --git a/crates/revmc-codegen/src/bytecode/mod.rs b/crates/revmc-codegen/src/bytecode/mod.rs
index 2b8c5e8..7230f59 100644
--- a/crates/revmc-codegen/src/bytecode/mod.rs
+++ b/crates/revmc-codegen/src/bytecode/mod.rs
@@ -1324,3 +1324,9 @@ mod tests {
         assert!(bc.inst(stale_target).is_dead_code());
     }
 }
+
+#[cfg(revmc_verif)]
+#[allow(missing_docs, unreachable_pub, dead_code)]
+mod verif {
+    include!(concat!(env!("REVMC_VERIF"), "/codegen/bytecode.rs"));
+}
diff --git a/crates/revmc-codegen/src/bytecode/opcode.rs b/crates/revmc-codegen/src/bytecode/opcode.rs
index 25c2bf2..dd4d1b9 100644
--- a/crates/revmc-codegen/src/bytecode/opcode.rs
+++ b/crates/revmc-codegen/src/bytecode/opcode.rs
@@ -385,3 +385,9 @@ mod tests {
         assert!(decode_pair(81).is_some());
     }
 }
+
+#[cfg(revmc_verif)]
+#[allow(missing_docs, unreachable_pub, dead_code)]
+mod verif {
+    include!(concat!(env!("REVMC_VERIF"), "/codegen/opcode.rs"));
+}
diff --git a/crates/revmc-codegen/src/bytecode/passes/block_analysis.rs b/crates/revmc-codegen/src/bytecode/passes/block_analysis.rs
index cb8afa3..cf785fe 100644
--- a/crates/revmc-codegen/src/bytecode/passes/block_analysis.rs
+++ b/crates/revmc-codegen/src/bytecode/passes/block_analysis.rs
@@ -2879,3 +2879,9 @@ mod tests_edge_cases {
         );
     }
 }
+
+#[cfg(revmc_verif)]
+#[allow(missing_docs, unreachable_pub, dead_code)]
+mod verif {
+    include!(concat!(env!("REVMC_VERIF"), "/codegen/block_analysis.rs"));
+}
diff --git a/crates/revmc-codegen/src/bytecode/passes/const_fold.rs b/crates/revmc-codegen/src/bytecode/passes/const_fold.rs
index 1666968..af9eb34 100644
--- a/crates/revmc-codegen/src/bytecode/passes/const_fold.rs
+++ b/crates/revmc-codegen/src/bytecode/passes/const_fold.rs
@@ -602,3 +602,9 @@ mod tests {
         }
     }
 }
+
+#[cfg(revmc_verif)]
+#[allow(missing_docs, unreachable_pub, dead_code)]
+mod verif {
+    include!(concat!(env!("REVMC_VERIF"), "/codegen/const_fold.rs"));
+}
diff --git a/crates/revmc-codegen/src/bytecode/passes/dead_store_elim.rs b/crates/revmc-codegen/src/bytecode/passes/dead_store_elim.rs
index a99975b..0371856 100644
--- a/crates/revmc-codegen/src/bytecode/passes/dead_store_elim.rs
+++ b/crates/revmc-codegen/src/bytecode/passes/dead_store_elim.rs
@@ -1075,3 +1075,9 @@ mod tests {
         );
     }
 }
+
+#[cfg(revmc_verif)]
+#[allow(missing_docs, unreachable_pub, dead_code)]
+mod verif {
+    include!(concat!(env!("REVMC_VERIF"), "/codegen/dead_store_elim.rs"));
+}
diff --git a/crates/revmc-codegen/src/bytecode/passes/dedup.rs b/crates/revmc-codegen/src/bytecode/passes/dedup.rs
index c1e8ab6..ca867df 100644
--- a/crates/revmc-codegen/src/bytecode/passes/dedup.rs
+++ b/crates/revmc-codegen/src/bytecode/passes/dedup.rs
@@ -827,3 +827,9 @@ mod tests {
         );
     }
 }
+
+#[cfg(revmc_verif)]
+#[allow(missing_docs, unreachable_pub, dead_code)]
+mod verif {
+    include!(concat!(env!("REVMC_VERIF"), "/codegen/dedup.rs"));
+}
diff --git a/crates/revmc-codegen/src/bytecode/passes/memory_sections.rs b/crates/revmc-codegen/src/bytecode/passes/memory_sections.rs
index ec00255..86ca9d6 100644
--- a/crates/revmc-codegen/src/bytecode/passes/memory_sections.rs
+++ b/crates/revmc-codegen/src/bytecode/passes/memory_sections.rs
@@ -604,3 +604,9 @@ mod tests {
         assert_eq!(section(&bytecode, mcopy), MemorySection::default());
     }
 }
+
+#[cfg(revmc_verif)]
+#[allow(missing_docs, unreachable_pub, dead_code)]
+mod verif {
+    include!(concat!(env!("REVMC_VERIF"), "/codegen/memory_sections.rs"));
+}
diff --git a/crates/revmc-codegen/src/bytecode/passes/sections.rs b/crates/revmc-codegen/src/bytecode/passes/sections.rs
index 40adb3b..4939625 100644
--- a/crates/revmc-codegen/src/bytecode/passes/sections.rs
+++ b/crates/revmc-codegen/src/bytecode/passes/sections.rs
@@ -352,3 +352,9 @@ mod tests {
         assert_eq!(dupn.stack_io(), (0, 0), "DUPN with invalid immediate must have zero stack I/O");
     }
 }
+
+#[cfg(revmc_verif)]
+#[allow(missing_docs, unreachable_pub, dead_code)]
+mod verif {
+    include!(concat!(env!("REVMC_VERIF"), "/codegen/sections.rs"));
+}
diff --git a/crates/revmc-codegen/src/compiler/translate/vstack.rs b/crates/revmc-codegen/src/compiler/translate/vstack.rs
index b620998..1a43e50 100644
--- a/crates/revmc-codegen/src/compiler/translate/vstack.rs
+++ b/crates/revmc-codegen/src/compiler/translate/vstack.rs
@@ -285,3 +285,9 @@ mod tests {
         assert_eq!(pending.len(), 0);
     }
 }
+
+#[cfg(revmc_verif)]
+#[allow(missing_docs, unreachable_pub, dead_code)]
+mod verif {
+    include!(concat!(env!("REVMC_VERIF"), "/codegen/vstack.rs"));
+}
diff --git a/crates/revmc-codegen/src/lib.rs b/crates/revmc-codegen/src/lib.rs
index 54f1f34..659f5ed 100644
--- a/crates/revmc-codegen/src/lib.rs
+++ b/crates/revmc-codegen/src/lib.rs
@@ -2,10 +2,19 @@
 #![doc = include_str!("../README.md")]
 #![cfg_attr(not(test), warn(unused_extern_crates))]
 #![cfg_attr(docsrs, feature(doc_cfg))]
+#![allow(unexpected_cfgs)] // `revmc_verif`
 
 #[macro_use]
 extern crate tracing;
 
+// Verification harness support, see `REVMC_VERIF`. Never part of a normal build.
+#[cfg(revmc_verif)]
+#[macro_use]
+#[allow(missing_docs, unreachable_pub, dead_code, unused_macros)]
+mod verif_support {
+    include!(concat!(env!("REVMC_VERIF"), "/support.rs"));
+}
+
 use revmc_backend::{eyre, *};
 use revmc_context::*;
 
-- 
2.43.0


From d223fd321b042c7467f810390fb5b7ef2536cb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:03 +0000
Subject: [PATCH 04/11] fix: LOG1..LOG4 memory accesses are offset/len on top
 of the topics

---
 crates/revmc-codegen/src/bytecode/mod.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/crates/revmc-codegen/src/bytecode/mod.rs b/crates/revmc-codegen/src/bytecode/mod.rs
index 7230f59..f4893e9 100644
--- a/crates/revmc-codegen/src/bytecode/mod.rs
+++ b/crates/revmc-codegen/src/bytecode/mod.rs
@@ -710,7 +710,7 @@ impl<'a> Bytecode<'a> {
         let operand =
             |depth| self.const_operand(inst, depth).and_then(|value| u64::try_from(value).ok());
         match data.opcode {
-            op::KECCAK256 | op::RETURN | op::REVERT | op::LOG0 => {
+            op::KECCAK256 | op::RETURN | op::REVERT | op::LOG0..=op::LOG4 => {
                 [Some((operand(0), operand(1))), None]
             }
             op::MLOAD | op::MSTORE => [Some((operand(0), Some(32))), None],
@@ -723,10 +723,6 @@ impl<'a> Bytecode<'a> {
                 Some((operand(0).zip(operand(1)).map(|(dst, src)| dst.max(src)), operand(2))),
                 None,
             ],
-            op::LOG1 => [Some((operand(1), operand(2))), None],
-            op::LOG2 => [Some((operand(2), operand(3))), None],
-            op::LOG3 => [Some((operand(3), operand(4))), None],
-            op::LOG4 => [Some((operand(4), operand(5))), None],
             op::CREATE | op::CREATE2 => [Some((operand(1), operand(2))), None],
             op::CALL | op::CALLCODE => {
                 [Some((operand(3), operand(4))), Some((operand(5), operand(6)))]
-- 
2.43.0


From 669c2407451bcb3981aac21a2efa10964fe1f020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:20 +0000
Subject: [PATCH 05/11] fix: compile PUSH instructions that follow an invalid
 EIP-8024 immediate

---
 crates/revmc-codegen/src/bytecode/mod.rs           | 1 -
 crates/revmc-codegen/src/compiler/translate/mod.rs | 6 +++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/revmc-codegen/src/bytecode/mod.rs b/crates/revmc-codegen/src/bytecode/mod.rs
index f4893e9..6c6358e 100644
--- a/crates/revmc-codegen/src/bytecode/mod.rs
+++ b/crates/revmc-codegen/src/bytecode/mod.rs
@@ -619,7 +619,6 @@ impl<'a> Bytecode<'a> {
 
     /// Returns the value of a PUSH instruction, right-padding truncated EOF immediates with zeros
     /// per EVM spec.
-    #[cfg(test)]
     pub(crate) fn get_push_value(&self, data: &InstData) -> U256 {
         debug_assert!(matches!(data.opcode, op::PUSH0..=op::PUSH32));
         data.imm().get(&self.u256_interner.borrow())
diff --git a/crates/revmc-codegen/src/compiler/translate/mod.rs b/crates/revmc-codegen/src/compiler/translate/mod.rs
index 13f2bb1..046c8c8 100644
--- a/crates/revmc-codegen/src/compiler/translate/mod.rs
+++ b/crates/revmc-codegen/src/compiler/translate/mod.rs
@@ -1093,7 +1093,11 @@ impl<'a, B: Backend> FunctionCx<'a, B> {
             }
 
             op::PUSH0..=op::PUSH32 => {
-                unreachable!("handled in const_output");
+                // Usually handled as a constant output above; the analysis has no snapshot for
+                // instructions following an invalid `DUPN`/`SWAPN`/`EXCHANGE` immediate.
+                let value = self.bytecode.get_push_value(data);
+                let value = self.bcx.iconst_256(value);
+                self.push(value);
             }
 
             op::DUP1..=op::DUP16 => self.dup((opcode - op::DUP1 + 1) as usize),
-- 
2.43.0


From 3371924808d8e15a773a66f64dc9f3d0514e332b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:33 +0000
Subject: [PATCH 06/11] fix: keep jumpdest analysis unchanged by invalid
 EIP-8024 immediates

---
 crates/revmc-codegen/src/bytecode/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/revmc-codegen/src/bytecode/mod.rs b/crates/revmc-codegen/src/bytecode/mod.rs
index 6c6358e..ce0a3a8 100644
--- a/crates/revmc-codegen/src/bytecode/mod.rs
+++ b/crates/revmc-codegen/src/bytecode/mod.rs
@@ -304,12 +304,13 @@ impl<'a> Bytecode<'a> {
 
             // EIP-8024: JUMPDEST analysis is unchanged by DUPN/SWAPN/EXCHANGE. Their
             // immediate byte is NOT masked, so 0x5b in that position is a valid jump
-            // target. When the immediate is 0x5b, rewind the iterator so it is re-yielded
-            // and processed as a normal JUMPDEST by the loop.
+            // target, and a PUSH in that position masks the bytes that follow it. When the
+            // immediate is one of these (all of which are invalid encodings), rewind the
+            // iterator so it is re-yielded and processed as a normal instruction by the loop.
             if matches!(opcode, op::DUPN | op::SWAPN | op::EXCHANGE)
                 && !info.is_unknown()
                 && !info.is_disabled()
-                && immediate == Some(&[op::JUMPDEST])
+                && matches!(immediate, Some(&[op::JUMPDEST | op::PUSH1..=op::PUSH32]))
             {
                 // SAFETY: we just consumed the 1-byte immediate.
                 unsafe { iter.rewind(1) };
-- 
2.43.0


From 9c7ba2bf7dc93c3b49aae311f3bf25cfab7d1ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:21 +0000
Subject: [PATCH 07/11] hook: make the verification harness driver reachable
 under cfg(revmc_verif)

---
 crates/revmc-codegen/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/revmc-codegen/src/lib.rs b/crates/revmc-codegen/src/lib.rs
index 659f5ed..abfc90a 100644
--- a/crates/revmc-codegen/src/lib.rs
+++ b/crates/revmc-codegen/src/lib.rs
@@ -11,7 +11,7 @@ extern crate tracing;
 #[cfg(revmc_verif)]
 #[macro_use]
 #[allow(missing_docs, unreachable_pub, dead_code, unused_macros)]
-mod verif_support {
+pub mod verif_support {
     include!(concat!(env!("REVMC_VERIF"), "/support.rs"));
 }
 
-- 
2.43.0


From ed2e062cf70caaf07bf866cbc5a1487e5012f9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:03 +0000
Subject: [PATCH 08/11] fix: keep analysing blocks that reach below the tracked
 stack

The abstract interpreter clamps entry stacks to MAX_ABS_STACK_DEPTH slots. A
block consuming more slots than are tracked was treated as underflowing and its
outgoing edges were dropped, so its successors could be specialised on the
constants of their other predecessors only.
---
 .../revmc-codegen/src/bytecode/passes/block_analysis.rs  | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/revmc-codegen/src/bytecode/passes/block_analysis.rs b/crates/revmc-codegen/src/bytecode/passes/block_analysis.rs
index cf785fe..99c5587 100644
--- a/crates/revmc-codegen/src/bytecode/passes/block_analysis.rs
+++ b/crates/revmc-codegen/src/bytecode/passes/block_analysis.rs
@@ -1014,7 +1014,16 @@ impl Bytecode<'_> {
                 BlockState::Bottom => continue,
             };
 
+            // The tracked stack may be shorter than the actual one (see `MAX_ABS_STACK_DEPTH`), so
+            // running out of tracked slots does not mean that the block underflows at runtime:
+            // treat the slots below as unknown instead of dropping the block's outgoing edges.
             let block = &self.cfg.blocks[bid];
+            let section =
+                StackSection::from_stack_io(block.insts().map(|i| self.insts[i].stack_io()));
+            if let Some(pad) = (section.inputs as usize).checked_sub(stack_buf.len()) {
+                stack_buf.splice(0..0, std::iter::repeat_n(AbsValue::Top, pad));
+            }
+
             if !self.interpret_block(block.insts(), &mut stack_buf) {
                 continue;
             }
-- 
2.43.0


From af94fd19aed42881bf107c576172b4373bf05b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:07 +0000
Subject: [PATCH 09/11] fix: do not write a stale virtual stack in the suspend
 block

With `inspect_stack`, returning through `build_return_imm` materialized whatever
the last translated instruction had left in the virtual stack into the shared
suspend block, using values that do not dominate it.
---
 crates/revmc-codegen/src/compiler/translate/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/revmc-codegen/src/compiler/translate/mod.rs b/crates/revmc-codegen/src/compiler/translate/mod.rs
index 046c8c8..039ea1b 100644
--- a/crates/revmc-codegen/src/compiler/translate/mod.rs
+++ b/crates/revmc-codegen/src/compiler/translate/mod.rs
@@ -414,7 +414,10 @@ impl<'a, B: Backend> FunctionCx<'a, B> {
                     fx.save_stack_len();
                 }
 
-                fx.build_return_imm(InstructionResult::Stop);
+                // Every suspending site has already materialized its virtual stack, which is not
+                // the one left behind by the last translated instruction.
+                let stop = fx.bcx.iconst(fx.i8_type, InstructionResult::Stop as i64);
+                fx.build_return_inner(stop);
             }
         } else {
             debug_assert!(fx.resume_blocks.is_empty());
-- 
2.43.0


From 86b88c8758168d55171b29969d30607f1014e3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:37 +0000
Subject: [PATCH 10/11] fix: reject a hexadecimal literal without digits in the
 assembler

---
 crates/revmc-codegen/src/bytecode/asm.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/revmc-codegen/src/bytecode/asm.rs b/crates/revmc-codegen/src/bytecode/asm.rs
index 327939f..d5628ac 100644
--- a/crates/revmc-codegen/src/bytecode/asm.rs
+++ b/crates/revmc-codegen/src/bytecode/asm.rs
@@ -122,8 +122,9 @@ impl<'a> Tokenizer<'a> {
         let src = &rest[..end];
         self.advance(end);
         match src.parse::<U256>() {
-            Ok(n) => Token { src, kind: TokenKind::Number(n) },
-            Err(_) => Token { src, kind: TokenKind::Unknown },
+            // A bare `0x` prefix parses as zero, but it is not a number.
+            Ok(n) if src.len() > 2 || !src.ends_with(['x', 'X']) => Token { src, kind: TokenKind::Number(n) },
+            _ => Token { src, kind: TokenKind::Unknown },
         }
     }
 }
-- 
2.43.0


From b087c86724562f2463497ccb5b8ab2ce3afbc42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:40 +0000
Subject: [PATCH 11/11] hook: verification harness of the assembler under
 cfg(revmc_verif)

---
 crates/revmc-codegen/src/bytecode/asm.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/revmc-codegen/src/bytecode/asm.rs b/crates/revmc-codegen/src/bytecode/asm.rs
index d5628ac..206276e 100644
--- a/crates/revmc-codegen/src/bytecode/asm.rs
+++ b/crates/revmc-codegen/src/bytecode/asm.rs
@@ -1143,3 +1143,9 @@ mod tests {
         );
     }
 }
+
+#[cfg(revmc_verif)]
+#[allow(missing_docs, unreachable_pub, dead_code)]
+mod verif {
+    include!(concat!(env!("REVMC_VERIF"), "/codegen/asm.rs"));
+}
-- 
2.43.0

