From 582b6ac4b7659772e3bfadcc872aac0e2ccec7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:05 +0000
Subject: [PATCH 01/12] fix: keep a zero DecimalAmount representable at any
 number of decimals

with_decimals computed 10^extra_decimals before multiplying, so a zero amount
could not be given 39 or more decimals, and Amount::from_fixedpoint_str did not
read back what into_fixedpoint_str had written for it.
---
 common/src/primitives/amount/decimal.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/common/src/primitives/amount/decimal.rs b/common/src/primitives/amount/decimal.rs
index b8ba9fd..198d6ee 100644
--- a/common/src/primitives/amount/decimal.rs
+++ b/common/src/primitives/amount/decimal.rs
@@ -73,7 +73,11 @@ impl DecimalAmount {
     /// Change the number of decimals. Can only increase decimals, otherwise we risk losing digits.
     pub fn with_decimals(self, decimals: u8) -> Option<Self> {
         let extra_decimals = decimals.checked_sub(self.decimals)?;
-        let mantissa = self.mantissa.checked_mul(TEN.checked_pow(extra_decimals as u32)?)?;
+        let mantissa = if self.mantissa == 0 {
+            0
+        } else {
+            self.mantissa.checked_mul(TEN.checked_pow(extra_decimals as u32)?)?
+        };
         Some(Self::from_uint_decimal(mantissa, decimals))
     }
 
-- 
2.43.0


From d5b8bac36deb899931ac931358a1baeae6408f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:05 +0000
Subject: [PATCH 02/12] fix: reject decimal amounts with too many fraction
 digits instead of panicking

A string of 257 bytes passes the length check and can have 256 digits after the
dot, which does not fit into the u8 number of decimals.
---
 common/src/primitives/amount/decimal.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/src/primitives/amount/decimal.rs b/common/src/primitives/amount/decimal.rs
index 198d6ee..c689274 100644
--- a/common/src/primitives/amount/decimal.rs
+++ b/common/src/primitives/amount/decimal.rs
@@ -157,7 +157,8 @@ impl std::str::FromStr for DecimalAmount {
         let int: UnsignedIntType = empty_to_zero(int_str).parse()?;
         let frac: UnsignedIntType = empty_to_zero(frac_str).parse()?;
 
-        let decimals: u8 = frac_str.len().try_into().expect("Checked string length above");
+        let decimals: u8 =
+            frac_str.len().try_into().map_err(|_| ParseError::StringTooLong)?;
 
         let mantissa = if int == 0 {
             Some(0)
-- 
2.43.0


From 6f63fec1075d1a7a233a8368d0e7e13df7dc526c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:32 +0000
Subject: [PATCH 03/12] fix: compare Rational values by value

0/2 and 0/3 compared as different because of the shortcut for equal numerators,
and the derived equality disagreed with the ordering (1/2 != 2/4 although
neither is less than the other).
---
 common/src/primitives/rational.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/common/src/primitives/rational.rs b/common/src/primitives/rational.rs
index 0bc8b9e..f504fff 100644
--- a/common/src/primitives/rational.rs
+++ b/common/src/primitives/rational.rs
@@ -17,7 +17,7 @@ use std::fmt::{Debug, Display};
 
 use crate::{Uint256, Uint512};
 
-#[derive(Copy, Clone, Debug, Eq, PartialEq)]
+#[derive(Copy, Clone, Debug)]
 pub struct Rational<T> {
     numer: T,
     denom: T,
@@ -54,10 +54,6 @@ impl<T: Into<Uint512> + ComparableType + Ord + Copy> Ord for Rational<T> {
             return self.numer.cmp(&other.numer);
         }
 
-        if self.numer == other.numer {
-            return other.denom.cmp(&self.denom);
-        }
-
         let self_numer_big: Uint512 = self.numer.into();
         let self_denom_big: Uint512 = self.denom.into();
 
@@ -74,6 +70,15 @@ impl<T: Into<Uint512> + ComparableType + Ord + Copy> PartialOrd for Rational<T>
     }
 }
 
+// Equality is by value (1/2 == 2/4), to be consistent with the ordering.
+impl<T: Into<Uint512> + ComparableType + Ord + Copy> PartialEq for Rational<T> {
+    fn eq(&self, other: &Self) -> bool {
+        self.cmp(other).is_eq()
+    }
+}
+
+impl<T: Into<Uint512> + ComparableType + Ord + Copy> Eq for Rational<T> {}
+
 impl From<Rational<u128>> for Rational<Uint256> {
     fn from(other: Rational<u128>) -> Self {
         Self::new(other.numer.into(), other.denom.into())
-- 
2.43.0


From e3ac812b3e34ff399b51afb4e4f55d31a00a112a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:53 +0000
Subject: [PATCH 04/12] fix: show OP_PUSHDATA2 and OP_PUSHDATA4 data in full in
 script assembly

---
 script/src/script.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/src/script.rs b/script/src/script.rs
index c8ffd0e..4ac641a 100644
--- a/script/src/script.rs
+++ b/script/src/script.rs
@@ -370,7 +370,7 @@ impl Script {
                             f.write_str("<unexpected end>")?;
                             break;
                         }
-                        match read_uint(&script[index..], 1) {
+                        match read_uint(&script[index..], push_opc.data_size_bytes()) {
                             Ok(n) => {
                                 index += push_opc.data_size_bytes();
                                 n
-- 
2.43.0


From 079de628b93796bd99e11c9de7a581c3f56dee85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:53 +0000
Subject: [PATCH 05/12] fix: encode the least 64-bit integer as a script number
 without overflow

---
 script/src/script.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/src/script.rs b/script/src/script.rs
index 4ac641a..9632250 100644
--- a/script/src/script.rs
+++ b/script/src/script.rs
@@ -107,7 +107,7 @@ pub fn build_scriptint(n: i64) -> Vec<u8> {
 
     let neg = n < 0;
 
-    let mut abs = if neg { -n } else { n } as usize;
+    let mut abs = n.unsigned_abs();
     let mut v = vec![];
     while abs > 0xFF {
         v.push((abs & 0xFF) as u8);
-- 
2.43.0


From fb55ca57424dd1640815804fd251154d70de34b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:53 +0000
Subject: [PATCH 06/12] fix: ignore OP_CODESEPARATOR in branches that are not
 executed

---
 script/src/interpreter.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/script/src/interpreter.rs b/script/src/interpreter.rs
index 045fbc8..4be28ca 100644
--- a/script/src/interpreter.rs
+++ b/script/src/interpreter.rs
@@ -301,9 +301,12 @@ pub fn run_script<'a, Ctx: Context>(
                     );
                 }
                 opcodes::Class::ControlFlow(cf) => match cf {
+                    // Unlike the conditionals, this has no effect in a branch that is not executed
                     opcodes::ControlFlow::OP_CODESEPARATOR => {
-                        subscript = instr_iter.subscript();
-                        codesep_idx = cur_instr_num;
+                        if executing {
+                            subscript = instr_iter.subscript();
+                            codesep_idx = cur_instr_num;
+                        }
                     }
                     opcodes::ControlFlow::OP_IF | opcodes::ControlFlow::OP_NOTIF => {
                         let cond = executing && {
-- 
2.43.0


From a049a09b8ebd48e24573a0f5994e383d94f2b53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:31 +0000
Subject: [PATCH 07/12] fix: visit descendants first when a root of a traversal
 is reachable from another root

---
 utils/src/graph_traversals.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/utils/src/graph_traversals.rs b/utils/src/graph_traversals.rs
index 2418201..2add6df 100644
--- a/utils/src/graph_traversals.rs
+++ b/utils/src/graph_traversals.rs
@@ -36,13 +36,22 @@ where
 {
     // Stack of items paired with iterator over the item's children that have to be visited before
     // the item itself is emitted.
-    let mut stack: Vec<_> =
-        roots.into_iter().rev().map(|x| (children(&x).into_iter(), x)).collect();
+    let mut stack: Vec<(I::IntoIter, T)> = Vec::new();
 
     // Keep track of already visited items
-    let mut visited: BTreeSet<T> = stack.iter().map(|x| x.1.clone()).collect();
+    let mut visited = BTreeSet::<T>::new();
+
+    // Roots that have not been looked at yet. A root is only visited once everything reachable from
+    // the previous roots has been emitted, since it may also be a descendant of one of them.
+    let mut roots = roots.into_iter();
 
     let iter_fn = move || {
+        if stack.is_empty() {
+            if let Some(root) = roots.by_ref().find(|root| visited.insert(root.clone())) {
+                stack.push((children(&root).into_iter(), root));
+            }
+        }
+
         stack.pop().map(|(mut top_children, mut top_item)| {
             // Keep pushing items onto the stack until we find one with no further children.
             while let Some(next_top_item) = top_children.next() {
-- 
2.43.0


From d7fc5f4ff3f28e867fa97b2fadebbf08ff283c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:57 +0000
Subject: [PATCH 08/12] fix: do not reuse a leftover temporary file when
 writing the RPC cookie

---
 rpc/src/rpc_creds.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rpc/src/rpc_creds.rs b/rpc/src/rpc_creds.rs
index 45a95aa..6cee790 100644
--- a/rpc/src/rpc_creds.rs
+++ b/rpc/src/rpc_creds.rs
@@ -48,7 +48,15 @@ fn write_file_atomically(path: &Path, data: &str) -> Result<(), std::io::Error>
         options.mode(0o600);
     }
 
-    options.create(true).write(true).open(&path_tmp)?.write_all(data.as_bytes())?;
+    // If the temporary file has been left behind by somebody, it must not be reused, because
+    // it'd keep its permissions and the tail of its contents.
+    match std::fs::remove_file(&path_tmp) {
+        Ok(()) => {}
+        Err(err) if err.kind() == std::io::ErrorKind::NotFound => {}
+        Err(err) => return Err(err),
+    }
+
+    options.create_new(true).write(true).open(&path_tmp)?.write_all(data.as_bytes())?;
 
     std::fs::rename(path_tmp, path)
 }
-- 
2.43.0


From 8306f17b83f2d8de231d98c8e34de2d19ccd4cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:57 +0000
Subject: [PATCH 09/12] fix: shut all subsystems down before propagating the
 panic of one of them

---
 subsystem/src/manager/manager_impl.rs | 29 ++++++++++++++++++++-------
 subsystem/src/task.rs                 | 21 ++++++++++++++++---
 2 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/subsystem/src/manager/manager_impl.rs b/subsystem/src/manager/manager_impl.rs
index a102456..9703ebf 100644
--- a/subsystem/src/manager/manager_impl.rs
+++ b/subsystem/src/manager/manager_impl.rs
@@ -203,12 +203,22 @@ impl Manager {
         // calls could cancel whatever they're doing.
         self.shutdown_initiated_tx.send_modify(|flag| flag.set());
 
-        // Shut down the subsystems in the reverse order of creation.
+        // Shut down the subsystems in the reverse order of creation. If a subsystem has panicked,
+        // the remaining ones still have to be shut down properly, so the panic is only propagated
+        // after that.
+        let mut panic_payload = None;
         for subsys in subsystems.into_iter().rev() {
-            subsys.shutdown(self.config.shutdown_timeout_per_subsystem).await;
+            let res = subsys.shutdown(self.config.shutdown_timeout_per_subsystem).await;
+            if let Err(payload) = res {
+                panic_payload.get_or_insert(payload);
+            }
         }
 
         log::info!("Manager {manager_name} terminated");
+
+        if let Some(payload) = panic_payload {
+            panic::resume_unwind(payload);
+        }
     }
 
     /// Runs the application in a separate task.
@@ -262,7 +272,8 @@ impl<T> SubsystemData<T> {
 }
 
 impl SubsystemData<JoinHandle<()>> {
-    async fn shutdown(self, timeout: Option<Duration>) {
+    // If the subsystem has panicked, the panic payload is returned as an error.
+    async fn shutdown(self, timeout: Option<Duration>) -> Result<(), task::PanicPayload> {
         let full_name = self.full_name;
 
         if let Err(()) = self.task_shutdown_tx.send(()) {
@@ -270,14 +281,18 @@ impl SubsystemData<JoinHandle<()>> {
         }
 
         let shutdown_future =
-            async { task::handle_result(&full_name, "top-level", self.task.await) };
+            async { task::check_result(&full_name, "top-level", self.task.await) };
 
         if let Some(timeout) = timeout {
             cfg_if::cfg_if! {
                 if #[cfg(all(feature = "time", not(loom)))] {
                     // Wait for shutdown under a timeout.
-                    if tokio::time::timeout(timeout, shutdown_future).await.is_err() {
-                        log::error!("Subsystem {full_name} shutdown timed out");
+                    match tokio::time::timeout(timeout, shutdown_future).await {
+                        Ok(res) => res,
+                        Err(_) => {
+                            log::error!("Subsystem {full_name} shutdown timed out");
+                            Ok(())
+                        }
                     }
                 } else {
                     // Timeout was requested but is not supported
@@ -292,7 +307,7 @@ impl SubsystemData<JoinHandle<()>> {
         } else {
             // No timeout requested, just wait for shutdown
             shutdown_future.await
-        };
+        }
     }
 }
 
diff --git a/subsystem/src/task.rs b/subsystem/src/task.rs
index 2c87523..dd097ba 100644
--- a/subsystem/src/task.rs
+++ b/subsystem/src/task.rs
@@ -28,15 +28,30 @@ use utils::{once_destructor::OnceDestructor, sync::Arc, tokio_spawn_in_join_set}
 
 use crate::{Subsystem, calls::Action};
 
-/// Handle a task completion result
-pub fn handle_result(full_name: &str, task_type: &str, res: Result<(), tokio::task::JoinError>) {
+/// The payload of a panic
+pub type PanicPayload = Box<dyn std::any::Any + Send + 'static>;
+
+/// Log a task completion result; if the task panicked, return the panic payload as an error.
+pub fn check_result(
+    full_name: &str,
+    task_type: &str,
+    res: Result<(), tokio::task::JoinError>,
+) -> Result<(), PanicPayload> {
     log::trace!("Subsystem {full_name} {task_type} task finished");
     if let Err(err) = res {
         log::error!("Subsystem {full_name}: failed to join {task_type} task: {err}");
         if let Ok(p) = err.try_into_panic() {
-            std::panic::resume_unwind(p);
+            return Err(p);
         }
     }
+    Ok(())
+}
+
+/// Handle a task completion result
+pub fn handle_result(full_name: &str, task_type: &str, res: Result<(), tokio::task::JoinError>) {
+    if let Err(p) = check_result(full_name, task_type, res) {
+        std::panic::resume_unwind(p);
+    }
 }
 
 /// The subsystem worker task implementation
-- 
2.43.0


From d606bc7dc4dbf8f417084ba568422c05a275eeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:22 +0000
Subject: [PATCH 10/12] fix: keep a revived block marked as bad while its
 parent is invalid

Resetting the failure flags of a block whose parent is still invalid left an
'ok' block under a bad parent; the next block processing then failed the
consistency check of the block index. The blocks of the subtree now stay
marked as having an invalid parent.
---
 .../src/detail/block_invalidation/mod.rs      | 28 +++++++++++++------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/chainstate/src/detail/block_invalidation/mod.rs b/chainstate/src/detail/block_invalidation/mod.rs
index 084e16c..b4c7cbf 100644
--- a/chainstate/src/detail/block_invalidation/mod.rs
+++ b/chainstate/src/detail/block_invalidation/mod.rs
@@ -269,18 +269,29 @@ impl<'a, S: BlockchainStorage, V: TransactionVerificationStrategy> BlockInvalida
 
     /// Reset fail flags in block indices for all blocks in the subtree that starts at the specified block.
     /// Block indices for which no block data exists in the db will be deleted.
+    /// If the parent of the specified block is itself invalid, the blocks of the subtree will remain
+    /// marked as having an invalid parent.
     #[log_error]
     pub fn reset_block_failure_flags(
         &mut self,
         block_id: &Id<Block>,
     ) -> Result<(), BlockInvalidatorError> {
-        let block_indices_to_clear = {
+        let (block_indices_to_clear, is_parent_ok) = {
             let chainstate_ref =
                 self.chainstate.make_db_tx_ro().map_err(BlockInvalidatorError::from)?;
 
-            chainstate_ref
+            let block_indices = chainstate_ref
                 .collect_block_indices_in_branch(block_id)
-                .map_err(BlockInvalidatorError::BlockIndicesForBranchQueryError)?
+                .map_err(BlockInvalidatorError::BlockIndicesForBranchQueryError)?;
+
+            let parent_id = *get_existing_block_index(&chainstate_ref, block_id)?.prev_block_id();
+            let is_parent_ok = chainstate_ref
+                .get_existing_gen_block_index(&parent_id)
+                .map_err(|err| BlockInvalidatorError::BlockIndexQueryError(parent_id, err))?
+                .status()
+                .is_ok();
+
+            (block_indices, is_parent_ok)
         };
 
         self.chainstate.with_rw_tx(
@@ -296,11 +307,12 @@ impl<'a, S: BlockchainStorage, V: TransactionVerificationStrategy> BlockInvalida
                                 )
                             })?;
                     } else {
-                        update_block_status(
-                            chainstate_ref,
-                            cur_index.clone(),
-                            cur_index.status().with_cleared_fail_bits(),
-                        )?;
+                        let mut status = cur_index.status().with_cleared_fail_bits();
+                        if !is_parent_ok {
+                            status.set_has_invalid_parent();
+                        }
+
+                        update_block_status(chainstate_ref, cur_index.clone(), status)?;
                     }
                 }
 
-- 
2.43.0


From 00f6f7aefc01ae0289729dca91a733427d02a249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:28 +0000
Subject: [PATCH 11/12] fix: do not panic when a block count lock exceeds the
 range of heights

---
 mintscript/src/checker/timelock.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/mintscript/src/checker/timelock.rs b/mintscript/src/checker/timelock.rs
index 0e6978b..b896a2f 100644
--- a/mintscript/src/checker/timelock.rs
+++ b/mintscript/src/checker/timelock.rs
@@ -15,7 +15,7 @@
 
 use common::{
     chain::{block::timestamp::BlockTimestamp, timelock::OutputTimeLock},
-    primitives::{BlockDistance, BlockHeight},
+    primitives::BlockHeight,
 };
 
 pub trait TimelockChecker<C> {
@@ -80,9 +80,18 @@ impl<C: TimelockContext> TimelockChecker<C> for StandardTimelockChecker {
                 check_at_least(ctx.spending_time(), *required, E::TimestampLocked)
             }
             OutputTimeLock::ForBlockCount(d) => {
-                let distance = BlockDistance::new((*d).try_into().map_err(|_| E::HeightArith)?);
-                let required = (ctx.source_height()? + distance).ok_or(E::HeightArith)?;
-                check_at_least(ctx.spending_height(), required, E::HeightLocked)
+                // Note: adding a `BlockDistance` to a `BlockHeight` panics on overflow, but the
+                // distance here can be any number, so the addition is done on integers.
+                let distance: i64 = (*d).try_into().map_err(|_| E::HeightArith)?;
+                let source_height: i64 =
+                    ctx.source_height()?.into_int().try_into().map_err(|_| E::HeightArith)?;
+                let required = source_height.checked_add(distance).ok_or(E::HeightArith)?;
+                let required: u64 = required.try_into().map_err(|_| E::HeightArith)?;
+                check_at_least(
+                    ctx.spending_height(),
+                    BlockHeight::new(required),
+                    E::HeightLocked,
+                )
             }
             OutputTimeLock::ForSeconds(dt) => {
                 let required = ctx.source_time()?.add_int_seconds(*dt).ok_or(E::TimestampArith)?;
-- 
2.43.0


From deeb2ca78d626f0bfbcf898b61a0be776ed0fa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:55 +0000
Subject: [PATCH 12/12] fix: do not underflow when the timestamps of a retarget
 interval go backwards

---
 consensus/src/pow/work.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/consensus/src/pow/work.rs b/consensus/src/pow/work.rs
index c517bb9..c7cc892 100644
--- a/consensus/src/pow/work.rs
+++ b/consensus/src/pow/work.rs
@@ -135,8 +135,9 @@ where
 impl PoW {
     /// The difference (in block time) between the current block and 2016th block before the current one.
     fn actual_timespan(&self, prev_block_blocktime: u64, retarget_blocktime: u64) -> u64 {
-        // TODO: this needs to be fixed because it could suffer from an underflow
-        let actual_timespan = prev_block_blocktime - retarget_blocktime;
+        // Timestamps need not grow from block to block, so the span may come out negative;
+        // it is then below the minimum too.
+        let actual_timespan = prev_block_blocktime.saturating_sub(retarget_blocktime);
 
         num::clamp(
             actual_timespan,
-- 
2.43.0

