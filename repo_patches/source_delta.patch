From 60e5aa318bd0dacf6d29b7934842d2f52c846f3c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:17:29 +0000
Subject: [PATCH 01/75] fix: write checkpoint score files atomically

An interrupted `save_score()` left an empty or truncated score file behind.
As a result, any subsequent run failed to load the scores or, worse, used a
wrong score to determine the best checkpoints.
---
 src/fairseq2/checkpoint/manager.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/fairseq2/checkpoint/manager.py b/src/fairseq2/checkpoint/manager.py
index d54491e..bcb6b28 100644
--- a/src/fairseq2/checkpoint/manager.py
+++ b/src/fairseq2/checkpoint/manager.py
@@ -537,17 +537,22 @@ class StandardCheckpointManager(CheckpointManager):
 
             score_file = scores_dir.joinpath(f"step_{step_nr}.txt")
 
+            # Write to a temporary file first to ensure that an interrupted
+            # write does not leave a truncated score behind.
+            tmp_score_file = score_file.with_suffix(".tmp")
+
             try:
-                fp = self._file_system.open_text(score_file, mode=FileMode.WRITE)
+                fp = self._file_system.open_text(tmp_score_file, mode=FileMode.WRITE)
             except OSError as ex:
                 raise_operational_system_error(ex)
 
             try:
-                fp.write(f"{score}\n")
+                with fp:
+                    fp.write(f"{score}\n")
+
+                self._file_system.move(tmp_score_file, score_file)
             except OSError as ex:
                 raise_operational_system_error(ex)
-            finally:
-                fp.close()
 
         try:
             gangs.root.barrier()
-- 
2.43.0


From a8d71a6ba09af7042a1d3bbc9f96bad25222ed13 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:18:02 +0000
Subject: [PATCH 02/75] fix: make checkpoint deletion crash-safe

A deletion that was interrupted half way left a partial step directory which
was still listed as a (complete) checkpoint, and failed to load upon resume.
---
 src/fairseq2/checkpoint/manager.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/fairseq2/checkpoint/manager.py b/src/fairseq2/checkpoint/manager.py
index bcb6b28..ce07f34 100644
--- a/src/fairseq2/checkpoint/manager.py
+++ b/src/fairseq2/checkpoint/manager.py
@@ -680,8 +680,20 @@ class StandardCheckpointManager(CheckpointManager):
                 raise_operational_system_error(ex)
 
             if step_dir_exists:
+                # The name of a checkpoint must disappear before its contents do;
+                # otherwise, an interrupted deletion leaves a partial directory
+                # that is indistinguishable from a complete checkpoint.
+                is_local = self._is_local_checkpoint_dir()
+
                 try:
                     if keep_model:
+                        trainer_dir = step_dir.joinpath("trainer")
+
+                        if is_local and self._file_system.exists(trainer_dir):
+                            self._file_system.move(
+                                trainer_dir, step_dir.joinpath("deleted_trainer")
+                            )
+
                         for path in self._file_system.glob(step_dir, pattern="*"):
                             if path.stem in ("model", "hg", "hook"):
                                 continue
@@ -690,6 +702,10 @@ class StandardCheckpointManager(CheckpointManager):
                                 self._file_system.remove_directory(path)
                             else:
                                 self._file_system.remove(path)
+                    elif is_local:
+                        self._file_system.move(step_dir, tmp_step_dir)
+
+                        self._file_system.remove_directory(tmp_step_dir)
                     else:
                         self._file_system.remove_directory(step_dir)
                 except OSError as ex:
-- 
2.43.0


From c05d280850528e6a60beeb885325ce091db76b62 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:56:34 +0000
Subject: [PATCH 03/75] fix: decode percent-encoded characters in Uri.to_path()

`Uri.from_path()` percent-encodes special characters (e.g. spaces), but
`Uri.to_path()` did not decode them, so a checkpoint or asset whose path
contains such a character could not be found.
---
 src/fairseq2/utils/uri.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/utils/uri.py b/src/fairseq2/utils/uri.py
index 685e333..307882a 100644
--- a/src/fairseq2/utils/uri.py
+++ b/src/fairseq2/utils/uri.py
@@ -8,7 +8,7 @@ from __future__ import annotations
 
 from pathlib import Path
 from typing import final
-from urllib.parse import ParseResult, urlparse, urlunparse
+from urllib.parse import ParseResult, unquote, urlparse, urlunparse
 
 from fairseq2.error import InternalError, NotSupportedError
 
@@ -81,7 +81,7 @@ class Uri:
 
         s = str(self)
 
-        return Path(s[7:])
+        return Path(unquote(s[7:]))
 
     def __str__(self) -> str:
         return urlunparse(self._result)
-- 
2.43.0


From 5f0b0d1c77dcc0099e6caf1797254ad6b8bea0ed Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:05:27 +0000
Subject: [PATCH 04/75] fix: honour stop requests when `max_num_steps` is
 specified

---
 src/fairseq2/trainer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index 42459c0..baa8840 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -682,7 +682,8 @@ class Trainer(Task):
         if self._max_num_steps is not None:
             if self._step_nr >= self._max_num_steps:
                 return _TrainerState.END_OF_TRAINING
-        elif self._stop_requested:
+
+        if self._stop_requested:
             return _TrainerState.STOP_REQUESTED
 
         self._maybe_save_checkpoint(blocking=False)
-- 
2.43.0


From 8c27d5b29e19c2fe86a8039fe9d3acb4c9cce26c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:05:27 +0000
Subject: [PATCH 05/75] fix: complete the pending checkpoint save when training
 ends

If the last step was already saved asynchronously, `_stop()` returned without
committing that save and the checkpoint got lost.
---
 src/fairseq2/trainer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index baa8840..c45721b 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -710,13 +710,13 @@ class Trainer(Task):
             self._maybe_save_checkpoint(blocking=False)
 
             self._validate()
-
-            self._maybe_complete_checkpoint_save_operation()
-
-            self._maybe_complete_hg_export_operation()
         else:
             self._maybe_save_checkpoint(blocking=True)
 
+        self._maybe_complete_checkpoint_save_operation()
+
+        self._maybe_complete_hg_export_operation()
+
         return _TrainerState.STOPPED
 
     def _early_stop(self) -> _TrainerState:
-- 
2.43.0


From 8c42a8511cfc76d284cb66456e2ab209dc6f7e98 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:05:27 +0000
Subject: [PATCH 06/75] fix: resume training at the right data epoch

A checkpoint saved at the end of a data epoch resumed with the number of the
epoch that had just ended, and a run interrupted in its last epoch could not
be resumed at all.
---
 src/fairseq2/trainer.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index c45721b..7647bcd 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -410,7 +410,7 @@ class Trainer(Task):
                 return _TrainerState.STOPPED
 
         if self._max_num_data_epochs is not None:
-            if self._data_epoch_nr >= self._max_num_data_epochs:
+            if self._data_epoch_nr > self._max_num_data_epochs:
                 return _TrainerState.STOPPED
 
         return _TrainerState.DATA_LOAD
@@ -1168,9 +1168,19 @@ class _TrainerProxy(Stateful):
 
         base_wall_time = self._trainer._base_wall_time + wall_time
 
+        data_epoch_nr = self._trainer._data_epoch_nr
+
+        # At the end of a data epoch, the data reader is already reset. Training
+        # has to resume from the next epoch.
+        if self._trainer._state in (
+            _TrainerState.END_OF_DATA_EPOCH,
+            _TrainerState.END_OF_DATA,
+        ):
+            data_epoch_nr += 1
+
         state_dict: dict[str, object] = {
             "_step_nr": self._trainer._step_nr,
-            "_data_epoch_nr": self._trainer._data_epoch_nr,
+            "_data_epoch_nr": data_epoch_nr,
             "_lr_scheduler": self._trainer._lr_scheduler.state_dict(),
             "_fp16_loss_scaler": self._trainer._fp16_loss_scaler.state_dict(),
             "_rng_bag": self._trainer._rng_bag.state_dict(),
-- 
2.43.0


From 9fbca90788293bc0ead24e0473629a4432f66164 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:05:27 +0000
Subject: [PATCH 07/75] fix: do not count an overflowed step when training is
 stopped

---
 src/fairseq2/trainer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index 7647bcd..330dfc5 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -667,15 +667,15 @@ class Trainer(Task):
             log.info("Overflow detected at step {}, ignoring gradient, decreasing loss scale from {:g} to {:g}.", self._step_nr, result.old_scale, result.new_scale)  # fmt: skip
 
     def _repeat_step(self, progress_task: ProgressTask) -> _TrainerState:
-        if self._stop_requested:
-            return _TrainerState.STOP_REQUESTED
-
         log.debug("Repeating step {}.", self._step_nr)
 
         self._step_nr -= 1
 
         progress_task.step(-1)
 
+        if self._stop_requested:
+            return _TrainerState.STOP_REQUESTED
+
         return _TrainerState.DATA_LOAD
 
     def _run_post_step(self) -> _TrainerState:
-- 
2.43.0


From a823750f40c6d3ec10f4bce5847bc9599792f61e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:05:27 +0000
Subject: [PATCH 08/75] fix: do not overwrite the checkpoint of the same step

---
 src/fairseq2/trainer.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index 330dfc5..37443ee 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -328,6 +328,7 @@ class Trainer(Task):
         self._state = _TrainerState.NOT_STARTED
         self._step_nr = 0
         self._data_epoch_nr = 1
+        self._last_checkpoint_step_nr: int | None = None
         self._first_iter = True
         self._batches: list[Any] | None = None
         self._stop_requested = False
@@ -401,6 +402,8 @@ class Trainer(Task):
 
         self._reset_non_total_metrics()
 
+        self._last_checkpoint_step_nr = step_nr
+
         self._gangs.root.barrier()
 
         log.info("Training restored. Resuming from step {}.", step_nr)
@@ -756,6 +759,13 @@ class Trainer(Task):
 
         self._maybe_complete_checkpoint_save_operation()
 
+        # Saving the same step again would mean deleting its checkpoint (and its
+        # score) first, which is not recoverable if the process gets terminated.
+        if step_nr == self._last_checkpoint_step_nr:
+            return
+
+        self._last_checkpoint_step_nr = step_nr
+
         def on_checkpoint_ready() -> None:
             if blocking:
                 log.info("Checkpoint prepared. Saving.")
-- 
2.43.0


From e331b2b5e46be8c6d7b18c71866981b3369fdcbb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:05:27 +0000
Subject: [PATCH 09/75] fix: skip pre-validation if there is no validator

---
 src/fairseq2/trainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index 37443ee..2dd1846 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -469,7 +469,7 @@ class Trainer(Task):
                         self._state = self._stop()
 
     def _pre_validate(self) -> _TrainerState:
-        if self._validate is not None:
+        if self._validator is not NOOP_VALIDATOR:
             self._validate()
 
         return _TrainerState.DATA_LOAD
-- 
2.43.0


From eb48176d41fe1389a1595c43a7bba9825c849523 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:50:51 +0000
Subject: [PATCH 10/75] fix: normalize gradients also if a process has no
 targets

`normalize_grads()` is a collective call, but a process whose batches had no
targets skipped it while the others were waiting in it.
---
 src/fairseq2/nn/utils/grad.py | 3 ++-
 src/fairseq2/trainer.py       | 9 +++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/fairseq2/nn/utils/grad.py b/src/fairseq2/nn/utils/grad.py
index 465ae67..ccba1ee 100644
--- a/src/fairseq2/nn/utils/grad.py
+++ b/src/fairseq2/nn/utils/grad.py
@@ -32,7 +32,8 @@ def normalize_grads(module: Module, gang: Gang, num_targets: int) -> None:
     :param num_target:
         The number of targets used in loss computation in this process.
     """
-    total_num_targets = all_sum(gang, num_targets)
+    # Avoid division by zero if none of the processes has a target.
+    total_num_targets = all_sum(gang, num_targets).clamp(min=1)
 
     # Both DDP and FSDP divide gradients by the world size which we also undo.
     scale_grads(module, gang.size / total_num_targets)
diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index 2dd1846..93fdf41 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -557,6 +557,8 @@ class Trainer(Task):
 
         num_targets = 0
 
+        has_num_targets = False
+
         with self._compute_watch:
             with record_function(f"step_{step_nr}_setup"):
                 self._unit.set_step_nr(step_nr)
@@ -586,6 +588,8 @@ class Trainer(Task):
                         else:
                             num_targets += num_batch_targets
 
+                            has_num_targets = True
+
                         with record_function(f"step_{step_nr}_{batch_nr}_backward"):
                             self._fp16_loss_scaler.backward(loss)
 
@@ -598,8 +602,9 @@ class Trainer(Task):
             # This function gathers the total number of logit targets across all
             # processes and divides the gradients by it. This is needed when the
             # batches have varying sizes and we cannot normalize the loss before
-            # the backward pass.
-            if num_targets > 0:
+            # the backward pass. Note that this is a collective operation, so it
+            # has to run even if this process has no targets.
+            if has_num_targets:
                 normalize_grads(self._model, gangs.dp, num_targets)
 
             self._fp16_loss_scaler.unscale_grads_(self._optimizer)
-- 
2.43.0


From 7c035324aedfd9a7bcb9214b7ceff5c5542fe68c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:10:20 +0000
Subject: [PATCH 11/75] fix: reject ranks that are out of range in
 Gang.create_gang()

---
 src/fairseq2/gang.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/gang.py b/src/fairseq2/gang.py
index feda04b..3fbd8d4 100644
--- a/src/fairseq2/gang.py
+++ b/src/fairseq2/gang.py
@@ -638,7 +638,7 @@ def _check_ranks(ranks: Sequence[int], gang_size: int) -> None:
         raise ValueError("Ranks in `ranks` must be unique.")
 
     for idx, rank in enumerate(ranks):
-        if rank < 0 or rank > gang_size:
+        if rank < 0 or rank >= gang_size:
             raise ValueError(
                 f"Rank at index {idx} in `ranks` must be greater than or equal to 0 and less than the size of the gang ({gang_size}), but is {rank} instead."
             )
-- 
2.43.0


From 7937605410db7e084ca68d6236a9368d96d311e2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:10:20 +0000
Subject: [PATCH 12/75] fix: verify the rank of the coordinator process in all
 parallel gangs

---
 src/fairseq2/gang.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/gang.py b/src/fairseq2/gang.py
index 3fbd8d4..798c5e1 100644
--- a/src/fairseq2/gang.py
+++ b/src/fairseq2/gang.py
@@ -689,7 +689,7 @@ class Gangs(Closable):
 
     def __post_init__(self) -> None:
         if self.root.rank == 0:
-            if self.dp.rank != 0 or self.tp.rank != 0 and self.pp.rank != 0:
+            if self.dp.rank != 0 or self.tp.rank != 0 or self.pp.rank != 0:
                 raise ValueError(
                     "Coordinator process of the root gang (i.e. `root.rank == 0`) must be rank 0 in all parallel gangs."
                 )
-- 
2.43.0


From 2cf4564b093f83fc90ea641c6fe47c33cab20a71 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:10:20 +0000
Subject: [PATCH 13/75] fix: gather tensors of any shape in
 ProcessGroupGang.all_gather()

---
 src/fairseq2/gang.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/gang.py b/src/fairseq2/gang.py
index 798c5e1..919d445 100644
--- a/src/fairseq2/gang.py
+++ b/src/fairseq2/gang.py
@@ -564,7 +564,11 @@ class ProcessGroupGang(Gang):
     @override
     def all_gather(self, output_tensor: Tensor, input_tensor: Tensor) -> None:
         try:
-            dist.all_gather_into_tensor(output_tensor, input_tensor, group=self._pg)
+            # Not all backends (e.g. Gloo) support stacking the tensors along a new
+            # dimension. The memory layout of the flattened output is the same.
+            dist.all_gather_into_tensor(
+                output_tensor.view(-1), input_tensor.reshape(-1), group=self._pg
+            )
         except RuntimeError as ex:
             self._raise_op_failed(ex, "all_gather")
 
-- 
2.43.0


From 79ab5721546c96f334d523cfd0716a75fb7de6eb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:10:20 +0000
Subject: [PATCH 14/75] fix: interpret the source rank of a broadcast relative
 to the gang

---
 src/fairseq2/gang.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/gang.py b/src/fairseq2/gang.py
index 919d445..57abf14 100644
--- a/src/fairseq2/gang.py
+++ b/src/fairseq2/gang.py
@@ -583,18 +583,31 @@ class ProcessGroupGang(Gang):
 
     @override
     def broadcast(self, tensor: Tensor, source_rank: int = 0) -> None:
+        global_source_rank = self._get_global_rank(source_rank)
+
         try:
-            dist.broadcast(tensor, source_rank, group=self._pg)
+            dist.broadcast(tensor, global_source_rank, group=self._pg)
         except RuntimeError as ex:
             self._raise_op_failed(ex, "broadcast")
 
     @override
     def broadcast_objects(self, objects: list[object], source_rank: int = 0) -> None:
+        global_source_rank = self._get_global_rank(source_rank)
+
         try:
-            dist.broadcast_object_list(objects, source_rank, group=self._pg)
+            dist.broadcast_object_list(objects, global_source_rank, group=self._pg)
         except RuntimeError as ex:
             self._raise_op_failed(ex, "broadcast_object_list")
 
+    def _get_global_rank(self, rank: int) -> int:
+        # `torch.distributed` expects the rank in the default process group.
+        if rank < 0 or rank >= self.size:
+            raise ValueError(
+                f"`source_rank` must be greater than or equal to 0 and less than the size of the gang ({self.size}), but is {rank} instead."
+            )
+
+        return dist.get_global_rank(self._pg, rank)
+
     @staticmethod
     def _raise_op_failed(cause: Exception, op: str) -> NoReturn:
         raise GangError(f"`{op}()` collective operation failed.") from cause
-- 
2.43.0


From 59c6c75bb084780f33ec27227e8a97b62ed5d0e2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:49:32 +0000
Subject: [PATCH 15/75] fix: reach the final learning rate of TriStageLR at
 `num_steps`

The number of steps of each stage was truncated, even if it only differs from
an integer by a floating-point error, and the schedule ended before `num_steps`.
---
 src/fairseq2/optim/lr_schedulers/tri_stage.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/optim/lr_schedulers/tri_stage.py b/src/fairseq2/optim/lr_schedulers/tri_stage.py
index 16a3732..f1ee082 100644
--- a/src/fairseq2/optim/lr_schedulers/tri_stage.py
+++ b/src/fairseq2/optim/lr_schedulers/tri_stage.py
@@ -70,7 +70,17 @@ class TriStageLR(AbstractLRScheduler):
         start_lr_scales = get_per_param_group(optimizer, "start_lr", start_lr_scale)
         final_lr_scales = get_per_param_group(optimizer, "final_lr", final_lr_scale)
 
-        num_stage_steps = [int(r * num_steps) for r in stage_ratio]
+        # Rounding ensures that floating-point errors do not shorten a stage (e.g.
+        # `0.29 * 100`).
+        num_warmup_steps, num_hold_steps, _ = [
+            int(round(r * num_steps, 9)) for r in stage_ratio
+        ]
+
+        # If the stages do not align with step boundaries, the decay stage takes
+        # the remaining steps.
+        num_decay_steps = num_steps - num_warmup_steps - num_hold_steps
+
+        num_stage_steps = [num_warmup_steps, num_hold_steps, num_decay_steps]
 
         self.num_steps = num_steps
         self.start_lrs: Sequence[float | Tensor] | None = None
-- 
2.43.0


From 1a7425be6ead7c14b76e761dfc91581b77b88be9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:49:32 +0000
Subject: [PATCH 16/75] fix: start and end the cycles of CosineAnnealingLR at
 the right step

If `cycle_mul` is specified, floating-point errors delayed the start of some
cycles by a step (e.g. `cycle_len=1`, `cycle_mul=3`, step 121), and truncation
let steps exceed the length of their cycle, so the learning rate rose again.
---
 .../optim/lr_schedulers/cosine_annealing.py   | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/fairseq2/optim/lr_schedulers/cosine_annealing.py b/src/fairseq2/optim/lr_schedulers/cosine_annealing.py
index b70444e..237d7b4 100644
--- a/src/fairseq2/optim/lr_schedulers/cosine_annealing.py
+++ b/src/fairseq2/optim/lr_schedulers/cosine_annealing.py
@@ -119,15 +119,23 @@ class CosineAnnealingLR(AbstractLRScheduler):
         else:
             mul = self.cycle_mul
 
+            # Rounding ensures that floating-point errors do not move the start
+            # of a cycle.
+            def floor(value: float) -> int:
+                return int(round(value, 9))
+
             # Solve the equation \sum_{i=0}^{n} len(cycle_i) + x = step for n.
-            cycle_nr = int(math.log(1 - curr_step / self.cycle_len * (1 - mul), mul))
+            cycle_nr = floor(math.log(1 - curr_step / self.cycle_len * (1 - mul), mul))
+
+            # Compute the sum of the lengths of the first `n` cycles (i.e.
+            # geometric series) which corresponds to the beginning offset of
+            # the following cycle.
+            def get_cycle_offset(n: int) -> int:
+                return floor((1 - mul**n) / (1 - mul) * self.cycle_len)
 
-            cycle_len = int(mul**cycle_nr * self.cycle_len)
+            cycle_offset = get_cycle_offset(cycle_nr)
 
-            # Compute the sum of the lengths of the first `cycle_nr` cycles
-            # (i.e. geometric series) which corresponds to the beginning offset
-            # of the current cycle.
-            cycle_offset = int((1 - mul**cycle_nr) / (1 - mul) * self.cycle_len)
+            cycle_len = get_cycle_offset(cycle_nr + 1) - cycle_offset
 
             # The position of the step within the cycle.
             cycle_pos = curr_step - cycle_offset
-- 
2.43.0


From e5f2a8589753381fac5bb2c538997cb96ddc0b1e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:49:32 +0000
Subject: [PATCH 17/75] fix: do not modify the base learning rates in
 CosineAnnealingLR

If the learning rates are tensors, in-place multiplication by `lr_mul` changed
the base and final learning rates at each step.
---
 src/fairseq2/optim/lr_schedulers/cosine_annealing.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/optim/lr_schedulers/cosine_annealing.py b/src/fairseq2/optim/lr_schedulers/cosine_annealing.py
index 237d7b4..f3bdeea 100644
--- a/src/fairseq2/optim/lr_schedulers/cosine_annealing.py
+++ b/src/fairseq2/optim/lr_schedulers/cosine_annealing.py
@@ -147,8 +147,9 @@ class CosineAnnealingLR(AbstractLRScheduler):
         min_lrs, max_lrs = self.final_lrs, base_lrs
 
         def cycle_lr(min_lr: float | Tensor, max_lr: float | Tensor) -> float | Tensor:
-            min_lr *= lr_mul
-            max_lr *= lr_mul
+            # Learning rates can be tensors, avoid in-place multiplication.
+            min_lr = min_lr * lr_mul
+            max_lr = max_lr * lr_mul
 
             return min_lr + 0.5 * (max_lr - min_lr) * (1 + c)
 
-- 
2.43.0


From 0a36b6839bf8151778a589ea8f2e75e59715ca0b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:11:48 +0000
Subject: [PATCH 18/75] fix: do not reduce gradients in-place in
 reduce_on_backward

---
 src/fairseq2/ops/tensor_parallel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fairseq2/ops/tensor_parallel.py b/src/fairseq2/ops/tensor_parallel.py
index 21264cd..c797f40 100644
--- a/src/fairseq2/ops/tensor_parallel.py
+++ b/src/fairseq2/ops/tensor_parallel.py
@@ -102,6 +102,10 @@ class _ReduceOnBackwardFunction(Function):
 
     @staticmethod
     def backward(ctx: Any, grad_output: Tensor) -> tuple[Tensor, None]:
+        # `grad_output` can be shared with other nodes of the autograd graph or
+        # be an expanded tensor, so it must not be reduced in-place.
+        grad_output = grad_output.clone(memory_format=torch.contiguous_format)
+
         ctx.gang.all_reduce(grad_output, ReduceOperation.SUM)
 
         return grad_output, None
-- 
2.43.0


From e143785e69eee722c1c0be981b25c544c6a3645d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:12:32 +0000
Subject: [PATCH 19/75] fix: compute gate and value of
 DauphinFeedForwardNetwork from the full projection under tensor parallelism

---
 src/fairseq2/models/transformer/ffn.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/models/transformer/ffn.py b/src/fairseq2/models/transformer/ffn.py
index 960adac..90a50d6 100644
--- a/src/fairseq2/models/transformer/ffn.py
+++ b/src/fairseq2/models/transformer/ffn.py
@@ -173,11 +173,13 @@ class DauphinFeedForwardNetwork(FeedForwardNetwork):
         """
         super().__init__()
 
+        # The gate and the value are the two halves of the full inner projection
+        # and therefore cannot be split locally.
         self.inner_proj = ColumnShardedLinear(
             model_dim,
             inner_dim * 2,
             bias,
-            gather_output=False,
+            gather_output=True,
             init_fn=proj_init_fn,
             gangs=gangs,
             device=device,
@@ -202,7 +204,7 @@ class DauphinFeedForwardNetwork(FeedForwardNetwork):
             inner_dim,
             model_dim,
             bias,
-            scatter_input=False,
+            scatter_input=True,
             init_fn=proj_init_fn,
             gangs=gangs,
             device=device,
-- 
2.43.0


From 997a12acf81e0912540e7eba8530116f81e3daf1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:12:32 +0000
Subject: [PATCH 20/75] fix: compute gate sparsity statistics over the full
 inner dimension under tensor parallelism

---
 src/fairseq2/models/transformer/ffn.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/models/transformer/ffn.py b/src/fairseq2/models/transformer/ffn.py
index 90a50d6..14c37a0 100644
--- a/src/fairseq2/models/transformer/ffn.py
+++ b/src/fairseq2/models/transformer/ffn.py
@@ -20,6 +20,7 @@ from fairseq2.data_type import DataType
 from fairseq2.device import Device
 from fairseq2.gang import Gangs
 from fairseq2.nn import ColumnShardedLinear, Linear, Projection, RowShardedLinear
+from fairseq2.ops.tensor_parallel import gather, reduce_on_backward
 
 
 class FeedForwardNetwork(Module, ABC):
@@ -365,9 +366,18 @@ class GLUFeedForwardNetwork(FeedForwardNetwork):
         normal_dist = torch.distributions.normal.Normal(0, 1)
         std_multiplier = normal_dist.icdf(target_sparsity).to(inputs.dtype)
 
+        # The statistics must cover the full inner dimension.
+        full_inputs = inputs
+
+        proj = self.gate_proj
+        if isinstance(proj, ColumnShardedLinear) and proj.sharded:
+            full_inputs = gather(full_inputs, proj.tp_gang)
+
+            full_inputs = reduce_on_backward(full_inputs, proj.tp_gang)
+
         # Compute per-sequence statistics
-        inputs_mean = torch.mean(inputs, dim=-1, keepdim=True)
-        inputs_std = torch.std(inputs, dim=-1, keepdim=True, unbiased=False)
+        inputs_mean = torch.mean(full_inputs, dim=-1, keepdim=True)
+        inputs_std = torch.std(full_inputs, dim=-1, keepdim=True, unbiased=False)
 
         # Apply threshold: keep only values > mean + std*multiplier
         cutoff = inputs_mean + inputs_std * std_multiplier
-- 
2.43.0


From 6ff853b32ce9fde08fa500a3c381c952dbbd1334 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:12:43 +0000
Subject: [PATCH 21/75] fix: report corrupt Safetensors files as
 CorruptFileError

---
 src/fairseq2/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/io.py b/src/fairseq2/io.py
index 59c24c7..f6472f4 100644
--- a/src/fairseq2/io.py
+++ b/src/fairseq2/io.py
@@ -240,7 +240,7 @@ class _HuggingFaceSafetensorsLoader(SafetensorsLoader):
 
                 for key, tensor in tensors.items():
                     data[key] = tensor.to(device)
-        except (RuntimeError, PickleError, EOFError) as ex:
+        except (safetensors.SafetensorError, RuntimeError, PickleError, EOFError) as ex:
             raise CorruptFileError(file) from ex
 
         return data
-- 
2.43.0


From 32684084dec273c8cbfcc13038dae5cdf0639c92 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:12:43 +0000
Subject: [PATCH 22/75] fix: do not silently truncate parameters that cannot be
 evenly resharded

---
 src/fairseq2/model_checkpoint/common.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fairseq2/model_checkpoint/common.py b/src/fairseq2/model_checkpoint/common.py
index fa5ec3b..8197938 100644
--- a/src/fairseq2/model_checkpoint/common.py
+++ b/src/fairseq2/model_checkpoint/common.py
@@ -134,6 +134,11 @@ def reshard_tensor(
     # Total unsharded dimension size
     tp_dim_size = source_tp_dim_size * source_tp_size
 
+    if tp_dim_size % target_tp_size != 0:
+        raise ValueError(
+            f"Size of dimension {tp_dim} of `{key}` must be a multiple of the target tensor parallel size ({target_tp_size}), but is {tp_dim_size} instead."
+        )
+
     # Target shard dimension
     target_tp_dim_size = tp_dim_size // target_tp_size
 
-- 
2.43.0


From d68dbdd46f436dcd7dae3b37aca64e38569bd84c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:14:22 +0000
Subject: [PATCH 23/75] fix: do not silently drop parts of inconsistent
 parameter shards

---
 src/fairseq2/model_checkpoint/common.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fairseq2/model_checkpoint/common.py b/src/fairseq2/model_checkpoint/common.py
index 8197938..2c120b5 100644
--- a/src/fairseq2/model_checkpoint/common.py
+++ b/src/fairseq2/model_checkpoint/common.py
@@ -131,6 +131,12 @@ def reshard_tensor(
     # Source shard dimensions
     source_tp_dim_size = tp_splits[0].size(tp_dim)
 
+    for tp_split in tp_splits:
+        if tp_split.size(tp_dim) != source_tp_dim_size:
+            raise ValueError(
+                f"Size of dimension {tp_dim} of all shards of `{key}` must be {source_tp_dim_size}, but is {tp_split.size(tp_dim)} instead."
+            )
+
     # Total unsharded dimension size
     tp_dim_size = source_tp_dim_size * source_tp_size
 
-- 
2.43.0


From 60df414f0e060e9f7b8439603505f2ee0c4f2b9a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 24/75] fix: export the RoPE parameters of LLaMA models in the
 format of Transformers v5

---
 src/fairseq2/models/llama/interop.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/models/llama/interop.py b/src/fairseq2/models/llama/interop.py
index b47048f..065e9a2 100644
--- a/src/fairseq2/models/llama/interop.py
+++ b/src/fairseq2/models/llama/interop.py
@@ -135,8 +135,11 @@ class _LLaMAHuggingFaceConverter(HuggingFaceConverter):
 
         intermediate_size = multiple_of * ((int(multiplier * int(8 * config.model_dim / 3)) + multiple_of - 1) // multiple_of)  # fmt: skip
 
+        rope_scale: dict[str, object]
+
         if config.use_scaled_rope:
             rope_scale = {
+                "rope_theta": config.rope_theta,
                 "factor": config.rope_scale.factor,
                 "low_freq_factor": config.rope_scale.frequency_factors[0],
                 "high_freq_factor": config.rope_scale.frequency_factors[1],
@@ -144,7 +147,10 @@ class _LLaMAHuggingFaceConverter(HuggingFaceConverter):
                 "rope_type": "llama3",
             }
         else:
-            rope_scale = None
+            rope_scale = {
+                "rope_theta": config.rope_theta,
+                "rope_type": "default",
+            }
 
         if config.vocab_size == 32_000:  # LLaMA 1 and 2
             bos_idx = 1
@@ -165,7 +171,6 @@ class _LLaMAHuggingFaceConverter(HuggingFaceConverter):
             "num_key_value_heads": config.num_key_value_heads,
             "rms_norm_eps": 1e-5,
             "rope_scaling": rope_scale,
-            "rope_theta": config.rope_theta,
             "tie_word_embeddings": config.tied_embeddings,
             "vocab_size": config.vocab_size,
             "head_dim": config.model_dim // config.num_attn_heads,
-- 
2.43.0


From a2785eb9f5fb50ed76e5f86a8bb698f0c2cfc929 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 25/75] fix: export the RoPE parameters of Qwen models in the
 format of Transformers v5

---
 src/fairseq2/models/qwen/interop.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/models/qwen/interop.py b/src/fairseq2/models/qwen/interop.py
index 98da6d6..2021ce8 100644
--- a/src/fairseq2/models/qwen/interop.py
+++ b/src/fairseq2/models/qwen/interop.py
@@ -62,7 +62,10 @@ class _QwenHuggingFaceConverter(HuggingFaceConverter):
             "num_attention_heads": config.num_attn_heads,
             "num_key_value_heads": config.num_key_value_heads,
             "intermediate_size": config.ffn_inner_dim,
-            "rope_theta": config.rope_theta,
+            "rope_scaling": {
+                "rope_theta": config.rope_theta,
+                "rope_type": "default",
+            },
         }
 
         if config.qkv_proj_bias:
-- 
2.43.0


From d62c675e19c3448a1b045fa705926ae5765792ab Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:23:09 +0000
Subject: [PATCH 26/75] fix: derive dependent attributes in
 save_hugging_face_model

---
 src/fairseq2/models/hg/converter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/models/hg/converter.py b/src/fairseq2/models/hg/converter.py
index e0ee5c5..c951f44 100644
--- a/src/fairseq2/models/hg/converter.py
+++ b/src/fairseq2/models/hg/converter.py
@@ -173,13 +173,15 @@ def save_hugging_face_model(
 
     native_config = config_kls()
 
-    for key, value in config.data.items():
+    for key in config.data.keys():
         if not hasattr(native_config, key):
             raise ValueError(
                 f"`transformers.{config.kls_name}` does not have an attribute named {key}."
             )
 
-        setattr(native_config, key, value)
+    # Some attributes are derived from others (e.g. layer types), so do not update
+    # the default configuration, but construct a new one.
+    native_config = config_kls(**config.data)
 
     arch = config.arch
 
-- 
2.43.0


From 8d67e6e7b3d5f93ede079f013e59f0d01099cd65 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:23:09 +0000
Subject: [PATCH 27/75] fix: export the actual inner dimensionality of LLaMA
 models

---
 src/fairseq2/models/llama/interop.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/models/llama/interop.py b/src/fairseq2/models/llama/interop.py
index 065e9a2..42dc803 100644
--- a/src/fairseq2/models/llama/interop.py
+++ b/src/fairseq2/models/llama/interop.py
@@ -129,11 +129,16 @@ class _LLaMAHuggingFaceConverter(HuggingFaceConverter):
     def to_hg_config(self, config: object) -> HuggingFaceConfig:
         config = cast_config_type(config, LLaMAConfig)
 
-        multiplier = config.ffn_inner_dim_multiplier
+        # See `LLaMAFactory.create_ffn()` and `GLUFeedForwardNetwork`.
+        intermediate_size = int(config.ffn_inner_dim * config.ffn_inner_dim_multiplier)
+
+        if config.ffn_inner_dim_scale != 1.0:
+            intermediate_size = int(intermediate_size * config.ffn_inner_dim_scale)
 
         multiple_of = config.ffn_inner_dim_multiple_of
 
-        intermediate_size = multiple_of * ((int(multiplier * int(8 * config.model_dim / 3)) + multiple_of - 1) // multiple_of)  # fmt: skip
+        if multiple_of != 1:
+            intermediate_size = multiple_of * ((intermediate_size + multiple_of - 1) // multiple_of)  # fmt: skip
 
         rope_scale: dict[str, object]
 
-- 
2.43.0


From 9f377553af2f243c78e4a06c4766b3f6d12fad43 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:23:09 +0000
Subject: [PATCH 28/75] fix: export the head dimensionality of Qwen3 models

---
 src/fairseq2/models/qwen/interop.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fairseq2/models/qwen/interop.py b/src/fairseq2/models/qwen/interop.py
index 2021ce8..bd4fb5e 100644
--- a/src/fairseq2/models/qwen/interop.py
+++ b/src/fairseq2/models/qwen/interop.py
@@ -73,6 +73,11 @@ class _QwenHuggingFaceConverter(HuggingFaceConverter):
                 data, kls_name="Qwen2Config", arch="Qwen2ForCausalLM"
             )
         else:
+            if config.head_dim is not None:
+                data["head_dim"] = config.head_dim
+            else:
+                data["head_dim"] = config.model_dim // config.num_attn_heads
+
             return HuggingFaceConfig(
                 data, kls_name="Qwen3Config", arch="Qwen3ForCausalLM"
             )
-- 
2.43.0


From 98cc02b6e9045cac3c474780bac4cec029f6f702 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 29/75] fix: export the RoPE parameters of all layers of OLMO3
 models

---
 src/fairseq2/models/olmo/interop.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fairseq2/models/olmo/interop.py b/src/fairseq2/models/olmo/interop.py
index 2031525..29f22a2 100644
--- a/src/fairseq2/models/olmo/interop.py
+++ b/src/fairseq2/models/olmo/interop.py
@@ -117,9 +117,17 @@ class _OLMOHuggingFaceConverter(HuggingFaceConverter):
                     "beta_slow": yarn.beta_slow,
                     "mscale": yarn.mscale,
                     "mscale_all_dim": yarn.mscale_all_dim,
+                    "truncate": yarn.truncate,
                 }
 
             data["rope_scaling"] = rope_scaling
+
+            # Olmo3Config has separate RoPE parameters for each layer type.
+            data["rope_parameters"] = {
+                "full_attention": dict(rope_scaling),
+                "sliding_attention": dict(rope_scaling),
+            }
+
             data["sliding_window"] = config.sliding_window
 
             if config.layer_types is not None:
-- 
2.43.0


From a45f011cc80378db73dbc78b719184729db40fce Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 30/75] fix: export all parameters of Gemma3n models

---
 src/fairseq2/models/gemma3n/interop.py  | 17 -----------------
 src/fairseq2/models/utils/checkpoint.py | 11 ++++++++++-
 2 files changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/fairseq2/models/gemma3n/interop.py b/src/fairseq2/models/gemma3n/interop.py
index 07800a6..36b01e8 100644
--- a/src/fairseq2/models/gemma3n/interop.py
+++ b/src/fairseq2/models/gemma3n/interop.py
@@ -36,8 +36,6 @@ _HG_KEY_MAP: Final = {
     r"^model\.audio_tower\.conformer\.([0-9]+)\.attention\.attn\.q_proj\.": r"audio_tower.encoder.layers.\1.self_attn.q_proj.",
     r"^model\.audio_tower\.conformer\.([0-9]+)\.attention\.attn\.k_proj\.": r"audio_tower.encoder.layers.\1.self_attn.k_proj.",
     r"^model\.audio_tower\.conformer\.([0-9]+)\.attention\.attn\.v_proj\.": r"audio_tower.encoder.layers.\1.self_attn.v_proj.",
-    # per_dim_scale: fs2 uses learned per-dim scaling; HF does not.
-    # Kept in key map for loading; filtered out during export in _convert_to_hg_state_dict.
     r"^model\.audio_tower\.conformer\.([0-9]+)\.attention\.attn\.per_dim_scale$": r"audio_tower.encoder.layers.\1.self_attn.sdpa.per_dim_scale",
     r"^model\.audio_tower\.conformer\.([0-9]+)\.attention\.attn\.relative_position_embedding\.pos_proj\.": r"audio_tower.encoder.layers.\1.self_attn.sdpa.pos_proj.",
     r"^model\.audio_tower\.conformer\.([0-9]+)\.attention\.post\.": r"audio_tower.encoder.layers.\1.self_attn.output_proj.",
@@ -92,8 +90,6 @@ _HG_KEY_MAP: Final = {
     r"^model\.language_model\.layers\.([0-9]+)\.laurel\.post_laurel_norm\.":     r"decoder.layers.\1.laurel.post_laurel_norm.",
 
     # Decoder layers - AltUp (per-layer predict/correct)
-    # correct_output_scale: fs2 stores as param; HF derives from config.
-    # Kept in key map for loading; filtered out during export in _convert_to_hg_state_dict.
     r"^model\.language_model\.layers\.([0-9]+)\.altup\.correct_output_scale$":   r"decoder.layers.\1.altup.correct_output_scale",
     r"^model\.language_model\.layers\.([0-9]+)\.altup\.correction_coefs\.":      r"decoder.layers.\1.altup.correction_coefs.",
     r"^model\.language_model\.layers\.([0-9]+)\.altup\.prediction_coefs\.":      r"decoder.layers.\1.altup.prediction_coefs.",
@@ -198,19 +194,6 @@ def _convert_to_hg_state_dict(
 ) -> dict[str, object]:
     state_dict = dict(state_dict)
 
-    # Remove keys that exist in fs2 but not in HF's model
-    _FS2_ONLY_SUFFIXES = (
-        # fs2 learned per-dim scaling; HF uses 1/sqrt(head_dim)
-        ".per_dim_scale",
-        # fs2 stores as param; HF derives from altup_correct_scale config
-        ".correct_output_scale",
-    )
-    state_dict = {
-        k: v
-        for k, v in state_dict.items()
-        if not any(k.endswith(s) for s in _FS2_ONLY_SUFFIXES)
-    }
-
     # Squeeze pointwise conv weights: fs2 Conv1d [N, M, 1] → HF Linear [N, M]
     for key, value in state_dict.items():
         if (
diff --git a/src/fairseq2/models/utils/checkpoint.py b/src/fairseq2/models/utils/checkpoint.py
index 7201bc7..f2f90dd 100644
--- a/src/fairseq2/models/utils/checkpoint.py
+++ b/src/fairseq2/models/utils/checkpoint.py
@@ -155,14 +155,23 @@ def create_reverse_key_map(key_map: dict[str, str]) -> dict[str, str]:
     reverse_key_map = {}
 
     for pattern, replacement in key_map.items():
-        # Strip ^ from `pattern` if present.
+        # Strip ^ and $ from `pattern` if present.
         pattern_without_anchor = pattern[1:] if pattern.startswith("^") else pattern
 
         # Create a new pattern from the original replacement:
         #   1. Escape dots.
         #   2. Replace backreferences with capture groups.
+        if pattern_without_anchor.endswith("$"):
+            pattern_without_anchor = pattern_without_anchor[:-1]
+
+            end_anchor = "$"
+        else:
+            end_anchor = ""
+
         new_pattern = "^" + replacement.replace(".", r"\.").replace(r"\1", r"([0-9]+)")
 
+        new_pattern += end_anchor
+
         # Create a new replacement from the original pattern. Instead of string
         # manipulation, use a simpler approach. The key insight is that we need
         # \1 as a literal in the output string
-- 
2.43.0


From 4149bc675dfd6680a1d9c9ddd1c69772e30e35b7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 31/75] fix: export the layer types of Gemma3n models

---
 src/fairseq2/models/gemma3n/interop.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/models/gemma3n/interop.py b/src/fairseq2/models/gemma3n/interop.py
index 36b01e8..06d9dd4 100644
--- a/src/fairseq2/models/gemma3n/interop.py
+++ b/src/fairseq2/models/gemma3n/interop.py
@@ -11,7 +11,7 @@ from typing import Final
 import torch
 
 from fairseq2.models.family import HuggingFaceExport
-from fairseq2.models.gemma3n.config import Gemma3nConfig
+from fairseq2.models.gemma3n.config import Gemma3nConfig, is_global_layer
 from fairseq2.models.utils.checkpoint import (
     convert_state_dict,
     create_reverse_key_map,
@@ -222,6 +222,14 @@ def _convert_to_hg_config(config: Gemma3nConfig) -> dict[str, object]:
         max_position_embeddings=config.max_seq_len,
         rms_norm_eps=config.rms_norm_eps,
         sliding_window=config.sliding_window,
+        layer_types=[
+            (
+                "full_attention"
+                if is_global_layer(idx, config.num_layers)
+                else "sliding_attention"
+            )
+            for idx in range(config.num_layers)
+        ],
         final_logit_softcapping=config.final_logit_soft_cap,
         tie_word_embeddings=config.tied_embeddings,
         num_kv_shared_layers=config.num_kv_shared_layers,
-- 
2.43.0


From 0c2ba51c252b5f39685dcb0f1dcc1c47cd1337f1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 32/75] fix: export the audio configuration of Gemma3n models

---
 src/fairseq2/models/gemma3n/interop.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/models/gemma3n/interop.py b/src/fairseq2/models/gemma3n/interop.py
index 06d9dd4..f7d2c89 100644
--- a/src/fairseq2/models/gemma3n/interop.py
+++ b/src/fairseq2/models/gemma3n/interop.py
@@ -6,6 +6,7 @@
 
 from __future__ import annotations
 
+from dataclasses import asdict
 from typing import Final
 
 import torch
@@ -209,6 +210,7 @@ def _convert_to_hg_state_dict(
 
 
 def _convert_to_hg_config(config: Gemma3nConfig) -> dict[str, object]:
+    from transformers import Gemma3nAudioConfig as HgGemma3nAudioConfig
     from transformers import Gemma3nTextConfig
 
     text_config = Gemma3nTextConfig(  # type: ignore[call-arg]
@@ -252,7 +254,13 @@ def _convert_to_hg_config(config: Gemma3nConfig) -> dict[str, object]:
         },
     )
 
-    return {
+    data: dict[str, object] = {
         "model_type": "gemma3n",
         "text_config": text_config,
     }
+
+    if config.audio_config is not None:
+        # The attributes of the audio configuration have the same names.
+        data["audio_config"] = HgGemma3nAudioConfig(**asdict(config.audio_config))
+
+    return data
-- 
2.43.0


From e4412f95afefd400198943a479e0d5e2703d13f4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:35:00 +0000
Subject: [PATCH 33/75] fix: do not modify the caller's state dictionary when
 exporting LLaMA models

---
 src/fairseq2/models/llama/interop.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fairseq2/models/llama/interop.py b/src/fairseq2/models/llama/interop.py
index 42dc803..752ba9c 100644
--- a/src/fairseq2/models/llama/interop.py
+++ b/src/fairseq2/models/llama/interop.py
@@ -189,6 +189,9 @@ class _LLaMAHuggingFaceConverter(HuggingFaceConverter):
     ) -> dict[str, object]:
         config = cast_config_type(config, LLaMAConfig)
 
+        # Do not modify the state dictionary of the caller.
+        state_dict = dict(state_dict)
+
         head_dim = config.model_dim // config.num_attn_heads
 
         def permute_rotary(w: Tensor, num_heads: int) -> Tensor:
-- 
2.43.0


From b5a9b385adb71a5d050589bdd24cefe5553b58ff Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:35:00 +0000
Subject: [PATCH 34/75] fix: ignore mscale of YaRN if mscale_all_dim is not set

This is what Transformers does, which the encoder has to match exactly.
---
 src/fairseq2/models/olmo/yarn_rope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/models/olmo/yarn_rope.py b/src/fairseq2/models/olmo/yarn_rope.py
index 1c35f82..4cf89a4 100644
--- a/src/fairseq2/models/olmo/yarn_rope.py
+++ b/src/fairseq2/models/olmo/yarn_rope.py
@@ -140,7 +140,7 @@ class YaRNRotaryEncoder(PositionEncoder):
                 / get_mscale(self.scale_factor, self.mscale_all_dim)
             )
         else:
-            return get_mscale(self.scale_factor, self.mscale_param or 1.0)
+            return get_mscale(self.scale_factor)
 
     def reset_non_persistent_buffers(self) -> None:
         """Pre-compute cos/sin tables using YaRN-scaled frequencies."""
-- 
2.43.0


From 52ec473c168b541668f1b8ee1d995ced5261369e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:35:00 +0000
Subject: [PATCH 35/75] fix: recognize and convert fairseq checkpoints of
 wav2vec 2.0

---
 src/fairseq2/models/wav2vec2/interop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/models/wav2vec2/interop.py b/src/fairseq2/models/wav2vec2/interop.py
index 7dd9ebc..0e185fe 100644
--- a/src/fairseq2/models/wav2vec2/interop.py
+++ b/src/fairseq2/models/wav2vec2/interop.py
@@ -25,7 +25,7 @@ def convert_wav2vec2_state_dict(
     except KeyError:
         pass
 
-    if "mask_emb.weight" in state_dict:  # fairseq
+    if "mask_emb" in state_dict:  # fairseq
         if config.encoder_config.norm_order == TransformerNormOrder.POST:
             # fmt: off
             state_dict["encoder_frontend.layer_norm.weight"] = state_dict["encoder.layer_norm.weight"]
@@ -44,6 +44,7 @@ def convert_wav2vec2_state_dict(
             r"^encoder\.layers\.([0-9]+)\.fc2\.":                 r"encoder.layers.\1.ffn.output_proj.",
             r"^encoder\.layers\.([0-9]+)\.final_layer_norm\.":    r"encoder.layers.\1.ffn_layer_norm.",
             r"^encoder\.embed_tokens\.":                          r"encoder_frontend.embed.",
+            r"^encoder\.pos_conv\.0\.(bias|weight)":               r"encoder_frontend.pos_encoder.conv.\1",
             r"^encoder\.pos_conv\.([0-4])\.0.":                   r"encoder_frontend.pos_encoder.layers.\1.conv.",
             r"^feature_extractor\.conv_layers\.([0-9]+)\.0\.":    r"encoder_frontend.feature_extractor.layers.\1.conv.",
             r"^feature_extractor\.conv_layers\.([0-9]+)\.2\.1\.": r"encoder_frontend.feature_extractor.layers.\1.layer_norm.",
-- 
2.43.0


From 52ed3617df63771d49978a9cee6ae27db7e69314 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:45:11 +0000
Subject: [PATCH 36/75] fix: make ChunkedAttentionBias an additive bias

---
 .../models/transformer/attention_bias.py      | 23 ++++++++-----------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/fairseq2/models/transformer/attention_bias.py b/src/fairseq2/models/transformer/attention_bias.py
index 7150de0..df6b341 100644
--- a/src/fairseq2/models/transformer/attention_bias.py
+++ b/src/fairseq2/models/transformer/attention_bias.py
@@ -121,23 +121,20 @@ class ChunkedAttentionBias(AttentionBias):
     def create_bias_tensor(
         self, q_len: int, k_len: int, device: Device, dtype: DataType
     ) -> Tensor:
-        if q_len != k_len:
-            raise ValueError(f"`q_len` and `k_len` must be equal: {q_len} != {k_len}")
+        # The queries correspond to the last `q_len` keys.
+        # (S, 1)
+        q_pos = torch.arange(k_len - q_len, k_len, device=device).unsqueeze(1)
 
-        # (S, S)
-        block_pos = (
-            torch.arange(q_len, device=device).unsqueeze(0) // self.attn_chunk_size
-        ) - (torch.arange(q_len, device=device).unsqueeze(1) // self.attn_chunk_size)
-        token_pos = torch.arange(q_len, device=device).unsqueeze(0) - torch.arange(
-            q_len, device=device
-        ).unsqueeze(1)
+        # (1, S_kv)
+        k_pos = torch.arange(k_len, device=device).unsqueeze(0)
 
-        mask: Tensor = (block_pos == 0) & (token_pos <= 0)
+        # (S, S_kv)
+        block_pos = k_pos // self.attn_chunk_size - q_pos // self.attn_chunk_size
 
-        mask = mask.to(dtype)
+        mask = (block_pos == 0) & (k_pos <= q_pos)
 
-        # (S, S)
-        return mask
+        # (S, S_kv)
+        return mask.to(dtype).log_()
 
     def __repr__(self) -> str:
         return f"ChunkedAttentionBias(attn_chunk_size={self.attn_chunk_size})"
-- 
2.43.0


From 4a00f3997facf13faed01ce857f91902e232055d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:45:11 +0000
Subject: [PATCH 37/75] fix: do not skip the attention bias of single-step
 queries if it is not trivial

---
 .../models/transformer/attention_bias.py      | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/fairseq2/models/transformer/attention_bias.py b/src/fairseq2/models/transformer/attention_bias.py
index df6b341..80eeb83 100644
--- a/src/fairseq2/models/transformer/attention_bias.py
+++ b/src/fairseq2/models/transformer/attention_bias.py
@@ -76,7 +76,7 @@ class CausalAttentionBias(AttentionBias):
         self, q_len: int, k_len: int, device: Device, dtype: DataType
     ) -> Tensor:
         if self.attn_window_len is None:
-            attn_window_len = q_len
+            attn_window_len = k_len
         else:
             attn_window_len = self.attn_window_len
 
@@ -187,7 +187,7 @@ class ALiBiAttentionBias(AttentionBias):
             causal_bias = _create_causal_bias_tensor(
                 q_len,
                 k_len,
-                q_len,
+                k_len,
                 from_bottom_right=True,
                 device=device,
                 dtype=dtype,
@@ -221,7 +221,7 @@ def _create_causal_bias_tensor(
 
     bias.tril_(diagonal=d)
 
-    if attn_window_len < q_len:
+    if attn_window_len < k_len:
         bias.triu_(diagonal=d - attn_window_len + 1)
 
     bias.log_()
@@ -377,10 +377,15 @@ def maybe_get_attention_bias_tensor(
         if full_q and full_k:
             return None
 
-    if isinstance(bias, CausalAttentionBias) or isinstance(bias, ChunkedAttentionBias):
-        if not q_layout.packed:
-            if q_layout.max_seq_len == 1:
-                return None
+    if isinstance(bias, CausalAttentionBias):
+        if not q_layout.packed and not k_layout.packed:
+            # A single query can attend to all keys unless some of them are
+            # padding or fall outside of the attention window.
+            if q_layout.width == 1 and not q_layout.padded and not k_layout.padded:
+                attn_window_len = bias.attn_window_len
+
+                if attn_window_len is None or k_layout.width <= attn_window_len:
+                    return None
 
     return _get_attention_bias_tensor(  # type: ignore[no-any-return]
         bias, q, q_layout, k_layout, bias_cache
-- 
2.43.0


From c6048970ead884ab732ecebb785d676137933374 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 38/75] fix: retain all steps within the attention window when
 multiple steps are appended to LocalAttentionState

---
 .../models/transformer/multihead_attention.py | 35 ++++++++-----------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/src/fairseq2/models/transformer/multihead_attention.py b/src/fairseq2/models/transformer/multihead_attention.py
index 07b6f66..34be43a 100644
--- a/src/fairseq2/models/transformer/multihead_attention.py
+++ b/src/fairseq2/models/transformer/multihead_attention.py
@@ -766,7 +766,7 @@ class LocalAttentionState(AttentionState):
     """
 
     _seq_len: int
-    """The current sequence length of :attr:`k` and :attr:`v`."""
+    """The number of steps held in :attr:`k` and :attr:`v`."""
 
     _attn_window_len: int
     """The attention window length."""
@@ -822,33 +822,31 @@ class LocalAttentionState(AttentionState):
         self._k[:, :copy_len] = k[:, -copy_len:]
         self._v[:, :copy_len] = v[:, -copy_len:]
 
-        self._seq_len = seq_len
+        self._seq_len = copy_len
 
     @override
     def append(self, k: Tensor, v: Tensor) -> None:
         input_seq_len = k.size(1)
 
-        self._expand_kv(input_seq_len)
+        pos = self._seq_len
 
-        if self._seq_len + input_seq_len > self._attn_window_len:
-            copy_len = min(input_seq_len, self._attn_window_len)
+        if pos + input_seq_len > self._attn_window_len:
+            # Other than itself, a query can attend to at most
+            # `attn_window_len - 1` past steps. This means the first query of
+            # the input determines how many of them we have to retain.
+            past_len = min(pos, self._attn_window_len - 1)
 
-            if copy_len == self._attn_window_len:
-                pos = 0
-            else:
-                self._k = torch.roll(self._k, shifts=-copy_len, dims=1)
-                self._v = torch.roll(self._v, shifts=-copy_len, dims=1)
+            self._k = torch.cat([self._k[:, pos - past_len : pos], k], dim=1)
+            self._v = torch.cat([self._v[:, pos - past_len : pos], v], dim=1)
 
-                pos = self._attn_window_len - copy_len
+            self._seq_len = past_len + input_seq_len
         else:
-            pos = self._seq_len
-
-            copy_len = input_seq_len
+            self._expand_kv(input_seq_len)
 
-        self._k[:, pos : pos + copy_len] = k[:, -copy_len:]
-        self._v[:, pos : pos + copy_len] = v[:, -copy_len:]
+            self._k[:, pos : pos + input_seq_len] = k
+            self._v[:, pos : pos + input_seq_len] = v
 
-        self._seq_len += input_seq_len
+            self._seq_len += input_seq_len
 
     def _expand_kv(self, input_seq_len: int) -> None:
         if self._capacity_increment is None:
@@ -889,9 +887,6 @@ class LocalAttentionState(AttentionState):
 
     @override
     def size_bytes(self) -> int:
-        if self._seq_len >= self._attn_window_len:
-            return self.capacity_bytes()
-
         batch_size, _, num_heads, head_dim = self._k.shape
 
         numel = 2 * batch_size * self._seq_len * num_heads * head_dim
-- 
2.43.0


From 7cbc8bf2896b11e796c73b3c3a8822e9d93e83ff Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 39/75] fix: use the layout of shared keys and values in
 incremental decoding

---
 src/fairseq2/models/transformer/multihead_attention.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fairseq2/models/transformer/multihead_attention.py b/src/fairseq2/models/transformer/multihead_attention.py
index 34be43a..6429bc3 100644
--- a/src/fairseq2/models/transformer/multihead_attention.py
+++ b/src/fairseq2/models/transformer/multihead_attention.py
@@ -413,6 +413,9 @@ class StandardMultiheadAttention(MultiheadAttention):
         if pre_computed_kv is not None:
             # KV sharing: use pre-computed K/V from source layer
             k, v = pre_computed_kv
+
+            if not self.training and state_bag is not None:
+                keys_layout = BatchLayout.of(k)
         elif self.training or state_bag is None:
             # Full forward pass (training or no incremental state)
             # k: (N, S_kv, M) -> (N, S_kv, H_kv, K_h)
-- 
2.43.0


From 35010abc594ed42a81cd8d06b80bfae817de74db Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 40/75] fix: always reorder StaticAttentionState

---
 src/fairseq2/models/transformer/multihead_attention.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/fairseq2/models/transformer/multihead_attention.py b/src/fairseq2/models/transformer/multihead_attention.py
index 6429bc3..957fa74 100644
--- a/src/fairseq2/models/transformer/multihead_attention.py
+++ b/src/fairseq2/models/transformer/multihead_attention.py
@@ -950,9 +950,8 @@ class StaticAttentionState(AttentionState):
 
     @override
     def reorder(self, new_order: Tensor) -> None:
-        if new_order.size(0) != self._k.size(0):
-            self._k = self._k.index_select(0, new_order)
-            self._v = self._v.index_select(0, new_order)
+        self._k = self._k.index_select(0, new_order)
+        self._v = self._v.index_select(0, new_order)
 
     @override
     def size_bytes(self) -> int:
-- 
2.43.0


From 33d5c6ecaf31df37a5dfa9a8857fef57b3701043 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:54:40 +0000
Subject: [PATCH 41/75] fix: accept padded batches in Conv1dFbankSubsampler

---
 src/fairseq2/models/s2t_transformer/feature_extractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/models/s2t_transformer/feature_extractor.py b/src/fairseq2/models/s2t_transformer/feature_extractor.py
index 02c2ae9..87a025e 100644
--- a/src/fairseq2/models/s2t_transformer/feature_extractor.py
+++ b/src/fairseq2/models/s2t_transformer/feature_extractor.py
@@ -98,7 +98,7 @@ class Conv1dFbankSubsampler(SequenceFeatureExtractor):
             :math:`N` is the batch size, :math:`S` is the number of frames, and
             :math:`C` is the number of channels.
         """
-        if seqs_layout.padded:
+        if seqs_layout.packed:
             raise ValueError("`seqs` must not be a packed batch.")
 
         # Apply the convolution along the temporal dimension (i.e. along the
-- 
2.43.0


From 4ba842d845d359f060d70b5b9bf92f24256d12b0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:04:52 +0000
Subject: [PATCH 42/75] fix: do not produce NaN weights for padded queries,
 support ALiBi with padded and packed batches

---
 .../models/transformer/attention_bias.py      | 36 +++++++++++--------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/fairseq2/models/transformer/attention_bias.py b/src/fairseq2/models/transformer/attention_bias.py
index 80eeb83..e60f6ec 100644
--- a/src/fairseq2/models/transformer/attention_bias.py
+++ b/src/fairseq2/models/transformer/attention_bias.py
@@ -298,25 +298,33 @@ def _create_block_bias_tensor(
         if q_begin == 0 and q_end == q_len and k_begin == 0 and k_end == k_len:
             return bias.create_bias_tensor(q_len, k_len, device, dtype)
 
-    tensor = torch.full((q_len, k_len), -torch.inf, device=device, dtype=dtype)
+    blocks = []
 
-    q_seq_ranges.append((q_len, q_len))
-    k_seq_ranges.append((k_len, k_len))
+    for (q_begin, q_end), (k_begin, k_end) in zip(q_seq_ranges, k_seq_ranges):
+        block = bias.create_bias_tensor(
+            q_end - q_begin, k_end - k_begin, device, dtype
+        )
 
-    prev_q_end = 0
-    prev_k_end = 0
+        blocks.append(block)
 
-    for (q_begin, q_end), (k_begin, k_end) in zip(q_seq_ranges, k_seq_ranges):
-        if prev_q_end != q_begin and prev_k_end != k_begin:  # pad
-            tensor[prev_q_end:q_begin, prev_k_end:k_begin] = 0.0
+    # ([H], S, S_kv)
+    tensor = torch.full(
+        (*blocks[0].shape[:-2], q_len, k_len), -torch.inf, device=device, dtype=dtype
+    )
 
-        if q_begin != q_end and k_begin != k_end:
-            tensor[q_begin:q_end, k_begin:k_end] = bias.create_bias_tensor(
-                q_end - q_begin, k_end - k_begin, device, dtype
-            )
+    q_end, k_end = 0, 0
+
+    for block, (q_begin, q_end), (k_begin, k_end) in zip(
+        blocks, q_seq_ranges, k_seq_ranges
+    ):
+        tensor[..., q_begin:q_end, k_begin:k_end] = block
+
+    # Padding attends only to padding. If there is none in the keys, let it
+    # attend to all of them; otherwise, its attention weights will be NaN.
+    if k_end == k_len:
+        k_end = 0
 
-        prev_q_end = q_end
-        prev_k_end = k_end
+    tensor[..., q_end:, k_end:] = 0.0
 
     return tensor
 
-- 
2.43.0


From 07945234ea0762e548d6c38e9099bca0149f0e8b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:04:52 +0000
Subject: [PATCH 43/75] fix: use the same attention window length in
 FlashAttention as in other SDPAs

---
 src/fairseq2/models/transformer/sdpa/flash2.py | 3 ++-
 src/fairseq2/models/transformer/sdpa/flash3.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/models/transformer/sdpa/flash2.py b/src/fairseq2/models/transformer/sdpa/flash2.py
index 2b9b01b..0272840 100644
--- a/src/fairseq2/models/transformer/sdpa/flash2.py
+++ b/src/fairseq2/models/transformer/sdpa/flash2.py
@@ -80,7 +80,8 @@ class Flash2SDPA(SDPA):
 
             attn_window_len = self.bias.attn_window_len
             if attn_window_len is not None:
-                left_window = attn_window_len
+                # In FlashAttention the window does not include the query itself.
+                left_window = attn_window_len - 1
             else:
                 left_window = -1
 
diff --git a/src/fairseq2/models/transformer/sdpa/flash3.py b/src/fairseq2/models/transformer/sdpa/flash3.py
index b337579..c1d01e5 100644
--- a/src/fairseq2/models/transformer/sdpa/flash3.py
+++ b/src/fairseq2/models/transformer/sdpa/flash3.py
@@ -84,7 +84,8 @@ class Flash3SDPA(SDPA):
 
             attn_window_len = self.bias.attn_window_len
             if attn_window_len is not None:
-                lhs_window_size = attn_window_len
+                # In FlashAttention the window does not include the query itself.
+                lhs_window_size = attn_window_len - 1
             else:
                 lhs_window_size = -1
         else:
-- 
2.43.0


From b6f41a94fb6616dab23a9690d9a14b44deff0263 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:32:20 +0000
Subject: [PATCH 44/75] fix: consider candidates of all hypotheses in beam
 search if the vocabulary is small

---
 src/fairseq2/generation/beam_search/algo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/generation/beam_search/algo.py b/src/fairseq2/generation/beam_search/algo.py
index 31f407c..be9a22c 100644
--- a/src/fairseq2/generation/beam_search/algo.py
+++ b/src/fairseq2/generation/beam_search/algo.py
@@ -102,6 +102,8 @@ class StandardBeamSearchAlgorithm(BeamSearchAlgorithm):
         lprobs = lprobs.view(-1)
 
         # (2 x B)
-        top_scores, top_indices = torch.topk(lprobs, k=min(2 * beam_size, vocab_size))
+        top_scores, top_indices = torch.topk(
+            lprobs, k=min(2 * beam_size, lprobs.size(0))
+        )
 
         return BeamStep(top_indices // vocab_size, top_indices % vocab_size, top_scores)
-- 
2.43.0


From 9aee9ff5144d2231cb7616998e982811a5c53d53 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:32:20 +0000
Subject: [PATCH 45/75] fix: do not include prompt scores in the first step
 score of beam search hypotheses

---
 src/fairseq2/generation/beam_search/generator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/generation/beam_search/generator.py b/src/fairseq2/generation/beam_search/generator.py
index 70cb709..1d34e83 100644
--- a/src/fairseq2/generation/beam_search/generator.py
+++ b/src/fairseq2/generation/beam_search/generator.py
@@ -774,8 +774,8 @@ class _AbstractBeamSearchSequenceGeneratorOp(ABC):
         # Do not keep `seqs` in memory.
         seq = seq.clone()
 
-        # (S_out)
-        step_scores = self._step_scores[seq_idx, start_step:seq_len]
+        # (S)
+        step_scores = self._step_scores[seq_idx, :seq_len]
 
         # Similar to `seqs`, do not keep `step_scores` in memory.
         step_scores = step_scores.clone()
@@ -783,6 +783,9 @@ class _AbstractBeamSearchSequenceGeneratorOp(ABC):
         # Convert from cumulative to per-step scores.
         step_scores[1:] = step_scores[1:] - step_scores[:-1]
 
+        # (S) -> (S_out)
+        step_scores = step_scores[start_step:].clone()
+
         if self._normalize_scores:
             # Since the first step's score is always 0, do not include it in
             # the normalization.
-- 
2.43.0


From a135ccc523ff171e5262b2988285713bd1be4ec4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:32:20 +0000
Subject: [PATCH 46/75] fix: do not apply generation constraints to prompts in
 batches with different prompt lengths

---
 src/fairseq2/generation/beam_search/generator.py | 13 +++++++++++++
 src/fairseq2/generation/sampling/generator.py    | 13 +++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/src/fairseq2/generation/beam_search/generator.py b/src/fairseq2/generation/beam_search/generator.py
index 1d34e83..4f43ad2 100644
--- a/src/fairseq2/generation/beam_search/generator.py
+++ b/src/fairseq2/generation/beam_search/generator.py
@@ -602,6 +602,13 @@ class _AbstractBeamSearchSequenceGeneratorOp(ABC):
         if lprobs.isnan().any():
             raise SequenceGenerationError(self._step_nr)
 
+        # Retain the original values for the sequences that are still in their
+        # prompts. The constraints below apply to generated steps only.
+        if self._step_nr < self._max_prompt_len:
+            prompt_lprobs = lprobs.clone()
+        else:
+            prompt_lprobs = None
+
         # If we are generating the last possible step, force it to be EOS
         # regardless of its score.
         if self._step_nr == self._max_seq_len - 1:
@@ -624,6 +631,12 @@ class _AbstractBeamSearchSequenceGeneratorOp(ABC):
             if self._step_nr < self._min_seq_len - 1:
                 lprobs[:, self._eos_idx] = -torch.inf
 
+        if prompt_lprobs is not None and self._prompt_mask is not None:
+            # (N)
+            mask = self._prompt_mask[:, self._step_nr]
+
+            lprobs[mask] = prompt_lprobs[mask]
+
         batch_offset = 0
 
         new_beam_sizes: list[int] = []
diff --git a/src/fairseq2/generation/sampling/generator.py b/src/fairseq2/generation/sampling/generator.py
index 754fbf7..6152055 100644
--- a/src/fairseq2/generation/sampling/generator.py
+++ b/src/fairseq2/generation/sampling/generator.py
@@ -613,6 +613,13 @@ class _AbstractSamplingSequenceGeneratorOp(ABC):
         if probs.isnan().any():
             raise SequenceGenerationError(self._step_nr)
 
+        # Retain the original values for the sequences that are still in their
+        # prompts. The constraints below apply to generated steps only.
+        if self._step_nr < self._max_prompt_len:
+            prompt_probs = probs.clone()
+        else:
+            prompt_probs = None
+
         # If we are generating the last possible step, force it to be EOS
         # regardless of its score.
         if self._step_nr == self._max_seq_len - 1:
@@ -637,6 +644,12 @@ class _AbstractSamplingSequenceGeneratorOp(ABC):
             if self._step_nr < self._min_seq_len - 1:
                 probs[:, self._eos_idx] = 0
 
+            if prompt_probs is not None and self._prompt_mask is not None:
+                # (N)
+                mask = self._prompt_mask[:, self._step_nr]
+
+                probs[mask] = prompt_probs[mask]
+
             # (N)
             vocab_indices = self._sampler.sample(probs)
 
-- 
2.43.0


From e257699b9ae57df8d38c293455208e6b3dd891d6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:32:20 +0000
Subject: [PATCH 47/75] fix: never select candidates with zero probability in
 beam search

---
 src/fairseq2/generation/beam_search/generator.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fairseq2/generation/beam_search/generator.py b/src/fairseq2/generation/beam_search/generator.py
index 4f43ad2..b9aacb9 100644
--- a/src/fairseq2/generation/beam_search/generator.py
+++ b/src/fairseq2/generation/beam_search/generator.py
@@ -730,6 +730,9 @@ class _AbstractBeamSearchSequenceGeneratorOp(ABC):
             self._beam_size, lprobs, step_scores[:, : self._step_nr]
         )
 
+        # There might be fewer than 2 x `beam_size` candidates that are allowed.
+        next_step = next_step.masked_select(next_step.scores > -torch.inf)
+
         # Translate the sequence indices from beam to batch.
         next_step.seq_indices += batch_offset
 
@@ -760,6 +763,10 @@ class _AbstractBeamSearchSequenceGeneratorOp(ABC):
 
             next_step = next_step.masked_select(seq_mask)
 
+        # If there is no sequence left to continue with, terminate the beam.
+        if len(next_step.seq_indices) == 0:
+            return None
+
         # We can have at most `beam_size` sequences in the beam.
         return next_step.first(self._beam_size)
 
-- 
2.43.0


From 10e5079a20ff1ec612525fa07ca4e75047982e5b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:32:20 +0000
Subject: [PATCH 48/75] fix: do not produce negative probabilities if UNK
 penalty is used in sampling

---
 src/fairseq2/generation/sampling/generator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/generation/sampling/generator.py b/src/fairseq2/generation/sampling/generator.py
index 6152055..d4acd3c 100644
--- a/src/fairseq2/generation/sampling/generator.py
+++ b/src/fairseq2/generation/sampling/generator.py
@@ -634,7 +634,9 @@ class _AbstractSamplingSequenceGeneratorOp(ABC):
 
             # Apply UNK penalty.
             if self._unk_idx is not None:
-                probs[:, self._unk_idx] -= self._unk_penalty
+                unk_probs = probs[:, self._unk_idx] - self._unk_penalty
+
+                probs[:, self._unk_idx] = unk_probs.clamp(min=0.0)
 
             # Never allow PAD.
             if self._pad_idx is not None:
-- 
2.43.0


From 1229bf9039b57c488eaaf8cdf07fbcf52850e9de Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:32:20 +0000
Subject: [PATCH 49/75] fix: support multiple generations per prompt in
 sequence-to-sequence sampling without prefill

---
 src/fairseq2/generation/sampling/generator.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/fairseq2/generation/sampling/generator.py b/src/fairseq2/generation/sampling/generator.py
index d4acd3c..5f04676 100644
--- a/src/fairseq2/generation/sampling/generator.py
+++ b/src/fairseq2/generation/sampling/generator.py
@@ -897,6 +897,24 @@ class _SamplingSeq2SeqGeneratorOp(_AbstractSamplingSequenceGeneratorOp):
         self._source_seqs = source_seqs
         self._source_seqs_layout = source_seqs_layout
 
+    @override
+    def _prepare_state(self) -> None:
+        super()._prepare_state()
+
+        # If there was nothing to prefill, the source sequences are not encoded
+        # yet and have to be fanned out as well.
+        if self._num_gens > 1 and self._min_prompt_len == 1:
+            seq_lens = [
+                n for n in self._source_seqs_layout.seq_lens for _ in range(self._num_gens)  # fmt: skip
+            ]
+
+            # (P, S, *) -> (P x G, S, *)
+            self._source_seqs = repeat_interleave(
+                self._source_seqs, dim=0, repeat=self._num_gens
+            )
+
+            self._source_seqs_layout = BatchLayout.of(self._source_seqs, seq_lens)
+
     @override
     def _decode(self, seqs: Tensor) -> Tensor:
         # We never pad during incremental decoding.
-- 
2.43.0


From 2891294dd72a64b11cb8d3f9a332545a3e0cd5da Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 50/75] fix: move files and directories atomically on local
 file systems

---
 src/fairseq2/file_system.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/fairseq2/file_system.py b/src/fairseq2/file_system.py
index 045c5d9..07085c1 100644
--- a/src/fairseq2/file_system.py
+++ b/src/fairseq2/file_system.py
@@ -239,6 +239,17 @@ class FSspecFileSystem(FileSystem):
 
     @override
     def move(self, old_path: Path, new_path: Path) -> None:
+        if self.is_local:
+            # `mv()` of fsspec moves `old_path` into `new_path` if the latter is
+            # a directory and falls back to a non-atomic copy if it cannot be
+            # renamed.
+            os.replace(
+                cast(str, self.get_short_uri(old_path)),
+                cast(str, self.get_short_uri(new_path)),
+            )
+
+            return
+
         self._fsspec.mv(
             self.get_short_uri(old_path), self.get_short_uri(new_path), recursive=True
         )
-- 
2.43.0


From 4cbf214954bb56f1c739667b7e68b1911155745a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 51/75] fix: copy into existing directories like
 NativeLocalFileSystem

---
 src/fairseq2/file_system.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/fairseq2/file_system.py b/src/fairseq2/file_system.py
index 07085c1..0b494c0 100644
--- a/src/fairseq2/file_system.py
+++ b/src/fairseq2/file_system.py
@@ -265,6 +265,17 @@ class FSspecFileSystem(FileSystem):
 
     @override
     def copy_directory(self, source_path: Path, target_path: Path) -> None:
+        if self.is_local:
+            # `copy()` of fsspec copies `source_path` into `target_path` if the
+            # latter exists.
+            copytree(
+                cast(str, self.get_short_uri(source_path)),
+                cast(str, self.get_short_uri(target_path)),
+                dirs_exist_ok=True,
+            )
+
+            return
+
         self._fsspec.copy(
             self.get_short_uri(source_path),
             self.get_short_uri(target_path),
-- 
2.43.0


From 13eac05760f9190bfa47335be416cc8cb5d9a75c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 52/75] fix: raise OSError if the wrong kind of path is removed

---
 src/fairseq2/file_system.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/file_system.py b/src/fairseq2/file_system.py
index 0b494c0..f7c7c14 100644
--- a/src/fairseq2/file_system.py
+++ b/src/fairseq2/file_system.py
@@ -11,7 +11,7 @@ from abc import ABC, abstractmethod
 from collections.abc import Callable, Iterator, Sequence
 from contextlib import contextmanager
 from enum import Enum
-from errno import ENOENT
+from errno import EISDIR, ENOENT, ENOTDIR
 from os import scandir, strerror
 from pathlib import Path
 from shutil import copytree, rmtree
@@ -257,6 +257,9 @@ class FSspecFileSystem(FileSystem):
     @override
     def remove(self, path: Path) -> None:
         # only one file !
+        if self.is_dir(path):
+            raise IsADirectoryError(EISDIR, strerror(EISDIR), str(path))
+
         self._fsspec.rm(self.get_short_uri(path), recursive=False)
 
     @override
@@ -311,6 +314,9 @@ class FSspecFileSystem(FileSystem):
 
     @override
     def remove_directory(self, path: Path) -> None:
+        if self.is_file(path):
+            raise NotADirectoryError(ENOTDIR, strerror(ENOTDIR), str(path))
+
         # For S3/remote filesystems, rmdir only removes empty directories
         # Use rm with recursive=True to delete directory and all contents
         self._fsspec.rm(self.get_short_uri(path), recursive=True)
-- 
2.43.0


From 2d2a823b9ee3344f31fb0882e43cb371e538efb5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 53/75] fix: do not interpret special characters in paths as
 glob patterns

---
 src/fairseq2/file_system.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/file_system.py b/src/fairseq2/file_system.py
index f7c7c14..1b18da9 100644
--- a/src/fairseq2/file_system.py
+++ b/src/fairseq2/file_system.py
@@ -12,6 +12,7 @@ from collections.abc import Callable, Iterator, Sequence
 from contextlib import contextmanager
 from enum import Enum
 from errno import EISDIR, ENOENT, ENOTDIR
+from glob import escape
 from os import scandir, strerror
 from pathlib import Path
 from shutil import copytree, rmtree
@@ -235,7 +236,8 @@ class FSspecFileSystem(FileSystem):
 
     @override
     def cat(self, path: Path) -> bytes:
-        return cast(bytes, self._fsspec.cat(self.get_short_uri(path)))
+        # `cat()` would interpret special characters as glob pattern.
+        return cast(bytes, self._fsspec.cat_file(self.get_short_uri(path)))
 
     @override
     def move(self, old_path: Path, new_path: Path) -> None:
@@ -323,7 +325,9 @@ class FSspecFileSystem(FileSystem):
 
     @override
     def glob(self, path: Path, pattern: str) -> Iterator[Path]:
-        paths = self._fsspec.glob(self.get_short_uri(path.joinpath(pattern)))
+        base_path = Path(escape(str(path)))
+
+        paths = self._fsspec.glob(self.get_short_uri(base_path.joinpath(pattern)))
         return iter([Path(self.get_long_uri(p)) for p in paths])  # type: ignore
 
     @override
-- 
2.43.0


From 4ac9d592aeeb8d6c14e5daa219be3a1b7c1ae2bd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 54/75] fix: return file names instead of URIs from
 walk_directory()

---
 src/fairseq2/file_system.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/file_system.py b/src/fairseq2/file_system.py
index 1b18da9..6b29df1 100644
--- a/src/fairseq2/file_system.py
+++ b/src/fairseq2/file_system.py
@@ -334,9 +334,17 @@ class FSspecFileSystem(FileSystem):
     def walk_directory(
         self, path: Path, *, on_error: Callable[[OSError], None] | None
     ) -> Iterator[tuple[str, Sequence[str]]]:
+        if self.is_file(path):
+            ex = NotADirectoryError(ENOTDIR, strerror(ENOTDIR), str(path))
+
+            if on_error is not None:
+                on_error(ex)
+
+            return
+
         results = self._fsspec.walk(self.get_short_uri(path), on_error=on_error)  # type: ignore
         for dir_pathname, _, filenames in results:
-            yield self.get_long_uri(dir_pathname), self.get_long_uri(filenames)  # type: ignore
+            yield self.get_long_uri(dir_pathname), filenames  # type: ignore
 
     @override
     @contextmanager
-- 
2.43.0


From 58e601b6f5a158d464f59f9d7be6bdae3b5bee2b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 55/75] fix: treat paths of file:// URIs as absolute

---
 src/fairseq2/file_system.py | 62 ++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 25 deletions(-)

diff --git a/src/fairseq2/file_system.py b/src/fairseq2/file_system.py
index 6b29df1..af85931 100644
--- a/src/fairseq2/file_system.py
+++ b/src/fairseq2/file_system.py
@@ -199,17 +199,30 @@ class FSspecFileSystem(FileSystem):
             return path_str
         return self._prefix + path_str
 
+    def _get_fs_path(self, path: PathOrPaths) -> Any:
+        """Returns the path(s) that should be passed to the underlying file system."""
+        short_uri = self.get_short_uri(path)
+
+        if not self._prefix or not self.is_local:
+            return short_uri
+
+        # Unlike in remote file systems, the leading slash is significant.
+        if isinstance(short_uri, str):
+            return "/" + short_uri
+
+        return ["/" + uri for uri in short_uri]
+
     @override
     def is_file(self, path: Path) -> bool:
-        return bool(self._fsspec.isfile(self.get_short_uri(path)))
+        return bool(self._fsspec.isfile(self._get_fs_path(path)))
 
     @override
     def is_dir(self, path: Path) -> bool:
-        return bool(self._fsspec.isdir(self.get_short_uri(path)))
+        return bool(self._fsspec.isdir(self._get_fs_path(path)))
 
     @override
     def exists(self, path: Path) -> bool:
-        return bool(self._fsspec.exists(self.get_short_uri(path)))
+        return bool(self._fsspec.exists(self._get_fs_path(path)))
 
     @override
     def open(self, path: Path, mode: FileMode = FileMode.READ) -> BinaryIO:
@@ -219,7 +232,7 @@ class FSspecFileSystem(FileSystem):
         elif mode == FileMode.APPEND:
             mode_str = "ab"
 
-        return cast(BinaryIO, self._fsspec.open(self.get_short_uri(path), mode_str))
+        return cast(BinaryIO, self._fsspec.open(self._get_fs_path(path), mode_str))
 
     @override
     def open_text(self, path: Path, mode: FileMode = FileMode.READ) -> TextIO:
@@ -231,13 +244,13 @@ class FSspecFileSystem(FileSystem):
 
         return cast(
             TextIO,
-            self._fsspec.open(self.get_short_uri(path), mode_str, encoding="utf-8"),
+            self._fsspec.open(self._get_fs_path(path), mode_str, encoding="utf-8"),
         )
 
     @override
     def cat(self, path: Path) -> bytes:
         # `cat()` would interpret special characters as glob pattern.
-        return cast(bytes, self._fsspec.cat_file(self.get_short_uri(path)))
+        return cast(bytes, self._fsspec.cat_file(self._get_fs_path(path)))
 
     @override
     def move(self, old_path: Path, new_path: Path) -> None:
@@ -246,14 +259,14 @@ class FSspecFileSystem(FileSystem):
             # a directory and falls back to a non-atomic copy if it cannot be
             # renamed.
             os.replace(
-                cast(str, self.get_short_uri(old_path)),
-                cast(str, self.get_short_uri(new_path)),
+                self._get_fs_path(old_path),
+                self._get_fs_path(new_path),
             )
 
             return
 
         self._fsspec.mv(
-            self.get_short_uri(old_path), self.get_short_uri(new_path), recursive=True
+            self._get_fs_path(old_path), self._get_fs_path(new_path), recursive=True
         )
 
     @override
@@ -262,11 +275,11 @@ class FSspecFileSystem(FileSystem):
         if self.is_dir(path):
             raise IsADirectoryError(EISDIR, strerror(EISDIR), str(path))
 
-        self._fsspec.rm(self.get_short_uri(path), recursive=False)
+        self._fsspec.rm(self._get_fs_path(path), recursive=False)
 
     @override
     def make_directory(self, path: Path) -> None:
-        self._fsspec.makedirs(self.get_short_uri(path), exist_ok=True)
+        self._fsspec.makedirs(self._get_fs_path(path), exist_ok=True)
 
     @override
     def copy_directory(self, source_path: Path, target_path: Path) -> None:
@@ -274,16 +287,16 @@ class FSspecFileSystem(FileSystem):
             # `copy()` of fsspec copies `source_path` into `target_path` if the
             # latter exists.
             copytree(
-                cast(str, self.get_short_uri(source_path)),
-                cast(str, self.get_short_uri(target_path)),
+                self._get_fs_path(source_path),
+                self._get_fs_path(target_path),
                 dirs_exist_ok=True,
             )
 
             return
 
         self._fsspec.copy(
-            self.get_short_uri(source_path),
-            self.get_short_uri(target_path),
+            self._get_fs_path(source_path),
+            self._get_fs_path(target_path),
             recursive=True,
         )
 
@@ -292,9 +305,8 @@ class FSspecFileSystem(FileSystem):
         """Copy a local file or directory to this filesystem."""
         if self.is_local:
             # For local filesystem, just use copy_directory
-            remote_path_obj = (
-                Path(remote_path) if isinstance(remote_path, str) else remote_path
-            )
+            remote_path_obj = Path(self._get_fs_path(remote_path))
+
             if local_path.is_dir():
                 copytree(local_path, remote_path_obj, dirs_exist_ok=True)
             else:
@@ -306,7 +318,7 @@ class FSspecFileSystem(FileSystem):
             # Handle both Path and string for remote_path
             remote_path_str = str(remote_path)
             # First normalize the path (restore s3:/ to s3://), then get short URI
-            normalized_uri = self.get_short_uri(self.get_long_uri(remote_path_str))
+            normalized_uri = self._get_fs_path(self.get_long_uri(remote_path_str))
             assert isinstance(normalized_uri, str)
             self._fsspec.put(
                 str(local_path),
@@ -321,13 +333,13 @@ class FSspecFileSystem(FileSystem):
 
         # For S3/remote filesystems, rmdir only removes empty directories
         # Use rm with recursive=True to delete directory and all contents
-        self._fsspec.rm(self.get_short_uri(path), recursive=True)
+        self._fsspec.rm(self._get_fs_path(path), recursive=True)
 
     @override
     def glob(self, path: Path, pattern: str) -> Iterator[Path]:
         base_path = Path(escape(str(path)))
 
-        paths = self._fsspec.glob(self.get_short_uri(base_path.joinpath(pattern)))
+        paths = self._fsspec.glob(self._get_fs_path(base_path.joinpath(pattern)))
         return iter([Path(self.get_long_uri(p)) for p in paths])  # type: ignore
 
     @override
@@ -342,7 +354,7 @@ class FSspecFileSystem(FileSystem):
 
             return
 
-        results = self._fsspec.walk(self.get_short_uri(path), on_error=on_error)  # type: ignore
+        results = self._fsspec.walk(self._get_fs_path(path), on_error=on_error)  # type: ignore
         for dir_pathname, _, filenames in results:
             yield self.get_long_uri(dir_pathname), filenames  # type: ignore
 
@@ -350,7 +362,7 @@ class FSspecFileSystem(FileSystem):
     @contextmanager
     def tmp_directory(self, base_dir: Path) -> Iterator[Path]:
         if self.is_local:
-            with TemporaryDirectory(dir=base_dir) as dirname:
+            with TemporaryDirectory(dir=self._get_fs_path(base_dir)) as dirname:
                 yield Path(dirname)
         else:
             import uuid
@@ -361,14 +373,14 @@ class FSspecFileSystem(FileSystem):
                 yield tmp_path
             finally:
                 try:
-                    self._fsspec.rm(self.get_short_uri(tmp_path), recursive=True)
+                    self._fsspec.rm(self._get_fs_path(tmp_path), recursive=True)
                 except Exception:
                     pass
 
     @override
     def resolve(self, path: Path) -> Path:
         if self.is_local:
-            return path.expanduser().resolve()
+            return Path(self._get_fs_path(path)).expanduser().resolve()
         # For remote filesystems (e.g., S3), just return the path as-is
         # since there's no concept of user expansion or symlink resolution
         return path
-- 
2.43.0


From 94cf4c8d0aa6b0cbd65da0fb35e8c2f92da488a4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:54:09 +0000
Subject: [PATCH 56/75] fix: remove exactly the specified file on remote file
 systems

---
 src/fairseq2/file_system.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/file_system.py b/src/fairseq2/file_system.py
index af85931..e852c50 100644
--- a/src/fairseq2/file_system.py
+++ b/src/fairseq2/file_system.py
@@ -275,7 +275,8 @@ class FSspecFileSystem(FileSystem):
         if self.is_dir(path):
             raise IsADirectoryError(EISDIR, strerror(EISDIR), str(path))
 
-        self._fsspec.rm(self._get_fs_path(path), recursive=False)
+        # `rm()` would interpret special characters as glob pattern.
+        self._fsspec.rm_file(self._get_fs_path(path))
 
     @override
     def make_directory(self, path: Path) -> None:
-- 
2.43.0


From 91aa247cabb37fd13536ff90c8227711ac4119e9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:05:16 +0000
Subject: [PATCH 57/75] fix: never use an asset that was partially downloaded,
 extracted or removed

---
 src/fairseq2/assets/download_manager.py | 65 +++++++++++++++----------
 1 file changed, 39 insertions(+), 26 deletions(-)

diff --git a/src/fairseq2/assets/download_manager.py b/src/fairseq2/assets/download_manager.py
index 1cfd12b..cddceb7 100644
--- a/src/fairseq2/assets/download_manager.py
+++ b/src/fairseq2/assets/download_manager.py
@@ -550,25 +550,33 @@ class _AssetDownloadOperation:
     def _clean_cached_asset(self) -> None:
         asset_dir = self._asset_dir
 
-        try:
-            self._file_system.remove_directory(asset_dir)
-        except FileNotFoundError:
-            pass
+        self._remove_directory(asset_dir)
 
         download_dir = asset_dir.with_suffix(".download")
 
-        try:
-            self._file_system.remove_directory(download_dir)
-        except FileNotFoundError:
-            pass
+        self._remove_directory(download_dir)
 
         tmp_download_dir = asset_dir.with_suffix(".download.tmp")
 
+        self._remove_directory(tmp_download_dir)
+
+    def _remove_directory(self, path: Path) -> None:
+        # Rename first to ensure that an interrupted removal does not leave a
+        # partial directory behind.
+        trash_dir = self._asset_dir.with_suffix(".trash")
+
         try:
-            self._file_system.remove_directory(tmp_download_dir)
+            self._file_system.remove_directory(trash_dir)
         except FileNotFoundError:
             pass
 
+        try:
+            self._file_system.move(path, trash_dir)
+        except FileNotFoundError:
+            return
+
+        self._file_system.remove_directory(trash_dir)
+
     def _download_asset(self) -> None:
         asset_dir = self._asset_dir
 
@@ -585,6 +593,9 @@ class _AssetDownloadOperation:
         with ExitStack() as exit_stack:
             tmp_download_dir = asset_dir.with_suffix(".download.tmp")
 
+            # Might be left behind by an interrupted download.
+            self._remove_directory(tmp_download_dir)
+
             self._file_system.make_directory(tmp_download_dir)
 
             def remove_tmp_dir() -> None:
@@ -704,15 +715,21 @@ class _AssetDownloadOperation:
         if not self._file_system.exists(download_dir):
             return
 
-        self._file_system.make_directory(asset_dir)
-
         it = download_dir.iterdir()
 
         try:
             download_file = next(it)
         except StopIteration:
+            self._remove_directory(download_dir)
+
             return
 
+        # Extract to a temporary directory first to ensure that an interrupted
+        # extraction does not leave a partial asset behind.
+        tmp_asset_dir = asset_dir.with_suffix(".tmp")
+
+        self._remove_directory(tmp_asset_dir)
+
         # There are various file types (e.g. PyTorch tensor files) that
         # internally use the zip format. To be on the safe side we only
         # extract files that have the .zip suffix.
@@ -722,44 +739,40 @@ class _AssetDownloadOperation:
                     "extract", total=None, start=False
                 )
 
+                self._file_system.make_directory(tmp_asset_dir)
+
                 with task:
                     try:
                         with ZipFile(download_file) as zip_fp:
-                            zip_fp.extractall(path=asset_dir)
+                            zip_fp.extractall(path=tmp_asset_dir)
                     except (KeyError, OSError, EOFError, BadZipFile) as ex:
                         self._raise_download_error(
                             f"{download_file} cannot be extracted.", ex
                         )
-
-                    try:
-                        self._file_system.remove(download_file)
-                    except OSError:
-                        pass
         elif is_tarfile(download_file):
             with self._progress_reporter:
                 task = self._progress_reporter.create_task(
                     "extract", total=None, start=False
                 )
 
+                self._file_system.make_directory(tmp_asset_dir)
+
                 with task:
                     try:
                         with TarFile(download_file) as tar_fp:
-                            tar_fp.extractall(path=asset_dir)
+                            tar_fp.extractall(path=tmp_asset_dir)
                     except (KeyError, OSError, EOFError) as ex:
                         self._raise_download_error(
                             f"{download_file} cannot be extracted.", ex
                         )
-
-                    try:
-                        self._file_system.remove(download_file)
-                    except OSError:
-                        pass
         else:
-            asset_path = asset_dir.joinpath(download_file.name)
+            tmp_asset_dir = download_dir
+
+        self._remove_directory(asset_dir)
 
-            self._file_system.move(download_file, asset_path)
+        self._file_system.move(tmp_asset_dir, asset_dir)
 
-        self._file_system.remove_directory(download_dir)
+        self._remove_directory(download_dir)
 
     def _retrieve_asset_path(self) -> Path:
         asset_dir = self._asset_dir
-- 
2.43.0


From 35521b9a5cf245f4913a2a9faa7906ca545f6e96 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:05:16 +0000
Subject: [PATCH 58/75] fix: support compressed tar files in asset downloads

---
 src/fairseq2/assets/download_manager.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fairseq2/assets/download_manager.py b/src/fairseq2/assets/download_manager.py
index cddceb7..d92c0b7 100644
--- a/src/fairseq2/assets/download_manager.py
+++ b/src/fairseq2/assets/download_manager.py
@@ -7,12 +7,13 @@
 from __future__ import annotations
 
 import re
+import tarfile
 from abc import ABC, abstractmethod
 from collections.abc import Generator, Sequence, Set
 from contextlib import ExitStack, contextmanager
 from hashlib import sha1
 from pathlib import Path
-from tarfile import TarFile, is_tarfile
+from tarfile import TarError, is_tarfile
 from tempfile import NamedTemporaryFile
 from typing import Final, final
 from urllib.error import HTTPError, URLError
@@ -759,9 +760,9 @@ class _AssetDownloadOperation:
 
                 with task:
                     try:
-                        with TarFile(download_file) as tar_fp:
+                        with tarfile.open(download_file) as tar_fp:
                             tar_fp.extractall(path=tmp_asset_dir)
-                    except (KeyError, OSError, EOFError) as ex:
+                    except (KeyError, OSError, EOFError, TarError) as ex:
                         self._raise_download_error(
                             f"{download_file} cannot be extracted.", ex
                         )
-- 
2.43.0


From 2f514258763e2ef6edf4f7f606e7ecaeef31b6c1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:05:16 +0000
Subject: [PATCH 59/75] fix: do not write outside of the asset cache directory
 if the server is not trusted

---
 src/fairseq2/assets/download_manager.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fairseq2/assets/download_manager.py b/src/fairseq2/assets/download_manager.py
index d92c0b7..e0e804b 100644
--- a/src/fairseq2/assets/download_manager.py
+++ b/src/fairseq2/assets/download_manager.py
@@ -700,6 +700,9 @@ class _AssetDownloadOperation:
                 except ValueError:
                     filename = "asset"
 
+            # Do not let the server choose a path outside of the directory.
+            filename = Path(filename).name or "asset"
+
             download_file = tmp_download_dir.joinpath(filename)
 
             self._file_system.move(tmp_file, download_file)
@@ -761,6 +764,11 @@ class _AssetDownloadOperation:
                 with task:
                     try:
                         with tarfile.open(download_file) as tar_fp:
+                            # Not available in older bugfix releases of Python.
+                            tar_fp.extraction_filter = getattr(
+                                tarfile, "data_filter", lambda member, _: member
+                            )
+
                             tar_fp.extractall(path=tmp_asset_dir)
                     except (KeyError, OSError, EOFError, TarError) as ex:
                         self._raise_download_error(
-- 
2.43.0


From 2b3951727268ed165e6e1e0d32251e591927bade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:10 +0000
Subject: [PATCH 60/75] fix: raise AssetDownloadError if the connection is lost
 during a download

---
 src/fairseq2/assets/download_manager.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/fairseq2/assets/download_manager.py b/src/fairseq2/assets/download_manager.py
index e0e804b..a16a8e9 100644
--- a/src/fairseq2/assets/download_manager.py
+++ b/src/fairseq2/assets/download_manager.py
@@ -12,6 +12,7 @@ from abc import ABC, abstractmethod
 from collections.abc import Generator, Sequence, Set
 from contextlib import ExitStack, contextmanager
 from hashlib import sha1
+from http.client import HTTPException
 from pathlib import Path
 from tarfile import TarError, is_tarfile
 from tempfile import NamedTemporaryFile
@@ -619,12 +620,12 @@ class _AssetDownloadOperation:
 
             try:
                 response = urlopen(request)
-            except URLError as ex:
-                self._raise_download_error("Address is not reachable.", ex)
             except HTTPError as ex:
                 self._raise_download_error(
                     f"Server returned HTTP error code {ex.code}."
                 )
+            except (URLError, HTTPException) as ex:
+                self._raise_download_error("Address is not reachable.", ex)
 
             exit_stack.enter_context(response)
 
@@ -656,9 +657,9 @@ class _AssetDownloadOperation:
             while True:
                 try:
                     buffer = response.read(1024 * 8)
-                except HTTPError as ex:
+                except HTTPException as ex:
                     self._raise_download_error(
-                        f"Server returned HTTP error code {ex.code}."
+                        "Connection to the server is lost.", ex
                     )
 
                 buffer_len = len(buffer)
-- 
2.43.0


From 1b6b2adf530444689d8194a2c7172efa8a11e769 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:42:02 +0000
Subject: [PATCH 61/75] fix: support no_sync() with FSDP2

---
 src/fairseq2/nn/fsdp/fsdp2.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fairseq2/nn/fsdp/fsdp2.py b/src/fairseq2/nn/fsdp/fsdp2.py
index cdcbf6d..2fa9a31 100644
--- a/src/fairseq2/nn/fsdp/fsdp2.py
+++ b/src/fairseq2/nn/fsdp/fsdp2.py
@@ -51,7 +51,7 @@ if TYPE_CHECKING:
 
         def reshard(self) -> None: ...
 
-        def set_requires_grad_sync(self, value: bool) -> None: ...
+        def set_requires_gradient_sync(self, value: bool) -> None: ...
 
 else:
     FSDP2Module: TypeAlias = FSDPModule
@@ -205,12 +205,12 @@ def fsdp2_load_local_state_dict(
 
 @contextmanager
 def fsdp2_no_sync(module: FSDP2Module) -> Iterator[None]:
-    module.set_requires_grad_sync(False)
+    module.set_requires_gradient_sync(False)
 
     try:
         yield
     finally:
-        module.set_requires_grad_sync(True)
+        module.set_requires_gradient_sync(True)
 
 
 @contextmanager
-- 
2.43.0


From b664bbe7cd179b0be71453e0c5cd7c4a6e9c6b7e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:42:02 +0000
Subject: [PATCH 62/75] fix: convert batch normalization before sharding with
 FSDP

---
 src/fairseq2/nn/fsdp/fsdp1.py | 13 +++++++------
 src/fairseq2/nn/fsdp/fsdp2.py | 13 +++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/fairseq2/nn/fsdp/fsdp1.py b/src/fairseq2/nn/fsdp/fsdp1.py
index 306a8ef..58658f2 100644
--- a/src/fairseq2/nn/fsdp/fsdp1.py
+++ b/src/fairseq2/nn/fsdp/fsdp1.py
@@ -150,6 +150,13 @@ def to_fsdp1(
         except RuntimeError as ex:
             raise GangError("FSDP1 parameter synchronization failed.") from ex
 
+    # FSDP does not broadcast buffers during training, so ensure that batch
+    # normalization works. This has to happen before sharding, since it replaces
+    # modules.
+    dp_process_group = gangs.dp.as_process_group()
+
+    module = SyncBatchNorm.convert_sync_batchnorm(module, dp_process_group)
+
     module = applier(module, wrap)
 
     if not isinstance(module, FSDP1Module):
@@ -167,12 +174,6 @@ def to_fsdp1(
             optim_state_dict_config=ShardedOptimStateDictConfig(offload_to_cpu=False),
         )
 
-    # FSDP does not broadcast buffers during training, so ensure that batch
-    # normalization works.
-    dp_process_group = gangs.dp.as_process_group()
-
-    SyncBatchNorm.convert_sync_batchnorm(module, dp_process_group)
-
     return module
 
 
diff --git a/src/fairseq2/nn/fsdp/fsdp2.py b/src/fairseq2/nn/fsdp/fsdp2.py
index 2fa9a31..f06e70a 100644
--- a/src/fairseq2/nn/fsdp/fsdp2.py
+++ b/src/fairseq2/nn/fsdp/fsdp2.py
@@ -157,17 +157,18 @@ def to_fsdp2(
 
         return cast(FSDP2Module, module)
 
+    # FSDP2 does not broadcast buffers during training, so ensure that batch
+    # normalization works. This has to happen before sharding, since it replaces
+    # modules.
+    dp_process_group = dp_gang.as_process_group()
+
+    module = SyncBatchNorm.convert_sync_batchnorm(module, dp_process_group)
+
     module = applier(module, wrap)
 
     if not isinstance(module, FSDP2Module):
         module = wrap(module, reshard_after_forward=False)
 
-    # FSDP2 does not broadcast buffers during training, so ensure that batch
-    # normalization works.
-    dp_process_group = dp_gang.as_process_group()
-
-    SyncBatchNorm.convert_sync_batchnorm(module, dp_process_group)
-
     return module
 
 
-- 
2.43.0


From 88b4def1bdeba2600add26e58b94020b82ff80ec Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:42:02 +0000
Subject: [PATCH 63/75] fix: do not raise TypeError in
 fsdp_load_local_state_dict()

---
 src/fairseq2/nn/fsdp/unified.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fairseq2/nn/fsdp/unified.py b/src/fairseq2/nn/fsdp/unified.py
index 5dbead2..e3c5d42 100644
--- a/src/fairseq2/nn/fsdp/unified.py
+++ b/src/fairseq2/nn/fsdp/unified.py
@@ -104,9 +104,13 @@ def fsdp_load_local_state_dict(module: Module, state_dict: dict[str, object]) ->
     if isinstance(module, FSDP1Module):
         fsdp1_load_local_state_dict(module, state_dict)
 
+        return
+
     if isinstance(module, FSDP2Module):
         fsdp2_load_local_state_dict(module, state_dict)
 
+        return
+
     raise _type_error(module)
 
 
-- 
2.43.0


From 672d8c120baf9d055ab13ffa87fd9a261ff78bad Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:53:03 +0000
Subject: [PATCH 64/75] fix: broadcast persistent buffers of activation
 checkpointed layers with DDP

---
 src/fairseq2/nn/ddp.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/fairseq2/nn/ddp.py b/src/fairseq2/nn/ddp.py
index c6e6029..277f143 100644
--- a/src/fairseq2/nn/ddp.py
+++ b/src/fairseq2/nn/ddp.py
@@ -107,18 +107,17 @@ def _broadcast_buffers(module: Module, gang: Gang) -> None:
 
     buffers = []
 
-    state_dict = module.state_dict()
+    for m in module.modules():
+        for name, buffer in m.named_buffers(recurse=False):
+            if buffer in memo:
+                continue
 
-    for name, buffer in module.named_buffers():
-        if buffer in memo:
-            continue
+            # Make sure that we don't broadcast non-persistent buffers since
+            # they are static.
+            if name not in m._non_persistent_buffers_set:
+                buffers.append(buffer)
 
-        # Make sure that we don't broadcast non-persistent buffers since they
-        # are static.
-        if name in state_dict:
-            buffers.append(buffer)
-
-        memo.add(buffer)
+            memo.add(buffer)
 
     if not buffers:
         return
-- 
2.43.0


From a3951fb58d44baf2d45df7c21cd4b74137ac3079 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:59:16 +0000
Subject: [PATCH 65/75] fix: apply the items of one --config option in the
 order they are specified

Several items of an option were collected into one override, so that `a={} a.b=2`
ignored the second item and `a=1 del:a` the deletion.
---
 src/fairseq2/utils/argparse.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/fairseq2/utils/argparse.py b/src/fairseq2/utils/argparse.py
index 0ab194f..dfd5a47 100644
--- a/src/fairseq2/utils/argparse.py
+++ b/src/fairseq2/utils/argparse.py
@@ -47,12 +47,18 @@ class ConfigAction(Action):
         values: Any,
         option_string: str | None = None,
     ) -> None:
-        data: dict[str, Any] = {}
+        items = getattr(namespace, self.dest, None)
+        if items is None:
+            items = []
 
         def get_parent_node(path: str) -> tuple[dict[str, Any], str]:
             keys = path.split(".")
 
-            node = data
+            # Use a separate override for each item, so that the items are applied
+            # in the order in which they are specified.
+            node: dict[str, Any] = {}
+
+            items.append(node)
 
             for key in keys[:-1]:
                 child_node = node.get(key)
@@ -115,12 +121,6 @@ class ConfigAction(Action):
 
                 set_keys[key] = parsed_value
 
-        items = getattr(namespace, self.dest, None)
-        if items is None:
-            items = []
-
-        items.append(data)
-
         setattr(namespace, self.dest, items)
 
     @staticmethod
-- 
2.43.0


From 88845cbbf08d0bd848e8482ea5ed1946df78524d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:59:16 +0000
Subject: [PATCH 66/75] fix: structure values of optional types that list None
 first

`None | T` refused every value other than None.
---
 src/fairseq2/utils/structured.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/utils/structured.py b/src/fairseq2/utils/structured.py
index 95bf7f9..07131ff 100644
--- a/src/fairseq2/utils/structured.py
+++ b/src/fairseq2/utils/structured.py
@@ -470,8 +470,12 @@ class StandardValueConverter(ValueConverter):
     ) -> object:
         is_optional = len(type_args) == 2 and NoneType in type_args
 
-        if is_optional and obj is None:
-            return obj
+        if is_optional:
+            if obj is None:
+                return obj
+
+            # `None` might be the first element of the union.
+            type_args = tuple(t for t in type_args if t is not NoneType)
 
         errors = []
 
-- 
2.43.0


From 7e4980ad0295f1944d28adfbd6754c34b55b80e8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:59:16 +0000
Subject: [PATCH 67/75] fix: unstructure sets in a deterministic order

The order depended on the hash seed of the process, and with it the sweep tag of
a recipe, so that the processes of a job used different output directories.
---
 src/fairseq2/utils/structured.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/utils/structured.py b/src/fairseq2/utils/structured.py
index 07131ff..d910362 100644
--- a/src/fairseq2/utils/structured.py
+++ b/src/fairseq2/utils/structured.py
@@ -603,4 +603,12 @@ class StandardValueConverter(ValueConverter):
     def _unstructure_set(self, obj: object) -> list[object]:
         s = cast(set[object], obj)
 
-        return [self.unstructure(e) for e in s]
+        elements: list[Any] = [self.unstructure(e) for e in s]
+
+        # The iteration order of a set can differ between processes.
+        try:
+            elements.sort()
+        except TypeError:
+            elements.sort(key=repr)
+
+        return elements
-- 
2.43.0


From d9747404467ee63c7c5a30943a7b54b564bb2cb0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:59:16 +0000
Subject: [PATCH 68/75] fix: give configurations that differ in special
 characters different sweep tags

The hash was computed from values without their special characters, so that runs
with e.g. the paths `/data/a/b` and `/data/ab` shared an output directory.
---
 src/fairseq2/recipe/internal/sweep_tag.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/fairseq2/recipe/internal/sweep_tag.py b/src/fairseq2/recipe/internal/sweep_tag.py
index b062544..b5649e8 100644
--- a/src/fairseq2/recipe/internal/sweep_tag.py
+++ b/src/fairseq2/recipe/internal/sweep_tag.py
@@ -64,13 +64,18 @@ class _StandardSweepTagGenerator(_SweepTagGenerator):
 
         tags = {"world_size": f"{self._world_info.size}"}
 
-        self._collect_tags(unstructured_config, tags, path="")
+        # The unmodified values of the tags that had to be modified.
+        raw_tags: dict[str, str] = {}
 
-        tags["hash"] = self._generate_hash(tags)
+        self._collect_tags(unstructured_config, tags, raw_tags, path="")
+
+        tags["hash"] = self._generate_hash({**tags, **raw_tags})
 
         return self._safe_format(sweep_format, tags)
 
-    def _collect_tags(self, obj: object, tags: dict[str, str], path: str) -> None:
+    def _collect_tags(
+        self, obj: object, tags: dict[str, str], raw_tags: dict[str, str], path: str
+    ) -> None:
         if obj is None:
             tags[path] = "none"
 
@@ -79,6 +84,9 @@ class _StandardSweepTagGenerator(_SweepTagGenerator):
         if isinstance(obj, str):
             tag = self._remove_non_word(obj)
 
+            if tag != obj:
+                raw_tags[path] = obj
+
             if len(tag) >= 16:
                 tag = self._generate_tag_hash(tag)
 
@@ -98,14 +106,17 @@ class _StandardSweepTagGenerator(_SweepTagGenerator):
 
         if isinstance(obj, list):
             for idx, elem in enumerate(obj):
-                self._collect_tags(elem, tags, path=f"{path}[{idx}]")
+                self._collect_tags(elem, tags, raw_tags, path=f"{path}[{idx}]")
 
             return
 
         if isinstance(obj, dict):
             for key, value in obj.items():
                 self._collect_tags(
-                    value, tags, path=f"{path}.{key}" if path else f"{key}"
+                    value,
+                    tags,
+                    raw_tags,
+                    path=f"{path}.{key}" if path else f"{key}",
                 )
 
             return
-- 
2.43.0


From b300b1ddd8a1139956daa7be219280cecc7d8cf7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:59:16 +0000
Subject: [PATCH 69/75] fix: refuse unmatched closing braces in the sweep
 format

They were silently removed, whereas one at the end of the format was refused.
---
 src/fairseq2/recipe/internal/sweep_tag.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/recipe/internal/sweep_tag.py b/src/fairseq2/recipe/internal/sweep_tag.py
index b5649e8..5929c11 100644
--- a/src/fairseq2/recipe/internal/sweep_tag.py
+++ b/src/fairseq2/recipe/internal/sweep_tag.py
@@ -209,7 +209,9 @@ class _StandardSweepTagGenerator(_SweepTagGenerator):
                     if c == "}":  # escape
                         output.append("}")
                     else:
-                        output.append(c)
+                        msg = "`sweep_format` must have matching opening and closing braces."
+
+                        raise ValidationError(msg, field="common")
 
         if state != State.LITERAL:
             msg = "`sweep_format` must have matching opening and closing braces."
-- 
2.43.0


From a8b3b8a593e9e646f7d78e41e76cc2ba6bf4b0e4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:05:32 +0000
Subject: [PATCH 70/75] fix: refuse fractional and infinite numbers as values
 of integer fields

Fractional numbers were silently truncated, infinite ones raised OverflowError.
---
 src/fairseq2/utils/structured.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fairseq2/utils/structured.py b/src/fairseq2/utils/structured.py
index d910362..e565921 100644
--- a/src/fairseq2/utils/structured.py
+++ b/src/fairseq2/utils/structured.py
@@ -143,6 +143,9 @@ class StandardValueConverter(ValueConverter):
         if isinstance(obj, kls):
             return obj
 
+        if kls is int and isinstance(obj, float) and not obj.is_integer():
+            raise StructureError(f"{obj} cannot be parsed as `{kls}`.")
+
         try:
             return kls(obj)
         except (TypeError, ValueError) as ex:
-- 
2.43.0


From d41e1c0851abb60ddc323dbf8bd00bec1eb89e09 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:23:06 +0000
Subject: [PATCH 71/75] fix: accept environment-specific assets that name their
 own asset as base

The documented form `name: my_model@user`, `base: my_model` caused an infinite
recursion.
---
 src/fairseq2/assets/store.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fairseq2/assets/store.py b/src/fairseq2/assets/store.py
index d861107..887d76e 100644
--- a/src/fairseq2/assets/store.py
+++ b/src/fairseq2/assets/store.py
@@ -130,6 +130,11 @@ class StandardAssetStore(AssetStore):
         for env in envs:
             env_metadata = self._maybe_get_metadata(f"{name}@{env}")
             if env_metadata is not None:
+                # An environment-specific asset is always based on the asset
+                # itself.
+                if env_metadata.get("base") == name:
+                    del env_metadata["base"]
+
                 metadata.update(env_metadata)
 
                 break
-- 
2.43.0


From 1ecf6c7111d45923db631f9dd96cad799e89fb56 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:23:06 +0000
Subject: [PATCH 72/75] fix: report assets that are based on themselves

They caused an infinite recursion.
---
 src/fairseq2/assets/store.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/fairseq2/assets/store.py b/src/fairseq2/assets/store.py
index 887d76e..d920779 100644
--- a/src/fairseq2/assets/store.py
+++ b/src/fairseq2/assets/store.py
@@ -113,11 +113,13 @@ class StandardAssetStore(AssetStore):
         if not name:
             return None
 
-        return self._do_retrieve_card(name, name, envs)
+        return self._do_retrieve_card([name], envs)
 
     def _do_retrieve_card(
-        self, name: str, leaf_name: str, envs: list[str]
+        self, names: list[str], envs: list[str]
     ) -> AssetCard | None:
+        leaf_name, name = names[0], names[-1]
+
         metadata = self._maybe_get_metadata(f"{name}@")
         if metadata is None:
             if name != leaf_name:
@@ -144,7 +146,12 @@ class StandardAssetStore(AssetStore):
         if not isinstance(base_name, str):
             base_card = None
         else:
-            base_card = self._do_retrieve_card(base_name, leaf_name, envs)
+            if base_name in names:
+                msg = f"{base_name} base asset of the {leaf_name} asset card is based on itself."
+
+                raise AssetCardError(leaf_name, msg)
+
+            base_card = self._do_retrieve_card(names + [base_name], envs)
 
         return AssetCard(name, metadata, base_card)
 
-- 
2.43.0


From 5f683a1d3565c11263887c5cc3edb0e016838d2c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:28:47 +0000
Subject: [PATCH 73/75] fix: resolve relative paths of a base asset against its
 own directory

A relative path that is inherited from a base asset was resolved against the
directory of the derived asset.
---
 src/fairseq2/assets/card.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/fairseq2/assets/card.py b/src/fairseq2/assets/card.py
index 3bf6c92..a766c4a 100644
--- a/src/fairseq2/assets/card.py
+++ b/src/fairseq2/assets/card.py
@@ -49,7 +49,7 @@ class AssetCard:
             except KeyError:
                 pass
             else:
-                return AssetCardField(name, self, value)
+                return AssetCardField(name, self, value, owner=card)
 
             card = card.base
 
@@ -84,10 +84,13 @@ class AssetCard:
 
 @final
 class AssetCardField:
-    def __init__(self, name: str, card: AssetCard, value: object) -> None:
+    def __init__(
+        self, name: str, card: AssetCard, value: object, owner: AssetCard | None = None
+    ) -> None:
         self._name = name
         self._card = card
         self._value = value
+        self._owner = card if owner is None else owner
 
     @property
     def value(self) -> object:
@@ -116,7 +119,8 @@ class AssetCardField:
             raise AssetCardError(self._card.name, msg) from None
 
         if not path.is_absolute():
-            base_path = self._card.metadata.get("__base_path__")
+            base_path = self._owner.metadata.get("__base_path__")
+
             if not isinstance(base_path, Path):
                 msg = f"{self._name} field of the {self._card.name} asset card is a relative pathname and cannot be converted to a URI."
 
-- 
2.43.0


From 0a4631957a1c09286b36e749e69d07a7f4a8b042 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:28:47 +0000
Subject: [PATCH 74/75] fix: resolve relative paths of an asset against its own
 directory in environments

The paths that an environment-specific asset does not redefine were resolved
against the directory of the environment-specific asset.
---
 src/fairseq2/assets/card.py  | 4 ++++
 src/fairseq2/assets/store.py | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/src/fairseq2/assets/card.py b/src/fairseq2/assets/card.py
index a766c4a..6ca065f 100644
--- a/src/fairseq2/assets/card.py
+++ b/src/fairseq2/assets/card.py
@@ -121,6 +121,10 @@ class AssetCardField:
         if not path.is_absolute():
             base_path = self._owner.metadata.get("__base_path__")
 
+            base_paths = self._owner.metadata.get("__base_paths__")
+            if isinstance(base_paths, Mapping) and self._name in base_paths:
+                base_path = base_paths[self._name]
+
             if not isinstance(base_path, Path):
                 msg = f"{self._name} field of the {self._card.name} asset card is a relative pathname and cannot be converted to a URI."
 
diff --git a/src/fairseq2/assets/store.py b/src/fairseq2/assets/store.py
index d920779..8c8005d 100644
--- a/src/fairseq2/assets/store.py
+++ b/src/fairseq2/assets/store.py
@@ -137,6 +137,13 @@ class StandardAssetStore(AssetStore):
                 if env_metadata.get("base") == name:
                     del env_metadata["base"]
 
+                # Relative paths are relative to the source that defines them.
+                base_path = metadata.get("__base_path__")
+
+                metadata["__base_paths__"] = {
+                    field: base_path for field in metadata if field not in env_metadata
+                }
+
                 metadata.update(env_metadata)
 
                 break
-- 
2.43.0


From d37fd3ae233c19911cb0882be5f5079cfb215ab4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:28:47 +0000
Subject: [PATCH 75/75] fix: leave the entries of in-memory asset sources
 unchanged

The names were removed from the entries, so that a source could not be loaded
again, and base names with surrounding spaces were not found.
---
 src/fairseq2/assets/metadata_provider.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/assets/metadata_provider.py b/src/fairseq2/assets/metadata_provider.py
index c4e46c5..7d999b2 100644
--- a/src/fairseq2/assets/metadata_provider.py
+++ b/src/fairseq2/assets/metadata_provider.py
@@ -241,7 +241,9 @@ def load_in_memory_asset_metadata(
 ) -> AssetMetadataProvider:
     metadata = {}
 
-    for idx, asset_metadata in enumerate(entries):
+    for idx, entry in enumerate(entries):
+        asset_metadata = dict(entry)
+
         name = asset_metadata.pop("name", None)
         if not name:
             msg = f"Asset at index {idx} in `metadata` must have a name."
@@ -277,6 +279,8 @@ def load_in_memory_asset_metadata(
 
                 raise AssetMetadataError(source, msg)
 
+            asset_metadata["base"] = base_name
+
         metadata[name] = asset_metadata
 
     return CachedAssetMetadataProvider(source, metadata)
-- 
2.43.0

