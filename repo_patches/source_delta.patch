From 715e83fd6e3d244a5f465d00e3488f49be5d66de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:51 +0000
Subject: [PATCH 01/50] fix: initialise failed-claim counter so losing a trial
 to another worker does not crash the worker

---
 neps/runtime.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neps/runtime.py b/neps/runtime.py
index 71b72f8..0a09586 100644
--- a/neps/runtime.py
+++ b/neps/runtime.py
@@ -379,6 +379,7 @@ class DefaultWorker(Generic[Loc]):
         _error_from_evaluation: Exception | None = None
 
         _repeated_fail_get_next_trial_count = 0
+        n_failed_set_trial_state = 0
         while True:
             # NOTE: We rely on this function to do logging and raising errors if it should
             should_stop = self._check_if_should_stop(
-- 
2.43.0


From 1d0d1d3bf74f9c48ed2b334f8c9e2b41315ebb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:51 +0000
Subject: [PATCH 02/50] fix: never hand out a trial that another worker claimed
 after it was listed as pending

---
 neps/state/neps_state.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neps/state/neps_state.py b/neps/state/neps_state.py
index 1ed3f67..80848db 100644
--- a/neps/state/neps_state.py
+++ b/neps/state/neps_state.py
@@ -207,8 +207,12 @@ class NePSState(Generic[Loc]):
         Returns:
             The next trial or a list of trials if `n` is not `None`.
         """
+        # NOTE: Another worker may have claimed the trial between being listed as pending
+        # and being synced here, in which case it's no longer up for grabs.
         _pending_itr = (
-            shared_trial.synced() for _, shared_trial in self._trials.pending()
+            trial
+            for _, shared_trial in self._trials.pending()
+            if (trial := shared_trial.synced()).state == Trial.State.PENDING
         )
         if n is not None:
             return take(n, _pending_itr)
-- 
2.43.0


From 09e3d9245e2c10f186f9d8a6d7b7db138332290c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:31 +0000
Subject: [PATCH 03/50] fix: a trial becomes visible to other workers only once
 it is completely written

---
 neps/state/filebased.py | 10 +++++++---
 neps/state/protocols.py |  4 +++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/neps/state/filebased.py b/neps/state/filebased.py
index cf53c62..6ba5f21 100644
--- a/neps/state/filebased.py
+++ b/neps/state/filebased.py
@@ -92,11 +92,15 @@ class TrialRepoInDirectory(TrialRepo[Path]):
 
     @override
     def all_trial_ids(self) -> set[str]:
-        """List all the trial ids in this trial Repo."""
+        """List all the trial ids in this trial Repo.
+
+        A trial that is still being created, i.e. has no version yet, is not listed.
+        """
         return {
             config_path.name.replace("config_", "")
             for config_path in self.directory.iterdir()
-            if config_path.name.startswith("config_") and config_path.is_dir()
+            if config_path.name.startswith("config_")
+            and (config_path / ".version").exists()
         }
 
     @override
@@ -168,7 +172,7 @@ class TrialRepoInDirectory(TrialRepo[Path]):
                 repository.
         """
         config_path = self.directory.absolute().resolve() / f"config_{trial.metadata.id}"
-        if config_path.exists():
+        if (config_path / ".version").exists():
             raise TrialRepo.TrialAlreadyExistsError(
                 f"Trial '{trial.metadata.id}' already exists as '{config_path}'."
             )
diff --git a/neps/state/protocols.py b/neps/state/protocols.py
index 51bff7d..3e65517 100644
--- a/neps/state/protocols.py
+++ b/neps/state/protocols.py
@@ -198,8 +198,10 @@ class VersionedResource(Generic[T, K]):
                 f" with version '{current_version}'"
             )
 
-        version = versioner.bump()
+        # NOTE: The existance of a version is what marks the resource as existing, hence
+        # it must only be there once the data is.
         reader_writer.write(data, location)
+        version = versioner.bump()
         return VersionedResource(
             _current=data,
             _location=location,
-- 
2.43.0


From e9f863673b605cbc6f14105ef65ad4eb33b3acb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:31 +0000
Subject: [PATCH 04/50] fix: workers starting at the same time on a new
 directory no longer fail on the missing optimizer info

---
 neps/state/filebased.py | 53 ++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 30 deletions(-)

diff --git a/neps/state/filebased.py b/neps/state/filebased.py
index 6ba5f21..c8d32fd 100644
--- a/neps/state/filebased.py
+++ b/neps/state/filebased.py
@@ -575,9 +575,8 @@ def create_or_load_filebased_neps_state(
     !!! warning
 
         We check that the optimizer info in the NePSState on disk matches
-        the one that is passed. However we do not lock this check so it
-        is possible that if two processes try to create a NePSState at the
-        same time, both with different optimizer infos, that one will fail
+        the one that is passed. If two processes try to create a NePSState at the
+        same time, both with different optimizer infos, one will fail
         to create the NePSState. This is a limitation of the current design.
 
         In principal, we could allow multiple optimizers to be run and share
@@ -594,7 +593,6 @@ def create_or_load_filebased_neps_state(
     Raises:
         NePSError: If the optimizer info on disk does not match the one provided.
     """
-    is_new = not directory.exists()
     directory.mkdir(parents=True, exist_ok=True)
     config_dir = directory / "configs"
     config_dir.mkdir(parents=True, exist_ok=True)
@@ -609,36 +607,31 @@ def create_or_load_filebased_neps_state(
 
     # We have to do one bit of sanity checking to ensure that the optimzier
     # info on disk manages the one we have recieved, otherwise we are unsure which
-    # optimizer is being used.
-    # NOTE: We assume that we do not have to worry about a race condition
-    # here where we have two different NePSState objects with two different optimizer
-    # infos trying to be created at the same time. This avoids the need to lock to
-    # check the optimizer info. If this assumption changes, then we would have
-    # to first lock before we do this check
-    optimizer_info_reader_writer = ReaderWriterOptimizerInfo()
-    if not is_new:
-        existing_info = optimizer_info_reader_writer.read(optimizer_info_dir)
-        if existing_info != optimizer_info:
-            raise NePSError(
-                "The optimizer info on disk does not match the one provided."
-                f"\nOn disk: {existing_info}\nProvided: {optimizer_info}"
-                f"\n\nLoaded the one on disk from {optimizer_info_dir}."
-            )
+    # optimizer is being used. Whoever is first writes the info, everyone compares theirs
+    # to what is there.
+    synced_optimizer_info = Synced.new_or_load(
+        data=optimizer_info,
+        location=optimizer_info_dir,
+        versioner=FileVersioner(version_file=optimizer_info_dir / ".version"),
+        locker=FileLocker(
+            lock_path=optimizer_info_dir / ".lock",
+            poll=OPTIMIZER_INFO_FILELOCK_POLL,
+            timeout=OPTIMIZER_INFO_FILELOCK_TIMEOUT,
+        ),
+        reader_writer=ReaderWriterOptimizerInfo(),
+    )
+    existing_info = synced_optimizer_info.synced()
+    if existing_info != optimizer_info:
+        raise NePSError(
+            "The optimizer info on disk does not match the one provided."
+            f"\nOn disk: {existing_info}\nProvided: {optimizer_info}"
+            f"\n\nLoaded the one on disk from {optimizer_info_dir}."
+        )
 
     return NePSState(
         location=str(directory.absolute().resolve()),
         _trials=TrialRepoInDirectory(config_dir),
-        _optimizer_info=Synced.new_or_load(
-            data=optimizer_info,  # type: ignore
-            location=optimizer_info_dir,
-            versioner=FileVersioner(version_file=optimizer_info_dir / ".version"),
-            locker=FileLocker(
-                lock_path=optimizer_info_dir / ".lock",
-                poll=OPTIMIZER_INFO_FILELOCK_POLL,
-                timeout=OPTIMIZER_INFO_FILELOCK_TIMEOUT,
-            ),
-            reader_writer=ReaderWriterOptimizerInfo(),
-        ),
+        _optimizer_info=synced_optimizer_info,
         _seed_state=Synced.new_or_load(
             data=SeedSnapshot.new_capture(),
             location=seed_dir,
-- 
2.43.0


From 57fedba86d89209b4bada1f28d336c9e7eeca544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:47 +0000
Subject: [PATCH 05/50] fix: a worker dying while writing a state file no
 longer leaves it truncated

---
 neps/state/filebased.py | 25 ++++++++++++++++---------
 neps/utils/files.py     | 17 +++++++++++++++--
 2 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/neps/state/filebased.py b/neps/state/filebased.py
index c8d32fd..c592684 100644
--- a/neps/state/filebased.py
+++ b/neps/state/filebased.py
@@ -52,7 +52,7 @@ from neps.state.optimizer import BudgetInfo, OptimizationState, OptimizerInfo
 from neps.state.protocols import Locker, ReaderWriter, Synced, TrialRepo, Versioner
 from neps.state.seed_snapshot import SeedSnapshot
 from neps.state.trial import Trial
-from neps.utils.files import deserialize, serialize
+from neps.utils.files import deserialize, replace_when_written, serialize
 
 logger = logging.getLogger(__name__)
 K = TypeVar("K")
@@ -79,7 +79,8 @@ class FileVersioner(Versioner):
     @override
     def bump(self) -> str:
         sha = make_sha()
-        self.version_file.write_text(sha)
+        with replace_when_written(self.version_file) as path:
+            path.write_text(sha)
         return sha
 
 
@@ -250,11 +251,13 @@ class ReaderWriterTrial(ReaderWriter[Trial, Path]):
 
         serialize(trial.config, config_path)
         serialize(asdict(trial.metadata), metadata_path)
-        state_path.write_text(trial.state.value, encoding="utf-8")
+        with replace_when_written(state_path) as path:
+            path.write_text(trial.state.value, encoding="utf-8")
 
         if trial.metadata.previous_trial_id is not None:
             previous_trial_path = directory / cls.PREVIOUS_TRIAL_ID_FILENAME
-            previous_trial_path.write_text(trial.metadata.previous_trial_id)
+            with replace_when_written(previous_trial_path) as path:
+                path.write_text(trial.metadata.previous_trial_id)
 
         if trial.report is not None:
             report_path = directory / cls.REPORT_FILENAME
@@ -333,7 +336,8 @@ class ReaderWriterSeedSnapshot(ReaderWriter[SeedSnapshot, Path]):
 
         py_rng_version, py_rng_state, py_guass_next = snapshot.py_rng
 
-        np.array(py_rng_state, dtype=cls.PY_RNG_STATE_DTYPE).tofile(py_rng_path)
+        with replace_when_written(py_rng_path) as path:
+            np.array(py_rng_state, dtype=cls.PY_RNG_STATE_DTYPE).tofile(path)
 
         seed_info = {
             "np_rng_kind": snapshot.np_rng[0],
@@ -345,17 +349,20 @@ class ReaderWriterSeedSnapshot(ReaderWriter[SeedSnapshot, Path]):
         }
         serialize(seed_info, seedinfo_path)
         np_rng_state = snapshot.np_rng[1]
-        np_rng_state.tofile(np_rng_path)
+        with replace_when_written(np_rng_path) as path:
+            np_rng_state.tofile(path)
 
         if snapshot.torch_rng is not None:
             import torch
 
-            torch.save(snapshot.torch_rng, torch_rng_path)
+            with replace_when_written(torch_rng_path) as path:
+                torch.save(snapshot.torch_rng, path)
 
         if snapshot.torch_cuda_rng is not None:
             import torch
 
-            torch.save(snapshot.torch_cuda_rng, torch_cuda_rng_path)
+            with replace_when_written(torch_cuda_rng_path) as path:
+                torch.save(snapshot.torch_cuda_rng, path)
 
 
 @dataclass
@@ -423,7 +430,7 @@ class ReaderWriterErrDump(ReaderWriter[ErrDump, Path]):
     @override
     def write(self, err_dump: ErrDump, directory: Path) -> None:
         errors_path = directory / f"{self.name}-errors.jsonl"
-        with errors_path.open("w") as f:
+        with replace_when_written(errors_path) as path, path.open("w") as f:
             lines = [json.dumps(asdict(trial_err)) for trial_err in err_dump.errs]
             f.write("\n".join(lines))
 
diff --git a/neps/utils/files.py b/neps/utils/files.py
index 95eb4ee..15d0fc9 100644
--- a/neps/utils/files.py
+++ b/neps/utils/files.py
@@ -3,7 +3,9 @@
 from __future__ import annotations
 
 import dataclasses
-from collections.abc import Iterable, Mapping
+import os
+from collections.abc import Iterable, Iterator, Mapping
+from contextlib import contextmanager
 from enum import Enum
 from pathlib import Path
 from typing import Any
@@ -41,11 +43,22 @@ def serializable_format(data: Any) -> Any:  # noqa: PLR0911
     return data
 
 
+@contextmanager
+def replace_when_written(path: Path) -> Iterator[Path]:
+    """Provides a path to write to which takes the place of `path` once written.
+
+    If the process dies while writing, whatever was at `path` is left as it was.
+    """
+    tmp_path = path.with_name(f"{path.name}.tmp")
+    yield tmp_path
+    os.replace(tmp_path, path)
+
+
 def serialize(data: Any, path: Path | str, *, sort_keys: bool = True) -> None:
     """Serialize data to a yaml file."""
     data = serializable_format(data)
     path = Path(path)
-    with path.open("w") as file_stream:
+    with replace_when_written(path) as tmp_path, tmp_path.open("w") as file_stream:
         try:
             return yaml.safe_dump(data, file_stream, sort_keys=sort_keys)
         except yaml.representer.RepresenterError as e:
-- 
2.43.0


From 71cf1868148020dd02e4b08cbe48c37d57b31db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:47 +0000
Subject: [PATCH 06/50] fix: write the report of a trial before marking the
 trial as finished

---
 neps/state/filebased.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/neps/state/filebased.py b/neps/state/filebased.py
index c592684..cb22b46 100644
--- a/neps/state/filebased.py
+++ b/neps/state/filebased.py
@@ -251,6 +251,12 @@ class ReaderWriterTrial(ReaderWriter[Trial, Path]):
 
         serialize(trial.config, config_path)
         serialize(asdict(trial.metadata), metadata_path)
+
+        # NOTE: Needs to be there before the state says that the trial is finished
+        if trial.report is not None:
+            report_path = directory / cls.REPORT_FILENAME
+            serialize(asdict(trial.report), report_path)
+
         with replace_when_written(state_path) as path:
             path.write_text(trial.state.value, encoding="utf-8")
 
@@ -259,10 +265,6 @@ class ReaderWriterTrial(ReaderWriter[Trial, Path]):
             with replace_when_written(previous_trial_path) as path:
                 path.write_text(trial.metadata.previous_trial_id)
 
-        if trial.report is not None:
-            report_path = directory / cls.REPORT_FILENAME
-            serialize(asdict(trial.report), report_path)
-
 
 @dataclass
 class ReaderWriterSeedSnapshot(ReaderWriter[SeedSnapshot, Path]):
-- 
2.43.0


From dd3b02e06f5f99ccdbfe6205552e43ac56720e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:25 +0000
Subject: [PATCH 07/50] fix: a run interrupted during an evaluation no longer
 blocks later runs in the same process

---
 neps/runtime.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/neps/runtime.py b/neps/runtime.py
index 0a09586..8ceed41 100644
--- a/neps/runtime.py
+++ b/neps/runtime.py
@@ -110,10 +110,12 @@ def _set_global_trial(trial: Trial) -> Iterator[None]:
             "\n\nThis is most likely a bug and should be reported to NePS!"
         )
     _CURRENTLY_RUNNING_TRIAL_IN_PROCESS = trial
-    yield
-    for _key, callback in _TRIAL_END_CALLBACKS.items():
-        callback(trial)
-    _CURRENTLY_RUNNING_TRIAL_IN_PROCESS = None
+    try:
+        yield
+        for _key, callback in _TRIAL_END_CALLBACKS.items():
+            callback(trial)
+    finally:
+        _CURRENTLY_RUNNING_TRIAL_IN_PROCESS = None
 
 
 # NOTE: This class is quite stateful and has been split up quite a bit to make testing
-- 
2.43.0


From ce25bd0a73e46eea6363fcee1a39a832cf2c7343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:18 +0000
Subject: [PATCH 08/50] fix: an unusable evaluation result is recorded as an
 error of the trial instead of leaving it in progress

---
 neps/state/_eval.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/neps/state/_eval.py b/neps/state/_eval.py
index f3153a6..cee564b 100644
--- a/neps/state/_eval.py
+++ b/neps/state/_eval.py
@@ -92,7 +92,15 @@ def _eval_trial(
     start = time.monotonic()
     try:
         user_result = fn(**kwargs, **trial.config)
-    # Something went wrong in evaluation
+        duration = time.monotonic() - start
+        time_end = time.time()
+
+        loss, cost, learning_curve, extra = parse_user_result(
+            dict(user_result) if isinstance(user_result, Mapping) else user_result,
+            default_cost_value=default_report_values.cost_if_not_provided,
+            default_learning_curve=default_report_values.learning_curve_if_not_provided,
+        )
+    # Something went wrong in evaluation or its result is not usable
     except Exception as e:
         duration = time.monotonic() - start
         time_end = time.time()
@@ -110,15 +118,7 @@ def _eval_trial(
             evaluation_duration=duration,
         )
     else:
-        duration = time.monotonic() - start
-        time_end = time.time()
         logger.info(f"Successful evaluation of '{trial.id}': {user_result}.")
-
-        loss, cost, learning_curve, extra = parse_user_result(
-            dict(user_result) if isinstance(user_result, Mapping) else user_result,
-            default_cost_value=default_report_values.cost_if_not_provided,
-            default_learning_curve=default_report_values.learning_curve_if_not_provided,
-        )
         report = trial.set_complete(
             report_as="success",
             loss=loss,
-- 
2.43.0


From 505ef50864d367dc3be44b18f5ae5be53ff54882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:02 +0000
Subject: [PATCH 09/50] fix: an evaluation error whose exception can not be
 copied no longer takes the worker down

---
 neps/state/filebased.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neps/state/filebased.py b/neps/state/filebased.py
index cb22b46..c69f8e1 100644
--- a/neps/state/filebased.py
+++ b/neps/state/filebased.py
@@ -23,7 +23,7 @@ import logging
 import pprint
 from collections.abc import Iterable, Iterator
 from contextlib import contextmanager
-from dataclasses import asdict, dataclass, field
+from dataclasses import asdict, dataclass, field, replace
 from pathlib import Path
 from typing import ClassVar, TypeVar
 from typing_extensions import override
@@ -255,7 +255,9 @@ class ReaderWriterTrial(ReaderWriter[Trial, Path]):
         # NOTE: Needs to be there before the state says that the trial is finished
         if trial.report is not None:
             report_path = directory / cls.REPORT_FILENAME
-            serialize(asdict(trial.report), report_path)
+            # NOTE: `asdict()` makes deep copies, which not every exception supports
+            report = asdict(replace(trial.report, err=None))
+            serialize({**report, "err": trial.report.err}, report_path)
 
         with replace_when_written(state_path) as path:
             path.write_text(trial.state.value, encoding="utf-8")
-- 
2.43.0


From 82cf301eb24496bfe6771f0402d44ee24714d3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:10 +0000
Subject: [PATCH 10/50] fix: joining or continuing a run whose searcher
 arguments contain tuples is no longer refused

---
 neps/state/filebased.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/neps/state/filebased.py b/neps/state/filebased.py
index c69f8e1..987d21a 100644
--- a/neps/state/filebased.py
+++ b/neps/state/filebased.py
@@ -52,7 +52,12 @@ from neps.state.optimizer import BudgetInfo, OptimizationState, OptimizerInfo
 from neps.state.protocols import Locker, ReaderWriter, Synced, TrialRepo, Versioner
 from neps.state.seed_snapshot import SeedSnapshot
 from neps.state.trial import Trial
-from neps.utils.files import deserialize, replace_when_written, serialize
+from neps.utils.files import (
+    deserialize,
+    replace_when_written,
+    serializable_format,
+    serialize,
+)
 
 logger = logging.getLogger(__name__)
 K = TypeVar("K")
@@ -632,7 +637,8 @@ def create_or_load_filebased_neps_state(
         reader_writer=ReaderWriterOptimizerInfo(),
     )
     existing_info = synced_optimizer_info.synced()
-    if existing_info != optimizer_info:
+    # NOTE: What comes from disk is in the format of the file, i.e. tuples became lists
+    if serializable_format(existing_info) != serializable_format(optimizer_info):
         raise NePSError(
             "The optimizer info on disk does not match the one provided."
             f"\nOn disk: {existing_info}\nProvided: {optimizer_info}"
-- 
2.43.0


From 88603a423763636209a10900ede1df8b266de789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:27 +0000
Subject: [PATCH 11/50] fix: mutating a numerical parameter with the 'simple'
 strategy samples a new value instead of always failing

---
 neps/search_spaces/hyperparameters/numerical.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/neps/search_spaces/hyperparameters/numerical.py b/neps/search_spaces/hyperparameters/numerical.py
index 62d5cd6..afc58cd 100644
--- a/neps/search_spaces/hyperparameters/numerical.py
+++ b/neps/search_spaces/hyperparameters/numerical.py
@@ -196,8 +196,7 @@ class NumericalParameter(ParameterWithPrior[T, T], MutatableParameter):
             parent = self
 
         if mutation_strategy == "simple":
-            child = self.clone()
-            child.sample()
+            child = self.sample()
         elif mutation_strategy == "local_search" and "std" in kwargs:
             child = self._get_non_unique_neighbors(std=kwargs["std"], num_neighbours=1)[0]
         elif mutation_strategy == "local_search":
-- 
2.43.0


From 0c941ad384b6e0cdd3e69ceba6c1567d05fbd59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:27 +0000
Subject: [PATCH 12/50] fix: cloning a parameter keeps a default confidence
 that was set after its creation

---
 neps/search_spaces/parameter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neps/search_spaces/parameter.py b/neps/search_spaces/parameter.py
index e58014e..a0f1a55 100644
--- a/neps/search_spaces/parameter.py
+++ b/neps/search_spaces/parameter.py
@@ -266,6 +266,7 @@ class ParameterWithPrior(Parameter[ValueT, SerializedT]):
                 f" {list(self.DEFAULT_CONFIDENCE_SCORES.keys())}"
             )
 
+        self.default_confidence_choice = default_confidence
         self.default_confidence_score = self.DEFAULT_CONFIDENCE_SCORES[default_confidence]
 
     def sample(self, *, user_priors: bool = False) -> Self:
-- 
2.43.0


From 9907610acc0dacbfba6a052ca6712d85f5f3ce4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:27 +0000
Subject: [PATCH 13/50] fix: a rejected value or default leaves the parameter
 as it was, and the prior of log integers follows the default

---
 neps/search_spaces/hyperparameters/categorical.py | 2 +-
 neps/search_spaces/hyperparameters/integer.py     | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/neps/search_spaces/hyperparameters/categorical.py b/neps/search_spaces/hyperparameters/categorical.py
index d44499b..7c94a02 100644
--- a/neps/search_spaces/hyperparameters/categorical.py
+++ b/neps/search_spaces/hyperparameters/categorical.py
@@ -268,8 +268,8 @@ class CategoricalParameter(
             self.normalized_value = None
             return
 
-        self._value = value
         self._value_index = self.choices.index(value)
+        self._value = value
         self.normalized_value = float(self._value_index)
 
     @override
diff --git a/neps/search_spaces/hyperparameters/integer.py b/neps/search_spaces/hyperparameters/integer.py
index 73861ad..4edc566 100644
--- a/neps/search_spaces/hyperparameters/integer.py
+++ b/neps/search_spaces/hyperparameters/integer.py
@@ -122,9 +122,10 @@ class IntegerParameter(NumericalParameter[int]):
             self.float_hp.set_default(None)
         else:
             _default = int(round(default))
+            self.float_hp.set_default(_default)
             self.default = _default
             self.has_prior = True
-            self.float_hp.set_default(_default)
+            self.log_default = self.float_hp.log_default
 
     @override
     def set_value(self, value: int | None) -> None:
-- 
2.43.0


From 1745b040aace00350532d5759902025183c6652c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:28 +0000
Subject: [PATCH 14/50] fix: loading an integer parameter checks its bounds and
 updates its normalized value

---
 neps/search_spaces/hyperparameters/integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/search_spaces/hyperparameters/integer.py b/neps/search_spaces/hyperparameters/integer.py
index 4edc566..b3d2fd9 100644
--- a/neps/search_spaces/hyperparameters/integer.py
+++ b/neps/search_spaces/hyperparameters/integer.py
@@ -112,7 +112,7 @@ class IntegerParameter(NumericalParameter[int]):
 
     @override
     def load_from(self, value: Number) -> None:
-        self._value = int(np.rint(value))
+        self.set_value(int(np.rint(value)))
 
     @override
     def set_default(self, default: int | None) -> None:
-- 
2.43.0


From 8a801c54c379539d85dc0644d94b7b3dcd89d5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:28 +0000
Subject: [PATCH 15/50] fix: the grid of a search space has no duplicates and
 stays within the bounds

---
 neps/search_spaces/search_space.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/neps/search_spaces/search_space.py b/neps/search_spaces/search_space.py
index 34e885d..a5483de 100644
--- a/neps/search_spaces/search_space.py
+++ b/neps/search_spaces/search_space.py
@@ -626,8 +626,7 @@ class SearchSpace(Mapping[str, Any]):
                 _grid = (
                     _grid.astype(np.int64) if isinstance(hp, IntegerParameter) else _grid
                 )
-                _grid = np.unique(grid).tolist()
-                param_ranges.append(grid)
+                param_ranges.append(np.unique(_grid).tolist())
                 continue
 
             raise NotImplementedError(f"Unknown Parameter type: {type(hp)}\n{hp}")
-- 
2.43.0


From 4ef5b50ecb99aaaa25b1739d1ac027840a8ad7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:53 +0000
Subject: [PATCH 16/50] fix: the run summary counts pending and evaluating
 configurations

---
 neps/status/status.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neps/status/status.py b/neps/status/status.py
index 660c53f..e4e0175 100644
--- a/neps/status/status.py
+++ b/neps/status/status.py
@@ -58,12 +58,12 @@ def get_summary_dict(
     in_progress = {
         trial.id: trial.config
         for trial in trials.values()
-        if trial.State == Trial.State.EVALUATING
+        if trial.state == Trial.State.EVALUATING
     }
     pending = {
         trial.id: trial.config
         for trial in trials.values()
-        if trial.State == Trial.State.PENDING
+        if trial.state == Trial.State.PENDING
     }
 
     summary: dict[str, Any] = {}
-- 
2.43.0


From 74c36449daf477fdec4534a68a2d8bf6744ed4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:53 +0000
Subject: [PATCH 17/50] fix: writing the summary CSV no longer fails when no
 evaluation was successful

---
 neps/status/status.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/neps/status/status.py b/neps/status/status.py
index e4e0175..4f5ff46 100644
--- a/neps/status/status.py
+++ b/neps/status/status.py
@@ -259,6 +259,11 @@ def _get_dataframes_from_summary(
     # Concatenate the two DataFrames
     df_config_data = pd.concat([df_previous, df_pending], join="outer", ignore_index=True)
 
+    # NOTE: The CSV is sorted by the loss. If no evaluation was successful (yet), there
+    # is no such column, but this should not prevent writing the summary.
+    if "result.loss" not in df_config_data.columns:
+        df_config_data["result.loss"] = None
+
     # Create a dataframe with the specified additional summary data
     additional_data = {
         "num_evaluated_configs": summary["num_evaluated_configs"],
-- 
2.43.0


From b673ae945bc79cb459e44ed9737deb1baf4c8217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:06 +0000
Subject: [PATCH 18/50] fix: random search that ignores the fidelity uses the
 maximum fidelity as documented

---
 neps/optimizers/random_search/optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neps/optimizers/random_search/optimizer.py b/neps/optimizers/random_search/optimizer.py
index 131ca6e..0cbc586 100644
--- a/neps/optimizers/random_search/optimizer.py
+++ b/neps/optimizers/random_search/optimizer.py
@@ -56,6 +56,8 @@ class RandomSearch(BaseOptimizer):
             user_priors=self.use_priors,
             ignore_fidelity=self.ignore_fidelity,
         )
+        if self.ignore_fidelity and config.has_fidelity:
+            config.set_to_max_fidelity()
         config_id = str(n_trials + 1)
         return SampledConfig(
             config=config.hp_values(), id=config_id, previous_config_id=None
-- 
2.43.0


From 064ecb9061cfdc2dca037bb47ea10e93efe92f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:06 +0000
Subject: [PATCH 19/50] fix: grid search without a seed visits every point of
 the grid exactly once

---
 neps/optimizers/grid_search/optimizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neps/optimizers/grid_search/optimizer.py b/neps/optimizers/grid_search/optimizer.py
index a5cf48f..148834f 100644
--- a/neps/optimizers/grid_search/optimizer.py
+++ b/neps/optimizers/grid_search/optimizer.py
@@ -36,7 +36,9 @@ class GridSearch(BaseOptimizer):
         if _num_previous_configs > len(self.configs_list) - 1:
             raise ValueError("Grid search exhausted!")
 
-        rng = random.Random(self.seed)
+        # NOTE: The order has to be the same for every call, also without a seed. Otherwise
+        # some points are proposed repeatedly and others never.
+        rng = random.Random(0 if self.seed is None else self.seed)
         configs = rng.sample(self.configs_list, len(self.configs_list))
 
         config = configs[_num_previous_configs]
-- 
2.43.0


From fd5a9302c90557fc1e8b6af53abf511c79ded5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:15 +0000
Subject: [PATCH 20/50] fix: the cost of a report is its cost and not its loss

---
 neps/optimizers/base_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/optimizers/base_optimizer.py b/neps/optimizers/base_optimizer.py
index 898508c..0f36032 100644
--- a/neps/optimizers/base_optimizer.py
+++ b/neps/optimizers/base_optimizer.py
@@ -149,7 +149,7 @@ class BaseOptimizer:
         # use `Trial` and `Report`, they already take care of this and save having to do
         # this `_get_loss` at every call
         if isinstance(result, Report):
-            return result.loss if result.loss is not None else "error"
+            return result.cost if result.cost is not None else "error"
 
         return _get_cost(
             result,
-- 
2.43.0


From 335976aa4ac110e7bf50bc7e7a439ba7ee452a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:32 +0000
Subject: [PATCH 21/50] fix: setting both loss_value_on_error and
 cost_value_on_error suppresses errors as documented

---
 neps/runtime.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neps/runtime.py b/neps/runtime.py
index 8ceed41..bf17d20 100644
--- a/neps/runtime.py
+++ b/neps/runtime.py
@@ -536,6 +536,8 @@ def _launch_runtime(  # noqa: PLR0913
         on_error=(
             OnErrorPossibilities.IGNORE
             if ignore_errors
+            # NOTE: Setting both values is documented to suppress any error
+            or (loss_value_on_error is not None and cost_value_on_error is not None)
             else OnErrorPossibilities.RAISE_ANY_ERROR
         ),
         default_report_values=DefaultReportValues(
-- 
2.43.0


From 78491cf5ca2f18952e4d9fd6517875d842b7c3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:32 +0000
Subject: [PATCH 22/50] fix: successive halving based optimizers continue after
 an ignored error instead of failing on it

---
 neps/optimizers/multi_fidelity/successive_halving.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/neps/optimizers/multi_fidelity/successive_halving.py b/neps/optimizers/multi_fidelity/successive_halving.py
index c8c40cf..70f0292 100644
--- a/neps/optimizers/multi_fidelity/successive_halving.py
+++ b/neps/optimizers/multi_fidelity/successive_halving.py
@@ -226,6 +226,10 @@ class SuccessiveHalvingBase(BaseOptimizer):
         for config_id, config_val in previous_results.items():
             _config, _rung = self._get_config_id_split(config_id)
             perf = self.get_loss(config_val.result)
+            is_error = perf == "error"
+            if is_error:
+                # an ignored error fills its slot in the rung, as the worst performance
+                perf = np.inf
             if int(_config) in self.observed_configs.index:
                 # config already recorded in dataframe
                 rung_recorded = self.observed_configs.at[int(_config), "rung"]
@@ -249,8 +253,9 @@ class SuccessiveHalvingBase(BaseOptimizer):
             # for efficiency, redefining the function to have the
             # `rung_histories` assignment inside the for loop
             # rung histories are collected only for `previous` and not `pending` configs
-            self.rung_histories[int(_rung)]["config"].append(int(_config))
-            self.rung_histories[int(_rung)]["perf"].append(perf)
+            if not is_error:
+                self.rung_histories[int(_rung)]["config"].append(int(_config))
+                self.rung_histories[int(_rung)]["perf"].append(perf)
 
     def _handle_pending_evaluations(
         self, pending_evaluations: dict[str, SearchSpace]
-- 
2.43.0


From 4122a7470359f9242e834a6ef52e346870e3ac5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:38 +0000
Subject: [PATCH 23/50] fix: Bayesian optimization keeps proposing while there
 is no successful evaluation to fit a model to

---
 .../bayesian_optimization/optimizer.py          | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/neps/optimizers/bayesian_optimization/optimizer.py b/neps/optimizers/bayesian_optimization/optimizer.py
index 3531217..3805c2e 100644
--- a/neps/optimizers/bayesian_optimization/optimizer.py
+++ b/neps/optimizers/bayesian_optimization/optimizer.py
@@ -165,6 +165,23 @@ class BayesianOptimization(BaseOptimizer):
         if n_sampled < len(self.init_design):
             return SampledConfig(id=config_id, config=self.init_design[n_sampled])
 
+        # If there is no observation to fit a GP to, e.g. all evaluations are still in
+        # progress or failed, keep on sampling like in the initial design
+        if not any(
+            trial.report is not None and trial.report.loss is not None
+            for trial in trials.values()
+        ):
+            config = make_initial_design(
+                space=space,
+                encoder=self.encoder,
+                sample_default_first=False,
+                sampler=self.prior if self.prior is not None else "sobol",
+                seed=None,  # TODO: Seeding
+                sample_size=1,
+                sample_fidelity="max",
+            )[0]
+            return SampledConfig(id=config_id, config=config)
+
         # Otherwise, we encode trials and setup to fit and acquire from a GP
         data, encoder = encode_trials_for_gp(
             trials, space, device=self.device, encoder=self.encoder
-- 
2.43.0


From dfca793bdebb9c70f0a47bae5a27e51473bb933c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:25 +0000
Subject: [PATCH 24/50] fix: the rungs of successive halving are not subject to
 rounding and stay within the fidelity bounds

---
 .../multi_fidelity/successive_halving.py      | 29 +++++++------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/neps/optimizers/multi_fidelity/successive_halving.py b/neps/optimizers/multi_fidelity/successive_halving.py
index 70f0292..ad61a38 100644
--- a/neps/optimizers/multi_fidelity/successive_halving.py
+++ b/neps/optimizers/multi_fidelity/successive_halving.py
@@ -123,9 +123,13 @@ class SuccessiveHalvingBase(BaseOptimizer):
 
         # check to ensure no rung ID is negative
         # equivalent to s_max in https://arxiv.org/pdf/1603.06560.pdf
-        self.stopping_rate_limit = np.floor(
-            np.log(self.max_budget / self.min_budget) / np.log(self.eta)
-        ).astype(int)
+        # NOTE: Not calculated with a logarithm, as the rounding error of the logarithm
+        # looses a rung, e.g. log(216) / log(6) < 3
+        self.stopping_rate_limit = 0
+        while self.min_budget * self.eta ** (
+            self.stopping_rate_limit + 1
+        ) <= self.max_budget * (1 + 1e-9):
+            self.stopping_rate_limit += 1
         assert self.early_stopping_rate <= self.stopping_rate_limit
 
         # maps rungs to a fidelity value for an SH bracket with `early_stopping_rate`
@@ -175,13 +179,7 @@ class SuccessiveHalvingBase(BaseOptimizer):
     def _get_rung_map(self, s: int = 0) -> dict:
         """Maps rungs (0,1,...,k) to a fidelity value based on fidelity bounds, eta, s."""
         assert s <= self.stopping_rate_limit
-        new_min_budget = self.min_budget * (self.eta**s)
-        nrungs = (
-            np.floor(np.log(self.max_budget / new_min_budget) / np.log(self.eta)).astype(
-                int
-            )
-            + 1
-        )
+        nrungs = self.stopping_rate_limit - s + 1
         _max_budget = self.max_budget
         rung_map = {}
         for i in reversed(range(nrungs)):
@@ -190,19 +188,14 @@ class SuccessiveHalvingBase(BaseOptimizer):
                 if isinstance(self.pipeline_space.fidelity, IntegerParameter)
                 else _max_budget
             )
-            _max_budget /= self.eta
+            # the division can end up just below the minimum due to rounding
+            _max_budget = max(_max_budget / self.eta, self.min_budget)
         return rung_map
 
     def _get_config_map(self, s: int = 0) -> dict:
         """Maps rungs (0,1,...,k) to the number of configs for each fidelity."""
         assert s <= self.stopping_rate_limit
-        new_min_budget = self.min_budget * (self.eta**s)
-        nrungs = (
-            np.floor(np.log(self.max_budget / new_min_budget) / np.log(self.eta)).astype(
-                int
-            )
-            + 1
-        )
+        nrungs = self.stopping_rate_limit - s + 1
         s_max = self.stopping_rate_limit + 1
         _s = self.stopping_rate_limit - s
         # L2 from Alg 1 in https://arxiv.org/pdf/1603.06560.pdf
-- 
2.43.0


From a2e90df1cb2cdb153efbbb51c6d3e11fecec683f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:28 +0000
Subject: [PATCH 25/50] fix: casting into the log bounds of a domain does not
 exponentiate its values

The shortcut for values coming from the log bounds of this domain compared the
bounds the wrong way round: it was taken for values going to the log bounds of
frm, which left the domain (1.0 in [0.01, 100] became 2.718 instead of 0.0).
---
 neps/search_spaces/domain.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neps/search_spaces/domain.py b/neps/search_spaces/domain.py
index d7260c0..c77b13b 100644
--- a/neps/search_spaces/domain.py
+++ b/neps/search_spaces/domain.py
@@ -321,7 +321,11 @@ class Domain(Generic[V]):
         # We can also shortcut out if the only diffrence is that we are coming frm the
         # log bounds of this domain. We dont care if where we came from was binned or not,
         # we just lift it up with `np.exp` and round if needed
-        if (self.lower, self.upper) == frm.log_bounds and self.cardinality is None:
+        if (
+            (frm.lower, frm.upper) == self.log_bounds
+            and frm.log_bounds is None
+            and self.cardinality is None
+        ):
             x = torch.exp(x)
             if self.round:
                 x = torch.round(x)
-- 
2.43.0


From d08fe601a3bdc28e70660943fb6c1008f69d4cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:49 +0000
Subject: [PATCH 26/50] fix: integers on a log scale keep their value through
 the unit interval

They were binned into evenly spaced levels of the log scale, so that some values
encoded to another one (9 in [1, 10] became 10) and others (7, 9) were never
sampled.
---
 neps/search_spaces/domain.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/neps/search_spaces/domain.py b/neps/search_spaces/domain.py
index c77b13b..240b9b5 100644
--- a/neps/search_spaces/domain.py
+++ b/neps/search_spaces/domain.py
@@ -215,6 +215,14 @@ class Domain(Generic[V]):
         """
         return Domain.integer(0, n - 1, is_categorical=is_categorical)
 
+    @property
+    def _quantization(self) -> int | None:
+        # Integers on a log scale are not spaced evenly in the unit interval, hence evenly
+        # spaced levels would merge some of them and never hit others.
+        if self.round and self.log_bounds is not None and not self.bins:
+            return None
+        return self.cardinality
+
     def to_unit(self, x: Tensor, *, dtype: torch.dtype | None = None) -> Tensor:
         """Transform a tensor of values from this domain to the unit interval [0, 1].
 
@@ -230,7 +238,7 @@ class Domain(Generic[V]):
         elif not dtype.is_floating_point:
             raise ValueError(f"Unit interval only allows floating dtypes, got {dtype}.")
 
-        q = self.cardinality
+        q = self._quantization
         if self.is_unit_float and q is None:
             return x.to(dtype)
 
@@ -262,7 +270,7 @@ class Domain(Generic[V]):
         if self.is_unit_float:
             return x.to(dtype)
 
-        q = self.cardinality
+        q = self._quantization
         if q is not None:
             quantization_levels = torch.floor(x * q).clip(0, q - 1)
             x = quantization_levels / (q - 1)
-- 
2.43.0


From 1052f40b49b74b7b77d18e6e34ea01a6def88381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:10 +0000
Subject: [PATCH 27/50] fix: the log probability of a prior sums each column
 under its own distribution

The columns were indexed by their position among all columns after the ones
without prior had been dropped: a prior on some parameters only read the wrong
column or failed, and all but the first term were scaled down.
---
 neps/sampling/priors.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/neps/sampling/priors.py b/neps/sampling/priors.py
index e4c6776..8c000a4 100644
--- a/neps/sampling/priors.py
+++ b/neps/sampling/priors.py
@@ -326,14 +326,10 @@ class CenteredPrior(Prior):
 
         # Calculate the log probabilities of the sample domain tensors under their
         # respective distributions.
-        itr = iter(zip(self._meaningful_ixs, self._meaningful_dists, strict=False))
-        first_i, first_dist = next(itr)
-        log_probs = first_dist.log_prob(translated_x[..., first_i])
-
-        _weight = 1 / len(self.distributions)
-
-        for i, dist in itr:
-            log_probs = log_probs + _weight * dist.log_prob(translated_x[..., i])
+        # NOTE: `translated_x` only has the columns of the meaningful distributions.
+        log_probs = torch.zeros(x.shape[:-1], dtype=torch.float64, device=x.device)
+        for i, dist in enumerate(self._meaningful_dists):
+            log_probs = log_probs + dist.log_prob(translated_x[..., i])
 
         return log_probs
 
-- 
2.43.0


From 207d32460c482b199477a0b35476e7881498eebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:10 +0000
Subject: [PATCH 28/50] fix: a prior on a categorical puts its confidence on
 the default choice

The domain of a categorical parameter was not marked as one, hence priors treated
its choices as ordered numbers.
---
 neps/search_spaces/hyperparameters/categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/search_spaces/hyperparameters/categorical.py b/neps/search_spaces/hyperparameters/categorical.py
index 7c94a02..d121528 100644
--- a/neps/search_spaces/hyperparameters/categorical.py
+++ b/neps/search_spaces/hyperparameters/categorical.py
@@ -104,7 +104,7 @@ class CategoricalParameter(
         self._default_index: int | None = (
             self.choices.index(default) if default is not None else None
         )
-        self.domain = Domain.indices(len(self.choices))
+        self.domain = Domain.indices(len(self.choices), is_categorical=True)
 
     @override
     def clone(self) -> Self:
-- 
2.43.0


From e10909e31da8ce2c400b11e0c546097e0ac7b2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:21 +0000
Subject: [PATCH 29/50] fix: Sobol and prior samples into integer domains are
 not all the lower bound

With an integer dtype, as the WeightedSampler asks for when all domains are
integers, the samples in [0, 1] were truncated before they were translated.
---
 neps/sampling/priors.py   |  4 +++-
 neps/sampling/samplers.py | 13 +++++++------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/neps/sampling/priors.py b/neps/sampling/priors.py
index 8c000a4..3cb2bc9 100644
--- a/neps/sampling/priors.py
+++ b/neps/sampling/priors.py
@@ -353,7 +353,9 @@ class CenteredPrior(Prior):
         )
         _n = torch.Size((n,)) if isinstance(n, int) else n
 
-        out = torch.empty(_out_shape, device=device, dtype=dtype)
+        # The samples only become integers once they are translated into the domain
+        _dtype = dtype if dtype is not None and dtype.is_floating_point else torch.float64
+        out = torch.empty(_out_shape, device=device, dtype=_dtype)
         for i, dist in enumerate(self.distributions):
             out[..., i] = dist.distribution.sample(_n)
 
diff --git a/neps/sampling/samplers.py b/neps/sampling/samplers.py
index d343988..f95d591 100644
--- a/neps/sampling/samplers.py
+++ b/neps/sampling/samplers.py
@@ -158,19 +158,20 @@ class Sobol(Sampler):
             dimension=self.ndim, scramble=self.scramble, seed=_seed
         )
 
-        # If integer dtype, sobol will refuse, we need to cast then
-        if dtype is not None and not dtype.is_floating_point:
-            x = sobol.draw(_n, dtype=torch.float64)
-            x = x.to(dtype=dtype, device=device)
-        else:
+        # If integer dtype, sobol will refuse. The samples only become integers once
+        # they are translated into the domain.
+        if dtype is not None and dtype.is_floating_point:
             x = sobol.draw(_n, dtype=dtype)
+        else:
+            x = sobol.draw(_n, dtype=torch.float64)
+        x = x.to(device=device)
 
         # If we got extra dimensions, such as batch dimensions, we need to
         # reshape the tensor to the desired shape.
         if isinstance(n, torch.Size):
             x = x.view(*n, self.ncols)
 
-        return Domain.translate(x, frm=UNIT_FLOAT_DOMAIN, to=to)
+        return Domain.translate(x, frm=UNIT_FLOAT_DOMAIN, to=to, dtype=dtype)
 
 
 @dataclass
-- 
2.43.0


From 2bf0e718300e6a04b0bd9b9329866df7c1ee14ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:49 +0000
Subject: [PATCH 30/50] fix: priors apply to the parameter they were given for

The distributions of a prior were ordered numerical parameters first, the columns
of the encoder by name: with categoricals in between, samples and probabilities
used the prior of another parameter.
---
 neps/optimizers/bayesian_optimization/optimizer.py      | 2 ++
 neps/optimizers/initial_design.py                       | 3 ++-
 neps/optimizers/multi_fidelity/hyperband.py             | 2 +-
 neps/optimizers/multi_fidelity/ifbo.py                  | 3 ++-
 neps/optimizers/multi_fidelity_prior/async_priorband.py | 2 +-
 neps/optimizers/multi_fidelity_prior/priorband.py       | 2 +-
 6 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/neps/optimizers/bayesian_optimization/optimizer.py b/neps/optimizers/bayesian_optimization/optimizer.py
index 3805c2e..db5019a 100644
--- a/neps/optimizers/bayesian_optimization/optimizer.py
+++ b/neps/optimizers/bayesian_optimization/optimizer.py
@@ -124,6 +124,8 @@ class BayesianOptimization(BaseOptimizer):
             **pipeline_space.numerical,
             **pipeline_space.categoricals,
         }
+        # The same order as the columns of the encoder
+        params = dict(sorted(params.items()))
         self.encoder = encoder or ConfigEncoder.default(
             params, constants=pipeline_space.constants
         )
diff --git a/neps/optimizers/initial_design.py b/neps/optimizers/initial_design.py
index eb99f42..154af92 100644
--- a/neps/optimizers/initial_design.py
+++ b/neps/optimizers/initial_design.py
@@ -100,7 +100,8 @@ def make_initial_design(  # noqa: PLR0912, C901
         }
         configs.append({**default, **fids})
 
-    params = {**space.numerical, **space.categoricals}
+    # The same order as the columns of the encoder
+    params = dict(sorted({**space.numerical, **space.categoricals}.items()))
     ndims = len(params)
 
     if sample_size == "ndim":
diff --git a/neps/optimizers/multi_fidelity/hyperband.py b/neps/optimizers/multi_fidelity/hyperband.py
index 6dc4bdf..bea6796 100644
--- a/neps/optimizers/multi_fidelity/hyperband.py
+++ b/neps/optimizers/multi_fidelity/hyperband.py
@@ -555,7 +555,7 @@ class MOBSTER(MFBOBase, AsynchronousHyperband):
                 **self.pipeline_space.numerical,
                 **self.pipeline_space.categoricals,
             }
-            prior = Prior.from_parameters(parameters.values())
+            prior = Prior.from_parameters(hp for _, hp in sorted(parameters.items()))
         else:
             prior = None
 
diff --git a/neps/optimizers/multi_fidelity/ifbo.py b/neps/optimizers/multi_fidelity/ifbo.py
index e70cf70..3844c9a 100755
--- a/neps/optimizers/multi_fidelity/ifbo.py
+++ b/neps/optimizers/multi_fidelity/ifbo.py
@@ -140,7 +140,8 @@ class IFBO(BaseOptimizer):
         self._fidelity_name: str = space.fidelity_name
         self._initial_design: list[dict[str, Any]] | None = None
 
-        params = {**space.numerical, **space.categoricals}
+        # The same order as the columns of the encoder
+        params = dict(sorted({**space.numerical, **space.categoricals}.items()))
         self._prior = Prior.from_parameters(params.values()) if use_priors else None
         self._config_encoder: ConfigEncoder = ConfigEncoder.default(
             params,
diff --git a/neps/optimizers/multi_fidelity_prior/async_priorband.py b/neps/optimizers/multi_fidelity_prior/async_priorband.py
index 827ad5f..baa2fa0 100644
--- a/neps/optimizers/multi_fidelity_prior/async_priorband.py
+++ b/neps/optimizers/multi_fidelity_prior/async_priorband.py
@@ -121,7 +121,7 @@ class PriorBandAsha(MFBOBase, PriorBandBase, AsynchronousSuccessiveHalvingWithPr
         parameters = {**self.pipeline_space.numerical, **self.pipeline_space.categoricals}
         self.model_policy = model_policy(
             pipeline_space=pipeline_space,
-            prior=Prior.from_parameters(parameters.values()),
+            prior=Prior.from_parameters(hp for _, hp in sorted(parameters.items())),
         )
 
     def get_config_and_ids(
diff --git a/neps/optimizers/multi_fidelity_prior/priorband.py b/neps/optimizers/multi_fidelity_prior/priorband.py
index c41f4e4..b3f2287 100644
--- a/neps/optimizers/multi_fidelity_prior/priorband.py
+++ b/neps/optimizers/multi_fidelity_prior/priorband.py
@@ -386,7 +386,7 @@ class PriorBand(MFBOBase, HyperbandCustomDefault, PriorBandBase):
         parameters = {**self.pipeline_space.numerical, **self.pipeline_space.categoricals}
         self.model_policy = model_policy(
             pipeline_space=pipeline_space,
-            prior=Prior.from_parameters(parameters.values()),
+            prior=Prior.from_parameters(hp for _, hp in sorted(parameters.items())),
         )
 
         for _, sh in self.sh_brackets.items():
-- 
2.43.0


From 10873de4e48a6d27e54b68df4dc57ab2c1dd46ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:49 +0000
Subject: [PATCH 31/50] fix: the exponent of the prior scales its log
 probability in piBO

On a log scale the exponent was added, a constant that leaves the full weight on
the prior forever instead of letting it fade.
---
 .../bayesian_optimization/acquisition_functions/pibo.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/optimizers/bayesian_optimization/acquisition_functions/pibo.py b/neps/optimizers/bayesian_optimization/acquisition_functions/pibo.py
index 9efac5e..d0d463a 100644
--- a/neps/optimizers/bayesian_optimization/acquisition_functions/pibo.py
+++ b/neps/optimizers/bayesian_optimization/acquisition_functions/pibo.py
@@ -40,7 +40,7 @@ def apply_pibo_acquisition_weight(
     prior_exponent: float,
 ) -> Tensor:
     if acq._log:
-        weighted_log_probs = prior.log_prob(X, frm=x_domain) + prior_exponent
+        weighted_log_probs = prior.log_prob(X, frm=x_domain) * prior_exponent
         return acq_values + weighted_log_probs
 
     weighted_probs = prior.prob(X, frm=x_domain).pow(prior_exponent)
-- 
2.43.0


From 3ad5922d31c78f6456d317015d7810f7a5425beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:09 +0000
Subject: [PATCH 32/50] fix: the initial design covers the whole range of the
 first parameter

Twice as many samples as needed were sorted before the first half was taken, so
that the design only ever had the smaller values of the first parameter.
---
 neps/optimizers/initial_design.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neps/optimizers/initial_design.py b/neps/optimizers/initial_design.py
index 154af92..3251f8c 100644
--- a/neps/optimizers/initial_design.py
+++ b/neps/optimizers/initial_design.py
@@ -123,8 +123,10 @@ def make_initial_design(  # noqa: PLR0912, C901
                 pass
 
         encoded_configs = sampler.sample(sample_size * 2, to=encoder.domains, seed=seed)
-        uniq_x = torch.unique(encoded_configs, dim=0)
-        sample_configs = encoder.decode(uniq_x[:sample_size])
+        # NOTE: `torch.unique` sorts, keep the order in which they were sampled instead
+        uniq_x, inverse = torch.unique(encoded_configs, dim=0, return_inverse=True)
+        first_seen = dict.fromkeys(inverse.tolist())
+        sample_configs = encoder.decode(uniq_x[list(first_seen)[:sample_size]])
         configs.extend([{**config, **fids} for config in sample_configs])
 
     return configs
-- 
2.43.0


From 8eef08d706fc6d605ce9a33db673850f9a1874eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:40 +0000
Subject: [PATCH 33/50] fix: casting a single value between domains is done in
 double precision

0.1 cast from [0, 1] to itself became 0.10000000149011612.
---
 neps/search_spaces/domain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neps/search_spaces/domain.py b/neps/search_spaces/domain.py
index 240b9b5..b24b9b8 100644
--- a/neps/search_spaces/domain.py
+++ b/neps/search_spaces/domain.py
@@ -419,7 +419,7 @@ class Domain(Generic[V]):
         Returns:
             Value cast to this domain.
         """
-        return self.cast(torch.tensor(x), frm=frm).item()
+        return self.cast(torch.tensor(x, dtype=torch.float64), frm=frm).item()
 
     def to_unit_one(self, x: float | int) -> float:
         """Transform a single value from this domain to the unit interval [0, 1].
@@ -430,7 +430,7 @@ class Domain(Generic[V]):
         Returns:
             Value normalized to the unit interval [0, 1].
         """
-        return self.to_unit(torch.tensor(x)).item()
+        return self.to_unit(torch.tensor(x, dtype=torch.float64)).item()
 
     def as_integer_domain(self) -> Domain:
         """Get the integer version of this domain.
-- 
2.43.0


From fc7b38e293a6d8306982e765d16e99706920c170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:52 +0000
Subject: [PATCH 34/50] fix: casting between log domains of the same size lands
 on the bins

Integers on a log scale are not on the bins of a binned domain with the same
bounds and cardinality, so their values must not be taken over as they are.
---
 neps/search_spaces/domain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neps/search_spaces/domain.py b/neps/search_spaces/domain.py
index b24b9b8..1666038 100644
--- a/neps/search_spaces/domain.py
+++ b/neps/search_spaces/domain.py
@@ -314,8 +314,8 @@ class Domain(Generic[V]):
         # have to go through unit space to figure out the bins
         same_bounds = self.lower == frm.lower and self.upper == frm.upper
         same_log_bounds = self.log_bounds == frm.log_bounds
-        same_cardinality = self.cardinality == frm.cardinality
-        if same_bounds and same_log_bounds and same_cardinality:
+        same_levels = self._quantization == frm._quantization
+        if same_bounds and same_log_bounds and same_levels:
             if self.round:
                 x = torch.round(x)
             return x.type(dtype)
-- 
2.43.0


From a5625569914662ad4c33a2848e79441ae1a996b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:17 +0000
Subject: [PATCH 35/50] fix: ifBO continues each configuration by one step of
 the fidelity

There was one index less than there are fidelities: continuing a configuration
skipped fidelities and named a previous configuration that does not exist.
---
 neps/optimizers/multi_fidelity/ifbo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neps/optimizers/multi_fidelity/ifbo.py b/neps/optimizers/multi_fidelity/ifbo.py
index 3844c9a..fcf4355 100755
--- a/neps/optimizers/multi_fidelity/ifbo.py
+++ b/neps/optimizers/multi_fidelity/ifbo.py
@@ -162,7 +162,8 @@ class IFBO(BaseOptimizer):
         self._budget_domain = Domain.floating(1 / self._max_budget, 1)
 
         # Domain from which we assign an index to each budget
-        self._budget_ix_domain = Domain.indices(fid_bins)
+        # NOTE: `fid_bins` steps from the lowest fidelity makes one fidelity more
+        self._budget_ix_domain = Domain.indices(fid_bins + 1)
 
     @override
     def ask(
-- 
2.43.0


From 0af6efea3298c6e30116ba8842fee0095fe32975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:27 +0000
Subject: [PATCH 36/50] fix: ifBO learns crashed configurations as the worst
 ones

Their error value of 0 was taken as a loss, which made them the best score of 1.
---
 neps/optimizers/bayesian_optimization/models/ftpfn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/optimizers/bayesian_optimization/models/ftpfn.py b/neps/optimizers/bayesian_optimization/models/ftpfn.py
index 680c10b..6f39d0c 100644
--- a/neps/optimizers/bayesian_optimization/models/ftpfn.py
+++ b/neps/optimizers/bayesian_optimization/models/ftpfn.py
@@ -173,7 +173,7 @@ def encode_ftpfn(
         [
             pending_value
             if trial.report is None
-            else (error_value if trial.report.loss is None else trial.report.loss)
+            else (1 - error_value if trial.report.loss is None else trial.report.loss)
             for trial in trials.values()
         ],
         device=device,
-- 
2.43.0


From be4ab6dd1ff9bce8812b511feac35384083c68c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:47 +0000
Subject: [PATCH 37/50] fix: Bayesian optimization works with 21 to 30
 combinations of categoricals

The number of restarts was divided down to zero, which botorch refuses.
---
 neps/optimizers/bayesian_optimization/models/gp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/optimizers/bayesian_optimization/models/gp.py b/neps/optimizers/bayesian_optimization/models/gp.py
index 44b6fa2..9ba693d 100644
--- a/neps/optimizers/bayesian_optimization/models/gp.py
+++ b/neps/optimizers/bayesian_optimization/models/gp.py
@@ -210,7 +210,7 @@ def optimize_acq(
     return optimize_acqf_mixed(
         acq_function=acq_fn,
         bounds=bounds,
-        num_restarts=min(num_restarts // n_combos, 2),
+        num_restarts=min(max(num_restarts // n_combos, 1), 2),
         raw_samples=n_intial_start_points,
         q=n_candidates_required,
         fixed_features_list=fixed_cats,
-- 
2.43.0


From 4b211f5ead00739838e65acb3e5d4f8262e71173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:35 +0000
Subject: [PATCH 38/50] fix: Bayesian optimization with costs continues when an
 evaluation has no cost

Any missing cost, such as of an evaluation that failed with its error ignored, was
refused as if all were missing; the code to leave them out swapped x and y.
---
 neps/optimizers/bayesian_optimization/models/gp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neps/optimizers/bayesian_optimization/models/gp.py b/neps/optimizers/bayesian_optimization/models/gp.py
index 9ba693d..1653efa 100644
--- a/neps/optimizers/bayesian_optimization/models/gp.py
+++ b/neps/optimizers/bayesian_optimization/models/gp.py
@@ -365,7 +365,7 @@ def fit_and_acquire_from_gp(
 
         # We simply ignore missing costs when training the cost GP.
         missing_costs = torch.isnan(costs)
-        if missing_costs.any():
+        if missing_costs.all():
             raise ValueError(
                 "Must have at least some configurations reported with a cost"
                 " if using costs with a GP."
@@ -373,8 +373,8 @@ def fit_and_acquire_from_gp(
 
         if missing_costs.any():
             not_missing_mask = ~missing_costs
-            x_train_cost = costs[not_missing_mask]
-            y_train_cost = x_train[not_missing_mask]
+            x_train_cost = x_train[not_missing_mask]
+            y_train_cost = costs[not_missing_mask]
         else:
             x_train_cost = x_train
             y_train_cost = costs
-- 
2.43.0


From 3f385eede33ca53478fc609d46e9dd27238ca99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:44 +0000
Subject: [PATCH 39/50] fix: ASHA with an early stopping rate above zero
 promotes configurations

---
 neps/optimizers/multi_fidelity/promotion_policy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/optimizers/multi_fidelity/promotion_policy.py b/neps/optimizers/multi_fidelity/promotion_policy.py
index b94cbf0..c2580aa 100644
--- a/neps/optimizers/multi_fidelity/promotion_policy.py
+++ b/neps/optimizers/multi_fidelity/promotion_policy.py
@@ -98,7 +98,7 @@ class AsyncPromotionPolicy(PromotionPolicy):
     def retrieve_promotions(self) -> dict:
         """Returns the top 1/eta configurations per rung if enough configurations seen."""
         assert self.max_rung is not None
-        for rung in range(self.max_rung + 1):
+        for rung in self.rung_members:
             if rung == self.max_rung:
                 # cease promotions for the highest rung (configs at max budget)
                 continue
-- 
2.43.0


From 867c119e900c53e34c9acbf7ccf985b655993feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:45 +0000
Subject: [PATCH 40/50] fix: ifBO does not continue a configuration whose next
 step is already pending

---
 neps/optimizers/multi_fidelity/ifbo.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/neps/optimizers/multi_fidelity/ifbo.py b/neps/optimizers/multi_fidelity/ifbo.py
index fcf4355..27d9656 100755
--- a/neps/optimizers/multi_fidelity/ifbo.py
+++ b/neps/optimizers/multi_fidelity/ifbo.py
@@ -252,8 +252,11 @@ class IFBO(BaseOptimizer):
             budget_domain=self._budget_domain,
             # Acquisition function
             acq_function=_mfpi_random,
-            # Which acquisition samples to consider for continuation
-            continuation_samples=not_pending_X,
+            # Which acquisition samples to consider for continuation, which excludes
+            # those for which the next step is already being evaluated
+            continuation_samples=not_pending_X[
+                ~torch.isin(not_pending_X[:, 0], X[pending_mask][:, 0])
+            ],
             # How to generate some initial samples
             initial_samplers=[
                 (Sampler.sobol(ndim=sample_dims), 512),
-- 
2.43.0


From 9bebba0df0a4d5c5b0c6cca994acfd762332fc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:08 +0000
Subject: [PATCH 41/50] fix: the crossover of two search spaces exchanges
 categorical parameters

---
 neps/search_spaces/search_space.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neps/search_spaces/search_space.py b/neps/search_spaces/search_space.py
index a5483de..134f62d 100644
--- a/neps/search_spaces/search_space.py
+++ b/neps/search_spaces/search_space.py
@@ -489,7 +489,9 @@ class SearchSpace(Mapping[str, Any]):
             ):
                 for _ in range(patience):
                     try:
-                        child1, child2 = hyperparameter.crossover(other_hp)  # type: ignore
+                        child1, child2 = hyperparameter.crossover(  # type: ignore
+                            hyperparameter, other_hp
+                        )
                         new_config1[key] = child1
                         new_config2[key] = child2
                     except Exception:  # noqa: S112, BLE001
-- 
2.43.0


From 002dcded03bf03b193ae51759d21b5ce9fb3396a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:08 +0000
Subject: [PATCH 42/50] fix: a search space can mutate a given parent

---
 neps/search_spaces/search_space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neps/search_spaces/search_space.py b/neps/search_spaces/search_space.py
index 134f62d..f6d9914 100644
--- a/neps/search_spaces/search_space.py
+++ b/neps/search_spaces/search_space.py
@@ -397,12 +397,12 @@ class SearchSpace(Mapping[str, Any]):
         """
         if mutation_strategy == "smbo":
             args = {
-                "parent": parent,
                 "mutation_rate": mutation_rate,
                 "mutation_strategy": "local_search",  # fixing property for SMBO mutation
             }
             kwargs.update(args)
-            new_config = self._smbo_mutation(patience=patience, **kwargs)
+            to_mutate = self if parent is None else parent
+            new_config = to_mutate._smbo_mutation(patience=patience, **kwargs)
         else:
             raise NotImplementedError("No such mutation strategy!")
 
-- 
2.43.0


From e4cbee7bae83128b44a11235e8f38a8efc946322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:46 +0000
Subject: [PATCH 43/50] fix: the default of a fidelity does not count as a
 prior of the search space

---
 neps/search_spaces/search_space.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/neps/search_spaces/search_space.py b/neps/search_spaces/search_space.py
index f6d9914..6453dac 100644
--- a/neps/search_spaces/search_space.py
+++ b/neps/search_spaces/search_space.py
@@ -218,7 +218,12 @@ class SearchSpace(Mapping[str, Any]):
                 _fidelity_param = hp
                 _fidelity_name = name
 
-            if isinstance(hp, ParameterWithPrior) and hp.has_prior:
+            # The default of a fidelity is not a prior on what to search
+            if (
+                isinstance(hp, ParameterWithPrior)
+                and hp.has_prior
+                and not hp.is_fidelity
+            ):
                 _has_prior = True
 
         self.hyperparameters: dict[str, Parameter] = dict(_hyperparameters)
-- 
2.43.0


From 696683c3d00a3e2df11a60741a5e6175dc90c874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:53 +0000
Subject: [PATCH 44/50] fix: an outdated summary does not overwrite a newer one

---
 neps/status/status.py | 46 ++++++++++++++++++-------------------------
 1 file changed, 19 insertions(+), 27 deletions(-)

diff --git a/neps/status/status.py b/neps/status/status.py
index 4f5ff46..dcdf485 100644
--- a/neps/status/status.py
+++ b/neps/status/status.py
@@ -311,37 +311,29 @@ def _save_data_to_csv(
                 "num_pending_configs_with_worker",
                 "value",
             ]
-            # Represents the last worker
-            if int(pending_configs) == 0 and int(pending_configs_with_worker) == 0:
-                config_data_df = config_data_df.sort_values(
-                    by="result.loss",
-                    ascending=True,
-                )
-                config_data_df.to_csv(config_data_file_path, index=False, mode="w")
-                run_data_df.to_csv(run_data_file_path, index=True, mode="w")
-
+            # The data was gathered before acquiring the lock, another worker may have
+            # written a more recent summary in the meantime, which should remain.
+            is_outdated = False
             if run_data_file_path.exists():
                 prev_run_data_df = pd.read_csv(run_data_file_path)
                 prev_run_data_df = prev_run_data_df.set_index("description")
 
-                num_evaluated_configs_csv = prev_run_data_df.loc[
-                    "num_evaluated_configs",
-                    "value",
-                ]
-                num_evaluated_configs_run = run_data_df.loc[
-                    run_data_df.index == "num_evaluated_configs",
-                    "value",
-                ]
-                # check if the current worker has more evaluated configs than the previous
-                if int(num_evaluated_configs_csv) < num_evaluated_configs_run.iloc[0]:
-                    config_data_df = config_data_df.sort_values(
-                        by="result.loss",
-                        ascending=True,
-                    )
-                    config_data_df.to_csv(config_data_file_path, index=False, mode="w")
-                    run_data_df.to_csv(run_data_file_path, index=True, mode="w")
-            # Represents the first worker to be evaluated
-            else:
+                num_evaluated_configs_csv = int(
+                    prev_run_data_df.loc["num_evaluated_configs", "value"]
+                )
+                num_evaluated_configs_run = int(
+                    run_data_df.loc["num_evaluated_configs", "value"]
+                )
+                # Represents the last worker
+                nothing_pending = (
+                    int(pending_configs) == 0 and int(pending_configs_with_worker) == 0
+                )
+                is_outdated = num_evaluated_configs_run < num_evaluated_configs_csv or (
+                    num_evaluated_configs_run == num_evaluated_configs_csv
+                    and not nothing_pending
+                )
+
+            if not is_outdated:
                 config_data_df = config_data_df.sort_values(
                     by="result.loss",
                     ascending=True,
-- 
2.43.0


From 4c6bb4229b5bc599283d9fffbd5dc03589e94125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:53 +0000
Subject: [PATCH 45/50] fix: successive halving refuses a fidelity that starts
 at zero and an eta without rungs

---
 neps/optimizers/multi_fidelity/successive_halving.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/neps/optimizers/multi_fidelity/successive_halving.py b/neps/optimizers/multi_fidelity/successive_halving.py
index ad61a38..7923d9e 100644
--- a/neps/optimizers/multi_fidelity/successive_halving.py
+++ b/neps/optimizers/multi_fidelity/successive_halving.py
@@ -109,6 +109,13 @@ class SuccessiveHalvingBase(BaseOptimizer):
         assert self.pipeline_space.fidelity is not None
         self.min_budget = self.pipeline_space.fidelity.lower
         self.max_budget = self.pipeline_space.fidelity.upper
+        if self.min_budget <= 0:
+            raise ValueError(
+                "The lower bound of the fidelity has to be positive to divide its range"
+                f" into rungs. Got: {self.pipeline_space.fidelity}"
+            )
+        if eta <= 1:
+            raise ValueError(f"`eta` has to be larger than 1. Got: {eta}")
         self.eta = eta
         # SH implicitly sets early_stopping_rate to 0
         # the parameter is exposed to allow HB to call SH with different stopping rates
-- 
2.43.0


From 5cdc0c0d881546aac06ede14a786973de42df42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:53 +0000
Subject: [PATCH 46/50] fix: the initial directory of an evaluation is that of
 its own run

---
 neps/utils/common.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/neps/utils/common.py b/neps/utils/common.py
index 1e73506..a049f50 100644
--- a/neps/utils/common.py
+++ b/neps/utils/common.py
@@ -140,9 +140,6 @@ def load_lightning_checkpoint(
     return checkpoint_path, checkpoint
 
 
-_INTIAL_DIRECTORY_CACHE: dict[str, Path] = {}
-
-
 # TODO: We should have a better way to have a shared folder between trials.
 # Right now, the fidelity lineage is linear, however this will be a difficulty
 # when/if we have a tree structure.
@@ -164,9 +161,6 @@ def get_initial_directory(pipeline_directory: Path | str | None = None) -> Path:
     else:
         trial = get_in_progress_trial()
 
-    if trial.metadata.id in _INTIAL_DIRECTORY_CACHE:
-        return _INTIAL_DIRECTORY_CACHE[trial.metadata.id]
-
     # Recursively find the initial directory
     while (prev_trial_id := trial.metadata.previous_trial_id) is not None:
         trial = neps_state.get_trial_by_id(prev_trial_id)
@@ -175,10 +169,7 @@ def get_initial_directory(pipeline_directory: Path | str | None = None) -> Path:
 
     # TODO: Hard coded assumption that we are operating in a filebased neps
     assert isinstance(initial_dir, str)
-    path = Path(initial_dir)
-
-    _INTIAL_DIRECTORY_CACHE[trial.metadata.id] = path
-    return path
+    return Path(initial_dir)
 
 
 def get_searcher_data(
-- 
2.43.0


From 63be110b2dcd11dcda4a5333f4bb4e319f3c4150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:53 +0000
Subject: [PATCH 47/50] fix: the costs of a continued configuration are those
 beyond the one it continues

---
 neps/plot/read_results.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neps/plot/read_results.py b/neps/plot/read_results.py
index 06ff3f1..364f3c5 100644
--- a/neps/plot/read_results.py
+++ b/neps/plot/read_results.py
@@ -56,9 +56,9 @@ def process_seed(
                 # calculates continuation costs for MF algorithms NOTE: assumes that
                 # all recorded evaluations are black-box evaluations where
                 # continuations or freeze-thaw was not accounted for during optimization
-                if "previous_config_id" in config_result.metadata:
-                    previous_config_id = config_result.metadata["previous_config_id"]
-                    config_cost -= get_cost(previous_config_id)
+                previous_trial_id = config_result.metadata["previous_trial_id"]
+                if previous_trial_id is not None:
+                    config_cost -= get_cost(previous_trial_id)
             else:
                 config_cost = config_result.metadata["time_end"] - global_start
 
-- 
2.43.0


From 2d0c272018bcac4d936de28375d4d0870ce24d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:53 +0000
Subject: [PATCH 48/50] fix: tensorboard values stay under one tag and in the
 directory of their run

---
 neps/plot/tensorboard_eval.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neps/plot/tensorboard_eval.py b/neps/plot/tensorboard_eval.py
index 380ad6b..6e2654f 100644
--- a/neps/plot/tensorboard_eval.py
+++ b/neps/plot/tensorboard_eval.py
@@ -103,7 +103,9 @@ class tblogger:  # noqa: N801
             if trial.metadata.previous_trial_location is not None
             else None
         )
-        tblogger.config_id = trial.metadata.id
+        # NOTE: Once there is a writer, the id is the one its tags were started with
+        if not tblogger._is_initialized():
+            tblogger.config_id = trial.metadata.id
         tblogger.optimizer_dir = root_dir
         tblogger.config = trial.config
 
@@ -442,6 +444,8 @@ class tblogger:  # noqa: N801
 
         tblogger.summary_writer.flush()
         tblogger.summary_writer.close()
+        # The next one can be for another run of this process
+        tblogger.summary_writer = None
 
     @staticmethod
     def disable() -> None:
-- 
2.43.0


From 43404cf33709d53aa3771029b610bfcaf0ef6d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:53 +0000
Subject: [PATCH 49/50] fix: neps info-config shows trials that are not
 evaluated yet

---
 neps/utils/cli.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/neps/utils/cli.py b/neps/utils/cli.py
index b504bf5..869f5d0 100644
--- a/neps/utils/cli.py
+++ b/neps/utils/cli.py
@@ -308,13 +308,17 @@ def sample_config(args: argparse.Namespace) -> None:
     pass
 
 
-def convert_timestamp(timestamp: float) -> str:
+def convert_timestamp(timestamp: float | None) -> str:
     """Convert a UNIX timestamp to a human-readable datetime string."""
+    if timestamp is None:
+        return "N/A"
     return datetime.fromtimestamp(timestamp).strftime("%Y-%m-%d %H:%M:%S")
 
 
-def format_duration(seconds: float) -> str:
+def format_duration(seconds: float | None) -> str:
     """Convert duration in seconds to a h:min:sec format."""
+    if seconds is None:
+        return "N/A"
     duration = str(timedelta(seconds=seconds))
     # Remove milliseconds for alignment
     if "." in duration:
-- 
2.43.0


From 54cd242992405041db5733d331c9b809d3d0acad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:53 +0000
Subject: [PATCH 50/50] fix: neps results handles failed trials and
 multi-fidelity ids

---
 neps/utils/cli.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/neps/utils/cli.py b/neps/utils/cli.py
index 869f5d0..33c2b28 100644
--- a/neps/utils/cli.py
+++ b/neps/utils/cli.py
@@ -541,14 +541,20 @@ def results(args: argparse.Namespace) -> None:
         return
 
     trials = neps_state.get_all_trials()
-    # Sort trials by trial ID
-    sorted_trials = sorted(trials.values(), key=lambda x: int(x.id))
+    # Sort trials by trial ID, multi-fidelity ids have the form "{config}_{rung}"
+    sorted_trials = sorted(
+        trials.values(), key=lambda x: tuple(int(part) for part in x.id.split("_"))
+    )
 
     # Compute incumbents
     best_loss = float("inf")
     incumbents = []
     for trial in sorted_trials:
-        if trial.report and trial.report.loss < best_loss:
+        if (
+            trial.report is not None
+            and trial.report.loss is not None
+            and trial.report.loss < best_loss
+        ):
             best_loss = trial.report.loss
             incumbents.append(trial)
 
-- 
2.43.0

