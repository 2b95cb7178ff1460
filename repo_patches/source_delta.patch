From 0bbefb6f34d5e0bead1d307795af563e0dd306bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:17 +0000
Subject: [PATCH 01/32] fix: synchronize the managed storage shared by training
 workers

The manager serves each worker from its own thread. Concurrent appends raced
on the check-then-create and on the extension of the lists, losing stored
values or padding the lists with spurious entries.
---
 sample/_training.py | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/sample/_training.py b/sample/_training.py
index edd94f4..6364f2c 100644
--- a/sample/_training.py
+++ b/sample/_training.py
@@ -5,6 +5,7 @@ import functools
 import itertools
 import multiprocessing
 import multiprocessing.managers
+import threading
 from typing import Generator, Callable, Iterable, Optional
 
 import sample.utils
@@ -14,13 +15,45 @@ mp = multiprocessing
 utils = sample.utils
 
 
+class _SynchronizedStorage(utils.learn.OptionalStorage):
+  """Thread-safe :class:`sample.utils.learn.OptionalStorage`. The manager
+  serves every client from a different thread, but they all share one storage.
+  Data is always copied out, because the manager serializes it after the lock
+  has been released
+
+  Args:
+    save (bool): Determines if the storage is actually operational"""
+
+  def __init__(self, save: bool = False):
+    super().__init__(save=save)
+    self._lock = threading.RLock()
+
+  def __getitem__(self, key):
+    with self._lock:
+      return copy.copy(super().__getitem__(key))
+
+  def get_state(self, deepcopy: bool = True):  # pylint: disable=W0613
+    with self._lock:
+      return copy.deepcopy(super().get_state(deepcopy=False))
+
+  def reset(self):
+    with self._lock:
+      return super().reset()
+
+  def append(self, key, value, index=None):
+    with self._lock:
+      return super().append(key, value, index=index)
+
+  __call__ = append
+
+
 class _OptionalStorageManager(mp.managers.SyncManager):
   """Multiprocessing manager for :class:`sample.utils.learn.OptionalStorage`"""
 
 
 _OptionalStorageManager.register(
     "OptionalStorage",
-    utils.learn.OptionalStorage,
+    _SynchronizedStorage,
     exposed=(
         *mp.managers.public_methods(utils.learn.OptionalStorage),
         "__getitem__",
-- 
2.43.0


From 35766ed1fc1e71709bbe1aefa9c26a8361d18f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:22 +0000
Subject: [PATCH 02/32] fix: export SDT parameters of a model without modes

A sound without any valid mode (e.g. silence) made sdt_params_() fail with
ZeroDivisionError.
---
 sample/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/sample.py b/sample/sample.py
index 9125851..90282b6 100644
--- a/sample/sample.py
+++ b/sample/sample.py
@@ -275,7 +275,7 @@ class SAMPLE(base.RegressorMixin, base.BaseEstimator):
         "fragmentSize": 1.0,
         "freqs": self.freqs_[m_ord].tolist(),
         "decays": self.decays_[m_ord].tolist(),
-        "weights": np.full(n_modes, 1 / n_modes).tolist(),
+        "weights": np.full(n_modes, 1 / max(1, n_modes)).tolist(),
         "gains": [self.amps_[m_ord].tolist()],
     }
 
-- 
2.43.0


From 78034ea4f94a651a75ed4864e25a5cfc19aa93cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:10 +0000
Subject: [PATCH 03/32] fix: reset stored beat decisions at the beginning of
 every training

Decisions stored by a previous training with more tracks survived the next
one, so that stored data did not match the learned parameters.
---
 sample/beatsdrop/sample.py | 6 ++++++
 sample/sample.py           | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/sample/beatsdrop/sample.py b/sample/beatsdrop/sample.py
index ea21542..cd196e9 100644
--- a/sample/beatsdrop/sample.py
+++ b/sample/beatsdrop/sample.py
@@ -84,6 +84,12 @@ class SAMPLEBeatsDROP(sample.sample.SAMPLE):
 
   _PARAM_MATRIX_NROWS: int = 4
 
+  def _reset_storage(self):
+    super()._reset_storage()
+    storage = getattr(self.beat_decisor, "intermediate", None)
+    if storage is not None:
+      storage.reset()
+
   def _fit_track(self, i: int, t: np.ndarray,
                  track: dict) -> Sequence[Tuple[float, float, float, float]]:
     """Fit parameters for one track.
diff --git a/sample/sample.py b/sample/sample.py
index 90282b6..ff06ef4 100644
--- a/sample/sample.py
+++ b/sample/sample.py
@@ -155,6 +155,10 @@ class SAMPLE(base.RegressorMixin, base.BaseEstimator):
 
   _PARAM_MATRIX_NROWS: int = 3
 
+  def _reset_storage(self):
+    """Delete intermediate results of previous runs. The storage of the
+    sinusoidal model is reset by its own :meth:`fit` method"""
+
   @utils.warnings_simplefilter(action="ignore",
                                category=RuntimeWarning,
                                toggle=("ignore_warnings", True))
@@ -175,6 +179,7 @@ class SAMPLE(base.RegressorMixin, base.BaseEstimator):
     self.set_params(**sample_kwargs)
 
     with sample._training.sample_training_context(self, **kwargs) as fit_args:  # pylint: disable=W0212
+      self._reset_storage()
       # Process frames
       fit_args.progress_start(len(self.sinusoidal.time_frames(x)))
       tracks = self.sinusoidal.fit(x, y, _fit_args=fit_args).tracks_
-- 
2.43.0


From c875b67ed7c86cca31a04f7a2a9a4ef07a0708c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:19 +0000
Subject: [PATCH 04/32] fix: never leave a partially written checkpoint or
 results file

A truncated file can still be parsed, and the evaluation resumed from it failed
or loaded wrong values
---
 sample/utils/__init__.py        | 29 +++++++++++++++++++++++++++++
 scripts/beatsdrop/evaluation.py |  8 +++++---
 2 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/sample/utils/__init__.py b/sample/utils/__init__.py
index e72d420..f811be3 100644
--- a/sample/utils/__init__.py
+++ b/sample/utils/__init__.py
@@ -1,6 +1,8 @@
 """Utility functions"""
+import contextlib
 import functools
 import inspect
+import os
 import warnings
 from typing import (Any, Callable, Dict, Iterable, Optional, Tuple, TypeVar,
                     Union, overload)
@@ -20,6 +22,33 @@ def comma_join_quote(it: Iterable) -> str:
   return ", ".join(f"'{s}'" for s in map(str, it))
 
 
+@contextlib.contextmanager
+def replacing(path: str):
+  """Context manager for writing a file so that, whatever happens, it either
+  has its whole new content or is left as it was. The content should be
+  written at the yielded path, which is in the same folder
+
+  Args:
+    path (str): Path of the file to write
+
+  Returns:
+    str: Path of a temporary file, that takes the place of the file on exit"""
+  dirname, basename = os.path.split(path)
+  tmp_path = os.path.join(dirname, f".tmp-{basename}")
+  try:
+    yield tmp_path
+    fd = os.open(tmp_path, os.O_RDWR)
+    try:
+      os.fsync(fd)
+    finally:
+      os.close(fd)
+    os.replace(tmp_path, path)
+  except BaseException:
+    with contextlib.suppress(OSError):
+      os.remove(tmp_path)
+    raise
+
+
 def add_keyword_arg(func: Optional[Callable] = None,
                     sig_func: Optional[Callable] = None,
                     name: Optional[str] = None,
diff --git a/scripts/beatsdrop/evaluation.py b/scripts/beatsdrop/evaluation.py
index 6fcf8e9..176ab55 100644
--- a/scripts/beatsdrop/evaluation.py
+++ b/scripts/beatsdrop/evaluation.py
@@ -32,7 +32,7 @@ from scipy.io import wavfile
 import sample
 import sample.beatsdrop.regression
 import sample.beatsdrop.sample
-from sample import beatsdrop, psycho
+from sample import beatsdrop, psycho, utils
 from sample.evaluation import random
 from sample.utils import dsp as dsp_utils
 
@@ -516,7 +516,8 @@ def run_tests(args: argparse.Namespace):
             it.set_description(f"Checkpoint: '{args.last_file}'")
           else:
             logger.info("Writing checkpoint: '%s'", args.last_file)
-          list2df(args.results, args.fieldnames).to_csv(args.last_file)
+          with utils.replacing(args.last_file) as tmp_path:
+            list2df(args.results, args.fieldnames).to_csv(tmp_path)
   return args
 
 
@@ -534,7 +535,8 @@ def save_dataframe(args: argparse.Namespace):
   if args.csv_path is not None and (args.csv_path != args.last_file or
                                     not args.resume):
     logger.info("Writing CSV file: '%s'", args.csv_path)
-    args.df.to_csv(args.csv_path)
+    with utils.replacing(args.csv_path) as tmp_path:
+      args.df.to_csv(tmp_path)
   # Clean checkpoints
   if args.ckpt_path is not None:
     for fn in glob.glob(args.ckpt_path("*")):
-- 
2.43.0


From 243411fb59ab36db25230e45f47deca861dbb489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:19 +0000
Subject: [PATCH 05/32] fix: save the results computed after resuming from a
 results file

---
 scripts/beatsdrop/evaluation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/beatsdrop/evaluation.py b/scripts/beatsdrop/evaluation.py
index 176ab55..e7f874e 100644
--- a/scripts/beatsdrop/evaluation.py
+++ b/scripts/beatsdrop/evaluation.py
@@ -497,6 +497,7 @@ def run_tests(args: argparse.Namespace):
   else:
     logger.info("Running tests")
     logger.debug("Args: %s", args)
+    args.last_file = None  # The loaded file will not have these results
     with mp.Pool(processes=args.n_jobs) as pool:
       it = pool.imap_unordered(
           functools.partial(args.test_func,
-- 
2.43.0


From fb318b48cde87e810c791b2bc2bd1bc7c9175d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:19 +0000
Subject: [PATCH 06/32] fix: delete evaluation checkpoints oldest first

When interrupted while deleting in any order, an older checkpoint could be the
only one left, and shadow the complete results
---
 scripts/beatsdrop/evaluation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scripts/beatsdrop/evaluation.py b/scripts/beatsdrop/evaluation.py
index e7f874e..f7140c4 100644
--- a/scripts/beatsdrop/evaluation.py
+++ b/scripts/beatsdrop/evaluation.py
@@ -538,9 +538,11 @@ def save_dataframe(args: argparse.Namespace):
     logger.info("Writing CSV file: '%s'", args.csv_path)
     with utils.replacing(args.csv_path) as tmp_path:
       args.df.to_csv(tmp_path)
-  # Clean checkpoints
+  # Clean checkpoints, oldest first: the ones that are left, if interrupted,
+  # should not be older than the deleted ones
   if args.ckpt_path is not None:
-    for fn in glob.glob(args.ckpt_path("*")):
+    for fn in sorted(glob.glob(args.ckpt_path("*")),
+                     key=lambda s: (len(s), s)):
       logger.debug("Deleting checkpoint: '%s'", fn)
       os.remove(fn)
   return args
-- 
2.43.0


From 3675e0e3545684aa7c3f9fb59f724fdddc83d95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:19 +0000
Subject: [PATCH 07/32] fix: report errors in writing the wav file of a test
 case

When logging exceptions, they were replaced by 'generator didn't yield'
---
 scripts/beatsdrop/evaluation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/beatsdrop/evaluation.py b/scripts/beatsdrop/evaluation.py
index f7140c4..01280e4 100644
--- a/scripts/beatsdrop/evaluation.py
+++ b/scripts/beatsdrop/evaluation.py
@@ -226,10 +226,10 @@ def test_case_context(seed: int,
     beat_ground_truth["d2"] = d2
     beat_ground_truth["a2"] = a2
     beat_ground_truth["p2"] = p2
+  # Save WAV (an error here cannot be logged away, as there is no test to skip)
+  if wav_path is not None:
+    wavfile.write(filename=wav_path.format(seed), rate=fs, data=x)
   try:
-    # Save WAV
-    if wav_path is not None:
-      wavfile.write(filename=wav_path.format(seed), rate=fs, data=x)
     # User code
     yield outs, beat_ground_truth
   except Exception as e:  # pylint: disable=W0703
-- 
2.43.0


From 4178a827f86ab9f4630bc63e50b332ca16dfb3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:19 +0000
Subject: [PATCH 08/32] fix: never leave a partially written benchmark results
 file

---
 scripts/cim22/performance.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scripts/cim22/performance.py b/scripts/cim22/performance.py
index 6aaec13..1a51033 100644
--- a/scripts/cim22/performance.py
+++ b/scripts/cim22/performance.py
@@ -16,6 +16,8 @@ import tqdm
 from chromatictools import cli
 from matplotlib import pyplot as plt
 
+from sample import utils
+
 logger = logging.getLogger("CIM22-Performance")
 
 
@@ -361,7 +363,8 @@ def main(*argv):
     data = clean_data(data, args)
     df = pd.DataFrame(data=data)
     if args.output is not None:
-      df.to_csv(args.output)
+      with utils.replacing(args.output) as tmp_path:
+        df.to_csv(tmp_path)
 
   log_speedup_imshow(compute_speedup(df, args))
 
-- 
2.43.0


From caa58163a2f72decb143a6687692f7abca199752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:48 +0000
Subject: [PATCH 09/32] fix: do not report the statistics of out-of-date
 results

The statistical tests saved for previous results were reported after computing
new ones, and a partially written file made every later report fail
---
 scripts/beatsdrop/evaluation.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/scripts/beatsdrop/evaluation.py b/scripts/beatsdrop/evaluation.py
index 01280e4..055d78b 100644
--- a/scripts/beatsdrop/evaluation.py
+++ b/scripts/beatsdrop/evaluation.py
@@ -535,6 +535,12 @@ def save_dataframe(args: argparse.Namespace):
   args.df = list2df(args.results, args.fieldnames)
   if args.csv_path is not None and (args.csv_path != args.last_file or
                                     not args.resume):
+    # Saved analyses of previous results are out of date
+    for fn in (f"{args.output}_rankresult.dat",
+               f"{args.output}_errors_feature_importance.csv"):
+      if os.path.exists(fn):
+        logger.debug("Deleting file: '%s'", fn)
+        os.remove(fn)
     logger.info("Writing CSV file: '%s'", args.csv_path)
     with utils.replacing(args.csv_path) as tmp_path:
       args.df.to_csv(tmp_path)
@@ -718,7 +724,8 @@ def statistical_tests(args: argparse.Namespace):
     args.rank_result = pickle.read_pickled(args.rr_path)
   if args.rr_path is not None and not os.path.exists(args.rr_path):
     logger.info("Saving test results: '%s'", args.rr_path)
-    pickle.save_pickled(args.rank_result, args.rr_path)
+    with utils.replacing(args.rr_path) as tmp_path:
+      pickle.save_pickled(args.rank_result, tmp_path)
 
   with print_or_write(
       args.output if args.output is None else f"{args.output}_report.tex"):
@@ -856,7 +863,8 @@ def decision_report(args):
     importances = pd.DataFrame(importances)
     if importance_fname is not None:
       logger.info("Writing report file: '%s'", importance_fname)
-      importances.to_csv(importance_fname)
+      with utils.replacing(importance_fname) as tmp_path:
+        importances.to_csv(tmp_path)
   else:
     importances = pd.read_csv(importance_fname)
   # ---------------------------------------------------------------------------
-- 
2.43.0


From 91cb579ad5a1b49da0a650ce48f47426688b02fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:45 +0000
Subject: [PATCH 10/32] fix: replace non-finite integer settings with their
 default value

---
 sample/widgets/settings.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sample/widgets/settings.py b/sample/widgets/settings.py
index 1a124e5..f6bc52e 100644
--- a/sample/widgets/settings.py
+++ b/sample/widgets/settings.py
@@ -123,10 +123,9 @@ def custom_positive_int(x: str, dflt: Optional[int] = 1) -> int:
   Returns:
     int: Integer value"""
   try:
-    x = float(x)
-  except ValueError:
+    return int(max(float(x), 1))
+  except (ValueError, OverflowError):
     return dflt
-  return int(max(x, 1))
 
 
 def next_power_of_2(x: str) -> int:
-- 
2.43.0


From 17119fbe1bfa6fed90a00a8fdde5058ea67a0d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:45 +0000
Subject: [PATCH 11/32] fix: never leave a partially written settings or audio
 cache file

---
 sample/widgets/userfiles.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sample/widgets/userfiles.py b/sample/widgets/userfiles.py
index f9d1363..30ab865 100644
--- a/sample/widgets/userfiles.py
+++ b/sample/widgets/userfiles.py
@@ -62,8 +62,10 @@ class UserDir:
       Args:
         data: Python object to serialize
         kwargs: Keyword arguments for :func:`json.dump`"""
-      with self.open(mode="w") as f:
-        json.dump(data, f, **kwargs)
+      os.makedirs(os.path.dirname(self.path), exist_ok=True)
+      with utils.replacing(self.path) as path:
+        with open(path, mode="w", encoding="utf-8") as f:
+          json.dump(data, f, **kwargs)
 
     def load_json(self, **kwargs):
       """Load JSON from the file and deserialize as a Python object
@@ -79,7 +81,8 @@ class UserDir:
       Args:
         data: Python object to serialize"""
       os.makedirs(os.path.dirname(self.path), exist_ok=True)
-      pickle.save_pickled(data, self.path)
+      with utils.replacing(self.path) as path:
+        pickle.save_pickled(data, path)
 
     def load_pickled(self):
       """Load pickled data from the file and
-- 
2.43.0


From 39a76048896bd6f9db871114b7b45d0d1f14c1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:41 +0000
Subject: [PATCH 12/32] fix: relaunch the GUI only when the user asked for a
 reload

---
 sample/gui.py              | 6 ++++--
 sample/widgets/main.py     | 2 ++
 sample/widgets/settings.py | 4 ++--
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/sample/gui.py b/sample/gui.py
index 64bc129..6ccc01d 100644
--- a/sample/gui.py
+++ b/sample/gui.py
@@ -69,11 +69,13 @@ def run(*argv):
   args, _ = parser.parse_known_args(argv)
 
   ctx = multiprocessing.get_context()
-  q = ctx.SimpleQueue()
-  while q.empty() or q.get():
+  should_reload = True
+  while should_reload:
+    q = ctx.SimpleQueue()
     root = multiprocessing.Process(target=launch,
                                    args=(args,),
                                    kwargs={"reload_queue": q})
     root.start()
     root.join()
+    should_reload = not q.empty() and q.get()
   return 0
diff --git a/sample/widgets/main.py b/sample/widgets/main.py
index 3d3f126..6c73782 100644
--- a/sample/widgets/main.py
+++ b/sample/widgets/main.py
@@ -106,6 +106,8 @@ class SAMPLEGUI(SAMPLERoot):
 
   def quit(self):
     logging.info("Quitting GUI")
+    if self.reload_queue is not None:
+      self.reload_queue.put(self.should_reload)
     return super().quit()
 
   def __del__(self):
diff --git a/sample/widgets/settings.py b/sample/widgets/settings.py
index f6bc52e..5cf5659 100644
--- a/sample/widgets/settings.py
+++ b/sample/widgets/settings.py
@@ -620,6 +620,6 @@ class SettingsTab(utils.DataOnRootMixin, tk.Frame):
               "audio_trim_start": self.audio_trim_start,
               "audio_trim_stop": self.audio_trim_stop,
           })
-        r = utils.get_root(self)
-        r.master.should_reload = True
+        r = utils.get_root(self).master
+        r.should_reload = True
         r.quit()
-- 
2.43.0


From dd4c4476ccac0958961925bfdddcf71ccb6231d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:23 +0000
Subject: [PATCH 13/32] fix: keep the selected region when its bounds are shown
 in the entries

---
 sample/widgets/audioload.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sample/widgets/audioload.py b/sample/widgets/audioload.py
index 62348c2..4f46551 100644
--- a/sample/widgets/audioload.py
+++ b/sample/widgets/audioload.py
@@ -66,6 +66,8 @@ class AudioLoadTab(utils.DataOnRootMixin, tk.Frame):
       def trim_entry_cbk_(*args, **kwargs):  # pylint: disable=W0613
         try:
           tval = float(tvar.get())
+          if np.isnan(tval):
+            raise ValueError(f"Invalid time: {tval}")
         except Exception as e:  # pylint: disable=W0703
           logging.warning("Error parsing trim %s value: %s",
                           "start" if start else "stop", e)
@@ -206,7 +208,8 @@ class AudioLoadTab(utils.DataOnRootMixin, tk.Frame):
         entries. Default is :data:`False`"""
     if self.audio_loaded:
       if not samples:
-        value = int(value * self.audio_sr)
+        value = int(
+            np.clip(np.rint(value * self.audio_sr), 0, self.audio_x.size))
       if start:
         self.audio_trim_start = min(self.audio_trim_stop - 1, max(0, value))
         logging.debug("Audio trim start: %d", self.audio_trim_start)
-- 
2.43.0


From 7f03b3d68cd1c6cf65fd7a85296b4575767936e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:23 +0000
Subject: [PATCH 14/32] fix: handle trimming with the mouse released outside of
 the plot

---
 sample/widgets/audioload.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sample/widgets/audioload.py b/sample/widgets/audioload.py
index 4f46551..4566af6 100644
--- a/sample/widgets/audioload.py
+++ b/sample/widgets/audioload.py
@@ -227,7 +227,10 @@ class AudioLoadTab(utils.DataOnRootMixin, tk.Frame):
       if self.toolbar_on:
         logging.debug("Press aborted: toolbar on")
         self._trim_side = None
-      elif self.audio_loaded and self._trim_side is None:
+      elif event.xdata is None:
+        logging.debug("Press aborted: outside of the plot")
+        self._trim_side = None
+      elif self.audio_loaded:
         x_i = int(event.xdata * self.audio_sr)
         self._trim_side = \
           abs(x_i - self.audio_trim_start) < abs(x_i - self.audio_trim_stop)
@@ -240,14 +243,17 @@ class AudioLoadTab(utils.DataOnRootMixin, tk.Frame):
         logging.debug("Release aborted: toolbar on")
         self._trim_side = None
       elif self.audio_loaded and self._trim_side is not None:
+        start, self._trim_side = self._trim_side, None
+        if event.xdata is None:
+          logging.debug("Release aborted: outside of the plot")
+          return
         self.set_trim(
             event.xdata,
-            start=self._trim_side,
+            start=start,
             samples=False,
             update=True,
             update_vars=True,
         )
-        self._trim_side = None
 
   def update_plot(self, update_vars: bool = True):
     """Update the audio plot
-- 
2.43.0


From de236a97f52817bce29c4d25cb201ddfa68eb62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:23 +0000
Subject: [PATCH 15/32] fix: load wav files of any sample type and without
 onsets

---
 sample/widgets/audioload.py | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/sample/widgets/audioload.py b/sample/widgets/audioload.py
index 4566af6..9322721 100644
--- a/sample/widgets/audioload.py
+++ b/sample/widgets/audioload.py
@@ -14,6 +14,21 @@ from sample.widgets import responsive as tk
 from sample.widgets import utils
 
 
+def _to_float(x: np.ndarray) -> np.ndarray:
+  """Convert audio samples to floating point
+
+  Args:
+    x (array): Audio samples, in any of the types of wav files
+
+  Returns:
+    array: Audio samples, between -1 and 1 if the input type is an integer"""
+  if np.issubdtype(x.dtype, np.floating):
+    return x.astype(float)
+  info = np.iinfo(x.dtype)
+  zero = (info.max + info.min + 1) // 2
+  return np.subtract(x, zero, dtype=float) / (info.max - zero + 1)
+
+
 class AudioLoadTab(utils.DataOnRootMixin, tk.Frame):
   """Tab for loading and trimming audio files
 
@@ -162,15 +177,17 @@ class AudioLoadTab(utils.DataOnRootMixin, tk.Frame):
         self.filedialog_dir_save = self.filedialog_dir
       try:
         sr, x = wavfile.read(filename)
+        x = _to_float(x)
+        if np.ndim(x) > 1:
+          x = np.mean(x, axis=-1)
+        if x.size == 0:
+          raise ValueError(f"Empty audio file: {filename}")
       except Exception as e:  # pylint: disable=W0703
         logging.error("Error loading audio: [%s] %s", type(e).__name__, e)
         messagebox.showerror(
             type(e).__name__,
             str(e) or "".join((type(e).__name__, "\n", "Filename: ", filename)))
       else:
-        x = x / -np.iinfo(x.dtype).min
-        if np.ndim(x) > 1:
-          x = np.mean(x, axis=-1)
         self.audio_x = x
         self.audio_sr = sr
         self.auto_trim()
@@ -179,8 +196,13 @@ class AudioLoadTab(utils.DataOnRootMixin, tk.Frame):
 
   def auto_trim(self):
     """Automatically trim audio via onset detection"""
-    onsets = np.flatnonzero(dsp.onset_detection(self.audio_x))
+    try:
+      onsets = np.flatnonzero(dsp.onset_detection(self.audio_x))
+    except ValueError:  # too short for onset detection
+      onsets = np.empty(0, dtype=int)
     logging.debug("Onsets: %s", onsets)
+    if onsets.size == 0:
+      onsets = np.zeros(1, dtype=int)
     onsets = np.array([*onsets, self.audio_x.size])
     onset_max_i = np.argmax(np.diff(onsets)).flatten()[0]
     self.audio_trim_stop = onsets[onset_max_i + 1]
-- 
2.43.0


From f74693b998781d0d85d9386d258569521c8c8c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:00 +0000
Subject: [PATCH 16/32] fix: do not compute again checkpoints that could not be
 read

---
 scripts/beatsdrop/evaluation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/beatsdrop/evaluation.py b/scripts/beatsdrop/evaluation.py
index 055d78b..9a66f82 100644
--- a/scripts/beatsdrop/evaluation.py
+++ b/scripts/beatsdrop/evaluation.py
@@ -449,6 +449,8 @@ def load_results(args: argparse.Namespace):
       for fn in glob.glob(args.ckpt_path("*")):
         try:
           pd.read_csv(fn)
+        except OSError:  # it may be a valid one: do not compute it again
+          raise
         except Exception:  # pylint: disable=W0703
           continue
         args.checkpoints.append(fn)
-- 
2.43.0


From c9499963d2e33bf01170263fb11f0f4ec137e2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:00 +0000
Subject: [PATCH 17/32] fix: show only one error when an analysis fails

---
 sample/widgets/analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sample/widgets/analysis.py b/sample/widgets/analysis.py
index 1589d74..b1a8df4 100644
--- a/sample/widgets/analysis.py
+++ b/sample/widgets/analysis.py
@@ -224,7 +224,8 @@ class AnalysisTab(utils.DataOnRootMixin, tk.Frame):
       except Exception as e:  # pylint: disable=W0703
         messagebox.showerror(type(e).__name__, str(e))
         logging.error("Error while fitting", exc_info=True)
-      finally:
+        self.audio_resynth_x = None
+      else:
         self.audio_resynth_x = None
         self.update_plot()
 
-- 
2.43.0


From 712d2f03a795add44c5d356a5171ffd5eb9a65c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:20 +0000
Subject: [PATCH 18/32] fix: plot the analysis of a region shorter than the
 window

---
 sample/plots.py            |  3 ++-
 sample/widgets/analysis.py | 23 +++++++++++++----------
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/sample/plots.py b/sample/plots.py
index d72d872..3422ca5 100644
--- a/sample/plots.py
+++ b/sample/plots.py
@@ -48,7 +48,8 @@ def sine_tracking_2d(s: Union[sm.SinusoidalModel, SAMPLE], ax=None, **kwargs):
   reverse = getattr(m.tracker, "reverse", False)
   if reverse:
     if m.intermediate.save:
-      tmax = len(m.intermediate["stft"]) * m.h / m.fs
+      tmax = len(m.intermediate.get_state(
+          deepcopy=False).get("stft", ())) * m.h / m.fs
     else:
       tmax = max((track["start_frame"] + track["freq"].size) * m.h / m.fs
                  for track in m.tracks_)
diff --git a/sample/widgets/analysis.py b/sample/widgets/analysis.py
index b1a8df4..72dd1ee 100644
--- a/sample/widgets/analysis.py
+++ b/sample/widgets/analysis.py
@@ -131,10 +131,12 @@ class AnalysisTab(utils.DataOnRootMixin, tk.Frame):
     for ax in self.ax:
       ax.clear()
     m = self.sample_object.sinusoidal
-    stft = np.array([mx for mx, _ in m.intermediate["stft"]]).T
-    if m.tracker.reverse:
+    # There are no frames if the region is shorter than the window
+    frames = m.intermediate.get_state(deepcopy=False).get("stft", ())
+    stft = np.array([mx for mx, _ in frames]).T
+    if m.tracker.reverse and stft.size:
       stft = np.fliplr(stft)
-    tmax = len(m.intermediate["stft"]) * m.h / m.fs
+    tmax = len(frames) * m.h / m.fs
 
     plots.sine_tracking_2d(self.sample_object, ax=self.ax)
 
@@ -144,13 +146,14 @@ class AnalysisTab(utils.DataOnRootMixin, tk.Frame):
       xlim = self.ax[0].get_xlim()
     ylim = self.ax[0].get_ylim()
 
-    self.ax[0].imshow(
-        stft,
-        cmap="Greys",
-        origin="lower",
-        aspect="auto",
-        extent=(*xlim, 0, m.fs / 2),
-    )
+    if stft.size:
+      self.ax[0].imshow(
+          stft,
+          cmap="Greys",
+          origin="lower",
+          aspect="auto",
+          extent=(*xlim, 0, m.fs / 2),
+      )
     self.ax[0].set_ylim(ylim)
     self.ax[0].set_xlim(xlim)
     self.ax[0].grid(False)
-- 
2.43.0


From 0831d356e019e757d4fb1060f849fcf854c007e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:52 +0000
Subject: [PATCH 19/32] fix: synthesize a single sample as an array

---
 sample/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/sample.py b/sample/sample.py
index ff06ef4..b33fba9 100644
--- a/sample/sample.py
+++ b/sample/sample.py
@@ -380,4 +380,4 @@ def additive_synth(x,
   dec = col(x) @ (-2 / row(decays))
   np.exp(dec, out=dec)
   amp = col(amps)
-  return np.squeeze((dec * osc) @ amp)
+  return np.squeeze((dec * osc) @ amp, axis=-1 if np.ndim(x) else None)
-- 
2.43.0


From f5bd678d620ab925319b3ddc732c7f6800315494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:34 +0000
Subject: [PATCH 20/32] fix: do not play or export a resynthesis at the rate of
 another sound

---
 sample/widgets/audioload.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sample/widgets/audioload.py b/sample/widgets/audioload.py
index 9322721..2eda232 100644
--- a/sample/widgets/audioload.py
+++ b/sample/widgets/audioload.py
@@ -190,6 +190,7 @@ class AudioLoadTab(utils.DataOnRootMixin, tk.Frame):
       else:
         self.audio_x = x
         self.audio_sr = sr
+        self.audio_resynth_x = None  # it may have another sampling rate
         self.auto_trim()
         self._plt_lims_valid = False
         self.update_plot()
-- 
2.43.0


From a81dc3c664a6f02068d0e26ef34232f8290a3f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:13 +0000
Subject: [PATCH 21/32] fix: copy and pickle beats without infinite recursion

---
 sample/beatsdrop/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/beatsdrop/__init__.py b/sample/beatsdrop/__init__.py
index 24fcd7b..0ab9cc5 100644
--- a/sample/beatsdrop/__init__.py
+++ b/sample/beatsdrop/__init__.py
@@ -180,7 +180,7 @@ class Beat:
                        {self._graph["t"]: t})
 
   def __getattr__(self, key: str):
-    if key in self._graph:
+    if key != "_graph" and key in self._graph:
       return functools.partial(self.compute, output=key)
     else:
       raise AttributeError(
-- 
2.43.0


From bc73839b060d706fdb68ae2b9f4636c0939d0059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:13 +0000
Subject: [PATCH 22/32] fix: copy and pickle gammatone filterbanks without
 infinite recursion

---
 sample/psycho.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sample/psycho.py b/sample/psycho.py
index a660c9b..8b886b3 100644
--- a/sample/psycho.py
+++ b/sample/psycho.py
@@ -753,11 +753,13 @@ class GammatoneFilterbank:
   def __getattr__(self, key: str):
     """If attribute is not found, try getting a tuple of attributes,
     one from each filter"""
-    try:
-      return tuple(getattr(f, key) for f in self)
-    except AttributeError:
-      pass
-    return super().__getattr__(key)
+    if key != "_filters":
+      try:
+        return tuple(getattr(f, key) for f in self)
+      except AttributeError:
+        pass
+    raise AttributeError(
+        f"'{type(self).__name__}' object has no attribute '{key}'")
 
   class PrecomputedIRBank:
     """Precomputed IR bank for a :class:`GammatoneFilterbank`
-- 
2.43.0


From cdc8fdd57a0e6c88d6ee4eee477cdaeac0c61791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:13 +0000
Subject: [PATCH 23/32] fix: let fitted beat regressions be pickled

---
 sample/beatsdrop/regression.py | 47 +++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/sample/beatsdrop/regression.py b/sample/beatsdrop/regression.py
index d74f22e..1bac3d0 100644
--- a/sample/beatsdrop/regression.py
+++ b/sample/beatsdrop/regression.py
@@ -1,4 +1,5 @@
 """Regression models for beats"""
+import functools
 import inspect
 from typing import Any, Callable, List, Optional, Tuple
 
@@ -139,12 +140,15 @@ class BeatRegression(base.RegressorMixin, base.BaseEstimator):
     u = np.arange(np.ceil(t_max * self.fs).astype(int), dtype=float)
     np.true_divide(u, self.fs, out=u)
     a_lin = utils.dsp.db2a(a)
+    # Not a local function, so that fitted models can be pickled
+    return functools.partial(self._residuals, t, u, a_lin)
 
-    def _residual_fn_(beat_args: BeatModelParams) -> np.ndarray:
-      a_est = np.interp(t, u, beatsdrop.ModalBeat(*beat_args).am(u))
-      return np.reshape(np.subtract(a_lin, a_est), newshape=(-1,))
-
-    return _residual_fn_
+  @staticmethod
+  def _residuals(t: np.ndarray, u: np.ndarray, a_lin: np.ndarray,
+                 beat_args: BeatModelParams) -> np.ndarray:
+    """Residuals of the beat model with the given parameters"""
+    a_est = np.interp(t, u, beatsdrop.ModalBeat(*beat_args).am(u))
+    return np.reshape(np.subtract(a_lin, a_est), newshape=(-1,))
 
   @property
   def k_(self) -> float:
@@ -439,21 +443,24 @@ class DualBeatRegression(BeatRegression):
     # Time axis for model integration
     a_lin = utils.dsp.db2a(a)
     f_abs = np.abs(f)
-
-    def _residual_fn_(beat_args: BeatModelParams) -> np.ndarray:
-      a_est, f_est = beatsdrop.ModalBeat(*beat_args).compute(t, ("am", "fm"))
-      a_loss = self.amp_loss(a_lin, a_est)
-      np.true_divide(f_est, 2 * np.pi, out=f_est)
-      np.abs(f_est, out=f_est)
-      if self.freq_clip is not None:
-        q1, q2, q3 = np.quantile(f_est, (0.25, 0.5, 0.75))
-        max_df = self.freq_clip * (q3 - q1) / 2
-        np.clip(f_est, q2 - max_df, q2 + max_df, out=f_est)
-      f_loss = self.freq_loss(f_abs, f_est)
-      np.multiply(self.freq_w, f_loss, out=f_loss)
-      return np.reshape([a_loss, f_loss], newshape=(-1,))
-
-    return _residual_fn_
+    # Not a local function, so that fitted models can be pickled
+    return functools.partial(self._residuals, t, a_lin, f_abs)
+
+  def _residuals(  # pylint: disable=W0221
+      self, t: np.ndarray, a_lin: np.ndarray, f_abs: np.ndarray,
+      beat_args: BeatModelParams) -> np.ndarray:
+    """Residuals of the beat model with the given parameters"""
+    a_est, f_est = beatsdrop.ModalBeat(*beat_args).compute(t, ("am", "fm"))
+    a_loss = self.amp_loss(a_lin, a_est)
+    np.true_divide(f_est, 2 * np.pi, out=f_est)
+    np.abs(f_est, out=f_est)
+    if self.freq_clip is not None:
+      q1, q2, q3 = np.quantile(f_est, (0.25, 0.5, 0.75))
+      max_df = self.freq_clip * (q3 - q1) / 2
+      np.clip(f_est, q2 - max_df, q2 + max_df, out=f_est)
+    f_loss = self.freq_loss(f_abs, f_est)
+    np.multiply(self.freq_w, f_loss, out=f_loss)
+    return np.reshape([a_loss, f_loss], newshape=(-1,))
 
   def fit(self, t: np.ndarray, a: np.ndarray, f: np.ndarray, **kwargs):
     """Fit beat pattern
-- 
2.43.0


From 5a2125eb0983aef4d7affcea7ecb702b504c63d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:13 +0000
Subject: [PATCH 24/32] fix: time notebook code with a clock that does not jump

---
 sample/ipython.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sample/ipython.py b/sample/ipython.py
index 7e309ad..f758f5c 100644
--- a/sample/ipython.py
+++ b/sample/ipython.py
@@ -136,10 +136,9 @@ def time_this(title: Optional[str] = None,
     unit (str): Label for unit of measure (should match the :data:`scale`)
     scale (float): Multiplier for timing (should match the :data:`unit`)
     ndigits (int): Number of decimal places to display"""
-  start_time = time.time()
-  yield start_time
-  end_time = time.time()
-  dt = (end_time - start_time) * scale
+  start = time.perf_counter()  # unlike the time of day, it never jumps
+  yield time.time()
+  dt = (time.perf_counter() - start) * scale
   msg = msg.format(f"{dt:.{ndigits}f} {unit}")
   if title is not None:
     msg = title + msg
-- 
2.43.0


From 8e5aa724ce280e939a72d14591402677b7297955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:13 +0000
Subject: [PATCH 25/32] fix: never leave a notebook half written when
 formatting it

---
 scripts/utils/yapf_nbformat.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scripts/utils/yapf_nbformat.py b/scripts/utils/yapf_nbformat.py
index 4bbbc07..cef6a8c 100644
--- a/scripts/utils/yapf_nbformat.py
+++ b/scripts/utils/yapf_nbformat.py
@@ -10,6 +10,7 @@ from typing import Optional, Tuple
 
 import nbformat
 from chromatictools import cli
+from sample import utils
 from yapf.yapflib import yapf_api
 
 logger = logging.getLogger("YAPF-Notebook")
@@ -162,8 +163,9 @@ def format_nb(filepath: str,
       logger.info("[Cell %d]\n%s", i, d)
   else:
     logger.info("  %s %s", dots, "\u21BB")
-    with open(filepath, mode="w", encoding="utf-8") as f:
-      nbformat.write(notebook, f, version=nbformat.NO_CONVERT)
+    with utils.replacing(filepath) as tmp:
+      with open(tmp, mode="w", encoding="utf-8") as f:
+        nbformat.write(notebook, f, version=nbformat.NO_CONVERT)
   return bool(diff)
 
 
-- 
2.43.0


From 753bbea404a4778e4bf5e61eb4ac174d51ef2b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:14 +0000
Subject: [PATCH 26/32] fix: optimize the model arguments when they are not
 remapped

---
 sample/optimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sample/optimize.py b/sample/optimize.py
index 9205450..f412ba2 100644
--- a/sample/optimize.py
+++ b/sample/optimize.py
@@ -139,8 +139,9 @@ class SAMPLEOptimizer:
     if len(args) != len(self.dimensions):
       raise ValueError(f"Expected {len(self.dimensions)} "
                        f"positional arguments, got {len(args)}")
+    kwargs = dict(zip(self.dimensions, args), **kwargs)
     if self.remap is not None:
-      kwargs = self.remap(**dict(zip(self.dimensions, args)), **kwargs)
+      kwargs = self.remap(**kwargs)
     return kwargs
 
   def loss(self, x: np.ndarray, fs: float) -> Callable[..., float]:
-- 
2.43.0


From 1e813263f22b9c77bca0ccdfd6d31550c781eb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:14 +0000
Subject: [PATCH 27/32] fix: count each evaluated point once in the
 optimization progress bar

---
 sample/optimize.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sample/optimize.py b/sample/optimize.py
index f412ba2..fee9a5c 100644
--- a/sample/optimize.py
+++ b/sample/optimize.py
@@ -257,8 +257,11 @@ class TqdmCallback:
       res (OptimizeResult): Current result state"""
     if not self.started:
       self.start()
-    self.i += 1
-    self.tqdm.update()
+    # Points provided with their values are reported, but are not calls
+    y0 = res.specs["args"]["y0"]
+    i = len(res.x_iters) - (0 if y0 is None else np.size(y0))
+    self.tqdm.update(i - self.i)
+    self.i = i
     if self.i <= self.n_initial_points:
       postfix_str = "stage=randomize"
     else:
-- 
2.43.0


From 3e4906cfa1c3dae9ac63b419f7e0715b17e1762c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:59 +0000
Subject: [PATCH 28/32] fix: center 8 bit recordings in the example script

The samples of 8 bit WAV files are unsigned, so they were divided by zero
and the resynthesis was silent
---
 scripts/beatsdrop/example.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scripts/beatsdrop/example.py b/scripts/beatsdrop/example.py
index b06f88f..10720f5 100644
--- a/scripts/beatsdrop/example.py
+++ b/scripts/beatsdrop/example.py
@@ -134,7 +134,11 @@ def load_audio(args, dtype=np.float64):
   if np.issubdtype(args.x.dtype, np.integer):
     logger.debug("Converting to %s input of type %s", dtype.__name__,
                  args.x.dtype)
-    args.x = np.true_divide(args.x, -np.iinfo(args.x.dtype).min, dtype=dtype)
+    # Unsigned samples are centered around half of their range
+    scale = 2.0**(8 * args.x.dtype.itemsize - 1)
+    if np.issubdtype(args.x.dtype, np.unsignedinteger):
+      args.x = np.subtract(args.x, scale, dtype=dtype)
+    args.x = np.true_divide(args.x, scale, dtype=dtype)
   if np.ndim(args.x) > 1:
     logger.debug("Converting to mono from %d channels", args.x.shape[1])
     args.x = np.mean(args.x, axis=-1)
-- 
2.43.0


From 79bd23a265ca797e11af53570c1e4dcd28b02969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:44 +0000
Subject: [PATCH 29/32] fix: report HTTP errors when downloading the example
 recording

The page, or sound, that came with an error status was analysed instead
---
 scripts/beatsdrop/example.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/beatsdrop/example.py b/scripts/beatsdrop/example.py
index 10720f5..760aae3 100644
--- a/scripts/beatsdrop/example.py
+++ b/scripts/beatsdrop/example.py
@@ -126,6 +126,7 @@ def load_audio(args, dtype=np.float64):
     args.input = os.path.basename(args.input_url)
     logger.debug("Downloading from: %s", args.input_url)
     r = requests.get(args.input_url, timeout=60)
+    r.raise_for_status()
     with io.BytesIO() as buf:
       buf.write(r.content)
       del r
-- 
2.43.0


From 004b058db2b231667f73313773f61cafd89f2251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:51 +0000
Subject: [PATCH 30/32] fix: compute the importances of the decision report
 without a progress bar

Without --tqdm the loop was skipped, and uninitialised memory was written in
the file of the importances
---
 scripts/beatsdrop/evaluation.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/scripts/beatsdrop/evaluation.py b/scripts/beatsdrop/evaluation.py
index 9a66f82..bdeef57 100644
--- a/scripts/beatsdrop/evaluation.py
+++ b/scripts/beatsdrop/evaluation.py
@@ -855,13 +855,13 @@ def decision_report(args):
     it = enumerate(itertools.islice(rkf.split(df[features]), n_samples))
     if args.tqdm:
       it = tqdm.tqdm(it, total=n_samples, desc="Decision errors analysis")
-      for i, (train_index, _) in it:
-        for j, t in enumerate(targets):
-          dtc.fit(df[features].iloc[train_index], df[t].iloc[train_index])
-          idx = 2 * i + j
-          for k, v in zip(dtc.feature_names_in_, dtc.feature_importances_):
-            importances[k][idx] = v
-          importances["target"][idx] = t
+    for i, (train_index, _) in it:
+      for j, t in enumerate(targets):
+        dtc.fit(df[features].iloc[train_index], df[t].iloc[train_index])
+        idx = 2 * i + j
+        for k, v in zip(dtc.feature_names_in_, dtc.feature_importances_):
+          importances[k][idx] = v
+        importances["target"][idx] = t
     importances = pd.DataFrame(importances)
     if importance_fname is not None:
       logger.info("Writing report file: '%s'", importance_fname)
-- 
2.43.0


From 9c9cbcf953bc151b5a96e05951cc9424783c70da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:46 +0000
Subject: [PATCH 31/32] fix: never leave a partially written wav file of a test
 case

A test case whose results are saved is not run again if its wav file exists
---
 scripts/beatsdrop/evaluation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/beatsdrop/evaluation.py b/scripts/beatsdrop/evaluation.py
index bdeef57..97017b1 100644
--- a/scripts/beatsdrop/evaluation.py
+++ b/scripts/beatsdrop/evaluation.py
@@ -228,7 +228,8 @@ def test_case_context(seed: int,
     beat_ground_truth["p2"] = p2
   # Save WAV (an error here cannot be logged away, as there is no test to skip)
   if wav_path is not None:
-    wavfile.write(filename=wav_path.format(seed), rate=fs, data=x)
+    with utils.replacing(wav_path.format(seed)) as tmp_path:
+      wavfile.write(filename=tmp_path, rate=fs, data=x)
   try:
     # User code
     yield outs, beat_ground_truth
-- 
2.43.0


From 440f3e8574e96642d9d1d6313a9b94fcecec9eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:28 +0000
Subject: [PATCH 32/32] fix: keep the last analysis until another one has
 succeeded

---
 sample/widgets/analysis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sample/widgets/analysis.py b/sample/widgets/analysis.py
index 72dd1ee..e459555 100644
--- a/sample/widgets/analysis.py
+++ b/sample/widgets/analysis.py
@@ -219,16 +219,17 @@ class AnalysisTab(utils.DataOnRootMixin, tk.Frame):
         return
       try:
         x = self.audio_x[self.audio_trim_start:self.audio_trim_stop]
-        self.sample_object, fit_kwargs = sample.sample_factory(
+        sample_object, fit_kwargs = sample.sample_factory(
             progressbar=self.progressbar,
             sinusoidal__tracker__fs=self.audio_sr,
             **self.sample_object_kwargs)
-        self.sample_object.fit(x, **fit_kwargs)
+        sample_object.fit(x, **fit_kwargs)
       except Exception as e:  # pylint: disable=W0703
         messagebox.showerror(type(e).__name__, str(e))
         logging.error("Error while fitting", exc_info=True)
         self.audio_resynth_x = None
       else:
+        self.sample_object = sample_object
         self.audio_resynth_x = None
         self.update_plot()
 
-- 
2.43.0

