From 3634da16909cfdabd4af0b2a34150d4e47745633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:48 +0000
Subject: [PATCH 01/45] fix: a database listener that removes itself no longer
 hides the event from the next one

---
 hypothesis-python/src/hypothesis/database.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/database.py b/hypothesis-python/src/hypothesis/database.py
index 8442185..dd2b667 100644
--- a/hypothesis-python/src/hypothesis/database.py
+++ b/hypothesis-python/src/hypothesis/database.py
@@ -228,7 +228,8 @@ class ExampleDatabase(metaclass=_EDMeta):
         added or removed from the directory, even if that database was not responsible
         for changing the file.
         """
-        for listener in self._listeners:
+        # iterate over a copy, because a listener may remove itself when called
+        for listener in list(self._listeners):
             listener(event)
 
     def _start_listening(self) -> None:
-- 
2.43.0


From 71fc442e78ec734875a2fdc213dad5f61afa892f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:40 +0000
Subject: [PATCH 02/45] fix: the directory database neither drops nor truncates
 values when the temporary directory is on another filesystem or a write comes
 up short

---
 hypothesis-python/src/hypothesis/database.py | 37 +++++++++++++-------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/database.py b/hypothesis-python/src/hypothesis/database.py
index dd2b667..051a584 100644
--- a/hypothesis-python/src/hypothesis/database.py
+++ b/hypothesis-python/src/hypothesis/database.py
@@ -9,6 +9,7 @@
 # obtain one at https://mozilla.org/MPL/2.0/.
 
 import abc
+import errno
 import json
 import os
 import struct
@@ -367,6 +368,23 @@ class DirectoryBasedExampleDatabase(ExampleDatabase):
             except OSError:
                 pass
 
+    def _write_atomically(
+        self, path: Path, value: bytes, tmpdir: Optional[Path] = None
+    ) -> None:
+        # to mimic an atomic write, create and write in a temporary
+        # directory, and only move to the final path after. This avoids
+        # any intermediate state where the file is created (and empty)
+        # but not yet written to.
+        fd, tmpname = tempfile.mkstemp(dir=tmpdir)
+        tmppath = Path(tmpname)
+        try:
+            with open(fd, "wb") as f:
+                f.write(value)
+            tmppath.rename(path)
+        except OSError:  # pragma: no cover
+            tmppath.unlink()
+            raise
+
     def save(self, key: bytes, value: bytes) -> None:
         key_path = self._key_path(key)
         if key_path.name != self._metakeys_hash:
@@ -381,19 +399,14 @@ class DirectoryBasedExampleDatabase(ExampleDatabase):
             key_path.mkdir(exist_ok=True, parents=True)
             path = self._value_path(key, value)
             if not path.exists():
-                # to mimic an atomic write, create and write in a temporary
-                # directory, and only move to the final path after. This avoids
-                # any intermediate state where the file is created (and empty)
-                # but not yet written to.
-                fd, tmpname = tempfile.mkstemp()
-                tmppath = Path(tmpname)
-                os.write(fd, value)
-                os.close(fd)
                 try:
-                    tmppath.rename(path)
-                except OSError:  # pragma: no cover
-                    tmppath.unlink()
-                assert not tmppath.exists()
+                    self._write_atomically(path, value)
+                except OSError as err:  # pragma: no cover
+                    if err.errno != errno.EXDEV:
+                        raise
+                    # the default temporary directory is on another filesystem
+                    # than the database, so we can't rename from there.
+                    self._write_atomically(path, value, tmpdir=self.path)
         except OSError:  # pragma: no cover
             pass
 
-- 
2.43.0


From 5c417d5f71a57a7f5efd07254da2e6d5b3d5d48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:58 +0000
Subject: [PATCH 03/45] fix: a move in the directory database that can't rename
 saves to the destination before deleting from the source

---
 hypothesis-python/src/hypothesis/database.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/database.py b/hypothesis-python/src/hypothesis/database.py
index 051a584..9603615 100644
--- a/hypothesis-python/src/hypothesis/database.py
+++ b/hypothesis-python/src/hypothesis/database.py
@@ -425,8 +425,11 @@ class DirectoryBasedExampleDatabase(ExampleDatabase):
         try:
             os.renames(src_path, dest_path)
         except OSError:
-            self.delete(src, value)
+            # make sure never to lose the value from both keys, even if the
+            # destination can't be written or we are interrupted here.
             self.save(dest, value)
+            if dest_path.exists():
+                self.delete(src, value)
 
     def delete(self, key: bytes, value: bytes) -> None:
         try:
-- 
2.43.0


From 40daee07cb15af0619c4984040d5b26124684163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:51 +0000
Subject: [PATCH 04/45] fix: fetching from the directory database no longer
 raises if another process removes the key's directory meanwhile

---
 hypothesis-python/src/hypothesis/database.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/database.py b/hypothesis-python/src/hypothesis/database.py
index 9603615..74be93d 100644
--- a/hypothesis-python/src/hypothesis/database.py
+++ b/hypothesis-python/src/hypothesis/database.py
@@ -360,9 +360,12 @@ class DirectoryBasedExampleDatabase(ExampleDatabase):
 
     def fetch(self, key: bytes) -> Iterable[bytes]:
         kp = self._key_path(key)
-        if not kp.is_dir():
+        try:
+            paths = os.listdir(kp)
+        except OSError:
+            # no such directory, or another process removed it just now
             return
-        for path in os.listdir(kp):
+        for path in paths:
             try:
                 yield (kp / path).read_bytes()
             except OSError:
-- 
2.43.0


From 865ee4d520e01993b85d132a471526d2f41e392f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:25 +0000
Subject: [PATCH 05/45] fix: converting the index of the last string or byte
 string of a size no longer fails

---
 .../src/hypothesis/internal/conjecture/choice.py  | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/conjecture/choice.py b/hypothesis-python/src/hypothesis/internal/conjecture/choice.py
index 9cdd278..c967351 100644
--- a/hypothesis-python/src/hypothesis/internal/conjecture/choice.py
+++ b/hypothesis-python/src/hypothesis/internal/conjecture/choice.py
@@ -215,15 +215,12 @@ def _index_to_size(index: int, alphabet_size: int) -> int:
     total = index * (alphabet_size - 1) + 1
     size = math.log(total, alphabet_size)
 
-    # if this computation is close enough that it could have been affected by
-    # floating point errors, use a much slower integer-only logarithm instead,
-    # which is guaranteed to be precise.
-    if 0 < math.ceil(size) - size < 1e-7:
-        s = 0
-        while total >= alphabet_size:
-            total //= alphabet_size
-            s += 1
-        return s
+    # if this computation is close enough (on either side) to an integer that it
+    # could have been affected by floating point errors, check it with integer-only
+    # arithmetic instead, which is slower but guaranteed to be precise.
+    s = round(size)
+    if abs(s - size) < 1e-7:
+        return s if total >= alphabet_size**s else s - 1
     return math.floor(size)
 
 
-- 
2.43.0


From b4265d591d0b0a0c74bcaa3f82715f386674c070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:25 +0000
Subject: [PATCH 06/45] fix: converting an index to a negative nan keeps its
 sign

---
 hypothesis-python/src/hypothesis/internal/conjecture/choice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/internal/conjecture/choice.py b/hypothesis-python/src/hypothesis/internal/conjecture/choice.py
index c967351..057931f 100644
--- a/hypothesis-python/src/hypothesis/internal/conjecture/choice.py
+++ b/hypothesis-python/src/hypothesis/internal/conjecture/choice.py
@@ -512,7 +512,8 @@ def choice_from_index(
     elif choice_type == "float":
         constraints = cast(FloatConstraints, constraints)
         sign = -1 if index >> 64 else 1
-        result = sign * lex_to_float(index & ((1 << 64) - 1))
+        # copysign, because multiplying would lose the sign of nans
+        result = math.copysign(lex_to_float(index & ((1 << 64) - 1)), sign)
 
         clamper = make_float_clamper(
             min_value=constraints["min_value"],
-- 
2.43.0


From 1fccaf715d5d538b34c0a69f4e5bfb674f543ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:25 +0000
Subject: [PATCH 07/45] fix: floats() never draws a subnormal when all nonzero
 values within the bounds are subnormal and excluded

---
 .../src/hypothesis/internal/floats.py             | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/floats.py b/hypothesis-python/src/hypothesis/internal/floats.py
index 7083519..5eab6b1 100644
--- a/hypothesis-python/src/hypothesis/internal/floats.py
+++ b/hypothesis-python/src/hypothesis/internal/floats.py
@@ -173,13 +173,14 @@ def make_float_clamper(
         # if we resampled into the space disallowed by smallest_nonzero_magnitude,
         # default to smallest_nonzero_magnitude.
         if 0 < abs(f) < smallest_nonzero_magnitude:
-            f = smallest_nonzero_magnitude
-            # we must have either -smallest_nonzero_magnitude <= min_value or
-            # smallest_nonzero_magnitude >= max_value, or no values would be
-            # possible. If smallest_nonzero_magnitude is not valid (because it's
-            # larger than max_value), then -smallest_nonzero_magnitude must be valid.
-            if smallest_nonzero_magnitude > max_value:
-                f *= -1
+            # Either of the two may be out of bounds; if both are, then zero is the
+            # only value left (or no values would be possible).
+            if smallest_nonzero_magnitude <= max_value:
+                f = smallest_nonzero_magnitude
+            elif -smallest_nonzero_magnitude >= min_value:
+                f = -smallest_nonzero_magnitude
+            else:
+                f = 0.0
 
         # Re-enforce the bounds (just in case of floating point arithmetic error)
         return clamp(min_value, f, max_value)
-- 
2.43.0


From 8c638dda76bd0f5b5e827bc751287c60534f5e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:11 +0000
Subject: [PATCH 08/45] fix: a generated random object no longer repeats
 results that don't fit the arguments after being reseeded

---
 .../src/hypothesis/strategies/_internal/random.py             | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/random.py b/hypothesis-python/src/hypothesis/strategies/_internal/random.py
index e28b259..4fc9dc7 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/random.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/random.py
@@ -212,12 +212,14 @@ class ArtificialRandom(HypothesisRandom):
     def _hypothesis_do_random(self, method, kwargs):
         if method == "choices":
             key = (method, len(kwargs["population"]), kwargs.get("k"))
+        elif method == "sample":
+            key = (method, len(kwargs["population"]), kwargs.get("k"))
         elif method == "choice":
             key = (method, len(kwargs["seq"]))
         elif method == "shuffle":
             key = (method, len(kwargs["x"]))
         else:
-            key = (method, *sorted(kwargs))
+            key = (method, *sorted(kwargs.items()))
 
         try:
             result, self.__state = self.__state.next_states[key]
-- 
2.43.0


From 45f322a39c390eeaede4005e061c1424de6cdaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:41 +0000
Subject: [PATCH 09/45] fix: generated random objects respect the weights and
 counts of choices and sample

---
 .../hypothesis/strategies/_internal/random.py | 48 +++++++++++++++----
 1 file changed, 39 insertions(+), 9 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/random.py b/hypothesis-python/src/hypothesis/strategies/_internal/random.py
index 4fc9dc7..0a57e45 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/random.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/random.py
@@ -11,6 +11,7 @@
 import abc
 import inspect
 import math
+from itertools import accumulate
 from random import Random
 from typing import Any
 
@@ -21,7 +22,7 @@ from hypothesis.internal.conjecture.data import ConjectureData
 from hypothesis.internal.reflection import define_function_signature
 from hypothesis.reporting import report
 from hypothesis.strategies._internal.core import lists, permutations, sampled_from
-from hypothesis.strategies._internal.numbers import floats, integers
+from hypothesis.strategies._internal.numbers import floats
 from hypothesis.strategies._internal.strategies import SearchStrategy
 
 
@@ -176,6 +177,33 @@ def normalize_zero(f: float) -> float:
         return f
 
 
+def choosable_indices(population, weights=None, *, cum_weights=None, k=1):
+    """The indices of the elements which ``Random.choices`` can choose, i.e. those
+    with a nonzero weight."""
+    if cum_weights is None:
+        if weights is None:
+            return range(len(population))
+        cum_weights = list(accumulate(weights))
+    if len(cum_weights) != len(population):
+        raise ValueError("The number of weights does not match the population")
+    return tuple(
+        i
+        for i, (before, after) in enumerate(zip([0, *cum_weights], cum_weights))
+        if before < after
+    )
+
+
+def sampleable_indices(population, k, *, counts=None):
+    """The indices of the elements which ``Random.sample`` can choose, each repeated
+    as often as it can be chosen."""
+    if counts is None:
+        return range(len(population))
+    counts = list(counts)
+    if len(counts) != len(population):
+        raise ValueError("The number of counts does not match the population")
+    return tuple(i for i, count in enumerate(counts) for _ in range(count))
+
+
 class ArtificialRandom(HypothesisRandom):
     VERSION = 10**6
 
@@ -211,9 +239,11 @@ class ArtificialRandom(HypothesisRandom):
 
     def _hypothesis_do_random(self, method, kwargs):
         if method == "choices":
-            key = (method, len(kwargs["population"]), kwargs.get("k"))
+            indices = choosable_indices(**kwargs)
+            key = (method, len(kwargs["population"]), kwargs.get("k"), indices)
         elif method == "sample":
-            key = (method, len(kwargs["population"]), kwargs.get("k"))
+            indices = sampleable_indices(**kwargs)
+            key = (method, len(kwargs["population"]), kwargs.get("k"), indices)
         elif method == "choice":
             key = (method, len(kwargs["seq"]))
         elif method == "shuffle":
@@ -282,31 +312,31 @@ class ArtificialRandom(HypothesisRandom):
             k = kwargs["k"]
             result = self.__data.draw(
                 lists(
-                    integers(0, len(kwargs["population"]) - 1),
+                    sampled_from(indices),
                     min_size=k,
                     max_size=k,
                 )
             )
         elif method == "sample":
             k = kwargs["k"]
-            seq = kwargs["population"]
 
-            if k > len(seq) or k < 0:
+            if k > len(indices) or k < 0:
                 raise ValueError(
-                    f"Sample size {k} not in expected range 0 <= k <= {len(seq)}"
+                    f"Sample size {k} not in expected range 0 <= k <= {len(indices)}"
                 )
 
             if k == 0:
                 result = []
             else:
-                result = self.__data.draw(
+                positions = self.__data.draw(
                     lists(
-                        sampled_from(range(len(seq))),
+                        sampled_from(range(len(indices))),
                         min_size=k,
                         max_size=k,
                         unique=True,
                     )
                 )
+                result = [indices[i] for i in positions]
 
         elif method == "getrandbits":
             result = self.__data.draw_integer(0, 2 ** kwargs["n"] - 1)
-- 
2.43.0


From a0d76d0934bf133c0b034b1713c3552ae74b6001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:45 +0000
Subject: [PATCH 10/45] fix: uniform, triangular, paretovariate and expovariate
 of generated random objects return values in their documented ranges

---
 .../hypothesis/strategies/_internal/random.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/random.py b/hypothesis-python/src/hypothesis/strategies/_internal/random.py
index 0a57e45..05593f6 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/random.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/random.py
@@ -177,6 +177,11 @@ def normalize_zero(f: float) -> float:
         return f
 
 
+def floats_between(a, b):
+    # like the standard library, take the bounds in either order
+    return floats(min(a, b), max(a, b))
+
+
 def choosable_indices(population, weights=None, *, cum_weights=None, k=1):
     """The indices of the elements which ``Random.choices`` can choose, i.e. those
     with a nonzero weight."""
@@ -269,7 +274,7 @@ class ArtificialRandom(HypothesisRandom):
         elif method == "uniform":
             a = normalize_zero(kwargs["a"])
             b = normalize_zero(kwargs["b"])
-            result = self.__data.draw(floats(a, b))
+            result = self.__data.draw(floats_between(a, b))
         elif method in ("weibullvariate", "gammavariate"):
             result = self.__data.draw(floats(min_value=0.0, allow_infinity=False))
         elif method in ("gauss", "normalvariate"):
@@ -345,12 +350,16 @@ class ArtificialRandom(HypothesisRandom):
             high = normalize_zero(kwargs["high"])
             mode = normalize_zero(kwargs["mode"])
             if mode is None:
-                result = self.__data.draw(floats(low, high))
+                result = self.__data.draw(floats_between(low, high))
             elif self.__data.draw_boolean(0.5):
-                result = self.__data.draw(floats(mode, high))
+                result = self.__data.draw(floats_between(mode, high))
             else:
-                result = self.__data.draw(floats(low, mode))
-        elif method in ("paretovariate", "expovariate", "lognormvariate"):
+                result = self.__data.draw(floats_between(low, mode))
+        elif method == "paretovariate":
+            result = self.__data.draw(floats(min_value=1.0))
+        elif method == "expovariate" and kwargs.get("lambd", 1.0) < 0:
+            result = self.__data.draw(floats(max_value=0.0))
+        elif method in ("expovariate", "lognormvariate"):
             result = self.__data.draw(floats(min_value=0.0))
         elif method == "shuffle":
             result = self.__data.draw(permutations(range(len(kwargs["x"]))))
-- 
2.43.0


From 65ea7acaef1b786b0b35221e96512ed950959702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:47 +0000
Subject: [PATCH 11/45] fix: unique lists of sampled elements reject the
 example if too few elements can be used, instead of failing an assertion

---
 .../src/hypothesis/strategies/_internal/collections.py         | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/collections.py b/hypothesis-python/src/hypothesis/strategies/_internal/collections.py
index bcdbe7f..3479fa6 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/collections.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/collections.py
@@ -334,6 +334,9 @@ class UniqueSampledListStrategy(UniqueListStrategy):
                 should_draw.reject(
                     "UniqueSampledListStrategy filter not satisfied or value already seen"
                 )
+        if len(result) < self.min_size:
+            # we have tried every element, but too few of them could be used
+            data.mark_invalid(f"Aborted test because unable to satisfy {self!r}")
         assert self.max_size >= len(result) >= self.min_size
         return result
 
-- 
2.43.0


From ff8a1973c82a9494a50a291248487202618ef945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:47 +0000
Subject: [PATCH 12/45] fix: lists(..., max_size=1).filter(bool) no longer
 fails an assertion

---
 .../src/hypothesis/strategies/_internal/collections.py        | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/collections.py b/hypothesis-python/src/hypothesis/strategies/_internal/collections.py
index 3479fa6..04af98a 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/collections.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/collections.py
@@ -219,6 +219,10 @@ class ListStrategy(SearchStrategy[list[Ex]]):
                 return self
             new = copy.copy(self)
             new.min_size = 1
+            new.average_size = min(
+                max(new.min_size * 2, new.min_size + 5),
+                0.5 * (new.min_size + new.max_size),
+            )
             return new
 
         constraints, pred = get_integer_predicate_bounds(condition)
-- 
2.43.0


From 66f483ecad7681465537221d68c8c2b350c695eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:36 +0000
Subject: [PATCH 13/45] fix: filtering integers by a comparison with an
 integral float or fraction no longer fails an assertion

---
 .../src/hypothesis/internal/filtering.py             | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/filtering.py b/hypothesis-python/src/hypothesis/internal/filtering.py
index f56e9b8..59ee584 100644
--- a/hypothesis-python/src/hypothesis/internal/filtering.py
+++ b/hypothesis-python/src/hypothesis/internal/filtering.py
@@ -291,8 +291,10 @@ def get_integer_predicate_bounds(predicate: Predicate) -> ConstructivePredicate:
             return ConstructivePredicate({"min_value": 1, "max_value": -1}, None)
         elif constraints["min_value"] != int(constraints["min_value"]):
             constraints["min_value"] = ceil(constraints["min_value"])
-        elif constraints.get("exclude_min", False):
-            constraints["min_value"] = int(constraints["min_value"]) + 1
+        else:
+            constraints["min_value"] = int(constraints["min_value"])
+            if constraints.get("exclude_min", False):
+                constraints["min_value"] += 1
 
     if "max_value" in constraints:
         if constraints["max_value"] == math.inf:
@@ -301,8 +303,10 @@ def get_integer_predicate_bounds(predicate: Predicate) -> ConstructivePredicate:
             return ConstructivePredicate({"min_value": 1, "max_value": -1}, None)
         elif constraints["max_value"] != int(constraints["max_value"]):
             constraints["max_value"] = floor(constraints["max_value"])
-        elif constraints.get("exclude_max", False):
-            constraints["max_value"] = int(constraints["max_value"]) - 1
+        else:
+            constraints["max_value"] = int(constraints["max_value"])
+            if constraints.get("exclude_max", False):
+                constraints["max_value"] -= 1
 
     kw_categories = {"min_value", "max_value", "len"}
     constraints = {k: v for k, v in constraints.items() if k in kw_categories}
-- 
2.43.0


From eb97c9ee53346a331fe6d1411967aa5c01595f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:36 +0000
Subject: [PATCH 14/45] fix: filtering for nonempty collections after a filter
 for empty ones no longer fails an assertion

---
 .../src/hypothesis/strategies/_internal/collections.py        | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/collections.py b/hypothesis-python/src/hypothesis/strategies/_internal/collections.py
index 04af98a..ac8cce9 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/collections.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/collections.py
@@ -214,7 +214,9 @@ class ListStrategy(SearchStrategy[list[Ex]]):
 
     def filter(self, condition: Callable[[list[Ex]], Any]) -> SearchStrategy[list[Ex]]:
         if condition in self._nonempty_filters or is_identity_function(condition):
-            assert self.max_size >= 1, "Always-empty is special cased in st.lists()"
+            # Unsatisfiable filters are easiest to understand without rewriting.
+            if self.max_size < 1:
+                return SearchStrategy.filter(self, condition)
             if self.min_size >= 1:
                 return self
             new = copy.copy(self)
-- 
2.43.0


From 89e61b6e96778f4d47d61662f6e42cc02aa3aeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:33 +0000
Subject: [PATCH 15/45] fix: filtering lists mapped to str or Counter by length
 no longer loses values

---
 .../src/hypothesis/strategies/_internal/strategies.py    | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/strategies.py b/hypothesis-python/src/hypothesis/strategies/_internal/strategies.py
index 58cb66b..fd523a3 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/strategies.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/strategies.py
@@ -10,7 +10,7 @@
 
 import sys
 import warnings
-from collections import abc, defaultdict
+from collections import Counter, abc, defaultdict
 from collections.abc import Sequence
 from functools import lru_cache
 from random import shuffle
@@ -974,7 +974,12 @@ class MappedStrategy(SearchStrategy[MappedTo], Generic[MappedFrom, MappedTo]):
         # lengths, when most collections are `st.lists(...).map(the_type)`.
         ListStrategy = _list_strategy_type()
         if not isinstance(self.mapped_strategy, ListStrategy) or not (
-            (isinstance(self.pack, type) and issubclass(self.pack, abc.Collection))
+            (
+                isinstance(self.pack, type)
+                and issubclass(self.pack, abc.Collection)
+                # The length of these says little about that of the list.
+                and not issubclass(self.pack, (str, Counter))
+            )
             or self.pack in _collection_ish_functions()
         ):
             return super().filter(condition)
-- 
2.43.0


From 5e44a7cc2507dacfe3ba1cb3398ea2f93432d8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:33 +0000
Subject: [PATCH 16/45] fix: filtering text or binary by a regex's match
 handles multiline patterns, inline flags and comments

---
 .../src/hypothesis/strategies/_internal/strings.py    | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/strings.py b/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
index 4f38627..a5e9d5d 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
@@ -248,9 +248,14 @@ def _string_filter_rewrite(self, kind, condition):
 
         if condition.__name__ == "match":
             # Replace with an easier-to-handle equivalent condition
-            caret, close = ("^(?:", ")") if kind is str else (b"^(?:", b")")
-            pattern = re.compile(caret + pattern.pattern + close, flags=pattern.flags)
-            condition = pattern.search
+            start, close = (r"\A(?:", ")") if kind is str else (rb"\A(?:", b")")
+            try:
+                pattern = re.compile(
+                    start + pattern.pattern + close, flags=pattern.flags
+                )
+                condition = pattern.search
+            except re.error:
+                pass  # e.g. inline flags, or a comment at the end of the pattern
 
         if condition.__name__ in ("search", "findall", "fullmatch"):
             s = regex_strategy(
-- 
2.43.0


From 3010caf7a16dcfad1d3af3a9147f4f43429a6e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:11 +0000
Subject: [PATCH 17/45] fix: rewriting filters of floats respects signed zeros,
 infinities, nans, and bounds that aren't floats

---
 .../src/hypothesis/internal/filtering.py      | 30 ++++++++++++++-----
 .../strategies/_internal/numbers.py           | 18 +++++++----
 2 files changed, 35 insertions(+), 13 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/filtering.py b/hypothesis-python/src/hypothesis/internal/filtering.py
index 59ee584..a54ab1f 100644
--- a/hypothesis-python/src/hypothesis/internal/filtering.py
+++ b/hypothesis-python/src/hypothesis/internal/filtering.py
@@ -230,7 +230,7 @@ def get_numeric_predicate_bounds(predicate: Predicate) -> ConstructivePredicate:
         if (
             (isinstance(arg, Decimal) and Decimal.is_snan(arg))
             or not isinstance(arg, (int, float, Fraction, Decimal))
-            or math.isnan(arg)
+            or arg != arg  # nan
         ):
             return unchanged
         options = {
@@ -313,26 +313,42 @@ def get_integer_predicate_bounds(predicate: Predicate) -> ConstructivePredicate:
     return ConstructivePredicate(constraints, predicate)
 
 
+def _as_float(bound: Any) -> float:
+    try:
+        return float(bound)
+    except OverflowError:  # an integer or fraction beyond the range of floats
+        return math.inf if bound > 0 else -math.inf
+
+
 def get_float_predicate_bounds(predicate: Predicate) -> ConstructivePredicate:
     constraints, predicate = get_numeric_predicate_bounds(predicate)
+    impossible = ConstructivePredicate(
+        {"min_value": math.inf, "max_value": -math.inf}, None
+    )
 
+    # Note that float(bound) may be on either side of the exact bound; and that as
+    # bounds -0.0 and 0.0 are distinct, but compare equal in the predicate.
     if "min_value" in constraints:
-        min_value = constraints["min_value"]
-        constraints["min_value"] = float(constraints["min_value"])
+        min_value = _as_float(constraints["min_value"])
         if min_value < constraints["min_value"] or (
             min_value == constraints["min_value"]
             and constraints.get("exclude_min", False)
         ):
-            constraints["min_value"] = next_up(constraints["min_value"])
+            if min_value == math.inf:
+                return impossible
+            min_value = next_up(min_value or 0.0)
+        constraints["min_value"] = min_value or -0.0
 
     if "max_value" in constraints:
-        max_value = constraints["max_value"]
-        constraints["max_value"] = float(constraints["max_value"])
+        max_value = _as_float(constraints["max_value"])
         if max_value > constraints["max_value"] or (
             max_value == constraints["max_value"]
             and constraints.get("exclude_max", False)
         ):
-            constraints["max_value"] = next_down(constraints["max_value"])
+            if max_value == -math.inf:
+                return impossible
+            max_value = next_down(max_value or -0.0)
+        constraints["max_value"] = max_value or 0.0
 
     constraints = {
         k: v for k, v in constraints.items() if k in {"min_value", "max_value"}
diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py b/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py
index 59bf66e..8a3e09e 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py
@@ -191,9 +191,13 @@ class FloatStrategy(SearchStrategy[float]):
     def filter(self, condition):
         # Handle a few specific weird cases.
         if condition is math.isfinite:
+            min_value = max(self.min_value, next_up(float("-inf")))
+            max_value = min(self.max_value, next_down(float("inf")))
+            if min_value > max_value:
+                return nothing()
             return FloatStrategy(
-                min_value=max(self.min_value, next_up(float("-inf"))),
-                max_value=min(self.max_value, next_down(float("inf"))),
+                min_value=min_value,
+                max_value=max_value,
                 allow_nan=False,
                 smallest_nonzero_magnitude=self.smallest_nonzero_magnitude,
             )
@@ -212,9 +216,11 @@ class FloatStrategy(SearchStrategy[float]):
 
         constraints, pred = get_float_predicate_bounds(condition)
         if not constraints:
-            return super().filter(pred)
-        min_bound = max(constraints.get("min_value", -math.inf), self.min_value)
-        max_bound = min(constraints.get("max_value", math.inf), self.max_value)
+            return super().filter(condition)
+        # As bounds, -0.0 is less than 0.0.
+        key = lambda x: (x, math.copysign(1.0, x))
+        min_bound = max(self.min_value, constraints.get("min_value", -math.inf), key=key)
+        max_bound = min(self.max_value, constraints.get("max_value", math.inf), key=key)
 
         # Adjustments for allow_subnormal=False, if any need to be made
         if -self.smallest_nonzero_magnitude < min_bound < 0:
@@ -231,7 +237,7 @@ class FloatStrategy(SearchStrategy[float]):
         if (
             min_bound > self.min_value
             or self.max_value > max_bound
-            or (self.allow_nan and (-math.inf < min_bound or max_bound < math.inf))
+            or self.allow_nan  # because no comparison is true of nan
         ):
             self = type(self)(
                 min_value=min_bound,
-- 
2.43.0


From c6db122db6d045ed7b89eb590842b0ec2e46ce61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:12 +0000
Subject: [PATCH 18/45] fix: filtering text by a regex only generates
 characters in the alphabet, and copes with charsets or repeats that are
 partly outside it

---
 .../hypothesis/strategies/_internal/regex.py  | 65 ++++++++++---------
 1 file changed, 34 insertions(+), 31 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/regex.py b/hypothesis-python/src/hypothesis/strategies/_internal/regex.py
index b51e90e..6d11fec 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/regex.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/regex.py
@@ -155,10 +155,19 @@ class CharactersBuilder:
             intervals = charmap.query() - intervals
             multi_chars.clear()
         # and finally return the intersection with our alphabet
-        return OneCharStringStrategy(intervals & self._alphabet.intervals) | (
+        intervals &= self._alphabet.intervals
+        multi_chars = {c for c in multi_chars if not self.not_in_alphabet(c)}
+        if not intervals and not multi_chars:
+            raise IncompatibleWithAlphabet(
+                "None of the characters in a charset are in the specified alphabet"
+            )
+        return (OneCharStringStrategy(intervals) if intervals else st.nothing()) | (
             st.sampled_from(sorted(multi_chars)) if multi_chars else st.nothing()
         )
 
+    def not_in_alphabet(self, string):
+        return chars_not_in_alphabet(self._alphabet, string)
+
     def add_category(self, category):
         """Update unicode state to match sre_parse object ``category``."""
         if category == sre.CATEGORY_DIGIT:
@@ -267,7 +276,9 @@ def regex_strategy(
     if is_unicode:
         base_padding_strategy = st.text(alphabet=alphabet)
         empty = st.just("")
-        newline = st.just("\n")
+        newline = (
+            st.nothing() if chars_not_in_alphabet(alphabet, "\n") else st.just("\n")
+        )
     else:
         base_padding_strategy = st.binary()
         empty = st.just(b"")
@@ -340,6 +351,14 @@ def _strategy(codes, context, is_unicode, *, alphabet):
     def recurse(codes):
         return _strategy(codes, context, is_unicode, alphabet=alphabet)
 
+    def one_char_from(intervals):
+        intervals &= unwrap_strategies(alphabet).intervals
+        if not intervals:
+            raise IncompatibleWithAlphabet(
+                "None of the allowed characters are in the specified alphabet"
+            )
+        return OneCharStringStrategy(intervals)
+
     if is_unicode:
         empty = ""
         to_char = chr
@@ -430,10 +449,7 @@ def _strategy(codes, context, is_unicode, *, alphabet):
                         stack.extend(set(char.swapcase()) - blacklist)
 
             if is_unicode:
-                return OneCharStringStrategy(
-                    unwrap_strategies(alphabet).intervals
-                    & charmap.query(exclude_characters=blacklist)
-                )
+                return one_char_from(charmap.query(exclude_characters=blacklist))
             else:
                 return binary_char.filter(lambda c: c not in blacklist)
 
@@ -454,28 +470,12 @@ def _strategy(codes, context, is_unicode, *, alphabet):
                     pass
                 elif charset_code == sre.LITERAL:
                     # Regex '[a]' (single char)
-                    c = builder.code_to_char(charset_value)
-                    if chars_not_in_alphabet(builder._alphabet, c):
-                        raise IncompatibleWithAlphabet(
-                            f"Literal {c!r} is not in the specified alphabet"
-                        )
-                    builder.add_char(c)
+                    builder.add_char(builder.code_to_char(charset_value))
                 elif charset_code == sre.RANGE:
                     # Regex '[a-z]' (char range)
                     low, high = charset_value
-                    chars = empty.join(map(builder.code_to_char, range(low, high + 1)))
-                    if len(chars) == len(
-                        invalid := set(chars_not_in_alphabet(alphabet, chars))
-                    ):
-                        raise IncompatibleWithAlphabet(
-                            f"Charset '[{chr(low)}-{chr(high)}]' contains characters {invalid!r} "
-                            f"which are not in the specified alphabet"
-                        )
-                    for c in chars:
-                        if isinstance(c, int):
-                            c = int_to_byte(c)
-                        if c not in invalid:
-                            builder.add_char(c)
+                    for codepoint in range(low, high + 1):
+                        builder.add_char(builder.code_to_char(codepoint))
                 elif charset_code == sre.CATEGORY:
                     # Regex '[\w]' (char category)
                     builder.add_category(charset_value)
@@ -491,10 +491,7 @@ def _strategy(codes, context, is_unicode, *, alphabet):
                 assert alphabet is not None
                 if context.flags & re.DOTALL:
                     return alphabet
-                return OneCharStringStrategy(
-                    unwrap_strategies(alphabet).intervals
-                    & charmap.query(exclude_characters="\n")
-                )
+                return one_char_from(charmap.query(exclude_characters="\n"))
             else:
                 if context.flags & re.DOTALL:
                     return binary_char
@@ -551,9 +548,15 @@ def _strategy(codes, context, is_unicode, *, alphabet):
             at_least, at_most, subregex = value
             if at_most == sre.MAXREPEAT:
                 at_most = None
+            try:
+                repeated = recurse(subregex)
+            except IncompatibleWithAlphabet:
+                if at_least > 0:
+                    raise
+                return st.just(empty)
             if at_least == 0 and at_most == 1:
-                return st.just(empty) | recurse(subregex)
-            return st.lists(recurse(subregex), min_size=at_least, max_size=at_most).map(
+                return st.just(empty) | repeated
+            return st.lists(repeated, min_size=at_least, max_size=at_most).map(
                 empty.join
             )
 
-- 
2.43.0


From 3a7de050d8c890757481c25e564952f5e6c1e26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:12 +0000
Subject: [PATCH 19/45] fix: filtering text by str.split tests the predicate,
 and by str.isascii keeps the empty string

---
 .../src/hypothesis/strategies/_internal/strings.py           | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/strings.py b/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
index a5e9d5d..fdedd90 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
@@ -131,8 +131,6 @@ _nonempty_names = (
     "expandtabs",
     "join",
     "lower",
-    "rsplit",
-    "split",
     "splitlines",
     "swapcase",
     "title",
@@ -143,12 +141,13 @@ _nonempty_and_content_names = (
     "isupper",
     "isalnum",
     "isalpha",
-    "isascii",
     "isdigit",
     "isspace",
     "istitle",
     "lstrip",
+    "rsplit",
     "rstrip",
+    "split",
     "strip",
 )
 
-- 
2.43.0


From 7b9fc59e8152eea14b2680ff78b9347969687a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:03 +0000
Subject: [PATCH 20/45] fix: filtering text by a regex's split, which is true
 of any string, keeps the empty string

---
 .../src/hypothesis/strategies/_internal/strings.py            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/strings.py b/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
index fdedd90..22269ec 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
@@ -279,11 +279,11 @@ def _string_filter_rewrite(self, kind, condition):
         elif condition.__name__ == "split":
             warnings.warn(
                 f"You applied {pretty(condition)} as a filter, but this allows "
-                f"any nonempty string!  Did you mean .search ?",
+                f"any string at all!  Did you mean .search ?",
                 HypothesisWarning,
                 stacklevel=3,
             )
-            return self.filter(bool)
+            return self
 
     # We use ListStrategy filter logic for the conditions that *only* imply
     # the string is nonempty.  Here, we increment the min_size but still apply
-- 
2.43.0


From d740180e1bd0b243fd9744b05773b10a94446df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:24 +0000
Subject: [PATCH 21/45] fix: filtering text by a regex with a conditional group
 whose one branch is outside the alphabet uses the other

---
 .../hypothesis/strategies/_internal/regex.py    | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/regex.py b/hypothesis-python/src/hypothesis/strategies/_internal/regex.py
index 6d11fec..faa686f 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/regex.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/regex.py
@@ -563,11 +563,18 @@ def _strategy(codes, context, is_unicode, *, alphabet):
         elif code == sre.GROUPREF_EXISTS:
             # Regex '(?(id/name)yes-pattern|no-pattern)'
             # (if group exists choice)
-            return group_conditional(
-                value[0],
-                recurse(value[1]),
-                recurse(value[2]) if value[2] else st.just(empty),
-            )
+            branches = []
+            errors = []
+            for branch in value[1:]:
+                try:
+                    branches.append(recurse(branch) if branch else st.just(empty))
+                except IncompatibleWithAlphabet as e:
+                    # the other branch might be the only one we ever need
+                    branches.append(st.nothing())
+                    errors.append(str(e))
+            if len(errors) == 2:
+                raise IncompatibleWithAlphabet("\n".join(errors))
+            return group_conditional(value[0], *branches)
         elif code == ATOMIC_GROUP:  # pragma: no cover  # new in Python 3.11
             return _strategy(value, context, is_unicode, alphabet=alphabet)
 
-- 
2.43.0


From 9f2c884d7964bb19b8715ed9614a76eb955378d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:10 +0000
Subject: [PATCH 22/45] fix: leaf limit of a recursive strategy holds when a
 leaf draws the same strategy

---
 .../src/hypothesis/strategies/_internal/recursive.py          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/recursive.py b/hypothesis-python/src/hypothesis/strategies/_internal/recursive.py
index 5f63211..a43ee37 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/recursive.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/recursive.py
@@ -63,12 +63,12 @@ class LimitedStrategy(SearchStrategy):
     @contextmanager
     def capped(self, max_templates):
         try:
-            was_capped = self.currently_capped
+            was_capped, marker = self.currently_capped, self.marker
             self.currently_capped = True
             self.marker = max_templates
             yield
         finally:
-            self.currently_capped = was_capped
+            self.currently_capped, self.marker = was_capped, marker
 
 
 class RecursiveStrategy(SearchStrategy):
-- 
2.43.0


From 414a0d0336436dc1edc111672ca5dc24868017bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:10 +0000
Subject: [PATCH 23/45] fix: shared strategies with falsy keys share their
 value

---
 hypothesis-python/src/hypothesis/strategies/_internal/shared.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/shared.py b/hypothesis-python/src/hypothesis/strategies/_internal/shared.py
index 285dbb6..ba25db5 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/shared.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/shared.py
@@ -34,7 +34,7 @@ class SharedStrategy(SearchStrategy[Ex]):
     # Ideally would be -> Ex, but key collisions with different-typed values are
     # possible. See https://github.com/HypothesisWorks/hypothesis/issues/4301.
     def do_draw(self, data: ConjectureData) -> Any:
-        key = self.key or self
+        key = self if self.key is None else self.key
         if key not in data._shared_strategy_draws:
             data._shared_strategy_draws[key] = data.draw(self.base)
         return data._shared_strategy_draws[key]
-- 
2.43.0


From 8419183fa088edb6db1374ca2a428410d1e2039f Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:19:57 +0000
Subject: [PATCH 24/45] fix: a bundle defined with consume=True gives up its
 values when used directly as a rule's argument

---
 hypothesis-python/src/hypothesis/stateful.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/stateful.py b/hypothesis-python/src/hypothesis/stateful.py
index 2ade095..526ab44 100644
--- a/hypothesis-python/src/hypothesis/stateful.py
+++ b/hypothesis-python/src/hypothesis/stateful.py
@@ -482,8 +482,7 @@ class Rule:
             assert not isinstance(v, BundleReferenceStrategy)
             if isinstance(v, Bundle):
                 bundles.append(v)
-                consume = isinstance(v, BundleConsumer)
-                v = BundleReferenceStrategy(v.name, consume=consume)
+                v = BundleReferenceStrategy(v.name, consume=v.consume)
             self.arguments_strategies[k] = v
         self.bundles = tuple(bundles)
 
@@ -542,6 +541,7 @@ class Bundle(SearchStrategy[Ex]):
         self, name: str, *, consume: bool = False, draw_references: bool = True
     ) -> None:
         self.name = name
+        self.consume = consume
         self.__reference_strategy = BundleReferenceStrategy(name, consume=consume)
         self.draw_references = draw_references
 
-- 
2.43.0


From 907661f30c0b48946e2b8b3ccb4fa7caf97f3329 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:19:57 +0000
Subject: [PATCH 25/45] fix: flatmap of a consumed bundle works

---
 hypothesis-python/src/hypothesis/stateful.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/stateful.py b/hypothesis-python/src/hypothesis/stateful.py
index 526ab44..6b4ad5d 100644
--- a/hypothesis-python/src/hypothesis/stateful.py
+++ b/hypothesis-python/src/hypothesis/stateful.py
@@ -569,10 +569,9 @@ class Bundle(SearchStrategy[Ex]):
 
     def flatmap(self, expand):
         if self.draw_references:
-            return type(self)(
-                self.name,
-                consume=self.__reference_strategy.consume,
-                draw_references=False,
+            # Not type(self), because BundleConsumer takes different arguments.
+            return Bundle(
+                self.name, consume=self.consume, draw_references=False
             ).flatmap(expand)
         return super().flatmap(expand)
 
-- 
2.43.0


From b54a7da389c16a16bb56a4e20935c48ca54ccf6a Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:36:14 +0000
Subject: [PATCH 26/45] fix: printed stateful steps name a result in every
 bundle it goes to

---
 hypothesis-python/src/hypothesis/stateful.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/stateful.py b/hypothesis-python/src/hypothesis/stateful.py
index 6b4ad5d..a083376 100644
--- a/hypothesis-python/src/hypothesis/stateful.py
+++ b/hypothesis-python/src/hypothesis/stateful.py
@@ -392,13 +392,18 @@ class RuleBasedStateMachine(metaclass=StateMachineMeta):
         if rule.targets:
             if isinstance(result, MultipleResults):
                 if len(result.values) == 1:
-                    output_assignment = f"({self._last_names(1)[0]},) = "
+                    # A single result gets a name in each of the target bundles.
+                    output_assignment = "".join(
+                        f"({name},) = " for name in self._last_names(len(rule.targets))
+                    )
                 elif result.values:
                     number_of_last_names = len(rule.targets) * len(result.values)
                     output_names = self._last_names(number_of_last_names)
                     output_assignment = ", ".join(output_names) + " = "
             else:
-                output_assignment = self._last_names(1)[0] + " = "
+                output_assignment = "".join(
+                    f"{name} = " for name in self._last_names(len(rule.targets))
+                )
         args = ", ".join("%s=%s" % kv for kv in data.items())
         return f"{output_assignment}state.{rule.function.__name__}({args})"
 
-- 
2.43.0


From f9d20bf594252cc539888589e798e168d485c5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:42 +0000
Subject: [PATCH 27/45] fix: remove unreadable entries from the secondary
 corpus as well

---
 hypothesis-python/src/hypothesis/internal/conjecture/engine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hypothesis-python/src/hypothesis/internal/conjecture/engine.py b/hypothesis-python/src/hypothesis/internal/conjecture/engine.py
index 2d9c760..2c4de39 100644
--- a/hypothesis-python/src/hypothesis/internal/conjecture/engine.py
+++ b/hypothesis-python/src/hypothesis/internal/conjecture/engine.py
@@ -866,6 +866,7 @@ class ConjectureRunner:
                 if choices is None:
                     # clear out any keys which fail deserialization
                     self.settings.database.delete(self.database_key, existing)
+                    self.settings.database.delete(self.secondary_key, existing)
                     continue
                 data = self.cached_test_function(choices, extend="full")
                 if data.status != Status.INTERESTING:
-- 
2.43.0


From a44b976593b7936a33b447c27fc0cac46ad81646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:54 +0000
Subject: [PATCH 28/45] fix: a failure whose assumption no longer holds is
 carried by the flaky error

---
 hypothesis-python/src/hypothesis/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/core.py b/hypothesis-python/src/hypothesis/core.py
index 0498522..e7b534d 100644
--- a/hypothesis-python/src/hypothesis/core.py
+++ b/hypothesis-python/src/hypothesis/core.py
@@ -1378,7 +1378,7 @@ class StateForActualGivenExecution:
                 err = FlakyFailure(
                     "Unreliable assumption: An example which satisfied "
                     "assumptions on the first run now fails it.",
-                    [e],
+                    [falsifying_example.expected_exception, e],
                 )
                 errors_to_report.append((fragments, err))
             except BaseException as e:
-- 
2.43.0


From 0e91ea0b643836e2e9ec7c7fcb17e125b133a5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:49 +0000
Subject: [PATCH 29/45] fix: a failed load_profile leaves the current profile
 as it was

---
 hypothesis-python/src/hypothesis/_settings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/_settings.py b/hypothesis-python/src/hypothesis/_settings.py
index f341ecb..cb70cae 100644
--- a/hypothesis-python/src/hypothesis/_settings.py
+++ b/hypothesis-python/src/hypothesis/_settings.py
@@ -866,8 +866,8 @@ class settings(metaclass=settingsMeta):
         defined default for that setting.
         """
         check_type(str, name, "name")
-        settings._current_profile = name
         default_variable.value = settings.get_profile(name)
+        settings._current_profile = name
 
 
 @contextlib.contextmanager
-- 
2.43.0


From f6ea02ccd295eccd022e4875477aa69127dbf13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:13 +0000
Subject: [PATCH 30/45] fix: register_profile rejects a parent which is not a
 settings object

---
 hypothesis-python/src/hypothesis/_settings.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hypothesis-python/src/hypothesis/_settings.py b/hypothesis-python/src/hypothesis/_settings.py
index cb70cae..7dc899a 100644
--- a/hypothesis-python/src/hypothesis/_settings.py
+++ b/hypothesis-python/src/hypothesis/_settings.py
@@ -836,6 +836,8 @@ class settings(metaclass=settingsMeta):
         and do not require reloading the profile.
         """
         check_type(str, name, "name")
+        if parent is not None:
+            check_type(settings, parent, "parent")
         # if we just pass the parent and no kwargs, like
         #   settings.register_profile(settings(max_examples=10))
         # then optimize out the pointless intermediate settings object which
-- 
2.43.0


From 23ed662e7074ec8a29ae47ba0eb87aaab08bee8e Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:19:03 +0000
Subject: [PATCH 31/45] fix: an assumption that fails while a stopped example
 unwinds is not an error

---
 hypothesis-python/src/hypothesis/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/core.py b/hypothesis-python/src/hypothesis/core.py
index e7b534d..a3b0d0d 100644
--- a/hypothesis-python/src/hypothesis/core.py
+++ b/hypothesis-python/src/hypothesis/core.py
@@ -1102,7 +1102,10 @@ class StateForActualGivenExecution:
                 )
         except UnsatisfiedAssumption as e:
             # An "assume" check failed, so instead we inform the engine that
-            # this test run was invalid.
+            # this test run was invalid - unless it had already been stopped, and
+            # this comes from a finally block or teardown, suppressing our StopTest.
+            if data.frozen:
+                raise StopTest(data.testcounter) from e
             try:
                 data.mark_invalid(e.reason)
             except FlakyReplay as err:
-- 
2.43.0


From e01e9b2ea5579eac1ed08c48eac7350c5dd02f07 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:19:06 +0000
Subject: [PATCH 32/45] fix: explicit examples of tests which make notes before
 the test body run

---
 hypothesis-python/src/hypothesis/core.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/core.py b/hypothesis-python/src/hypothesis/core.py
index a3b0d0d..89e2fa5 100644
--- a/hypothesis-python/src/hypothesis/core.py
+++ b/hypothesis-python/src/hypothesis/core.py
@@ -585,11 +585,13 @@ def execute_explicit_examples(state, wrapped_test, arguments, kwargs, original_s
                     continue
                 break
             finally:
-                if fragments_reported:
-                    assert fragments_reported[0].startswith("Falsifying example")
-                    fragments_reported[0] = fragments_reported[0].replace(
-                        "Falsifying example", "Falsifying explicit example", 1
-                    )
+                # Notes made by e.g. setup_example() come before the example itself
+                for i, fragment in enumerate(fragments_reported):
+                    if fragment.startswith("Falsifying example"):
+                        fragments_reported[i] = fragment.replace(
+                            "Falsifying example", "Falsifying explicit example", 1
+                        )
+                        break
 
                 tc = make_testcase(
                     start_timestamp=state._start_timestamp,
@@ -601,10 +603,10 @@ def execute_explicit_examples(state, wrapped_test, arguments, kwargs, original_s
                 )
                 deliver_json_blob(tc)
 
-            if fragments_reported:
-                verbose_report(fragments_reported[0].replace("Falsifying", "Trying", 1))
-                for f in fragments_reported[1:]:
-                    verbose_report(f)
+            for f in fragments_reported:
+                if f.startswith("Falsifying explicit example"):
+                    f = f.replace("Falsifying", "Trying", 1)
+                verbose_report(f)
 
 
 def get_random_for_wrapped_test(test, wrapped_test):
-- 
2.43.0


From 80eed7de074a912ecef078ee899a8ea9c32e6e28 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:19:35 +0000
Subject: [PATCH 33/45] fix: observability reports failing explicit examples as
 failed

---
 hypothesis-python/src/hypothesis/core.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hypothesis-python/src/hypothesis/core.py b/hypothesis-python/src/hypothesis/core.py
index 89e2fa5..bc19a37 100644
--- a/hypothesis-python/src/hypothesis/core.py
+++ b/hypothesis-python/src/hypothesis/core.py
@@ -574,6 +574,15 @@ def execute_explicit_examples(state, wrapped_test, arguments, kwargs, original_s
                     err = new
 
                 with contextlib.suppress(StopTest):
+                    if isinstance(
+                        err, failure_exceptions_to_catch()
+                    ) and not isinstance(err, skip_exceptions_to_reraise()):
+                        empty_data.expected_traceback = format_exception(
+                            err, err.__traceback__
+                        )
+                        empty_data.mark_interesting(
+                            InterestingOrigin.from_exception(err)
+                        )
                     empty_data.conclude_test(Status.INVALID)
                 yield (fragments_reported, err)
                 if (
-- 
2.43.0


From fefba16c654202648bfa37ea252ffd9a5ef3f9b5 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:19:35 +0000
Subject: [PATCH 34/45] fix: observability reports the arguments of explicit
 and minimal examples

---
 hypothesis-python/src/hypothesis/core.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/core.py b/hypothesis-python/src/hypothesis/core.py
index bc19a37..a68b839 100644
--- a/hypothesis-python/src/hypothesis/core.py
+++ b/hypothesis-python/src/hypothesis/core.py
@@ -608,6 +608,7 @@ def execute_explicit_examples(state, wrapped_test, arguments, kwargs, original_s
                     data=empty_data,
                     how_generated="explicit example",
                     string_repr=state._string_repr,
+                    arguments=empty_data._observability_args,
                     timing=state._timing_features,
                 )
                 deliver_json_blob(tc)
@@ -998,10 +999,16 @@ class StateForActualGivenExecution:
                     avoid_realization=data.provider.avoid_realization,
                 )
                 self._string_repr = printer.getvalue()
-                data._observability_arguments = {
-                    k: to_jsonable(v, avoid_realization=data.provider.avoid_realization)
-                    for k, v in [*enumerate(args), *kwargs.items()]
-                }
+                if example_kwargs is not None:
+                    # (generated arguments were already recorded by data.draw)
+                    data._observability_args.update(
+                        {
+                            f"generate:{k}": to_jsonable(
+                                v, avoid_realization=data.provider.avoid_realization
+                            )
+                            for k, v in example_kwargs.items()
+                        }
+                    )
 
             try:
                 return test(*args, **kwargs)
@@ -1415,7 +1422,10 @@ class StateForActualGivenExecution:
                     "status": "passed" if sys.exc_info()[0] else "failed",
                     "status_reason": str(origin or "unexpected/flaky pass"),
                     "representation": self._string_repr,
-                    "arguments": ran_example._observability_args,
+                    "arguments": {
+                        k.removeprefix("generate:"): v
+                        for k, v in ran_example._observability_args.items()
+                    },
                     "how_generated": "minimal failing example",
                     "features": {
                         **{
-- 
2.43.0


From 4116578e01c9ccd5e8faedef7cc02219da584405 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:19:54 +0000
Subject: [PATCH 35/45] fix: failures which we wrap up in a group are failures
 of the test

---
 hypothesis-python/src/hypothesis/core.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hypothesis-python/src/hypothesis/core.py b/hypothesis-python/src/hypothesis/core.py
index a68b839..3f55f0a 100644
--- a/hypothesis-python/src/hypothesis/core.py
+++ b/hypothesis-python/src/hypothesis/core.py
@@ -1162,6 +1162,15 @@ class StateForActualGivenExecution:
             else:
                 tb = e.__traceback__
             filepath = traceback.extract_tb(tb)[-1][0]
+            if (
+                isinstance(e, BaseExceptionGroup)
+                and is_hypothesis_file(filepath)
+                and e.exceptions[0].__traceback__ is not None
+            ):
+                # We raise groups on behalf of user code, if several clean-up functions
+                # fail or a nested test finds several bugs; that isn't an internal error.
+                tb = e.exceptions[0].__traceback__
+                filepath = traceback.extract_tb(tb)[-1][0]
             if is_hypothesis_file(filepath) and not isinstance(e, HypothesisException):
                 raise
 
-- 
2.43.0


From cf0fb23fdbfe7b75766df2edf2e007e05a768e71 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:22:33 +0000
Subject: [PATCH 36/45] fix: register_random tells generators apart by
 identity, not equality

---
 hypothesis-python/src/hypothesis/internal/entropy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/internal/entropy.py b/hypothesis-python/src/hypothesis/internal/entropy.py
index d7ce146..24321dc 100644
--- a/hypothesis-python/src/hypothesis/internal/entropy.py
+++ b/hypothesis-python/src/hypothesis/internal/entropy.py
@@ -115,7 +115,7 @@ def register_random(r: RandomLike) -> None:
     if not (hasattr(r, "seed") and hasattr(r, "getstate") and hasattr(r, "setstate")):
         raise InvalidArgument(f"{r=} does not have all the required methods")
 
-    if r in RANDOMS_TO_MANAGE.values():
+    if any(r is managed for managed in RANDOMS_TO_MANAGE.values()):
         return
 
     if not (PYPY or GRAALPY):  # pragma: no branch
-- 
2.43.0


From 71aeb38c1ef9b6c43eea290b1a7e6df5548a33d7 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:22:33 +0000
Subject: [PATCH 37/45] fix: generators are restored if seeding one of them
 fails

---
 hypothesis-python/src/hypothesis/internal/entropy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/internal/entropy.py b/hypothesis-python/src/hypothesis/internal/entropy.py
index 24321dc..262e662 100644
--- a/hypothesis-python/src/hypothesis/internal/entropy.py
+++ b/hypothesis-python/src/hypothesis/internal/entropy.py
@@ -200,8 +200,8 @@ def deterministic_PRNG(seed: int = 0) -> Generator[None, None, None]:
         register_random(hypothesis.core._hypothesis_global_random)
 
     seed_all, restore_all = get_seeder_and_restorer(seed)
-    seed_all()
     try:
+        seed_all()
         yield
     finally:
         restore_all()
-- 
2.43.0


From 213234f4fc45998c28e92cc59e432d8bd115fcd1 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 22:27:28 +0000
Subject: [PATCH 38/45] fix: the choice of saved examples to try doesn't depend
 on the order in the database

---
 .../src/hypothesis/internal/conjecture/engine.py       | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/conjecture/engine.py b/hypothesis-python/src/hypothesis/internal/conjecture/engine.py
index 2c4de39..9c30240 100644
--- a/hypothesis-python/src/hypothesis/internal/conjecture/engine.py
+++ b/hypothesis-python/src/hypothesis/internal/conjecture/engine.py
@@ -843,7 +843,11 @@ class ConjectureRunner:
             primary_corpus_size = len(corpus)
 
             if len(corpus) < desired_size:
-                extra_corpus = list(self.settings.database.fetch(self.secondary_key))
+                # sorted, because databases may return these in any order, and
+                # the same seed should choose the same examples.
+                extra_corpus = sorted(
+                    self.settings.database.fetch(self.secondary_key), key=shortlex
+                )
 
                 shortfall = desired_size - len(corpus)
 
@@ -893,7 +897,9 @@ class ConjectureRunner:
             # the pareto front from the last run.
             if len(corpus) < desired_size and not self.interesting_examples:
                 desired_extra = desired_size - len(corpus)
-                pareto_corpus = list(self.settings.database.fetch(self.pareto_key))
+                pareto_corpus = sorted(
+                    self.settings.database.fetch(self.pareto_key), key=shortlex
+                )
                 if len(pareto_corpus) > desired_extra:
                     pareto_corpus = self.random.sample(pareto_corpus, desired_extra)
                 pareto_corpus.sort(key=shortlex)
-- 
2.43.0


From 47eccd09bdb12d3b39753dfa19ee123e5a0b1caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:33 +0000
Subject: [PATCH 39/45] fix: registering a generator doesn't count references
 of its own

---
 hypothesis-python/src/hypothesis/internal/entropy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/internal/entropy.py b/hypothesis-python/src/hypothesis/internal/entropy.py
index 262e662..2433ed6 100644
--- a/hypothesis-python/src/hypothesis/internal/entropy.py
+++ b/hypothesis-python/src/hypothesis/internal/entropy.py
@@ -115,7 +115,8 @@ def register_random(r: RandomLike) -> None:
     if not (hasattr(r, "seed") and hasattr(r, "getstate") and hasattr(r, "setstate")):
         raise InvalidArgument(f"{r=} does not have all the required methods")
 
-    if any(r is managed for managed in RANDOMS_TO_MANAGE.values()):
+    # (by identity, and without a reference to r from a closure)
+    if id(r) in map(id, RANDOMS_TO_MANAGE.values()):
         return
 
     if not (PYPY or GRAALPY):  # pragma: no branch
-- 
2.43.0


From 1a21c086e69d822928c455824bed5090818f42c8 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 22:39:51 +0000
Subject: [PATCH 40/45] fix: the order of shrinking doesn't depend on the hash
 seed

---
 .../src/hypothesis/internal/conjecture/shrinker.py            | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/internal/conjecture/shrinker.py b/hypothesis-python/src/hypothesis/internal/conjecture/shrinker.py
index 0aac436..d02890f 100644
--- a/hypothesis-python/src/hypothesis/internal/conjecture/shrinker.py
+++ b/hypothesis-python/src/hypothesis/internal/conjecture/shrinker.py
@@ -883,7 +883,9 @@ class Shrinker:
 
     @derived_value  # type: ignore
     def distinct_labels(self):
-        return sorted(self.spans_by_label, key=str)
+        # In order of appearance rather than sorted, because the value of a label
+        # may depend on hash(), which is different in each process.
+        return list(self.spans_by_label)
 
     @defines_shrink_pass()
     def pass_to_descendant(self, chooser):
-- 
2.43.0


From 249426d4953adc435a541510e47e7f9a53acecc3 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 41/45] fix: which constants of local modules are used doesn't
 depend on the order of modules

---
 .../internal/conjecture/providers.py          | 36 +++++++++----------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/conjecture/providers.py b/hypothesis-python/src/hypothesis/internal/conjecture/providers.py
index d877d19..25e142c 100644
--- a/hypothesis-python/src/hypothesis/internal/conjecture/providers.py
+++ b/hypothesis-python/src/hypothesis/internal/conjecture/providers.py
@@ -210,26 +210,26 @@ _local_modules: set[ModuleType] = set()
 
 
 def _get_local_constants() -> "ConstantsT":
-    new_constants: set[ConstantT] = set()
     new_modules = list(local_modules() - _local_modules)
     for new_module in new_modules:
-        new_constants |= constants_from_module(new_module)
-
-    for constant in new_constants:
-        choice_type = {
-            int: "integer",
-            float: "float",
-            bytes: "bytes",
-            str: "string",
-        }[type(constant)]
-        # if we add any new constant, invalidate the constant cache for permitted values.
-        # A more efficient approach would be invalidating just the keys with this
-        # choice_type.
-        if (
-            constant not in _local_constants[choice_type]  # type: ignore
-        ):  # pragma: no branch
-            CONSTANTS_CACHE.cache.clear()
-        _local_constants[choice_type].add(constant)  # type: ignore
+        # Each constant goes into the set for its type straight away, because in a
+        # set of all of them e.g. 1000 and 1000.0 from two modules would be the
+        # same, and which one we'd keep would depend on the order of the modules.
+        for constant in constants_from_module(new_module):
+            choice_type = {
+                int: "integer",
+                float: "float",
+                bytes: "bytes",
+                str: "string",
+            }[type(constant)]
+            # if we add any new constant, invalidate the constant cache for permitted values.
+            # A more efficient approach would be invalidating just the keys with this
+            # choice_type.
+            if (
+                constant not in _local_constants[choice_type]  # type: ignore
+            ):  # pragma: no branch
+                CONSTANTS_CACHE.cache.clear()
+            _local_constants[choice_type].add(constant)  # type: ignore
 
     _local_modules.update(new_modules)
     return _local_constants
-- 
2.43.0


From 189a0b703b4d029fbc9c7a1b6bea9690758380da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:30 +0000
Subject: [PATCH 42/45] fix: duplicated values are shrunk in order of
 appearance, not of their hashes

---
 .../src/hypothesis/internal/conjecture/shrinking/collection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/internal/conjecture/shrinking/collection.py b/hypothesis-python/src/hypothesis/internal/conjecture/shrinking/collection.py
index 4247221..e76ff14 100644
--- a/hypothesis-python/src/hypothesis/internal/conjecture/shrinking/collection.py
+++ b/hypothesis-python/src/hypothesis/internal/conjecture/shrinking/collection.py
@@ -63,7 +63,8 @@ class Collection(Shrinker):
 
         # then try minimizing all duplicated elements together simultaneously. This
         # helps in cases like https://github.com/HypothesisWorks/hypothesis/issues/4286
-        duplicated = {val for val, count in Counter(self.current).items() if count > 1}
+        # (In order of first appearance: a set would depend on the hash seed.)
+        duplicated = [val for val, count in Counter(self.current).items() if count > 1]
         for val in duplicated:
             self.ElementShrinker.shrink(
                 self.to_order(val),
-- 
2.43.0


From 697c88514c74d9a858b64a351f12aadcf66402fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:01 +0000
Subject: [PATCH 43/45] fix: from_type() doesn't depend on which call of it
 came first

---
 .../src/hypothesis/strategies/_internal/types.py            | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/types.py b/hypothesis-python/src/hypothesis/strategies/_internal/types.py
index 5e39696..1f4a779 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/types.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/types.py
@@ -1103,3 +1103,9 @@ def resolve_TypeVar(thing):
         ),
         key=type_var_key,
     ).flatmap(st.from_type)
+
+
+# While the lookup tables above were incomplete, from_type() could only return (and
+# cache) deferred strategies for the types that are mentioned in them.  Forget these,
+# so that what we return doesn't depend on how this module came to be imported.
+st.from_type.__clear_cache()  # type: ignore
-- 
2.43.0


From 3f4f2b7d1b582c9e9a4ed888e403a1b930ec1345 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 01:50:22 +0000
Subject: [PATCH 44/45] fix: values may be saved and deleted while fetch() of
 an in-memory database is iterated

---
 hypothesis-python/src/hypothesis/database.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/database.py b/hypothesis-python/src/hypothesis/database.py
index 74be93d..7d981ba 100644
--- a/hypothesis-python/src/hypothesis/database.py
+++ b/hypothesis-python/src/hypothesis/database.py
@@ -280,7 +280,8 @@ class InMemoryExampleDatabase(ExampleDatabase):
         return f"InMemoryExampleDatabase({self.data!r})"
 
     def fetch(self, key: bytes) -> Iterable[bytes]:
-        yield from self.data.get(key, ())
+        # (a copy, because the caller may well save or delete values as they go)
+        yield from tuple(self.data.get(key, ()))
 
     def save(self, key: bytes, value: bytes) -> None:
         value = bytes(value)
-- 
2.43.0


From 24bb5e144cb69e5c7c806c086429c4082f4efc9b Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 01:50:22 +0000
Subject: [PATCH 45/45] fix: the digest of a test doesn't depend on addresses
 of objects in its annotations

---
 hypothesis-python/src/hypothesis/internal/reflection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/internal/reflection.py b/hypothesis-python/src/hypothesis/internal/reflection.py
index 6e3de42..b77b939 100644
--- a/hypothesis-python/src/hypothesis/internal/reflection.py
+++ b/hypothesis-python/src/hypothesis/internal/reflection.py
@@ -108,7 +108,10 @@ def function_digest(function: Any) -> bytes:
     try:
         # This is additional to the source code because it can include the effects
         # of decorators, or of post-hoc assignment to the .__signature__ attribute.
-        hasher.update(repr(get_signature(function)).encode())
+        # We leave out the addresses of objects in annotations, because those differ
+        # between processes, while this digest must not.
+        sig = re.sub(r" at 0x[0-9a-fA-F]+", "", repr(get_signature(function)))
+        hasher.update(sig.encode())
     except Exception:
         pass
     try:
-- 
2.43.0

