From dcb1049ebf4b2489722ade6c400252d4ac345bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:48 +0000
Subject: [PATCH 1/7] fix: report the exact size hint from the category set
 iterator

`Iter` implements `ExactSizeIterator` but kept the default `size_hint` of
`(0, None)`, so `len()` panicked through adaptors such as `peekable` and `zip`.
---
 crates/unicode-intervals/src/categories.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/unicode-intervals/src/categories.rs b/crates/unicode-intervals/src/categories.rs
index feac6d0..81e2c7d 100644
--- a/crates/unicode-intervals/src/categories.rs
+++ b/crates/unicode-intervals/src/categories.rs
@@ -498,6 +498,12 @@ impl Iterator for Iter {
         self.data.unset(index);
         Some(category)
     }
+
+    #[inline]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.data.len();
+        (len, Some(len))
+    }
 }
 
 impl ExactSizeIterator for Iter {
-- 
2.43.0


From f15acee52bcbd2d87c841bf59a60271ac244f1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:27 +0000
Subject: [PATCH 2/7] fix: accept any iterable of category names in the Python
 binding

The type stub declares `Iterable[str]` and Hypothesis' charmap, which the API
mirrors, takes any collection, but sets, dict views and generators raised
TypeError. A bare string is still rejected.
---
 crates/unicode-intervals-py/src/lib.rs | 30 ++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/crates/unicode-intervals-py/src/lib.rs b/crates/unicode-intervals-py/src/lib.rs
index a5d00ee..d9ae5ff 100644
--- a/crates/unicode-intervals-py/src/lib.rs
+++ b/crates/unicode-intervals-py/src/lib.rs
@@ -1,4 +1,9 @@
-use pyo3::{exceptions::PyValueError, prelude::*, types::PyTuple, wrap_pyfunction};
+use pyo3::{
+    exceptions::{PyTypeError, PyValueError},
+    prelude::*,
+    types::{PyString, PyTuple},
+    wrap_pyfunction,
+};
 use std::sync::OnceLock;
 use unicode_intervals_core::{UnicodeCategory, UnicodeCategorySet, UnicodeVersion as CoreVersion};
 
@@ -90,6 +95,23 @@ impl PyUnicodeVersion {
     }
 }
 
+/// Read category names from any iterable of strings, as the type stub promises.
+fn category_names(value: &Bound<'_, PyAny>) -> PyResult<Vec<String>> {
+    // A bare string would be read as a list of one-letter names.
+    if value.is_instance_of::<PyString>() {
+        return Err(PyTypeError::new_err("Can't extract `str` to `Vec`"));
+    }
+    value.try_iter()?.map(|name| name?.extract()).collect()
+}
+
+fn optional_category_names(value: &Bound<'_, PyAny>) -> PyResult<Option<Vec<String>>> {
+    if value.is_none() {
+        Ok(None)
+    } else {
+        category_names(value).map(Some)
+    }
+}
+
 fn parse_categories(names: Option<Vec<String>>) -> PyResult<Option<UnicodeCategorySet>> {
     match names {
         None => Ok(None),
@@ -118,8 +140,8 @@ fn parse_categories(names: Option<Vec<String>>) -> PyResult<Option<UnicodeCatego
 #[allow(clippy::too_many_arguments)]
 fn query(
     py: Python<'_>,
-    categories: Option<Vec<String>>,
-    exclude_categories: Option<Vec<String>>,
+    #[pyo3(from_py_with = optional_category_names)] categories: Option<Vec<String>>,
+    #[pyo3(from_py_with = optional_category_names)] exclude_categories: Option<Vec<String>>,
     min_codepoint: Option<u32>,
     max_codepoint: Option<u32>,
     include_characters: &str,
@@ -170,7 +192,7 @@ fn categories(py: Python<'_>, version: Option<PyUnicodeVersion>) -> PyResult<Py<
 #[pyo3(signature = (categories, version=None))]
 fn as_general_categories(
     py: Python<'_>,
-    categories: Vec<String>,
+    #[pyo3(from_py_with = category_names)] categories: Vec<String>,
     version: Option<PyUnicodeVersion>,
 ) -> PyResult<Py<PyTuple>> {
     let core_version: CoreVersion = version.map_or_else(CoreVersion::latest, Into::into);
-- 
2.43.0


From d3c5729d71e0638b86c7651b6d6571295f113b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:45 +0000
Subject: [PATCH 3/7] fix: make Python version values hashable

`UnicodeVersion` is a frozen value with equality, and its stub types it as
hashable, but using one as a dict key or set member raised TypeError.
---
 crates/unicode-intervals-py/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/unicode-intervals-py/src/lib.rs b/crates/unicode-intervals-py/src/lib.rs
index d9ae5ff..93db7d7 100644
--- a/crates/unicode-intervals-py/src/lib.rs
+++ b/crates/unicode-intervals-py/src/lib.rs
@@ -15,11 +15,12 @@ static CATEGORIES_CACHE: [OnceLock<Py<PyTuple>>; CoreVersion::ALL.len()] =
 #[pyclass(
     eq,
     frozen,
+    hash,
     from_py_object,
     name = "UnicodeVersion",
     module = "unicode_intervals"
 )]
-#[derive(Clone, Copy, PartialEq, Eq)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash)]
 enum PyUnicodeVersion {
     V9_0_0,
     V10_0_0,
-- 
2.43.0


From ba86490606fe021703591e85730fde1a8cfa223c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:46 +0000
Subject: [PATCH 4/7] fix: mark UnicodeVersion final and list the exported
 names in the type stub

The stub let type checkers accept subclassing, which raises TypeError, and lost
`__version__` from star imports.
---
 .../python/unicode_intervals/__init__.pyi             | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/unicode-intervals-py/python/unicode_intervals/__init__.pyi b/crates/unicode-intervals-py/python/unicode_intervals/__init__.pyi
index e9037d4..f828db0 100644
--- a/crates/unicode-intervals-py/python/unicode_intervals/__init__.pyi
+++ b/crates/unicode-intervals-py/python/unicode_intervals/__init__.pyi
@@ -1,5 +1,16 @@
 from collections.abc import Iterable
+from typing import final
 
+__all__ = [
+    "UnicodeVersion",
+    "as_general_categories",
+    "available_versions",
+    "categories",
+    "query",
+    "__version__",
+]
+
+@final
 class UnicodeVersion:
     V9_0_0: UnicodeVersion
     V10_0_0: UnicodeVersion
-- 
2.43.0


From 213ac9331f875a1b8fe0f1070cb4949f0d75cbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:53 +0000
Subject: [PATCH 5/7] fix: quote the temporary directory in the generator's
 shell command

A TMPDIR with a space or a quote in its path made the command fail, and
anything the shell expands in it was expanded.
---
 generate_tables.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/generate_tables.py b/generate_tables.py
index 94e6f5c..0be030d 100644
--- a/generate_tables.py
+++ b/generate_tables.py
@@ -1,3 +1,4 @@
+import shlex
 import sys
 import tempfile
 import urllib
@@ -61,7 +62,7 @@ def transform_code(code: bytes) -> bytes:
 def ucd_generate(directory: str) -> bytes:
     result = subprocess.run(
         [
-            f"ucd-generate general-category {directory} "
+            f"ucd-generate general-category {shlex.quote(directory)} "
             # Exclude groups that include other groups
             f"--exclude=Separator,Symbol,Cased_Letter,Letter,Mark,Number,Other,Punctuation",
         ],
-- 
2.43.0


From 8f4ed72893fe31cc76e8d41749e26a940a7aae2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:53 +0000
Subject: [PATCH 6/7] fix: look for a category's entry, not its name, in the
 generated code

The tool's first lines repeat its arguments. A TMPDIR with a category's name
in its path made the script edit them and leave the entry as it was, so the
table it wrote did not compile.
---
 generate_tables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generate_tables.py b/generate_tables.py
index 0be030d..a93c63f 100644
--- a/generate_tables.py
+++ b/generate_tables.py
@@ -54,7 +54,7 @@ def transform_code(code: bytes) -> bytes:
     )
     lines = code.splitlines()
     for category in CATEGORIES:
-        idx = next((i for i, line in enumerate(lines) if category.encode() in line), None)
+        idx = next((i for i, line in enumerate(lines) if f"(\"{category}\", ".encode() in line), None)
         lines[idx] = lines[idx].replace(f"(\"{category}\", ".encode(), b"").replace(b"),", b",")
     return b"\n".join(lines)
 
-- 
2.43.0


From 5a711d4a968048ddb4e1e2f195af08f2eeaf6df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:52 +0000
Subject: [PATCH 7/7] fix: read category names without asking for a length hint

A process forked while another thread made its first call with category
names hung at its own first such call: PyO3 imports `operator` for the
hint inside a PyOnceLock, which the child inherits locked.
---
 crates/unicode-intervals-py/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/unicode-intervals-py/src/lib.rs b/crates/unicode-intervals-py/src/lib.rs
index 93db7d7..f0a8fc7 100644
--- a/crates/unicode-intervals-py/src/lib.rs
+++ b/crates/unicode-intervals-py/src/lib.rs
@@ -102,7 +102,13 @@ fn category_names(value: &Bound<'_, PyAny>) -> PyResult<Vec<String>> {
     if value.is_instance_of::<PyString>() {
         return Err(PyTypeError::new_err("Can't extract `str` to `Vec`"));
     }
-    value.try_iter()?.map(|name| name?.extract()).collect()
+    // Pushed one by one: collecting would ask for a length hint, for which PyO3 imports `operator`
+    // inside a lock, and a process forked meanwhile would wait for that lock forever.
+    let mut names = Vec::new();
+    for name in value.try_iter()? {
+        names.push(name?.extract()?);
+    }
+    Ok(names)
 }
 
 fn optional_category_names(value: &Bound<'_, PyAny>) -> PyResult<Option<Vec<String>>> {
-- 
2.43.0

