From f0385ce466b9d969d6263eac88f23505405b14a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:06 +0000
Subject: [PATCH 01/16] fix: reset the total document length when an Okapi
 index is cleared

---
 src/zope/index/text/okapiindex.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/zope/index/text/okapiindex.py b/src/zope/index/text/okapiindex.py
index a243398..45b3ed8 100644
--- a/src/zope/index/text/okapiindex.py
+++ b/src/zope/index/text/okapiindex.py
@@ -237,6 +237,10 @@ class OkapiIndex(BaseIndex):
         # used often enough that speed should matter.
         self._totaldoclen = Length(0)
 
+    def clear(self):
+        BaseIndex.clear(self)
+        self._totaldoclen = Length(0)
+
     def index_doc(self, docid, text):
         count = BaseIndex.index_doc(self, docid, text)
         self._change_doc_len(count)
-- 
2.43.0


From 8ea77f7cba5825f3925120169cbb6efffe049f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:06 +0000
Subject: [PATCH 02/16] fix: keep the total document length when reindexing a
 text fails

---
 src/zope/index/text/okapiindex.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/zope/index/text/okapiindex.py b/src/zope/index/text/okapiindex.py
index 45b3ed8..5da09af 100644
--- a/src/zope/index/text/okapiindex.py
+++ b/src/zope/index/text/okapiindex.py
@@ -247,8 +247,10 @@ class OkapiIndex(BaseIndex):
         return count
 
     def _reindex_doc(self, docid, text):
-        self._change_doc_len(-self._docweight[docid])
-        return BaseIndex._reindex_doc(self, docid, text)
+        old_len = self._docweight[docid]
+        count = BaseIndex._reindex_doc(self, docid, text)
+        self._change_doc_len(-old_len)
+        return count
 
     def unindex_doc(self, docid):
         if docid not in self._docwords:
-- 
2.43.0


From 77c381e62b862b643c2ffa2571f9428daaafab37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:06 +0000
Subject: [PATCH 03/16] fix: sort by a field index with None values or ids that
 are not indexed

---
 src/zope/index/field/sorting.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/zope/index/field/sorting.py b/src/zope/index/field/sorting.py
index 0c44012..bdd2cb2 100644
--- a/src/zope/index/field/sorting.py
+++ b/src/zope/index/field/sorting.py
@@ -50,9 +50,13 @@ class SortingIndexMixin:
 
         fwd_index = getattr(self, self._sorting_fwd_index_attr)
         rev_index = getattr(self, self._sorting_rev_index_attr)
-        getValue = lambda x, d=-1: rev_index.get(x, d)  # noqa: E731 use def
         marker = object()
 
+        def getKey(docid):
+            # Like in the forward BTree, None sorts before anything else.
+            value = rev_index.get(docid, marker)
+            return (value is not None, value)
+
         # use_lazy and use_nbest computations lifted wholesale from
         # Zope2 catalog without questioning reasoning
         use_lazy = rlen > numdocs * (rlen / 100 + 1)
@@ -72,9 +76,9 @@ class SortingIndexMixin:
 
             def nsort():
                 for docid in docids:
-                    val = getValue(docid, marker)
-                    if val is not marker:
-                        yield (val, docid)
+                    key = getKey(docid)
+                    if key[1] is not marker:
+                        yield (key, docid)
 
             iterable = nsort()
 
@@ -126,9 +130,10 @@ class SortingIndexMixin:
                 # of documents in this index, or if we need to sort in
                 # reverse order, use a non-lazy sort.
                 n = 0
-                for docid in sorted(docids, key=getValue, reverse=reverse):
-                    if getValue(docid, marker) is not marker:
-                        n += 1
-                        yield docid
-                        if limit and n >= limit:
-                            return
+                indexed = [docid for docid in docids
+                           if rev_index.get(docid, marker) is not marker]
+                for docid in sorted(indexed, key=getKey, reverse=reverse):
+                    n += 1
+                    yield docid
+                    if limit and n >= limit:
+                        return
-- 
2.43.0


From 6d09eefabd59ce8df0959386d02e3bd185bcef76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:06 +0000
Subject: [PATCH 04/16] fix: unindex a document whose normalized keywords are
 empty

---
 src/zope/index/keyword/index.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/zope/index/keyword/index.py b/src/zope/index/keyword/index.py
index 96bb9ab..0e846ac 100644
--- a/src/zope/index/keyword/index.py
+++ b/src/zope/index/keyword/index.py
@@ -91,6 +91,9 @@ class KeywordIndex(Persistent):
         seq = self.normalize(seq)
 
         new_kw = self.family.OO.Set(seq)
+        if not new_kw:
+            self.unindex_doc(docid)
+            return
 
         if old_kw is None:
             self._insert_forward(docid, new_kw)
-- 
2.43.0


From fe62eda06b585e62b1c00fc74132fb50e3cf3059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:06 +0000
Subject: [PATCH 05/16] fix: do not remove the operator from a topic query
 passed in

---
 src/zope/index/topic/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/index/topic/index.py b/src/zope/index/topic/index.py
index 673f660..cdfc6fc 100644
--- a/src/zope/index/topic/index.py
+++ b/src/zope/index/topic/index.py
@@ -107,6 +107,6 @@ class TopicIndex(Persistent):
         operator = 'and'
         if isinstance(query, dict):
             if 'operator' in query:
-                operator = query.pop('operator')
+                operator = query['operator']
             query = query['query']
         return self.search(query, operator=operator)
-- 
2.43.0


From d5f6a66d3133b1dea66c5a48a78f18b2223d4670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:06 +0000
Subject: [PATCH 06/16] fix: remove a reindexed document from a filter it no
 longer matches

---
 src/zope/index/topic/filter.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/zope/index/topic/filter.py b/src/zope/index/topic/filter.py
index dbaa98d..383f035 100644
--- a/src/zope/index/topic/filter.py
+++ b/src/zope/index/topic/filter.py
@@ -73,7 +73,10 @@ class PythonFilteredSet(FilteredSetBase):
 
     def index_doc(self, docid, context):
         try:
-            if eval(self.expr):
-                self._ids.insert(docid)
+            matches = bool(eval(self.expr))
         except BaseException:
-            pass  # ignore errors
+            matches = False  # ignore errors
+        if matches:
+            self._ids.insert(docid)
+        else:
+            self.unindex_doc(docid)
-- 
2.43.0


From 9a9933be99adbbaad8aaf49132edcfda266ae8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:06 +0000
Subject: [PATCH 07/16] fix: store the cleared filters of a topic index

---
 src/zope/index/topic/index.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/index/topic/index.py b/src/zope/index/topic/index.py
index cdfc6fc..0a94555 100644
--- a/src/zope/index/topic/index.py
+++ b/src/zope/index/topic/index.py
@@ -54,8 +54,9 @@ class TopicIndex(Persistent):
     def clearFilters(self):
         """ Clear existing filters of their docids, but leave them in place.
         """
-        for filter in self._filters.values():
+        for id, filter in list(self._filters.items()):
             filter.clear()
+            self._filters[id] = filter  # filters are not persistent objects
 
     def index_doc(self, docid, obj):
         """index an object"""
-- 
2.43.0


From 6761e348f95828ffd5c65432f3d7b451f0cf2d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:06 +0000
Subject: [PATCH 08/16] fix: return a copy of the document ids from keyword and
 topic searches

---
 src/zope/index/keyword/index.py | 5 +++--
 src/zope/index/topic/index.py   | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/zope/index/keyword/index.py b/src/zope/index/keyword/index.py
index 0e846ac..0daa602 100644
--- a/src/zope/index/keyword/index.py
+++ b/src/zope/index/keyword/index.py
@@ -178,8 +178,9 @@ class KeywordIndex(Persistent):
             # sort smallest to largest set so we intersect the smallest
             # number of document identifiers possible
             sets.sort(key=len)
-            rs = None
-            for set in sets:
+            # (starting from a copy, never return a set of the index itself)
+            rs = self.family.IF.multiunion(sets[:1])
+            for set in sets[1:]:
                 rs = self.family.IF.intersection(rs, set)
                 if not rs:
                     break
diff --git a/src/zope/index/topic/index.py b/src/zope/index/topic/index.py
index 0a94555..0fdb42e 100644
--- a/src/zope/index/topic/index.py
+++ b/src/zope/index/topic/index.py
@@ -90,8 +90,9 @@ class TopicIndex(Persistent):
             # sort smallest to largest set so we intersect the smallest
             # number of document identifiers possible
             sets.sort(key=len)
-            rs = None
-            for set in sets:
+            # (starting from a copy, never return a set of the index itself)
+            rs = self.family.IF.multiunion(sets[:1])
+            for set in sets[1:]:
                 rs = self.family.IF.intersection(rs, set)
                 if not rs:
                     break
-- 
2.43.0


From a49b7e135f8313faa08057a65c97ecbcff59d3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:06 +0000
Subject: [PATCH 09/16] fix: do not match a phrase if only a prefix of its last
 word id matches

---
 src/zope/index/text/baseindex.py |  3 +--
 src/zope/index/text/widcode.py   | 13 +++++++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/zope/index/text/baseindex.py b/src/zope/index/text/baseindex.py
index 3076b89..56de834 100644
--- a/src/zope/index/text/baseindex.py
+++ b/src/zope/index/text/baseindex.py
@@ -207,8 +207,7 @@ class BaseIndex(Persistent):
         code = widcode.encode(wids)
         result = self.family.IF.BTree()
         for docid, weight in hits.items():
-            docwords = self._docwords[docid]
-            if docwords.find(code) >= 0:
+            if widcode.contains(self._docwords[docid], code):
                 result[docid] = weight
         return result
 
diff --git a/src/zope/index/text/widcode.py b/src/zope/index/text/widcode.py
index 6090378..d13fe95 100644
--- a/src/zope/index/text/widcode.py
+++ b/src/zope/index/text/widcode.py
@@ -98,6 +98,19 @@ def decode(code):
     return [get(p) or _decode(p) for p in _prog.findall(code)]
 
 
+def contains(code, part):
+    """Tell whether the code of a list contains the one of a partial list."""
+    start = code.find(part)
+    while start >= 0:
+        end = start + len(part)
+        # The code of the last wid of part may be a prefix of another one:
+        # what follows must be the start of the next wid.
+        if end >= len(code) or code[end] >= '\x80':
+            return True
+        start = code.find(part, start + 1)
+    return False
+
+
 _decoding = {}  # Filled later
 
 
-- 
2.43.0


From 82c8ea8c01ab23c9eeae139bc26c6f1a08e0d6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:06 +0000
Subject: [PATCH 10/16] fix: match all but the wildcards of a glob pattern
 literally

---
 src/zope/index/text/lexicon.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/zope/index/text/lexicon.py b/src/zope/index/text/lexicon.py
index 2ed331a..6e772a9 100644
--- a/src/zope/index/text/lexicon.py
+++ b/src/zope/index/text/lexicon.py
@@ -119,7 +119,7 @@ class Lexicon(Persistent):
             # This is too efficient, so we raise an exception.
             raise QueryError(
                 "pattern %r shouldn't start with glob character" % pattern)
-        pat = prefix
+        pat = re.escape(prefix)
         for c in pattern:
             if c == "*":
                 pat += ".*"
@@ -127,8 +127,8 @@ class Lexicon(Persistent):
                 pat += "."
             else:
                 pat += re.escape(c)
-        pat += "$"
-        prog = re.compile(pat)
+        pat += r"\Z"
+        prog = re.compile(pat, re.DOTALL)
         keys = self._wids.keys(prefix)  # Keys starting at prefix
         wids = []
         for key in keys:
-- 
2.43.0


From fb4c06daa45314229052ce7b2d009e5bb84ef3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:06 +0000
Subject: [PATCH 11/16] fix: decode lists with different deltas

---
 src/zope/index/text/ricecode.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/zope/index/text/ricecode.py b/src/zope/index/text/ricecode.py
index 555ffcc..393966f 100644
--- a/src/zope/index/text/ricecode.py
+++ b/src/zope/index/text/ricecode.py
@@ -186,10 +186,8 @@ def decode_deltas(start, enc_deltas):
     l_ = [start]
     if not enc_deltas:
         return l_
-    deltas = enc_deltas.tolist()
-    for i in range(1, len(deltas)):
-        l_.append(l_[i - 1] + deltas[i])
-    l_.append(l_[-1] + deltas[-1])
+    for delta in enc_deltas.tolist():
+        l_.append(l_[-1] + delta)
     return l_
 
 
-- 
2.43.0


From c09d9f67f4ca43a573e1f785fb2f148c25149d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:06 +0000
Subject: [PATCH 12/16] fix: allow Rice coding without binary part (m = 0)

---
 src/zope/index/text/ricecode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/index/text/ricecode.py b/src/zope/index/text/ricecode.py
index 393966f..9601fe1 100644
--- a/src/zope/index/text/ricecode.py
+++ b/src/zope/index/text/ricecode.py
@@ -102,7 +102,7 @@ class RiceCode:
     def init(self, m):
         self.m = m
         self.lower = (1 << m) - 1
-        self.mask = 1 << (m - 1)
+        self.mask = (1 << m) >> 1
 
     def append(self, val):
         """Append an item to the list."""
-- 
2.43.0


From 7afe6f8c9ff399781d415e442b4b6cb17043b0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:06 +0000
Subject: [PATCH 13/16] fix: leave nothing behind when an id or a keyword is
 rejected

---
 src/zope/index/field/index.py    |  4 +++-
 src/zope/index/keyword/index.py  | 22 +++++++++++++---------
 src/zope/index/text/baseindex.py |  2 +-
 3 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/zope/index/field/index.py b/src/zope/index/field/index.py
index b273023..4841598 100644
--- a/src/zope/index/field/index.py
+++ b/src/zope/index/field/index.py
@@ -74,8 +74,10 @@ class FieldIndex(SortingIndexMixin, persistent.Persistent):
         set = self._fwd_index.get(value)
         if set is None:
             set = self.family.IF.TreeSet()
+            set.insert(docid)  # fails for an invalid docid
             self._fwd_index[value] = set
-        set.insert(docid)
+        else:
+            set.insert(docid)
 
         # increment doc count
         self._num_docs.change(1)
diff --git a/src/zope/index/keyword/index.py b/src/zope/index/keyword/index.py
index 0daa602..299c890 100644
--- a/src/zope/index/keyword/index.py
+++ b/src/zope/index/keyword/index.py
@@ -105,6 +105,10 @@ class KeywordIndex(Persistent):
             kw_added = self.family.OO.difference(new_kw, old_kw)
             kw_removed = self.family.OO.difference(old_kw, new_kw)
 
+            # update forward (this may fail) and reverse indexes
+            self._insert_forward(docid, kw_added)
+            self._insert_reverse(docid, new_kw)
+
             # removed keywords are removed from the forward index
             for word in kw_removed:
                 fwd = self._fwd_index[word]
@@ -112,10 +116,6 @@ class KeywordIndex(Persistent):
                 if not fwd:
                     del self._fwd_index[word]
 
-            # now update reverse and forward indexes
-            self._insert_forward(docid, kw_added)
-            self._insert_reverse(docid, new_kw)
-
     def unindex_doc(self, docid):
         idx = self._fwd_index
 
@@ -140,15 +140,19 @@ class KeywordIndex(Persistent):
         """insert a sequence of words into the forward index """
 
         idx = self._fwd_index
-        get_word_idx = idx.get
         IF = self.family.IF
         Set = IF.Set
         TreeSet = IF.TreeSet
-        for word in words:
-            word_idx = get_word_idx(word)
+        # Look up all words before changing anything: this fails for words
+        # which cannot be compared with the indexed ones.
+        word_idxs = [(word, idx.get(word)) for word in words]
+        for word, word_idx in word_idxs:
             if word_idx is None:
-                idx[word] = word_idx = Set()
-            word_idx.insert(docid)
+                word_idx = Set()
+                word_idx.insert(docid)  # fails for an invalid docid
+                idx[word] = word_idx
+            else:
+                word_idx.insert(docid)
             if (not isinstance(word_idx, TreeSet) and
                     len(word_idx) >= self.tree_threshold):
                 # Convert to a TreeSet.
diff --git a/src/zope/index/text/baseindex.py b/src/zope/index/text/baseindex.py
index 56de834..01f816a 100644
--- a/src/zope/index/text/baseindex.py
+++ b/src/zope/index/text/baseindex.py
@@ -104,8 +104,8 @@ class BaseIndex(Persistent):
             return self._reindex_doc(docid, text)
         wids = self._lexicon.sourceToWordIds(text)
         wid2weight, docweight = self._get_frequencies(wids)
+        self._docweight[docid] = docweight  # fails for an invalid docid
         self._mass_add_wordinfo(wid2weight, docid)
-        self._docweight[docid] = docweight
         self._docwords[docid] = widcode.encode(wids)
         try:
             self.documentCount.change(1)
-- 
2.43.0


From d01731f4a1b8f3e4995110935f14a9bd56866bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:06 +0000
Subject: [PATCH 14/16] fix: weight of a cosine query with repeated terms

---
 src/zope/index/text/cosineindex.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/zope/index/text/cosineindex.py b/src/zope/index/text/cosineindex.py
index 8c64e27..45bd404 100644
--- a/src/zope/index/text/cosineindex.py
+++ b/src/zope/index/text/cosineindex.py
@@ -84,9 +84,13 @@ class CosineIndex(BaseIndex):
         for term in terms:
             wids += self._lexicon.termToWordIds(term)
         N = float(len(self._docweight))
-        sum = 0.0
+        # A term that is repeated in the query has a multiple of its weight.
+        counts = {}
         for wid in self._remove_oov_wids(wids):
-            wt = inverse_doc_frequency(len(self._wordinfo[wid]), N)
+            counts[wid] = counts.get(wid, 0) + 1
+        sum = 0.0
+        for wid, count in counts.items():
+            wt = count * inverse_doc_frequency(len(self._wordinfo[wid]), N)
             sum += wt ** 2.0
         return math.sqrt(sum)
 
-- 
2.43.0


From 7ca1a6dd425e82cd8b223b3bf05e0024ce9cb5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:06 +0000
Subject: [PATCH 15/16] fix: raise the errors of the arguments in
 okascore.score

---
 src/zope/index/text/okascore.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/zope/index/text/okascore.c b/src/zope/index/text/okascore.c
index bc9f338..52100ca 100644
--- a/src/zope/index/text/okascore.c
+++ b/src/zope/index/text/okascore.c
@@ -57,18 +57,21 @@ score(PyObject *self, PyObject *args)
 	double idf;		/* inverse doc frequency of t */
 	double meandoclen;	/* average number of words in a doc */
 
-	int n, i;
+	Py_ssize_t n, i;
 
 	if (!PyArg_ParseTuple(args, "OOOdd:score", &result, &d2fitems, &d2len,
 						   &idf, &meandoclen))
 		return NULL;
 
 	n = PyObject_Length(d2fitems);
+	if (n < 0)
+		return NULL;
 	for (i = 0; i < n; ++i) {
 		PyObject *d_and_f;	/* d2f[i], a (d, f) pair */
 		PyObject *d;
 		double f;
 		PyObject *doclen;	/* ._docweight[d] */
+		double len;
 		double lenweight;
 		double tf;
 		PyObject *doc_score;
@@ -86,13 +89,23 @@ score(PyObject *self, PyObject *args)
 		}
 		d = PyTuple_GET_ITEM(d_and_f, 0);
 		f = PyFloat_AsDouble(PyTuple_GET_ITEM(d_and_f, 1));
+		if (f == -1.0 && PyErr_Occurred()) {
+			Py_DECREF(d_and_f);
+			return NULL;
+		}
 
 		doclen = PyObject_GetItem(d2len, d);
 		if (doclen == NULL) {
 			Py_DECREF(d_and_f);
 			return NULL;
 		}
-		lenweight = B_FROM1 + B * PyFloat_AsDouble(doclen) / meandoclen;
+		len = PyFloat_AsDouble(doclen);
+		if (len == -1.0 && PyErr_Occurred()) {
+			Py_DECREF(d_and_f);
+			Py_DECREF(doclen);
+			return NULL;
+		}
+		lenweight = B_FROM1 + B * len / meandoclen;
 
 		tf = f * K1_PLUS1 / (f + K1 * lenweight);
 		doc_score = PyFloat_FromDouble(tf * idf);
-- 
2.43.0


From a848c630384bb74fbea1487a181dba0e504b7bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:53 +0000
Subject: [PATCH 16/16] fix: conflict when a set of docids is converted while
 it is changed

KeywordIndex replaces the set of document ids of a word by one of another
type when it grows to the threshold, or in optimize(). A concurrent
transaction changing the replaced set did not conflict and its change was
lost.
---
 src/zope/index/keyword/index.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/zope/index/keyword/index.py b/src/zope/index/keyword/index.py
index 299c890..7ec090d 100644
--- a/src/zope/index/keyword/index.py
+++ b/src/zope/index/keyword/index.py
@@ -155,8 +155,15 @@ class KeywordIndex(Persistent):
                 word_idx.insert(docid)
             if (not isinstance(word_idx, TreeSet) and
                     len(word_idx) >= self.tree_threshold):
-                # Convert to a TreeSet.
-                idx[word] = TreeSet(word_idx)
+                self._convert(word, word_idx, TreeSet)
+
+    def _convert(self, word, word_idx, factory):
+        """Replace the docids of a word by a set of another type."""
+        self._fwd_index[word] = factory(word_idx)
+        # Change the replaced set, too: a concurrent transaction which
+        # updates it has to conflict, otherwise its update would be lost.
+        for docid in list(word_idx):
+            word_idx.remove(docid)
 
     def _insert_reverse(self, docid, words):
         """ add words to forward index """
@@ -210,7 +217,6 @@ class KeywordIndex(Persistent):
         This converts internal data structures between
         Sets and TreeSets based on tree_threshold.
         """
-        idx = self._fwd_index
         IF = self.family.IF
         Set = IF.Set
         TreeSet = IF.TreeSet
@@ -219,11 +225,11 @@ class KeywordIndex(Persistent):
             if len(word_idx) >= self.tree_threshold:
                 if not isinstance(word_idx, TreeSet):
                     # Convert to a TreeSet.
-                    idx[word] = TreeSet(word_idx)
+                    self._convert(word, word_idx, TreeSet)
             else:
                 if isinstance(word_idx, TreeSet):
                     # Convert to a Set.
-                    idx[word] = Set(word_idx)
+                    self._convert(word, word_idx, Set)
 
 
 class CaseInsensitiveKeywordIndex(KeywordIndex):
-- 
2.43.0

