From 9ddafd70823cb27464077be60e822c3dffb8389f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:29 +0000
Subject: [PATCH 01/59] fix: levenshtein_distance must only search the trimmed
 part of the longest string

When the trimmed shortest string has a single character, that character was
searched for in the whole longest string, common prefix & suffix included, so
that e.g. 'bb' & 'cb' were said to be at distance 0.
---
 cfog/metrics/levenshtein.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfog/metrics/levenshtein.pyx b/cfog/metrics/levenshtein.pyx
index ac22ac7..4772414 100644
--- a/cfog/metrics/levenshtein.pyx
+++ b/cfog/metrics/levenshtein.pyx
@@ -69,7 +69,7 @@ def levenshtein_distance(str A, str B):
         return LB
 
     if LA == 1:
-        if A[start] in B:
+        if A[start] in B[start:start + LB]:
             return LB - 1
 
         return LB
-- 
2.43.0


From 33d3be61b5ff1bbcd231673fcf346ae787577481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:29 +0000
Subject: [PATCH 02/59] fix: levenshtein distances must not truncate code
 points above 0xFFFF

Astral characters (e.g. emojis) were stored as unsigned short, so different
characters could be deemed equal and equal ones different.
---
 cfog/metrics/levenshtein.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cfog/metrics/levenshtein.pyx b/cfog/metrics/levenshtein.pyx
index 4772414..b08dc4e 100644
--- a/cfog/metrics/levenshtein.pyx
+++ b/cfog/metrics/levenshtein.pyx
@@ -74,7 +74,7 @@ def levenshtein_distance(str A, str B):
 
         return LB
 
-    cdef unsigned short *codes = <unsigned short *> malloc(LB * sizeof(unsigned short))
+    cdef unsigned int *codes = <unsigned int *> malloc(LB * sizeof(unsigned int))
     cdef unsigned int *vector = <unsigned int *> malloc(LB * sizeof(unsigned int))
 
     cdef unsigned int i = 0
@@ -87,7 +87,7 @@ def levenshtein_distance(str A, str B):
     cdef unsigned int current = 0
     cdef unsigned int left = 0
     cdef unsigned int above = 0
-    cdef unsigned short charA = 0
+    cdef unsigned int charA = 0
     cdef unsigned int j = 0
 
     i = 0
@@ -192,7 +192,7 @@ def limited_levenshtein_distance(unsigned int max_distance, str A, str B):
     elif diff > max_distance:
         return upper_bound
 
-    cdef unsigned short *codes = <unsigned short *> malloc(LB * sizeof(unsigned short))
+    cdef unsigned int *codes = <unsigned int *> malloc(LB * sizeof(unsigned int))
     cdef unsigned int *vector = <unsigned int *> malloc(LB * sizeof(unsigned int))
 
     cdef unsigned int i = 0
-- 
2.43.0


From e8ac17d9c40d5c86d55344936ad692e72cee19f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:29 +0000
Subject: [PATCH 03/59] fix: limited_levenshtein_distance must free its buffers
 on early termination

---
 cfog/metrics/levenshtein.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cfog/metrics/levenshtein.pyx b/cfog/metrics/levenshtein.pyx
index b08dc4e..5a866b9 100644
--- a/cfog/metrics/levenshtein.pyx
+++ b/cfog/metrics/levenshtein.pyx
@@ -254,6 +254,8 @@ def limited_levenshtein_distance(unsigned int max_distance, str A, str B):
             j += 1
 
         if have_max and vector[i + diff] > max_distance:
+            free(codes)
+            free(vector)
             return upper_bound
 
         i += 1
-- 
2.43.0


From 6206b6dbd2a599f8c83825817998a3da09159a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:28 +0000
Subject: [PATCH 04/59] fix: pairwise_leader must drop clusters larger than
 max_size

Reaching max_size raised an AttributeError (sets have no delete method). The
too large cluster is now dropped and its followers released.
---
 fog/clustering/pairwise.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fog/clustering/pairwise.py b/fog/clustering/pairwise.py
index 54f1ccc..e6fe2a9 100644
--- a/fog/clustering/pairwise.py
+++ b/fog/clustering/pairwise.py
@@ -90,6 +90,7 @@ def pairwise_leader(data, similarity=None, distance=None, radius=None,
         A = data[i]
 
         cluster = None
+        followers = []
 
         for j in range(i + 1, n):
             if j in visited:
@@ -105,11 +106,12 @@ def pairwise_leader(data, similarity=None, distance=None, radius=None,
                     cluster.append(B)
 
                 if len(cluster) > max_size:
-                    for c in range(1, len(cluster)):
-                        visited.delete(c)
+                    visited.difference_update(followers)
+                    cluster = None
                     break
 
                 visited.add(j)
+                followers.append(j)
 
         if cluster is not None and len(cluster) >= min_size:
             yield cluster
-- 
2.43.0


From 129dde1fd82fafe9d902bc3f523616b9fb9461c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:28 +0000
Subject: [PATCH 05/59] fix: passjoin must not repeat items in fuzzy clusters

The same pair can be matched by more than one segment, so pairs must be
deduplicated when building clusters.
---
 fog/clustering/passjoin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fog/clustering/passjoin.py b/fog/clustering/passjoin.py
index 76804ef..3d8ad53 100644
--- a/fog/clustering/passjoin.py
+++ b/fog/clustering/passjoin.py
@@ -279,5 +279,6 @@ def passjoin(data, k, distance, sort=True, min_size=2, max_size=float('inf'),
         clustering(),
         min_size=min_size,
         max_size=max_size,
-        mode=mode
+        mode=mode,
+        fuzzy=True
     )
-- 
2.43.0


From c99ef84482e51c40c454a20da93a4538dfc104cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:28 +0000
Subject: [PATCH 06/59] fix: adaptive_sorted_neighborhood must not enlarge its
 window past the data

Similar items near the end of the sorted data raised an IndexError.
---
 fog/clustering/sorted_neighborhood.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fog/clustering/sorted_neighborhood.py b/fog/clustering/sorted_neighborhood.py
index 9eae5e3..84259ff 100644
--- a/fog/clustering/sorted_neighborhood.py
+++ b/fog/clustering/sorted_neighborhood.py
@@ -119,11 +119,13 @@ def full_AA_SNM(sorted_records, similarity, window):
         f = first
 
         # Enlargement
-        while similarity(sorted_records[first], sorted_records[last]):
+        while last < n and similarity(sorted_records[first], sorted_records[last]):
             w = last - f + 1
             first = last
             last = first + w - 1
 
+        last = min(last, n - 1)
+
         # Retrenchment
         w = last - f + 1
 
-- 
2.43.0


From b0b20b91dec8cb21073d486b05b116e8a27448de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:28 +0000
Subject: [PATCH 07/59] fix: multipass sorted neighborhood must not exhaust its
 data on the first pass

When given a one-shot iterable, every pass but the first one was run on
nothing.
---
 fog/clustering/sorted_neighborhood.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fog/clustering/sorted_neighborhood.py b/fog/clustering/sorted_neighborhood.py
index 84259ff..a32ef8a 100644
--- a/fog/clustering/sorted_neighborhood.py
+++ b/fog/clustering/sorted_neighborhood.py
@@ -81,6 +81,10 @@ def sorted_neighborhood(data, key=None, keys=None, similarity=None, distance=Non
     # Formatting similarity
     similarity = make_similarity_function(similarity=similarity, distance=distance, radius=radius)
 
+    # We may need to iterate more than once over the data
+    if type(data) is not list:
+        data = list(data)
+
     # Iterating over sorted data
     def clustering():
         multipass_keys = keys if keys is not None else [key]
@@ -199,6 +203,10 @@ def adaptive_sorted_neighborhood(data, key=None, keys=None, similarity=None,
     # Formatting similarity
     similarity = make_similarity_function(similarity=similarity, distance=distance, radius=radius)
 
+    # We may need to iterate more than once over the data
+    if type(data) is not list:
+        data = list(data)
+
     # Iterating over sorted data
     def clustering():
         multipass_keys = keys if keys is not None else [key]
-- 
2.43.0


From f197c253277d1295c0d3e4e3b1339659c7f25c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:28 +0000
Subject: [PATCH 08/59] fix: key_collision must respect min_size & max_size
 when merging buckets

---
 fog/clustering/key_collision.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fog/clustering/key_collision.py b/fog/clustering/key_collision.py
index 7420cda..3a2b050 100644
--- a/fog/clustering/key_collision.py
+++ b/fog/clustering/key_collision.py
@@ -76,7 +76,12 @@ def key_collision(data, key=None, keys=None, min_size=2, max_size=float('inf'),
 
     # Merging clusters
     if merge and key is None:
-        yield from clusters_from_buckets(buckets.values(), fuzzy=True)
+        yield from clusters_from_buckets(
+            buckets.values(),
+            min_size=min_size,
+            max_size=max_size,
+            fuzzy=True
+        )
 
     # Buckets as clusters
     else:
-- 
2.43.0


From 0da7e315ad1e11000f20e70f74fce423fefeafd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:28 +0000
Subject: [PATCH 09/59] fix: key_collision must not add an item twice to the
 same bucket

An item whose keys function returned the same key twice ended up clustered with
itself.
---
 fog/clustering/key_collision.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/clustering/key_collision.py b/fog/clustering/key_collision.py
index 3a2b050..6030700 100644
--- a/fog/clustering/key_collision.py
+++ b/fog/clustering/key_collision.py
@@ -70,7 +70,7 @@ def key_collision(data, key=None, keys=None, min_size=2, max_size=float('inf'),
             if not ks:
                 continue
 
-            for k in ks:
+            for k in dict.fromkeys(ks):
                 if k:
                     buckets[k].append(item)
 
-- 
2.43.0


From e64d0d5a315404cd8715dd64a1c132dd8010d638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:28 +0000
Subject: [PATCH 10/59] fix: vp_tree must not raise when given less than two
 items

---
 fog/clustering/vp_tree.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fog/clustering/vp_tree.py b/fog/clustering/vp_tree.py
index 299ab31..1a8d33f 100644
--- a/fog/clustering/vp_tree.py
+++ b/fog/clustering/vp_tree.py
@@ -44,6 +44,13 @@ def vp_tree(data, distance, radius, min_size=2, max_size=float('inf')):
     if type(data) is not list:
         data = list(data)
 
+    # NOTE: a vantage point tree cannot index less than two items
+    if len(data) < 2:
+        if len(data) == 1 and min_size <= 1 <= max_size:
+            yield [data[0]]
+
+        return
+
     tree = VPTree(data, distance, selection='spread')
 
     visited = set()
-- 
2.43.0


From ea04c9688fa9ec4017671e00844ba9c86cc29856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:28 +0000
Subject: [PATCH 11/59] fix: quickjoin must use a true distance when given a
 similarity

The opposite of a similarity being negative, the windows were always empty and
pairs lying on different sides of a partition were lost.
---
 fog/clustering/quickjoin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fog/clustering/quickjoin.py b/fog/clustering/quickjoin.py
index 13a0fd4..1a85ca6 100644
--- a/fog/clustering/quickjoin.py
+++ b/fog/clustering/quickjoin.py
@@ -234,8 +234,8 @@ def quickjoin(data, radius, distance=None, similarity=None, block_size=500,
         data = list(data)
 
     if similarity is not None:
-        distance = lambda x, y: -similarity(x, y)
-        radius = -radius
+        distance = lambda x, y: 1 - similarity(x, y)
+        radius = 1 - radius
 
     # Iterator recursively partitioning the data set using QuickJoin's method
     def blocks():
-- 
2.43.0


From d6edf1d691d428e25cfd87bc3a257ba9dec17d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:28 +0000
Subject: [PATCH 12/59] fix: quickjoin must terminate when given more than
 block_size identical items

Identical items cannot be told apart by any pivot, so that partitioning them
never ended.
---
 fog/clustering/quickjoin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fog/clustering/quickjoin.py b/fog/clustering/quickjoin.py
index 1a85ca6..3d80186 100644
--- a/fog/clustering/quickjoin.py
+++ b/fog/clustering/quickjoin.py
@@ -230,8 +230,8 @@ def quickjoin(data, radius, distance=None, similarity=None, block_size=500,
 
     rng = random.Random(seed)
 
-    if type(data) is not list:
-        data = list(data)
+    # NOTE: identical items cannot be partitioned
+    data = list(dict.fromkeys(data))
 
     if similarity is not None:
         distance = lambda x, y: 1 - similarity(x, y)
-- 
2.43.0


From 7567a00af258dc6bf95ce7d20241bdd3c2919903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:28 +0000
Subject: [PATCH 13/59] fix: quickjoin must not raise on empty blocks when
 using vantage point trees

---
 fog/clustering/quickjoin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/clustering/quickjoin.py b/fog/clustering/quickjoin.py
index 3d80186..7719a1e 100644
--- a/fog/clustering/quickjoin.py
+++ b/fog/clustering/quickjoin.py
@@ -109,7 +109,7 @@ def quickjoin_vptree(S1, S2, distance, radius):
 
 def quickjoin_self_vptree(S, distance, radius):
 
-    if len(S) == 1:
+    if len(S) < 2:
         return
 
     tree = VPTree(S, distance)
-- 
2.43.0


From 41a60354e93eab45e0d39d60b509929aadbf3922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:28 +0000
Subject: [PATCH 14/59] fix: ppjoin positional filter & index must rely on the
 token's position

The threshold was used in place of the current token's position, so that e.g.
identical records could be missed.
---
 fog/clustering/ppjoin.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fog/clustering/ppjoin.py b/fog/clustering/ppjoin.py
index f995e00..653ec98 100644
--- a/fog/clustering/ppjoin.py
+++ b/fog/clustering/ppjoin.py
@@ -381,7 +381,7 @@ def ppjoin(records, threshold, metric='jaccard', tokenizer=None, all_pairs=False
 
                 if value is None:
                     if (
-                        record_length - threshold < require_overlap
+                        record_length - t < require_overlap
                         or (candidate_length - candidate_pos) < require_overlap
                     ):
                         continue
@@ -389,14 +389,14 @@ def ppjoin(records, threshold, metric='jaccard', tokenizer=None, all_pairs=False
                     occurances[candidate_id] = 1
                 else:
                     if (
-                        value + (record_length - threshold) < require_overlap
+                        value + (record_length - t) < require_overlap
                         or value + (candidate_length - candidate_pos) < require_overlap
                     ):
                         occurances[candidate_id] = PRUNE_FLAG
                     else:
                         occurances[candidate_id] += 1
 
-            if threshold < index_length:
+            if t < index_length:
                 ids.append((k, t))
 
         for candidate, count in occurances.items():
-- 
2.43.0


From e28b9eb55372bceb56ae60f639775dcf14bdffb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:28 +0000
Subject: [PATCH 15/59] fix: ppjoin must count token frequencies when no
 tokenizer is given

---
 fog/clustering/ppjoin.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fog/clustering/ppjoin.py b/fog/clustering/ppjoin.py
index 653ec98..be14aac 100644
--- a/fog/clustering/ppjoin.py
+++ b/fog/clustering/ppjoin.py
@@ -224,9 +224,9 @@ def preprocess(records, tokenizer=None, token_ordering=None):
             if not isinstance(record, list):
                 record = list(record)
 
-            if token_ordering == 'freq':
-                for token in record:
-                    freqs[token] += 1
+        if token_ordering == 'freq':
+            for token in record:
+                freqs[token] += 1
 
         record = sorted_uniq(record)
 
-- 
2.43.0


From 842c9c3881be4977e03283e50d0c461a1a814657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:28 +0000
Subject: [PATCH 16/59] fix: ppjoin must not raise on records without tokens

---
 fog/clustering/ppjoin.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fog/clustering/ppjoin.py b/fog/clustering/ppjoin.py
index be14aac..0419201 100644
--- a/fog/clustering/ppjoin.py
+++ b/fog/clustering/ppjoin.py
@@ -309,6 +309,10 @@ def ppjoin(records, threshold, metric='jaccard', tokenizer=None, all_pairs=False
         record = tokenized_records[k]
         record_length = len(record)
 
+        # NOTE: a record without tokens cannot be similar to another one
+        if record_length == 0:
+            continue
+
         min_length = helper.min_possible_length(record_length)
         probe_length = helper.probe_length(record_length)
         index_length = helper.index_length(record_length)
-- 
2.43.0


From ee6f161b5874e98771ac691a4bd0783d89bb341c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:37 +0000
Subject: [PATCH 17/59] fix: guess_bands must not return more bands than
 integers in the signature

A radius under 1 / h made minhash raise a ValueError.
---
 fog/clustering/minhash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/clustering/minhash.py b/fog/clustering/minhash.py
index 3701d26..4f3e6a2 100644
--- a/fog/clustering/minhash.py
+++ b/fog/clustering/minhash.py
@@ -88,7 +88,7 @@ def guess_bands(h, threshold):
 
         bands += 1
 
-    return bands
+    return min(bands, h)
 
 
 def minhash(data, h=256, key=None, radius=0.8, bands=None, use_numpy=False,
-- 
2.43.0


From 96b128afd7b206d994c59141f3a78e0ea72b06be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:37 +0000
Subject: [PATCH 18/59] fix: nn_descent must terminate when there are less than
 k neighbors to find

An item cannot have more than n - 1 neighbors: sampling k >= n of them never
ended, nor did nn_descent_full on a single item, and no item at all raised.
---
 fog/clustering/nn_descent.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/fog/clustering/nn_descent.py b/fog/clustering/nn_descent.py
index ed1b47e..9621b1f 100644
--- a/fog/clustering/nn_descent.py
+++ b/fog/clustering/nn_descent.py
@@ -109,10 +109,16 @@ def nn_descent(data, radius, similarity=None, distance=None, k=None,
     B = []
     N = len(V)
 
+    # There is no neighbor to find
+    if N < 2:
+        return
+
     # Chosing k
     if k is None:
         k = int(math.log2(N))
 
+    k = min(k, N - 1)
+
     # Initial samples
     for i, item in enumerate(V):
         neighbors = [(similarity(item, V[j]), j) for j in sample(rng, N, k, i)]
@@ -274,10 +280,16 @@ def nn_descent_full(data, radius, similarity=None, distance=None, k=None,
     B = []
     N = len(V)
 
+    # There is no neighbor to find
+    if N < 2:
+        return
+
     # Chosing k
     if k is None:
         k = int(math.log2(N))
 
+    k = min(k, N - 1)
+
     NK = N * k
     rhoK = int(rho * k)
 
-- 
2.43.0


From cde996c90b07985c2c6242812d26909adb5b2a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:37 +0000
Subject: [PATCH 19/59] fix: minhash signatures computed with numpy must not
 overflow

The universal hash function was computed using 32 bits integers, raising a
casting error when reducing modulo a prime over 32 bits.
---
 fog/lsh/minhash.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fog/lsh/minhash.py b/fog/lsh/minhash.py
index a1bb2c6..50d8cf4 100644
--- a/fog/lsh/minhash.py
+++ b/fog/lsh/minhash.py
@@ -102,7 +102,7 @@ class MinHash(object):
             if len(tokens) == 0:
                 return np.zeros(self.h, dtype=np.uint32)
 
-            signature = np.repeat(list(tokens), self.h).astype(np.uint32, copy=False)
+            signature = np.repeat(list(tokens), self.h).astype(np.uint64, copy=False)
             signature.shape = (len(tokens), self.h)
 
             # Universal hash
@@ -110,7 +110,7 @@ class MinHash(object):
             signature += self.B
             signature %= NEXT_PRIME
 
-            return signature.min(axis=0)
+            return np.minimum(signature.min(axis=0), MAX_UINT32).astype(np.uint32)
 
         # Standard routine
         params = self.params
-- 
2.43.0


From f5df1922812df31b70c2a4b28fbbcc67b9c9cd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:54 +0000
Subject: [PATCH 20/59] fix: sparse_cosine_similarity must not raise on null
 vectors

---
 fog/metrics/cosine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fog/metrics/cosine.py b/fog/metrics/cosine.py
index aae28ac..61fed0c 100644
--- a/fog/metrics/cosine.py
+++ b/fog/metrics/cosine.py
@@ -66,6 +66,9 @@ def sparse_cosine_similarity(A, B):
         weight = v
         yy += weight ** 2
 
+    if xx == 0.0 or yy == 0.0:
+        return 0.0
+
     return xy / math.sqrt(xx * yy)
 
 
-- 
2.43.0


From 17465353ca5cd4709a636d0cf11d6c6cc37f5ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:54 +0000
Subject: [PATCH 21/59] fix: weighted_jaccard_similarity must not raise on null
 weights

---
 fog/metrics/jaccard.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fog/metrics/jaccard.py b/fog/metrics/jaccard.py
index 319cc66..7c80273 100644
--- a/fog/metrics/jaccard.py
+++ b/fog/metrics/jaccard.py
@@ -127,4 +127,7 @@ def weighted_jaccard_similarity(A, B):
 
         U += v
 
+    if U == 0.0:
+        return 0.0
+
     return I / U
-- 
2.43.0


From 62cd2a8e7b2fcc14ff49ddf3530bfa2933b7d145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:54 +0000
Subject: [PATCH 22/59] fix: squeeze must drop consecutive line breaks too

---
 fog/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/utils.py b/fog/utils.py
index 2099c1b..5aa3c01 100644
--- a/fog/utils.py
+++ b/fog/utils.py
@@ -7,7 +7,7 @@
 import re
 from statistics import StatisticsError
 
-SQUEEZE_RE = re.compile(r'(.)\1+')
+SQUEEZE_RE = re.compile(r'(.)\1+', re.DOTALL)
 SQUEEZE_ROMAN_RE = re.compile(r'([^IXCMixcm])\1+')
 
 
-- 
2.43.0


From cf34257f71f36af6d44c543b0529b48e9c53a892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:39 +0000
Subject: [PATCH 23/59] fix: intersection_size must not count repeated items
 when given the same sequence twice

---
 fog/metrics/utils.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/fog/metrics/utils.py b/fog/metrics/utils.py
index 87d263a..126ba2a 100644
--- a/fog/metrics/utils.py
+++ b/fog/metrics/utils.py
@@ -8,9 +8,6 @@ ACCEPTABLE_TYPES = (set, frozenset, dict)
 
 
 def intersection_size(A, B):
-    if A is B:
-        return len(A)
-
     if not isinstance(A, ACCEPTABLE_TYPES):
         A = set(A)
 
-- 
2.43.0


From b84aa821b7a667abe4842c8ee2878069d3a196eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:30 +0000
Subject: [PATCH 24/59] fix: monopartite_projection must not raise on nodes
 having only null weights

---
 fog/graph/projection.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fog/graph/projection.py b/fog/graph/projection.py
index 19c57f9..056e3fb 100644
--- a/fog/graph/projection.py
+++ b/fog/graph/projection.py
@@ -162,6 +162,10 @@ def monopartite_projection(bipartite, project, part='bipartite', weight='weight'
                     if monopartite.has_edge(n1, n2):
                         continue
 
+                    # NOTE: nodes whose norm is 0 have no vector
+                    if n2 not in vectors:
+                        continue
+
                     norm2, vector2 = vectors[n2]
 
                     # NOTE: at this point, both norms should be > 0
-- 
2.43.0


From e66d46163f4548210f7fe7b4684f38b798f0fe19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:30 +0000
Subject: [PATCH 25/59] fix: monopartite_projection must not require nodes to
 be comparable

---
 fog/graph/projection.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/fog/graph/projection.py b/fog/graph/projection.py
index 056e3fb..c552b58 100644
--- a/fog/graph/projection.py
+++ b/fog/graph/projection.py
@@ -136,6 +136,7 @@ def monopartite_projection(bipartite, project, part='bipartite', weight='weight'
 
     # Version relying on graph traversals
     if use_topology:
+        order = {node: i for i, node in enumerate(vectors)}
 
         for n1, (norm1, vector1) in vectors.items():
             for np in bipartite.neighbors(n1):
@@ -146,7 +147,8 @@ def monopartite_projection(bipartite, project, part='bipartite', weight='weight'
                     # the same as cutting edges from n1 to np after you
                     # traversed them.
                     # We also avoid (n1, n1) since n1 is obv. a neighbor of np.
-                    if n1 >= n2:
+                    # NOTE: nodes whose norm is 0 have no vector
+                    if n2 not in order or order[n1] >= order[n2]:
                         continue
 
                     # NOTE: if a threshold is given, this condition does
@@ -162,10 +164,6 @@ def monopartite_projection(bipartite, project, part='bipartite', weight='weight'
                     if monopartite.has_edge(n1, n2):
                         continue
 
-                    # NOTE: nodes whose norm is 0 have no vector
-                    if n2 not in vectors:
-                        continue
-
                     norm2, vector2 = vectors[n2]
 
                     # NOTE: at this point, both norms should be > 0
-- 
2.43.0


From efb98400d7a576738affff50ef974bcb35e16694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:30 +0000
Subject: [PATCH 26/59] fix: floatsam_sparsification must terminate when no
 component drifts away

---
 fog/graph/sparsification.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fog/graph/sparsification.py b/fog/graph/sparsification.py
index 10a024b..df7f128 100644
--- a/fog/graph/sparsification.py
+++ b/fog/graph/sparsification.py
@@ -55,10 +55,16 @@ def floatsam_sparsification(graph, starting_treshold=0.0, learning_rate=0.05,
     if max_drifter_size is None:
         max_drifter_size = int(math.log(len(graph)))
 
+    max_weight = max(w for _, _, w in graph.edges(data=weight))
+
     while True:
         best_threshold = threshold
         threshold += learning_rate
 
+        # No edge would remain
+        if threshold > max_weight:
+            break
+
         c = second_largest_component_size(graph, edge_filter)
 
         if c is not None and c >= max_drifter_size:
-- 
2.43.0


From ba22d17731f0b8607307bd71a5418893d2f656c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:30 +0000
Subject: [PATCH 27/59] fix: hashjoin must not exhaust its right iterator on
 the first item

---
 fog/join/hashjoin.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fog/join/hashjoin.py b/fog/join/hashjoin.py
index 43be394..fa905b2 100644
--- a/fog/join/hashjoin.py
+++ b/fog/join/hashjoin.py
@@ -45,6 +45,10 @@ def hashjoin(left, right, key=None, keys=None):
             similar pairs.
             """)
 
+    # NOTE: B is iterated upon once per item of A
+    if iter(B) is B:
+        B = list(B)
+
     # Single key
     if key is not None:
         for a in A:
-- 
2.43.0


From 05d850ea822abc2aa007ae3dfcdc14cdc023f910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:30 +0000
Subject: [PATCH 28/59] fix: hashjoin must not exhaust the keys of an item on
 the first comparison

---
 fog/join/hashjoin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fog/join/hashjoin.py b/fog/join/hashjoin.py
index fa905b2..c7173d1 100644
--- a/fog/join/hashjoin.py
+++ b/fog/join/hashjoin.py
@@ -67,12 +67,12 @@ def hashjoin(left, right, key=None, keys=None):
     # Multiple keys
     if keys is not None:
         for a in A:
-            key_a = keys(a)
+            key_a = set(keys(a))
 
             for b in B:
                 key_b = keys(b)
 
-                if len(list(set(key_a) & set(key_b))) > 0:
+                if len(key_a & set(key_b)) > 0:
 
                     if invert:
                         yield (b, a)
-- 
2.43.0


From d0c6774ee6319381b07e4793062e6b4bcb22d181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:15 +0000
Subject: [PATCH 29/59] fix: levenshtein_2d_blocks must not miss strings whose
 middle block is shifted

---
 fog/key/levenshtein.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fog/key/levenshtein.py b/fog/key/levenshtein.py
index 15a318f..3e91c89 100644
--- a/fog/key/levenshtein.py
+++ b/fog/key/levenshtein.py
@@ -213,6 +213,13 @@ def levenshtein_2d_blocks(string, transpositions=False,
             flag3 + string[h * 2:]
         )
 
+        # Middle block can be shifted by one insertion & one deletion
+        if h > 0:
+            basic += (
+                flag2 + string[h - 1:h * 2 - 1],
+                flag2 + string[h + 1:h * 2 + 1]
+            )
+
         if transpositions:
             h1 = h - 1
 
-- 
2.43.0


From d865e000b0f70358d5f41ed24da199354df3b58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:15 +0000
Subject: [PATCH 30/59] fix: damerau_levenshtein_2d_blocks must not raise on
 empty strings

---
 fog/key/levenshtein.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/key/levenshtein.py b/fog/key/levenshtein.py
index 3e91c89..f6b4a68 100644
--- a/fog/key/levenshtein.py
+++ b/fog/key/levenshtein.py
@@ -220,7 +220,7 @@ def levenshtein_2d_blocks(string, transpositions=False,
                 flag2 + string[h + 1:h * 2 + 1]
             )
 
-        if transpositions:
+        if transpositions and h > 0:
             h1 = h - 1
 
             return basic + (
-- 
2.43.0


From 28d682179899a3e4cdd5400d81b653560d320cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:15 +0000
Subject: [PATCH 31/59] fix: damerau_levenshtein_2d_blocks must not miss
 strings having two transpositions

---
 fog/key/levenshtein.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fog/key/levenshtein.py b/fog/key/levenshtein.py
index f6b4a68..ef220e6 100644
--- a/fog/key/levenshtein.py
+++ b/fog/key/levenshtein.py
@@ -251,7 +251,7 @@ def levenshtein_2d_blocks(string, transpositions=False,
         h1 = n // 3
         h = h1 + 1
 
-        return (
+        basic = (
             flag1 + string[:h],
             flag2 + string[h:h + h1],
             flag3 + string[h + h1:],
@@ -263,5 +263,11 @@ def levenshtein_2d_blocks(string, transpositions=False,
             flag3 + string[h1 * 2:]
         )
 
+        # Last two blocks can be separated by a transposition
+        if transpositions and h1 > 0:
+            return basic + (flag2 + string[h:h + h1 - 1] + string[h + h1],)
+
+        return basic
+
 
 damerau_levenshtein_2d_blocks = partial(levenshtein_2d_blocks, transpositions=True)
-- 
2.43.0


From 3d6efab6dad6f3764893e488a40dbd00ce161113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:57 +0000
Subject: [PATCH 32/59] fix: fingerprints must not drop uppercase letters
 produced by deburring

---
 fog/tokenizers/fingerprint.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fog/tokenizers/fingerprint.py b/fog/tokenizers/fingerprint.py
index 2c23bc0..0caa3ee 100644
--- a/fog/tokenizers/fingerprint.py
+++ b/fog/tokenizers/fingerprint.py
@@ -104,7 +104,8 @@ class FingerprintTokenizer(object):
             string = re.sub(self.min_token_size_re, '', string)
 
         # Deburring
-        string = unidecode(string)
+        # NOTE: some transliterations contain uppercase letters
+        string = unidecode(string).lower()
 
         # Only keeping letters
         string = re.sub(BLACKLIST_RE, '', string)
@@ -157,7 +158,8 @@ class NgramsFingerprintTokenizer(FingerprintTokenizer):
             string = re.sub(self.min_token_size_re, '', string)
 
         # Deburring
-        string = unidecode(string)
+        # NOTE: some transliterations contain uppercase letters
+        string = unidecode(string).lower()
 
         # Only keeping letters
         string = re.sub(BLACKLIST_RE, '', string)
-- 
2.43.0


From a4f588154852ff03d4e5349d0f7d17ee16f7df79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:57 +0000
Subject: [PATCH 33/59] fix: fingerprints must drop digits produced by
 deburring when asked to

---
 fog/tokenizers/fingerprint.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fog/tokenizers/fingerprint.py b/fog/tokenizers/fingerprint.py
index 0caa3ee..9824ea4 100644
--- a/fog/tokenizers/fingerprint.py
+++ b/fog/tokenizers/fingerprint.py
@@ -107,6 +107,10 @@ class FingerprintTokenizer(object):
         # NOTE: some transliterations contain uppercase letters
         string = unidecode(string).lower()
 
+        # Digits produced by deburring, e.g. from "½"
+        if not self.keep_digits:
+            string = re.sub(DIGITS_RE, '', string)
+
         # Only keeping letters
         string = re.sub(BLACKLIST_RE, '', string)
 
@@ -161,6 +165,10 @@ class NgramsFingerprintTokenizer(FingerprintTokenizer):
         # NOTE: some transliterations contain uppercase letters
         string = unidecode(string).lower()
 
+        # Digits produced by deburring, e.g. from "½"
+        if not self.keep_digits:
+            string = re.sub(DIGITS_RE, '', string)
+
         # Only keeping letters
         string = re.sub(BLACKLIST_RE, '', string)
 
-- 
2.43.0


From 8466de61a5e7bb034b5cf4592234ef2041351b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:48 +0000
Subject: [PATCH 34/59] fix: fingerprint tokenizers must accept an empty list
 of splitting characters

---
 fog/tokenizers/fingerprint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/tokenizers/fingerprint.py b/fog/tokenizers/fingerprint.py
index 9824ea4..b8ba3fd 100644
--- a/fog/tokenizers/fingerprint.py
+++ b/fog/tokenizers/fingerprint.py
@@ -76,7 +76,7 @@ class FingerprintTokenizer(object):
                 re.I
             )
 
-        if split is not None:
+        if split:
             self.split_re = re.compile('[' + re.escape(''.join(split)) + ']')
 
         if min_token_size and min_token_size > 1:
-- 
2.43.0


From 613758394e225dad4337de47ce546098f3ea8e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:18 +0000
Subject: [PATCH 35/59] fix: WordTokenizer must not drop the text following the
 point of what is not an acronym

---
 fog/tokenizers/words.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fog/tokenizers/words.py b/fog/tokenizers/words.py
index ca21436..6020e19 100644
--- a/fog/tokenizers/words.py
+++ b/fog/tokenizers/words.py
@@ -502,8 +502,9 @@ class WordTokenizer(object):
                     yield ('word', before)
 
                 else:
-                    for t in POINT_SPLITTER_RE.split(before)[:-1]:
-                        yield ('word' if t != '.' else 'punct', t)
+                    for t in POINT_SPLITTER_RE.split(before):
+                        if t:
+                            yield ('word' if t != '.' else 'punct', t)
 
                 i = j
                 continue
-- 
2.43.0


From 230f7ab664026153760de0b08337976805b20cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:18 +0000
Subject: [PATCH 36/59] fix: WordTokenizer must not yield empty tokens

---
 fog/tokenizers/words.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fog/tokenizers/words.py b/fog/tokenizers/words.py
index 6020e19..119ba1c 100644
--- a/fog/tokenizers/words.py
+++ b/fog/tokenizers/words.py
@@ -576,7 +576,8 @@ class WordTokenizer(object):
 
                     if hyphens == 2 and '-t-' in before:
                         for t in before.split('-'):
-                            yield (token_type, t)
+                            if t:
+                                yield (token_type, t)
 
                     elif hyphens == 1:
                         a, b = before.split('-')
-- 
2.43.0


From dbf822ea33203644c65eb75ccea253e97b774a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:18 +0000
Subject: [PATCH 37/59] fix: WordTokenizer must not tag a lone hyphen as a
 number

---
 fog/tokenizers/words.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fog/tokenizers/words.py b/fog/tokenizers/words.py
index 119ba1c..5037aa1 100644
--- a/fog/tokenizers/words.py
+++ b/fog/tokenizers/words.py
@@ -442,6 +442,10 @@ class WordTokenizer(object):
                 if already_consumed and j > i + 1 and string[j - 1] in DECIMALS:
                     j -= 1
 
+                # A hyphen without any digit is not a number
+                if c == '-' and j == i + 1:
+                    token_type = 'punct'
+
             # Alphanumerical token
             can_be_acronym = False
 
-- 
2.43.0


From 757f0f3c586de630cf7d8c557780df4092089437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:18 +0000
Subject: [PATCH 38/59] fix: WordTokenizer must tag contractions as words,
 whatever they follow

---
 fog/tokenizers/words.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/tokenizers/words.py b/fog/tokenizers/words.py
index 5037aa1..63fe6f3 100644
--- a/fog/tokenizers/words.py
+++ b/fog/tokenizers/words.py
@@ -535,7 +535,7 @@ class WordTokenizer(object):
 
                     elif after in ENGLISH_CONTRACTIONS:
                         yield (token_type, before)
-                        yield (token_type, string[j] + after)
+                        yield ('word', string[j] + after)
 
                     elif (
                         (before.endswith('n') and after == 't') or
-- 
2.43.0


From da374564ebce0811662c2b1ab8eb8371046f86dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:18 +0000
Subject: [PATCH 39/59] fix: WordTokenizer must not glue apostrophes to
 numbers, hashtags & mentions

---
 fog/tokenizers/words.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/fog/tokenizers/words.py b/fog/tokenizers/words.py
index 63fe6f3..acf6566 100644
--- a/fog/tokenizers/words.py
+++ b/fog/tokenizers/words.py
@@ -528,15 +528,21 @@ class WordTokenizer(object):
                 if k > j + 1:
                     after = string[j + 1:k]
 
-                    if after[0].isdigit():
+                    if after in ENGLISH_CONTRACTIONS:
+                        yield (token_type, before)
+                        yield ('word', string[j] + after)
+
+                    # Only words can be glued to an apostrophe
+                    elif token_type != 'word':
+                        yield (token_type, before)
+                        i = j
+                        continue
+
+                    elif after[0].isdigit():
                         yield (token_type, before + string[j])
                         i = j + 1
                         continue
 
-                    elif after in ENGLISH_CONTRACTIONS:
-                        yield (token_type, before)
-                        yield ('word', string[j] + after)
-
                     elif (
                         (before.endswith('n') and after == 't') or
                         after in FRENCH_EXCEPTIONS or
-- 
2.43.0


From 587a72e7d269d13351ac5e0955c7eca2af03fda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:40 +0000
Subject: [PATCH 40/59] fix: WordTokenizer must split hashtags followed by an
 apostrophe

---
 fog/tokenizers/words.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/fog/tokenizers/words.py b/fog/tokenizers/words.py
index acf6566..9fdb4b0 100644
--- a/fog/tokenizers/words.py
+++ b/fog/tokenizers/words.py
@@ -306,6 +306,12 @@ class WordTokenizer(object):
         ):
             self.__only_defaults = False
 
+    def __entity(self, token_type, token):
+        if token_type == 'hashtag' and self.split_hashtags:
+            yield from split_hashtag(token)
+        else:
+            yield (token_type, token)
+
     def __tokenize(self, string):
         i = 0
         l = len(string)
@@ -529,12 +535,12 @@ class WordTokenizer(object):
                     after = string[j + 1:k]
 
                     if after in ENGLISH_CONTRACTIONS:
-                        yield (token_type, before)
+                        yield from self.__entity(token_type, before)
                         yield ('word', string[j] + after)
 
                     # Only words can be glued to an apostrophe
                     elif token_type != 'word':
-                        yield (token_type, before)
+                        yield from self.__entity(token_type, before)
                         i = j
                         continue
 
@@ -566,7 +572,7 @@ class WordTokenizer(object):
                         continue
 
                 else:
-                    yield (token_type, before)
+                    yield from self.__entity(token_type, before)
                     yield ('punct', string[j])
 
                 j = k
@@ -602,12 +608,8 @@ class WordTokenizer(object):
                     else:
                         yield (token_type, before)
 
-                elif token_type == 'hashtag' and self.split_hashtags:
-                    yield from split_hashtag(before)
-
                 else:
-
-                    yield (token_type, before)
+                    yield from self.__entity(token_type, before)
 
             i = j
 
-- 
2.43.0


From 4e4dabb5403ca626e76e486bd6296d22b2caca84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:48 +0000
Subject: [PATCH 41/59] fix: cologne must squeeze the leading code too

---
 fog/phonetics/cologne.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fog/phonetics/cologne.py b/fog/phonetics/cologne.py
index 39ff309..7fa7986 100644
--- a/fog/phonetics/cologne.py
+++ b/fog/phonetics/cologne.py
@@ -121,6 +121,6 @@ def cologne(name):
         return ''
 
     # Squeezing and dropping not leading 0
-    rest = squeeze(''.join(code[1:])).replace('0', '')
+    code = squeeze(''.join(code))
 
-    return code[0] + rest
+    return code[0] + code[1:].replace('0', '')
-- 
2.43.0


From 560b16804cc456b7182dc487be1fb21b7833f5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:48 +0000
Subject: [PATCH 42/59] fix: cologne must not drop lowercase letters produced
 by deburring

---
 fog/phonetics/cologne.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/phonetics/cologne.py b/fog/phonetics/cologne.py
index 7fa7986..496a654 100644
--- a/fog/phonetics/cologne.py
+++ b/fog/phonetics/cologne.py
@@ -84,7 +84,7 @@ def cologne(name):
     for p, r in GERMANIC_SUBSTITUTIONS:
         name = name.replace(p, r)
 
-    name = unidecode(name)
+    name = unidecode(name).upper()
     name = re.sub(ALPHA_RE, '', name)
 
     code = []
-- 
2.43.0


From 4f91fd9d744f21bf8024aa04a1c272dc2496c7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:48 +0000
Subject: [PATCH 43/59] fix: rusalka must not raise on names whose letters are
 all dropped

---
 fog/phonetics/rusalka.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fog/phonetics/rusalka.py b/fog/phonetics/rusalka.py
index 10246c4..3c85114 100644
--- a/fog/phonetics/rusalka.py
+++ b/fog/phonetics/rusalka.py
@@ -104,6 +104,10 @@ def rusalka(name):
     name = re.sub(DUPLICATED, r'\1', name)
     name = name.lower()
 
+    # NOTE: rules can drop every letter of the name
+    if not name:
+        return name
+
     first_letter = name[0]
     rest = name[1:]
 
-- 
2.43.0


From ed33800d7f92fda1bd0c15d211b6430f9d0549b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:26 +0000
Subject: [PATCH 44/59] fix: rusalka must not drop uppercase letters produced
 by deburring

---
 fog/phonetics/rusalka.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/phonetics/rusalka.py b/fog/phonetics/rusalka.py
index 3c85114..035a3e0 100644
--- a/fog/phonetics/rusalka.py
+++ b/fog/phonetics/rusalka.py
@@ -88,7 +88,7 @@ def rusalka(name):
         name = re.sub(pattern, replacement, name)
 
     # Unidecode
-    name = unidecode(name)
+    name = unidecode(name).lower()
 
     # Dropping irrelevant characters
     name = re.sub(FILTER, '', name)
-- 
2.43.0


From 7f082206a17c69ea38fe10234a334c7e378daa02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:29 +0000
Subject: [PATCH 45/59] fix: the split command must not accumulate the values
 in the target column

---
 fog/cli/split.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/fog/cli/split.py b/fog/cli/split.py
index c8b7ce3..2c4d9e7 100644
--- a/fog/cli/split.py
+++ b/fog/cli/split.py
@@ -31,9 +31,8 @@ def split_action(namespace):
 
         for value in values.split(namespace.separator):
 
-            if namespace.target_column:
-                line.append(value)
+            if namespace.target_column is not None:
+                writer.writerow(line + [value])
             else:
                 line[position] = value
-
-            writer.writerow(line)
+                writer.writerow(line)
-- 
2.43.0


From ea2c2aae371cafab61d185bf095e287799737fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:29 +0000
Subject: [PATCH 46/59] fix: the split command must fill the target column of
 empty cells

---
 fog/cli/split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/cli/split.py b/fog/cli/split.py
index 2c4d9e7..5997290 100644
--- a/fog/cli/split.py
+++ b/fog/cli/split.py
@@ -26,7 +26,7 @@ def split_action(namespace):
         values = line[position]
 
         if len(values) == 0:
-            writer.writerow(line)
+            writer.writerow(line if namespace.target_column is None else line + [''])
             continue
 
         for value in values.split(namespace.separator):
-- 
2.43.0


From 08d8c51f352991eaca15a100cf6bef4e6a958d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:29 +0000
Subject: [PATCH 47/59] fix: CLI commands must not raise on blank lines

---
 fog/cli/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fog/cli/utils.py b/fog/cli/utils.py
index c3b9321..ce2f47b 100644
--- a/fog/cli/utils.py
+++ b/fog/cli/utils.py
@@ -18,4 +18,5 @@ def custom_reader(f, target_header):
 
     position = headers.index(target_header)
 
-    return headers, position, reader
+    # NOTE: blank lines are not rows
+    return headers, position, filter(None, reader)
-- 
2.43.0


From 400650f04467b729411d36c91f636a6e44db2a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:29 +0000
Subject: [PATCH 48/59] fix: TOML reports must escape backslashes & control
 characters

---
 fog/cli/reporting/toml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fog/cli/reporting/toml.py b/fog/cli/reporting/toml.py
index 98b6dd1..e267d24 100644
--- a/fog/cli/reporting/toml.py
+++ b/fog/cli/reporting/toml.py
@@ -4,10 +4,11 @@
 #
 # Function used to render a clustering result into a TOML file.
 #
+import json
 
 
 def escape_string(string):
-    return string.replace('"', '\\"').replace('\n', '\\n')
+    return json.dumps(string, ensure_ascii=False)[1:-1].replace('\x7f', '\\u007f')
 
 
 def print_toml_report(file, meta, values, clusters):
-- 
2.43.0


From e2433b3f388c0b470bceeef55f896bec50241481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:29 +0000
Subject: [PATCH 49/59] fix: HTML reports must escape values

---
 fog/cli/reporting/html.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fog/cli/reporting/html.py b/fog/cli/reporting/html.py
index 3c39c45..4ade43c 100644
--- a/fog/cli/reporting/html.py
+++ b/fog/cli/reporting/html.py
@@ -5,6 +5,7 @@
 # Function used to render a clustering result into a HTML file.
 #
 import datetime
+from html import escape
 
 
 def print_html_report(file, meta, values, clusters):
@@ -92,7 +93,7 @@ def print_html_report(file, meta, values, clusters):
 
         for v in sorted_values:
             p('        <li>')
-            p('          %s' % v)
+            p('          %s' % escape(v))
             p('        </li>')
 
         p('      </ul>')
-- 
2.43.0


From 8b8df97ced204d360c30ed58156be8b75f7bbe4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:28 +0000
Subject: [PATCH 50/59] fix: laesa handles few or identical items and any
 number of pivots

---
 fog/clustering/laesa.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/fog/clustering/laesa.py b/fog/clustering/laesa.py
index ad9be68..d03890b 100644
--- a/fog/clustering/laesa.py
+++ b/fog/clustering/laesa.py
@@ -58,12 +58,16 @@ def pivot_selection(rng, data, pivots, distance):
                 b_prime = j
                 maximum = A[j]
 
+        # NOTE: the remaining items are all identical to the pivots
+        if maximum == 0:
+            break
+
         p.add(b_prime)
 
     p = list(p)
 
     # Pre-computing distances (not necessary, can be done before or later)
-    for i in range(pivots):
+    for i in range(len(p)):
         pivot = data[p[i]]
 
         for j, item in enumerate(data):
@@ -105,6 +109,10 @@ def laesa(data, distance, radius, pivots=None, min_size=2,
     if type(data) is not list:
         data = list(data)
 
+    # There is no pair to find
+    if len(data) < 2:
+        return
+
     # Finding the number of pivots
     if pivots is None:
         pivots = math.ceil(math.log2(len(data)))
@@ -120,7 +128,7 @@ def laesa(data, distance, radius, pivots=None, min_size=2,
             # Distance to the nearest pivot
             d_star = float('inf')
 
-            for j in range(pivots):
+            for j in range(len(p)):
                 d = distance(data[p[j]], x)
 
                 if d < d_star:
@@ -130,7 +138,7 @@ def laesa(data, distance, radius, pivots=None, min_size=2,
 
                 compute = True
 
-                for j in range(pivots):
+                for j in range(len(p)):
                     delta = abs(D[j][i] - D[j][k])
 
                     if delta > d_star:
-- 
2.43.0


From 5890a9ad7563907a22239064198ab91ae39df740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:28 +0000
Subject: [PATCH 51/59] fix: laesa misses pairs because it does not prune by
 the radius

---
 fog/clustering/laesa.py | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/fog/clustering/laesa.py b/fog/clustering/laesa.py
index d03890b..a11d01d 100644
--- a/fog/clustering/laesa.py
+++ b/fog/clustering/laesa.py
@@ -76,7 +76,6 @@ def pivot_selection(rng, data, pivots, distance):
     return p, D
 
 
-# TODO: currently not working
 def laesa(data, distance, radius, pivots=None, min_size=2,
           max_size=float('inf'), seed=None, mode='connected_components'):
     """
@@ -122,18 +121,8 @@ def laesa(data, distance, radius, pivots=None, min_size=2,
     n = len(data)
 
     def clustering():
-        DD = 0
         for i, x in enumerate(data):
 
-            # Distance to the nearest pivot
-            d_star = float('inf')
-
-            for j in range(len(p)):
-                d = distance(data[p[j]], x)
-
-                if d < d_star:
-                    d_star = d
-
             for k in range(i + 1, n):
 
                 compute = True
@@ -141,19 +130,17 @@ def laesa(data, distance, radius, pivots=None, min_size=2,
                 for j in range(len(p)):
                     delta = abs(D[j][i] - D[j][k])
 
-                    if delta > d_star:
+                    # NOTE: triangular inequality
+                    if delta > radius:
                         compute = False
                         break
 
                 if compute:
                     d = distance(x, data[k])
-                    DD += 1
 
                     if d <= radius:
                         yield (x, data[k])
 
-        print('DISTANCES: %i' % DD)
-
     yield from clusters_from_pairs(
         clustering(),
         min_size=min_size,
-- 
2.43.0


From 9c551d0a143b91b75b1d2a5cbc414bbe3643041b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:10 +0000
Subject: [PATCH 52/59] fix: nn_descent lists a same neighbor several times and
 loses others

---
 fog/clustering/nn_descent.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/fog/clustering/nn_descent.py b/fog/clustering/nn_descent.py
index 9621b1f..6119546 100644
--- a/fog/clustering/nn_descent.py
+++ b/fog/clustering/nn_descent.py
@@ -57,6 +57,14 @@ def reverse(B):
     return R
 
 
+def is_neighbor(neighbors, j):
+    """
+    Returns whether the given index is already one of the given neighbors.
+
+    """
+    return any(neighbor[1] == j for neighbor in neighbors)
+
+
 def nn_descent(data, radius, similarity=None, distance=None, k=None,
                min_size=2, max_size=float('inf'),
                mode='connected_components',
@@ -152,7 +160,7 @@ def nn_descent(data, radius, similarity=None, distance=None, k=None,
 
                     s = similarity(V[i], V[jj])
 
-                    if s > B[i][0][0]:
+                    if s > B[i][0][0] and not is_neighbor(B[i], jj):
                         c += 1
                         heapreplace(B[i], (s, jj))
 
@@ -345,11 +353,11 @@ def nn_descent_full(data, radius, similarity=None, distance=None, k=None,
 
                     s = similarity(V[u1], V[u2])
 
-                    if s > B[u1][0][0]:
+                    if s > B[u1][0][0] and not is_neighbor(B[u1], u2):
                         c += 1
                         heapreplace(B[u1], (s, u2, True))
 
-                    if s > B[u2][0][0]:
+                    if s > B[u2][0][0] and not is_neighbor(B[u2], u1):
                         c += 1
                         heapreplace(B[u2], (s, u1, True))
 
@@ -360,11 +368,11 @@ def nn_descent_full(data, radius, similarity=None, distance=None, k=None,
 
                     s = similarity(V[u1], V[u2])
 
-                    if s > B[u1][0][0]:
+                    if s > B[u1][0][0] and not is_neighbor(B[u1], u2):
                         c += 1
                         heapreplace(B[u1], (s, u2, True))
 
-                    if s > B[u2][0][0]:
+                    if s > B[u2][0][0] and not is_neighbor(B[u2], u1):
                         c += 1
                         heapreplace(B[u2], (s, u1, True))
 
-- 
2.43.0


From 6b3acd93b00d5f93a3f796280779add5da2f2f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:12 +0000
Subject: [PATCH 53/59] fix: the html report shows the time taken in seconds,
 not as microseconds

---
 fog/cli/reporting/html.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/cli/reporting/html.py b/fog/cli/reporting/html.py
index 4ade43c..809a4b8 100644
--- a/fog/cli/reporting/html.py
+++ b/fog/cli/reporting/html.py
@@ -75,7 +75,7 @@ def print_html_report(file, meta, values, clusters):
     p('            <b>Took</b>')
     p('          </td>')
     p('          <td>')
-    p('            %s' % datetime.timedelta(microseconds=meta['took']))
+    p('            %s' % datetime.timedelta(seconds=meta['took']))
     p('          </td>')
     p('        </tr>')
     p('      </table>')
-- 
2.43.0


From 025c7a8512295c012020d75ecc5d53412aae5306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:12 +0000
Subject: [PATCH 54/59] fix: the cluster command times the clustering, not the
 creation of its generator

---
 fog/cli/cluster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fog/cli/cluster.py b/fog/cli/cluster.py
index ad0300e..b06f7ad 100644
--- a/fog/cli/cluster.py
+++ b/fog/cli/cluster.py
@@ -41,7 +41,7 @@ def cluster_action(namespace):
         values[line[position]] += 1
 
     start = timer()
-    clusters = routine['fn'](values.keys(), **routine['kwargs'])
+    clusters = list(routine['fn'](values.keys(), **routine['kwargs']))
     end = timer() - start
 
     meta = {
@@ -53,4 +53,4 @@ def cluster_action(namespace):
 
     renderer = RENDERERS[namespace.type]
 
-    renderer(namespace.output, meta, values, list(clusters))
+    renderer(namespace.output, meta, values, clusters)
-- 
2.43.0


From fa0cae4401848e8104c758cc6f463cad80bb3913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:13 +0000
Subject: [PATCH 55/59] fix: ppjoin must not mistake tokens whose crc32 collide
 for the same token

---
 fog/clustering/ppjoin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/clustering/ppjoin.py b/fog/clustering/ppjoin.py
index 0419201..1864e5d 100644
--- a/fog/clustering/ppjoin.py
+++ b/fog/clustering/ppjoin.py
@@ -231,7 +231,7 @@ def preprocess(records, tokenizer=None, token_ordering=None):
         record = sorted_uniq(record)
 
         if token_ordering == 'crc32':
-            record = sorted(crc32(token) for token in record)
+            record = sorted((crc32(token), token) for token in record)
 
         tokenized_records.append(record)
 
-- 
2.43.0


From 9b8f9502b6a3cd072a02681efc1acfb37fdb6cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:06 +0000
Subject: [PATCH 56/59] fix: CLI commands must not alter the newlines within
 cells

---
 fog/cli/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fog/cli/utils.py b/fog/cli/utils.py
index ce2f47b..2f215d6 100644
--- a/fog/cli/utils.py
+++ b/fog/cli/utils.py
@@ -12,6 +12,10 @@ def custom_reader(f, target_header):
     # dialect = sniffer.sniff(f.read(1024))
     # f.seek(0)
 
+    # NOTE: only the csv reader can tell the newlines of cells from those of rows
+    if hasattr(f, 'reconfigure'):
+        f.reconfigure(newline='')
+
     reader = csv.reader(f)
 
     headers = next(reader, None)
-- 
2.43.0


From cc148e8f365cb4e5e62cd91ca24674634475f4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:16 +0000
Subject: [PATCH 57/59] fix: blocking's fuzzy clusters must not depend on the
 order in which workers deliver

---
 fog/clustering/blocking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/clustering/blocking.py b/fog/clustering/blocking.py
index 389b1db..14fe065 100644
--- a/fog/clustering/blocking.py
+++ b/fog/clustering/blocking.py
@@ -137,7 +137,7 @@ def blocking(data, block=None, blocks=None, similarity=None, distance=None,
             )
 
             with Pool(processes=processes) as pool:
-                for pairs in pool.imap_unordered(block_worker, pool_iter):
+                for pairs in pool.imap(block_worker, pool_iter):
                     yield from pairs
 
     yield from clusters_from_pairs(
-- 
2.43.0


From ecf2e1ef0dd09cee167ff618321ed8e2842b43b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:16 +0000
Subject: [PATCH 58/59] fix: quickjoin with a seed must give the same fuzzy
 clusters whatever the order in which workers deliver

---
 fog/clustering/quickjoin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/clustering/quickjoin.py b/fog/clustering/quickjoin.py
index 7719a1e..3ae9210 100644
--- a/fog/clustering/quickjoin.py
+++ b/fog/clustering/quickjoin.py
@@ -328,7 +328,7 @@ def quickjoin(data, radius, distance=None, similarity=None, block_size=500,
                 for S1, S2 in blocks()
             )
 
-            for pairs in pool.imap_unordered(worker, pool_iter):
+            for pairs in pool.imap(worker, pool_iter):
                 yield from pairs
 
     yield from clusters_from_pairs(
-- 
2.43.0


From 5ea32d833536973295a151d568c457b6ea39f51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:28 +0000
Subject: [PATCH 59/59] fix: quickjoin must terminate when block_size is less
 than two

---
 fog/clustering/quickjoin.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fog/clustering/quickjoin.py b/fog/clustering/quickjoin.py
index 3ae9210..ded631e 100644
--- a/fog/clustering/quickjoin.py
+++ b/fog/clustering/quickjoin.py
@@ -233,6 +233,9 @@ def quickjoin(data, radius, distance=None, similarity=None, block_size=500,
     # NOTE: identical items cannot be partitioned
     data = list(dict.fromkeys(data))
 
+    # NOTE: neither can a pair of items, or a single one
+    block_size = max(block_size, 2)
+
     if similarity is not None:
         distance = lambda x, y: 1 - similarity(x, y)
         radius = 1 - radius
-- 
2.43.0

