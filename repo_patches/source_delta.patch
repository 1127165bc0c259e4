From 588661c2806aa6eb4ae71ee30556a467eb9fac6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:12 +0000
Subject: [PATCH 001/193] fix: sequence boundaries are stored as floats but
 used as indices

---
 pybrain/datasets/sequential.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pybrain/datasets/sequential.py b/pybrain/datasets/sequential.py
index 03b2144..0b04d93 100644
--- a/pybrain/datasets/sequential.py
+++ b/pybrain/datasets/sequential.py
@@ -46,7 +46,7 @@ class SequentialDataSet(SupervisedDataSet):
         if len(seq) < index + 1:
             # sequence index beyond number of sequences. raise exception
             raise IndexError('sequence does not exist.')
-        return self.getField(field)[seq[index]:seq[index + 1]]
+        return self.getField(field)[int(seq[index]):int(seq[index + 1])]
 
     def getSequence(self, index):
         """Returns the sequence given by `index`.
@@ -80,7 +80,7 @@ class SequentialDataSet(SupervisedDataSet):
     def gotoSequence(self, index):
         """Move the internal marker to the beginning of sequence `index`."""
         try:
-            self.index = ravel(self.getField('sequence_index'))[index]
+            self.index = int(ravel(self.getField('sequence_index'))[index])
         except IndexError:
             raise IndexError('sequence does not exist')
 
@@ -114,7 +114,7 @@ class SequentialDataSet(SupervisedDataSet):
             # sequence doesn't exist, raise exception
             raise IndexError('sequence does not exist.')
         sequences = ravel(self.getField('sequence_index'))
-        seqstart = sequences[index]
+        seqstart = int(sequences[index])
         if index == self.getNumSequences() - 1:
             # last sequence is going to be removed
             lastSeqDeleted = True
@@ -122,7 +122,7 @@ class SequentialDataSet(SupervisedDataSet):
         else:
             lastSeqDeleted = False
             # sequence to remove is not last one (sequence_index exists)
-            seqend = sequences[index + 1]
+            seqend = int(sequences[index + 1])
 
         # cut out data from all fields
         for label in self.link:
@@ -154,7 +154,7 @@ class SequentialDataSet(SupervisedDataSet):
             # move sequence marker to the new sequence at position 'index'
             self.currentSeq = index
             # move sample marker to beginning of sequence at position 'index'
-            self.index = ravel(self.getField('sequence_index'))[index]
+            self.index = int(ravel(self.getField('sequence_index'))[index])
 
 
     def clear(self):
-- 
2.43.0


From 5bda6d0e08d3add2473e85b3194fef77c4e1be80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:12 +0000
Subject: [PATCH 002/193] fix: counting sequences fails with list vector format

---
 pybrain/datasets/sequential.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/datasets/sequential.py b/pybrain/datasets/sequential.py
index 0b04d93..f6adc8f 100644
--- a/pybrain/datasets/sequential.py
+++ b/pybrain/datasets/sequential.py
@@ -92,7 +92,7 @@ class SequentialDataSet(SupervisedDataSet):
     def getNumSequences(self):
         """Return the number of sequences. The last (open) sequence is also
         counted in, even though there is no additional 'newSequence' marker."""
-        return self.getField('sequence_index').shape[0]
+        return self.endmarker['sequence_index']
 
     def getSequenceLength(self, index):
         """Return the length of the given sequence. If `index` is pointing
-- 
2.43.0


From 904dbd48174c98790a8db840639dbdb4f2eb0771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:12 +0000
Subject: [PATCH 003/193] fix: length of an unlinked dataset is that of its
 longest field

---
 pybrain/datasets/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/datasets/dataset.py b/pybrain/datasets/dataset.py
index 6a11890..4d673ad 100644
--- a/pybrain/datasets/dataset.py
+++ b/pybrain/datasets/dataset.py
@@ -160,7 +160,7 @@ class DataSet(Serializable):
         return the length of the longest field."""
         if self.link == []:
             try:
-                length = self.endmarker[max(self.endmarker)]
+                length = max(self.endmarker.values())
             except ValueError:
                 return 0
             return length
-- 
2.43.0


From 57221986a39ef4a3dfe428dba0f90b46fd2a642a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:12 +0000
Subject: [PATCH 004/193] fix: randomBatches yields the batches in random order

---
 pybrain/datasets/dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/datasets/dataset.py b/pybrain/datasets/dataset.py
index 4d673ad..084f9a1 100644
--- a/pybrain/datasets/dataset.py
+++ b/pybrain/datasets/dataset.py
@@ -359,7 +359,8 @@ class DataSet(Serializable):
 
     def randomBatches(self, label, n):
         """Like .batches(), but the order is random."""
-        permutation = random.shuffle(list(range(len(self))))
+        permutation = list(range((len(self) + n - 1) // n))
+        random.shuffle(permutation)
         return self.batches(label, n, permutation)
 
     def replaceNansByMeans(self):
-- 
2.43.0


From 90e4c1f45a7ae1cb0cb6c8cbf9aa8a3095d3e96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:12 +0000
Subject: [PATCH 005/193] fix: replaceNansByMeans works, and ignores the nans
 in the means

---
 pybrain/datasets/dataset.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pybrain/datasets/dataset.py b/pybrain/datasets/dataset.py
index 084f9a1..30853a1 100644
--- a/pybrain/datasets/dataset.py
+++ b/pybrain/datasets/dataset.py
@@ -366,9 +366,9 @@ class DataSet(Serializable):
     def replaceNansByMeans(self):
         """Replace all not-a-number entries in the dataset by the means of the
         corresponding column."""
-        for d in self.data.values():
-            means = scipy.nansum(d[:self.getLength()], axis=0) / self.getLength()
-            for i in range(self.getLength()):
-                for j in range(d.dim):
-                    if not scipy.isfinite(d[i, j]):
-                        d[i, j] = means[j]
+        for label, d in self.data.items():
+            rows = d[:self.endmarker[label]]
+            for j in range(rows.shape[1]):
+                nans = scipy.isnan(rows[:, j])
+                if nans.any() and not nans.all():
+                    rows[nans, j] = scipy.mean(rows[~nans, j])
-- 
2.43.0


From 750fe831bc2b951c16102b4a73fb76613d4510d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:12 +0000
Subject: [PATCH 006/193] fix: copied and unpickled datasets keep their vector
 format

---
 pybrain/datasets/dataset.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pybrain/datasets/dataset.py b/pybrain/datasets/dataset.py
index 30853a1..8bfa8e4 100644
--- a/pybrain/datasets/dataset.py
+++ b/pybrain/datasets/dataset.py
@@ -320,9 +320,14 @@ class DataSet(Serializable):
             'data': self.data,
             'link': self.link,
             'endmarker': self.endmarker,
+            'vectorformat': self.vectorformat,
         }
         return creator, args, state, iter([]), iter({})
 
+    def __setstate__(self, state):
+        for key, val in state.items():
+            setattr(self, key, val)
+
     def copy(self):
         """Return a deep copy."""
         import copy
-- 
2.43.0


From 3f92501edfd795386039f935f0efad7934ba9be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:12 +0000
Subject: [PATCH 007/193] fix: ImportanceDataSet accepts importances of several
 dimensions

---
 pybrain/datasets/importance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/datasets/importance.py b/pybrain/datasets/importance.py
index bd8235f..ecb5743 100644
--- a/pybrain/datasets/importance.py
+++ b/pybrain/datasets/importance.py
@@ -28,7 +28,7 @@ class ImportanceDataSet(SequentialDataSet):
             :key importance: the importance of the sample. If left None, the
                  importance will be set to 1.0
         """
-        if importance == None:
+        if importance is None:
             importance = ones(len(target))
         self.appendLinked(inp, target, importance)
 
-- 
2.43.0


From d4077126b218f311ce9fd2f68eb7fcbb0058a1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:12 +0000
Subject: [PATCH 008/193] fix: _convertToOneOfMany uses a dtype numpy does not
 know

---
 pybrain/datasets/classification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/datasets/classification.py b/pybrain/datasets/classification.py
index c2b52e5..81b7f16 100644
--- a/pybrain/datasets/classification.py
+++ b/pybrain/datasets/classification.py
@@ -139,7 +139,7 @@ class ClassificationDataSet(SupervisedDataSet):
         if self.nClasses <= 0:
             self.calculateStatistics()
         oldtarg = self.getField('target')
-        newtarg = zeros([len(self), self.nClasses], dtype='Int32') + bounds[0]
+        newtarg = zeros([len(self), self.nClasses], dtype='int32') + bounds[0]
         for i in range(len(self)):
             newtarg[i, int(oldtarg[i])] = bounds[1]
         self.setField('target', newtarg)
-- 
2.43.0


From 5812ee1018af65e74a1d243d67945750537faeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:12 +0000
Subject: [PATCH 009/193] fix: stratifiedSplit loses the last sequence of the
 dataset

---
 pybrain/datasets/classification.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pybrain/datasets/classification.py b/pybrain/datasets/classification.py
index 81b7f16..38d7eaf 100644
--- a/pybrain/datasets/classification.py
+++ b/pybrain/datasets/classification.py
@@ -235,8 +235,7 @@ class SequenceClassificationDataSet(SequentialDataSet, ClassificationDataSet):
         It is assumed that the last target for each class is the class of the
         sequence. Also mind that the data will be sorted by class in the
         resulting data sets."""
-        lastidx = ravel(self['sequence_index'][1:] - 1).astype(int)
-        classes = ravel(self['class'][lastidx])
+        classes = ravel(self.getSequenceClass())
         trnDs = self.copy()
         trnDs.clear()
         tstDs = trnDs.copy()
-- 
2.43.0


From b7ba02c85d0ee46616d5d94b9f9813fb75efbfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:12 +0000
Subject: [PATCH 010/193] fix: sequence ends are used as indices

---
 pybrain/tools/validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/tools/validation.py b/pybrain/tools/validation.py
index 5fdb1f6..8246363 100644
--- a/pybrain/tools/validation.py
+++ b/pybrain/tools/validation.py
@@ -117,7 +117,7 @@ class SequenceHelper(object):
         sequence_ends = delete(dataset.getField('sequence_index') - 1, 0)
         sequence_ends = append(sequence_ends, dataset.getLength() - 1)
 #        print(sequence_ends; exit())
-        sequence_ends = array(sequence_ends)
+        sequence_ends = array(sequence_ends, dtype=int)
         return sequence_ends
 
     @classmethod
-- 
2.43.0


From 99b79a7bd36e2a614e1738ade1b2abfb22aa8ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:27 +0000
Subject: [PATCH 011/193] fix: plain datasets can be pickled

---
 pybrain/datasets/dataset.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pybrain/datasets/dataset.py b/pybrain/datasets/dataset.py
index 8bfa8e4..2cce687 100644
--- a/pybrain/datasets/dataset.py
+++ b/pybrain/datasets/dataset.py
@@ -311,10 +311,7 @@ class DataSet(Serializable):
         Serializable.save_pickle(self, flo, protocol)
 
     def __reduce__(self):
-        def creator():
-            obj = self.__class__()
-            obj.vectorformat = self.vectorformat
-            return obj
+        creator = self.__class__
         args = tuple()
         state = {
             'data': self.data,
-- 
2.43.0


From 966bb7382e7e71d2a80dbfe26f219dd0fc0219e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:27 +0000
Subject: [PATCH 012/193] fix: converting a field does not turn its unused
 buffer into rows

---
 pybrain/datasets/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/datasets/dataset.py b/pybrain/datasets/dataset.py
index 2cce687..eee7d71 100644
--- a/pybrain/datasets/dataset.py
+++ b/pybrain/datasets/dataset.py
@@ -261,7 +261,7 @@ class DataSet(Serializable):
     def convertField(self, label, newtype):
         """Convert the given field to a different data type."""
         try:
-            self.setField(label, self.data[label].astype(newtype))
+            self.setField(label, self.data[label][:self.endmarker[label]].astype(newtype))
         except KeyError:
             raise KeyError('convertField: dataset field %s not found.' % label)
 
-- 
2.43.0


From 9232b96bab152dd8782f4e23811fbebf3f6acd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:51 +0000
Subject: [PATCH 013/193] fix: pickles are read in binary mode

---
 pybrain/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index 21ac18f..363827b 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -184,7 +184,7 @@ class Serializable(object):
         if format is None:
             # try to derive protocol from file extension
             format = formatFromExtension(filename)
-        with open(filename, 'rbU') as fp:
+        with open(filename, 'rb') as fp:
             obj = cls.loadFromFileLike(fp, format)
             obj.filename = filename
             return obj
-- 
2.43.0


From 9ae876c0f313fcb2eceb02d4012a979ddd1dbd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:51 +0000
Subject: [PATCH 014/193] fix: pickled dictionaries are written and read in
 binary mode

---
 pybrain/tools/filehandling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/tools/filehandling.py b/pybrain/tools/filehandling.py
index 2c6be9b..ac9ebd7 100644
--- a/pybrain/tools/filehandling.py
+++ b/pybrain/tools/filehandling.py
@@ -42,7 +42,7 @@ def selectSome(strings, requiredsubstrings=[], requireAll=True):
 def pickleDumpDict(name, d):
     """ pickle-dump a variable into a file """
     try:
-        f = open(name + '.pickle', 'w')
+        f = open(name + '.pickle', 'wb')
         pickle.dump(d, f)
         f.close()
         return True
@@ -54,7 +54,7 @@ def pickleDumpDict(name, d):
 def pickleReadDict(name):
     """ pickle-read a (default: dictionnary) variable from a file """
     try:
-        f = open(name + '.pickle')
+        f = open(name + '.pickle', 'rb')
         val = pickle.load(f)
         f.close()
     except Exception as e:
-- 
2.43.0


From e9c3872c3b203d3dfc588b37d0637ee16e41c9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:09 +0000
Subject: [PATCH 015/193] fix: compact saving fails with list vector format

---
 pybrain/datasets/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/datasets/dataset.py b/pybrain/datasets/dataset.py
index eee7d71..acd34df 100644
--- a/pybrain/datasets/dataset.py
+++ b/pybrain/datasets/dataset.py
@@ -306,7 +306,7 @@ class DataSet(Serializable):
         if compact:
             # remove padding of zeros for each field
             for field in self.getFieldNames():
-                temp = self[field][0:self.endmarker[field] + 1, :]
+                temp = self.data[field][:self.endmarker[field]]
                 self.setField(field, temp)
         Serializable.save_pickle(self, flo, protocol)
 
-- 
2.43.0


From 7ad678b5ae6ee3ccc52dbc27f3e54d81ff9cc8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:04 +0000
Subject: [PATCH 016/193] fix: time windows cover the last sequence and the
 last complete window

---
 pybrain/tools/datasettools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/tools/datasettools.py b/pybrain/tools/datasettools.py
index 39a54b7..1b866ea 100644
--- a/pybrain/tools/datasettools.py
+++ b/pybrain/tools/datasettools.py
@@ -22,14 +22,14 @@ def convertSequenceToTimeWindows(DSseq, NewClass, winsize):
     DSwin = NewClass(DSseq.indim * winsize, DSseq.outdim)
     nsamples = 0
     nseqs = 0
-    si = r_[DSseq['sequence_index'].flatten(), DSseq.endmarker['sequence_index']]
+    si = r_[DSseq['sequence_index'].flatten(), len(DSseq)].astype(int)
     for i in range(DSseq.getNumSequences()):
         # get one sequence as arrays
         input = DSseq['input'][si[i]:si[i + 1], :]
         target = DSseq['target'][si[i]:si[i + 1], :]
         nseqs += 1
         # cut this sequence into windows, assuming class is given at the last step of each sequence
-        for k in range(winsize, input.shape[0], winsize):
+        for k in range(winsize, input.shape[0] + 1, winsize):
             inp_win = input[k - winsize:k, :]
             tar_win = target[k - 1, :]
             DSwin.addSample(inp_win.flatten(), tar_win.flatten())
-- 
2.43.0


From c93f3dd5792f3c1f91548c93cdefd755ead48096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:04 +0000
Subject: [PATCH 017/193] fix: saved normalization parameters can be loaded
 again

---
 pybrain/tools/datasettools.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pybrain/tools/datasettools.py b/pybrain/tools/datasettools.py
index 1b866ea..3fb80c7 100644
--- a/pybrain/tools/datasettools.py
+++ b/pybrain/tools/datasettools.py
@@ -88,7 +88,7 @@ class DataSetNormalizer(object):
         # the first line determines whether we interpret the file as
         # giving min/max of features or mean/std
         x = f.readline()
-        self.meanstd = False if x == 'x' else True
+        self.meanstd = False if x.strip() == 'x' else True
 
         # the next line gives the normalization bounds
         bounds = array(f.readline().split()).astype(float)
@@ -104,10 +104,10 @@ class DataSetNormalizer(object):
 
     def save(self, fname):
         f = open(fname, "w+")
-        f.write('x\n')
-        f.write('%g %g' % (self.newmin, self.newmax))
+        f.write('y\n' if self.meanstd else 'x\n')
+        f.write('%r %r\n' % (float(self.newmin), float(self.newmax)))
         for i in range(self.dim):
-            f.write('%d %g %g' % (i + 1, self.par1[i], self.par2[i]))
+            f.write('%d %.17g %.17g\n' % (i + 1, self.par1[i], self.par2[i]))
         f.close()
 
     def normalizePattern(self, y):
-- 
2.43.0


From 76e0844acec62b4f877dab777b8a4ca2032b0d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:20 +0000
Subject: [PATCH 018/193] fix: one-of-many targets are truncated when only the
 membership bound is fractional

---
 pybrain/datasets/classification.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/datasets/classification.py b/pybrain/datasets/classification.py
index 38d7eaf..6191355 100644
--- a/pybrain/datasets/classification.py
+++ b/pybrain/datasets/classification.py
@@ -2,7 +2,7 @@ from __future__ import print_function
 
 __author__ = "Martin Felder, felder@in.tum.de"
 
-from numpy import zeros, where, ravel, r_, single
+from numpy import array, zeros, where, ravel, r_, single
 from numpy.random import permutation
 from pybrain.datasets import SupervisedDataSet, SequentialDataSet
 
@@ -139,7 +139,7 @@ class ClassificationDataSet(SupervisedDataSet):
         if self.nClasses <= 0:
             self.calculateStatistics()
         oldtarg = self.getField('target')
-        newtarg = zeros([len(self), self.nClasses], dtype='int32') + bounds[0]
+        newtarg = zeros([len(self), self.nClasses], dtype=array(bounds).dtype) + bounds[0]
         for i in range(len(self)):
             newtarg[i, int(oldtarg[i])] = bounds[1]
         self.setField('target', newtarg)
-- 
2.43.0


From a5a06190f2e983800a15bc16931f86076f3ae4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:29 +0000
Subject: [PATCH 019/193] fix: a feedforward network inside a recurrent one
 uses the current time step

---
 pybrain/structure/networks/feedforward.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/structure/networks/feedforward.py b/pybrain/structure/networks/feedforward.py
index c833af2..eeeb41f 100644
--- a/pybrain/structure/networks/feedforward.py
+++ b/pybrain/structure/networks/feedforward.py
@@ -29,7 +29,7 @@ class FeedForwardNetworkComponent(object):
         for m in self.modulesSorted:
             m.forward()
             for c in self.connections[m]:
-                c.forward()
+                c.forward(offset, offset)
 
         index = 0
         for m in self.outmodules:
@@ -46,7 +46,7 @@ class FeedForwardNetworkComponent(object):
 
         for m in reversed(self.modulesSorted):
             for c in self.connections[m]:
-                c.backward()
+                c.backward(offset, offset)
             m.backward()
 
         index = 0
-- 
2.43.0


From dc933a3ff5216e2fea110926ec48e29cd66c057b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:29 +0000
Subject: [PATCH 020/193] fix: LinearConnection computes the derivatives of its
 weights

---
 pybrain/structure/connections/linear.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/structure/connections/linear.py b/pybrain/structure/connections/linear.py
index 46f8559..ef42134 100644
--- a/pybrain/structure/connections/linear.py
+++ b/pybrain/structure/connections/linear.py
@@ -22,5 +22,6 @@ class LinearConnection(Connection, ParameterContainer):
         outbuf += inbuf * self.params
 
     def _backwardImplementation(self, outerr, inerr, inbuf):
-        #CHECKME: not setting derivatives -- this means the multiplicative weight is never updated!
         inerr += outerr * self.params
+        ds = self.derivs
+        ds += outerr * inbuf
-- 
2.43.0


From e9ee0d8559d1cf071fe17c13197fb1eef46ace90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:29 +0000
Subject: [PATCH 021/193] fix: the unused weights of FullNotSelfConnection have
 no derivatives

---
 pybrain/structure/connections/fullnotself.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/structure/connections/fullnotself.py b/pybrain/structure/connections/fullnotself.py
index 4d81bb2..4c682fe 100644
--- a/pybrain/structure/connections/fullnotself.py
+++ b/pybrain/structure/connections/fullnotself.py
@@ -26,4 +26,4 @@ class FullNotSelfConnection(FullConnection):
         p = reshape(self.params, (self.outdim, self.indim)) * (1-eye(self.outdim))
         inerr += dot(p.T, outerr)
         ds = self.derivs
-        ds += outer(inbuf, outerr).T.flatten()
+        ds += (outer(inbuf, outerr).T * (1-eye(self.outdim))).flatten()
-- 
2.43.0


From 460e4cb54ca902a454652b32ee044747650e1440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:29 +0000
Subject: [PATCH 022/193] fix: FullConnection.whichBuffers takes the slices
 into account

---
 pybrain/structure/connections/full.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/structure/connections/full.py b/pybrain/structure/connections/full.py
index 98ca3f0..0e10a3f 100644
--- a/pybrain/structure/connections/full.py
+++ b/pybrain/structure/connections/full.py
@@ -26,4 +26,5 @@ class FullConnection(Connection, ParameterContainer):
     def whichBuffers(self, paramIndex):
         """Return the index of the input module's output buffer and
         the output module's input buffer for the given weight."""
-        return paramIndex % self.inmod.outdim, paramIndex // self.inmod.outdim
+        return (paramIndex % self.indim + self.inSliceFrom,
+                paramIndex // self.indim + self.outSliceFrom)
-- 
2.43.0


From fc4248968333328ad41173ae346232ac7398fbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:29 +0000
Subject: [PATCH 023/193] fix: PartialSoftmaxLayer writes normalized slices
 into its output

---
 pybrain/structure/modules/softmax.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pybrain/structure/modules/softmax.py b/pybrain/structure/modules/softmax.py
index 0d28f4f..1207354 100644
--- a/pybrain/structure/modules/softmax.py
+++ b/pybrain/structure/modules/softmax.py
@@ -30,9 +30,8 @@ class PartialSoftmaxLayer(NeuronLayer):
 
     def _forwardImplementation(self, inbuf, outbuf):
         outbuf[:] = safeExp(inbuf)
-        outbuf.shape = scipy.size(outbuf) / self.slicelength, self.slicelength
-        s = outbuf.sum(axis=1)
-        outbuf = (outbuf.T / s).T.flatten()
+        slices = outbuf.reshape(scipy.size(outbuf) // self.slicelength, self.slicelength)
+        slices /= slices.sum(axis=1).reshape(-1, 1)
 
     def _backwardImplementation(self, outerr, inerr, outbuf, inbuf):
         inerr[:] = outerr
-- 
2.43.0


From 88bb41c2c82b548da95daad5edd993862dad98cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:01 +0000
Subject: [PATCH 024/193] fix: StateDependentLayer compares an array with None

---
 pybrain/structure/modules/statedependentlayer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/structure/modules/statedependentlayer.py b/pybrain/structure/modules/statedependentlayer.py
index 920bb70..3abd03d 100644
--- a/pybrain/structure/modules/statedependentlayer.py
+++ b/pybrain/structure/modules/statedependentlayer.py
@@ -39,7 +39,7 @@ class StateDependentLayer(NeuronLayer, ParameterContainer):
             random.normal(0, expln(self.params), self.module.paramdim))
 
     def _forwardImplementation(self, inbuf, outbuf):
-        assert self.exploration != None
+        assert self.exploration is not None
         if not self.enabled:
             outbuf[:] = inbuf
         else:
-- 
2.43.0


From b38360e8574b66cf11c0089e261db2486ce0b09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:01 +0000
Subject: [PATCH 025/193] fix: Table is indexed with floats

---
 pybrain/structure/modules/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/structure/modules/table.py b/pybrain/structure/modules/table.py
index 73ee811..cebca9a 100644
--- a/pybrain/structure/modules/table.py
+++ b/pybrain/structure/modules/table.py
@@ -23,7 +23,7 @@ class Table(Module, ParameterContainer):
         """ takes two coordinates, row and column, and returns the
             value in the table.
         """
-        outbuf[0] = self.params.reshape(self.numRows, self.numColumns)[inbuf[0], inbuf[1]]
+        outbuf[0] = self.params.reshape(self.numRows, self.numColumns)[int(inbuf[0]), int(inbuf[1])]
 
     def updateValue(self, row, column, value):
         """ set the value at a certain location in the table. """
-- 
2.43.0


From 618b82e8695eb78fba91f7b65892002e208d57b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:01 +0000
Subject: [PATCH 026/193] fix: KohonenMap slices with floats

---
 pybrain/structure/modules/kohonen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/structure/modules/kohonen.py b/pybrain/structure/modules/kohonen.py
index 2fcc477..b727b74 100644
--- a/pybrain/structure/modules/kohonen.py
+++ b/pybrain/structure/modules/kohonen.py
@@ -58,7 +58,7 @@ class KohonenMap(Module):
             closest neuron and its neighbours closer to the input pattern. """
 
         # calculate neighbourhood and limit to edge of matrix
-        n = floor(self.neighbours)
+        n = int(floor(self.neighbours))
         self.neighbours *= self.neighbourdecay
         tl = (self.winner - n)
         br = (self.winner + n + 1)
-- 
2.43.0


From 49cf959bf80bf6736a869d886672cf9ef49e4c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:20 +0000
Subject: [PATCH 027/193] fix: RecurrentNetwork accepts the forget argument

---
 pybrain/structure/networks/recurrent.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pybrain/structure/networks/recurrent.py b/pybrain/structure/networks/recurrent.py
index c814b03..fa5c4d5 100644
--- a/pybrain/structure/networks/recurrent.py
+++ b/pybrain/structure/networks/recurrent.py
@@ -147,9 +147,6 @@ class RecurrentNetwork(RecurrentNetworkComponent, Network):
     bufferlist = Network.bufferlist
 
     def __init__(self, *args, **kwargs):
+        forget = kwargs.pop('forget', False)
         Network.__init__(self, *args, **kwargs)
-        if 'forget' in kwargs:
-            forget = kwargs['forget']
-        else:
-            forget = False
         RecurrentNetworkComponent.__init__(self, forget, *args, **kwargs)
-- 
2.43.0


From c2f5cd0bb7fed5954e9786cea6eb3eaf8f154a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:56 +0000
Subject: [PATCH 028/193] fix: shifting a network shifts the buffers of its
 modules

---
 pybrain/structure/networks/network.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pybrain/structure/networks/network.py b/pybrain/structure/networks/network.py
index d5c4d2f..de40319 100644
--- a/pybrain/structure/networks/network.py
+++ b/pybrain/structure/networks/network.py
@@ -149,6 +149,12 @@ class Network(Module, ParameterContainer):
         for m in self.modules:
             m.reset()
 
+    def shift(self, items):
+        """Shift the buffers of all component modules and of the network."""
+        for m in self.modules:
+            m.shift(items)
+        Module.shift(self, items)
+
     def _setParameters(self, p, owner=None):
         """ put slices of this array back into the modules """
         ParameterContainer._setParameters(self, p, owner)
-- 
2.43.0


From a7712b3bf90f0de81d79f117ff3d6d7cb816e975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:42 +0000
Subject: [PATCH 029/193] fix: density of a gaussian in several dimensions

---
 pybrain/supervised/trainers/mixturedensity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/supervised/trainers/mixturedensity.py b/pybrain/supervised/trainers/mixturedensity.py
index 85214d7..10dadca 100644
--- a/pybrain/supervised/trainers/mixturedensity.py
+++ b/pybrain/supervised/trainers/mixturedensity.py
@@ -9,7 +9,7 @@ def gaussian(x, mean, stddev):
     """ return value of homogenous Gaussian at given vector point 
     x: vector, mean: vector, stddev: scalar """
     tmp = -0.5 * sum(((x-mean)/stddev)**2)
-    return np.exp(tmp) / (np.power(2.*np.pi, 0.5*len(x)) * stddev)
+    return np.exp(tmp) / (np.power(2.*np.pi, 0.5*len(x)) * np.power(stddev, len(x)))
     
 
 class BackpropTrainerMix(BackpropTrainer):
-- 
2.43.0


From 92b79be1b8dec6ad7cc4ebb72a5d74cf44471248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:42 +0000
Subject: [PATCH 030/193] fix: gradient of the standard deviations of a mixture
 density

---
 pybrain/supervised/trainers/mixturedensity.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pybrain/supervised/trainers/mixturedensity.py b/pybrain/supervised/trainers/mixturedensity.py
index 10dadca..9267fd3 100644
--- a/pybrain/supervised/trainers/mixturedensity.py
+++ b/pybrain/supervised/trainers/mixturedensity.py
@@ -61,18 +61,17 @@ class BackpropTrainerMix(BackpropTrainer):
             gamma = np.array(gamma)/sumg
             
             invvariance = 1./par[nGauss:2*nGauss]**2
-            invstddev = 1./np.array(stddevs)
             
             # calculate gradient wrt. mixture coefficients
             grad_c = par[0:nGauss] - gamma
 
-            # calculate gradient wrt. standard deviations
+            # calculate gradient wrt. (the activations of) standard deviations, and means
             grad_m = []
             grad_s = []
             for k in range(nGauss):
                 delta = means[k]-target
                 grad_m.append(gamma[k]*delta*invvariance[k])
-                grad_s.append(-gamma[k]*(np.dot(delta,delta)*invvariance[k]*invstddev[k] - invstddev[k]))
+                grad_s.append(-gamma[k]*(np.dot(delta,delta)*invvariance[k] - nDims))
             
             self.module.outputerror[time] = -np.r_[grad_c,grad_s,np.array(grad_m).flatten()]
             self.module.backward()
-- 
2.43.0


From f13dfb9cda1cce85404bf7997dca7b4d1ef96da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:42 +0000
Subject: [PATCH 031/193] fix: batch learning ignores the weight decay

---
 pybrain/supervised/trainers/backprop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/supervised/trainers/backprop.py b/pybrain/supervised/trainers/backprop.py
index b4c9f5f..a70a621 100644
--- a/pybrain/supervised/trainers/backprop.py
+++ b/pybrain/supervised/trainers/backprop.py
@@ -71,7 +71,7 @@ class BackpropTrainer(Trainer):
         if self.verbose:
             print("Total error: {z: .12g}".format(z=errors / ponderation))
         if self.batchlearning:
-            self.module._setParameters(self.descent(self.module.derivs))
+            self.module._setParameters(self.descent(self.module.derivs - self.weightdecay * self.module.params))
         self.epoch += 1
         self.totalepochs += 1
         return errors / ponderation
-- 
2.43.0


From cecc65f87c8b79da69d8188004bad9d7d6c37c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:42 +0000
Subject: [PATCH 032/193] fix: trainUntilConvergence trains one epoch too many
 and reports one too few

---
 pybrain/supervised/trainers/backprop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/supervised/trainers/backprop.py b/pybrain/supervised/trainers/backprop.py
index a70a621..46c2a66 100644
--- a/pybrain/supervised/trainers/backprop.py
+++ b/pybrain/supervised/trainers/backprop.py
@@ -224,12 +224,13 @@ class BackpropTrainer(Trainer):
         self.validationErrors = [bestverr]
         while True:
             trainingError = self.train()
+            epochs += 1
             validationError = self.testOnData(validationData)
             if isnan(trainingError) or isnan(validationError):
                 raise Exception("Training produced NaN results")
             self.trainingErrors.append(trainingError)
             self.validationErrors.append(validationError)
-            if epochs == 0 or self.validationErrors[-1] < bestverr:
+            if epochs == 1 or self.validationErrors[-1] < bestverr:
                 # one update is always done
                 bestverr = self.validationErrors[-1]
                 bestweights = self.module.params.copy()
@@ -238,7 +239,6 @@ class BackpropTrainer(Trainer):
             if maxEpochs != None and epochs >= maxEpochs:
                 self.module.params[:] = bestweights
                 break
-            epochs += 1
 
             if len(self.validationErrors) >= continueEpochs * 2:
                 # have the validation errors started going up again?
-- 
2.43.0


From ac5783f0b3dac0ca827e00c1d8c7fc651dada46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:25 +0000
Subject: [PATCH 033/193] fix: errors pass a PermutationConnection by the
 inverse permutation

---
 pybrain/structure/connections/permutation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/structure/connections/permutation.py b/pybrain/structure/connections/permutation.py
index 7dda244..1156f61 100644
--- a/pybrain/structure/connections/permutation.py
+++ b/pybrain/structure/connections/permutation.py
@@ -24,7 +24,7 @@ class PermutationConnection(Connection):
                 (self.indim // blocksize), len(permutation)))
 
         self.permutation = array(permutation)
-        self.invpermutation = permute(list(range(len(permutation))), permutation)
+        self.invpermutation = self.permutation.argsort()
         self.blocksize = blocksize
 
     def _forwardImplementation(self, inbuf, outbuf):
-- 
2.43.0


From 6b8a59168578ebcd9ed3d3432a9bb5e1efecaa80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:42 +0000
Subject: [PATCH 034/193] fix: slices of slices

---
 pybrain/structure/moduleslice.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pybrain/structure/moduleslice.py b/pybrain/structure/moduleslice.py
index 762d24a..c58bd20 100644
--- a/pybrain/structure/moduleslice.py
+++ b/pybrain/structure/moduleslice.py
@@ -13,12 +13,12 @@ class ModuleSlice(Named):
         if isinstance(base, ModuleSlice):
             # tolerantly handle the case of a slice of another slice
             self.base = base.base
-            self.inOffset = inSliceFrom + base.inSliceFrom
-            self.outOffset = outSliceFrom + base.outSliceFrom
+            self.inOffset = inSliceFrom + base.inOffset
+            self.outOffset = outSliceFrom + base.outOffset
             if inSliceTo == None:
-                inSliceTo = self.base.indim + base.inSliceFrom
+                inSliceTo = base.indim
             if outSliceTo == None:
-                outSliceTo = self.base.outdim + base.outSliceFrom
+                outSliceTo = base.outdim
             self.name = base.base.name
         else:
             self.base = base
-- 
2.43.0


From 448e7db301eedfd30d11293cbeb2511846a3ae57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:03 +0000
Subject: [PATCH 035/193] fix: copied and unpickled networks stay linked to the
 arrays of their parts

---
 pybrain/structure/networks/network.py   | 11 +++++++++++
 pybrain/structure/parametercontainer.py |  3 +++
 2 files changed, 14 insertions(+)

diff --git a/pybrain/structure/networks/network.py b/pybrain/structure/networks/network.py
index de40319..c5df77f 100644
--- a/pybrain/structure/networks/network.py
+++ b/pybrain/structure/networks/network.py
@@ -269,6 +269,17 @@ class Network(Module, ParameterContainer):
         for m in self.modules:
             m._resetBuffers(length)
 
+    def __setstate__(self, state):
+        """The arrays of a copied or unpickled network are no views: link those
+        of the parts to those of the network again."""
+        self.__dict__.update(state)
+        if not self.sorted or self.owner not in (None, self) or self.paramdim == 0:
+            return
+        # when the copying started at one of its parts, that part is not complete yet
+        if sum(x.paramdim for x in self._containerIterator()) == self.paramdim:
+            self._setParameters(self.params, self.owner)
+            self._setDerivatives(self.derivs, self.owner)
+
     def copy(self, keepBuffers=False):
         if not keepBuffers:
             self._resetBuffers()
diff --git a/pybrain/structure/parametercontainer.py b/pybrain/structure/parametercontainer.py
index c88d6bf..dd7906d 100644
--- a/pybrain/structure/parametercontainer.py
+++ b/pybrain/structure/parametercontainer.py
@@ -18,6 +18,9 @@ class ParameterContainer(Evolvable):
     # if this variable is set, then only the owner can set the params or the derivs of the container
     owner = None
 
+    # number of parameters
+    paramdim = 0
+
     # a flag that enables storage of derivatives
     hasDerivatives = False
 
-- 
2.43.0


From c9f379b60a920635788e19af10ba8e7a974f693d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:03 +0000
Subject: [PATCH 036/193] fix: reading number lists from XML

---
 pybrain/tools/customxml/handling.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pybrain/tools/customxml/handling.py b/pybrain/tools/customxml/handling.py
index 237cbad..2a9336d 100644
--- a/pybrain/tools/customxml/handling.py
+++ b/pybrain/tools/customxml/handling.py
@@ -3,7 +3,6 @@ __author__ = 'Tom Schaul, tom@idsia.ch'
 from xml.dom.minidom import parse, getDOMImplementation
 from pybrain.utilities import fListToString
 from scipy import zeros
-import string
 
 class XMLHandling:
     """ general purpose methods for reading, writing and editing XML files.
@@ -113,7 +112,7 @@ class XMLHandling:
             self.writeDoubles(r, row, precision)
 
     def readDoubles(self, node):
-        dstrings = string.split(node.firstChild.data)
+        dstrings = node.firstChild.data.split()
         return [float(s) for s in dstrings]
 
     def readMatrix(self, node):
-- 
2.43.0


From a4bcb79b4538651df5ad96010be85917060fcc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:03 +0000
Subject: [PATCH 037/193] fix: XML keeps modules that are input and output

---
 pybrain/tools/customxml/networkreader.py | 4 ++--
 pybrain/tools/customxml/networkwriter.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pybrain/tools/customxml/networkreader.py b/pybrain/tools/customxml/networkreader.py
index 9462a51..8e2384f 100644
--- a/pybrain/tools/customxml/networkreader.py
+++ b/pybrain/tools/customxml/networkreader.py
@@ -49,9 +49,9 @@ class NetworkReader(XMLHandling):
             m, inmodule, outmodule = self.readModule(mnode)
             if inmodule:
                 n.addInputModule(m)
-            elif outmodule:
+            if outmodule:
                 n.addOutputModule(m)
-            else:
+            if not inmodule and not outmodule:
                 n.addModule(m)
 
         mconns = self.getChild(node, 'MotherConnections')
diff --git a/pybrain/tools/customxml/networkwriter.py b/pybrain/tools/customxml/networkwriter.py
index c5ffc52..3241645 100644
--- a/pybrain/tools/customxml/networkwriter.py
+++ b/pybrain/tools/customxml/networkwriter.py
@@ -74,7 +74,7 @@ class NetworkWriter(XMLHandling):
             mnode = self.writeBuildable(rootnode, m)
         if inmodule:
             mnode.setAttribute('inmodule', 'True')
-        elif outmodule:
+        if outmodule:
             mnode.setAttribute('outmodule', 'True')
 
     def writeConnection(self, rootnode, c, recurrent):
-- 
2.43.0


From 256b2a7954a78ca13277f6b722f4276b4cc85d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:03 +0000
Subject: [PATCH 038/193] fix: names of modules are local to their network when
 reading XML

---
 pybrain/tools/customxml/networkreader.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pybrain/tools/customxml/networkreader.py b/pybrain/tools/customxml/networkreader.py
index 8e2384f..37eddb1 100644
--- a/pybrain/tools/customxml/networkreader.py
+++ b/pybrain/tools/customxml/networkreader.py
@@ -19,8 +19,10 @@ except ImportError:
 class NetworkReader(XMLHandling):
     """ A class that can take read a network from an XML file """
 
-    mothers = {}
-    modules = {}
+    def __init__(self, *args, **kwargs):
+        XMLHandling.__init__(self, *args, **kwargs)
+        self.mothers = {}
+        self.modules = {}
 
     @staticmethod
     def readFrom(filename, name = None, index = 0):
@@ -38,6 +40,9 @@ class NetworkReader(XMLHandling):
         return r.readNetwork(netroot)
 
     def readNetwork(self, node):
+        # the names are those of this network, not of the enclosing one
+        outer = self.mothers, self.modules
+        self.mothers, self.modules = {}, {}
         # TODO: why is this necessary?
         import pybrain.structure.networks.custom #@Reimport @UnusedImport
         nclass = eval(str(node.getAttribute('class')))
@@ -68,6 +73,7 @@ class NetworkReader(XMLHandling):
                 n.addConnection(c)
 
         n.sortModules()
+        self.mothers, self.modules = outer
         return n
 
     def readModule(self, mnode):
-- 
2.43.0


From 9238fdb1a98535d80cf90fa456349f6d5661cdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:03 +0000
Subject: [PATCH 039/193] fix: PermutationConnection can be stored in XML

---
 pybrain/structure/connections/permutation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pybrain/structure/connections/permutation.py b/pybrain/structure/connections/permutation.py
index 1156f61..eec412c 100644
--- a/pybrain/structure/connections/permutation.py
+++ b/pybrain/structure/connections/permutation.py
@@ -23,9 +23,12 @@ class PermutationConnection(Connection):
                 "Permutation has wrong size: should be %i but is %i." %(
                 (self.indim // blocksize), len(permutation)))
 
+        # arguments for xml
+        self.permutation, self.blocksize = None, None
+        self.setArgs(permutation=[int(i) for i in permutation], blocksize=blocksize)
+
         self.permutation = array(permutation)
         self.invpermutation = self.permutation.argsort()
-        self.blocksize = blocksize
 
     def _forwardImplementation(self, inbuf, outbuf):
         inbuf = inbuf.reshape(self.indim // self.blocksize, self.blocksize)
-- 
2.43.0


From 7528c11f2a8dc1998ef32b1b5cddb8690bd8c74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:03 +0000
Subject: [PATCH 040/193] fix: XML keeps the forget flag of a network

---
 pybrain/structure/networks/recurrent.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pybrain/structure/networks/recurrent.py b/pybrain/structure/networks/recurrent.py
index fa5c4d5..9bad650 100644
--- a/pybrain/structure/networks/recurrent.py
+++ b/pybrain/structure/networks/recurrent.py
@@ -150,3 +150,5 @@ class RecurrentNetwork(RecurrentNetworkComponent, Network):
         forget = kwargs.pop('forget', False)
         Network.__init__(self, *args, **kwargs)
         RecurrentNetworkComponent.__init__(self, forget, *args, **kwargs)
+        if forget:
+            self.setArgs(forget=forget)
-- 
2.43.0


From 019c35a45203f385f06bb7a87cb0791784c2c594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:23 +0000
Subject: [PATCH 041/193] fix: PartialSoftmaxLayer can be stored in XML

---
 pybrain/structure/modules/softmax.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pybrain/structure/modules/softmax.py b/pybrain/structure/modules/softmax.py
index 1207354..f1f41cf 100644
--- a/pybrain/structure/modules/softmax.py
+++ b/pybrain/structure/modules/softmax.py
@@ -27,6 +27,9 @@ class PartialSoftmaxLayer(NeuronLayer):
     def __init__(self, size, slicelength):
         super(PartialSoftmaxLayer, self).__init__(size)
         self.slicelength = slicelength
+        # arguments for xml
+        del self.argdict['dim']
+        self.argdict.update(size=size, slicelength=slicelength)
 
     def _forwardImplementation(self, inbuf, outbuf):
         outbuf[:] = safeExp(inbuf)
-- 
2.43.0


From 59a5b86eff246884e99be3716a4e48cf619f1280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:23 +0000
Subject: [PATCH 042/193] fix: MixtureDensityLayer can be stored in XML

---
 pybrain/structure/modules/mixturedensity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pybrain/structure/modules/mixturedensity.py b/pybrain/structure/modules/mixturedensity.py
index e7809f3..2ca110b 100644
--- a/pybrain/structure/modules/mixturedensity.py
+++ b/pybrain/structure/modules/mixturedensity.py
@@ -20,6 +20,8 @@ class MixtureDensityLayer(NeuronLayer):
         NeuronLayer.__init__(self, nUnits, name)
         self.nGaussians = mix
         self.nDims = dim
+        # arguments for xml
+        self.argdict.update(dim=dim, mix=mix)
         
     def _forwardImplementation(self, inbuf, outbuf):
         """Calculate layer outputs (Gaussian parameters etc., not function 
-- 
2.43.0


From 8bf07d03b259d14e2de536f812d30c2cdc574b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:04 +0000
Subject: [PATCH 043/193] fix: GaussianLayer can be stored in XML

---
 pybrain/structure/modules/gaussianlayer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/structure/modules/gaussianlayer.py b/pybrain/structure/modules/gaussianlayer.py
index 499a4fa..7ee0b50 100644
--- a/pybrain/structure/modules/gaussianlayer.py
+++ b/pybrain/structure/modules/gaussianlayer.py
@@ -13,7 +13,8 @@ class GaussianLayer(NeuronLayer, ParameterContainer):
     def __init__(self, dim, name=None):
         NeuronLayer.__init__(self, dim, name)
         # initialize sigmas to 0
-        ParameterContainer.__init__(self, dim, stdParams = 0)
+        self.stdParams = 0
+        ParameterContainer.__init__(self, dim)
         # if autoalpha is set to True, alpha_sigma = alpha_mu = alpha*sigma^2
         self.autoalpha = False
         self.enabled = True
-- 
2.43.0


From 356339f6162dba7a0b38c65175891dcf76f1364c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:09 +0000
Subject: [PATCH 044/193] fix: a trainer continues from the current parameters
 of its module

---
 pybrain/supervised/trainers/backprop.py | 2 ++
 pybrain/supervised/trainers/rprop.py    | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pybrain/supervised/trainers/backprop.py b/pybrain/supervised/trainers/backprop.py
index 46c2a66..a377842 100644
--- a/pybrain/supervised/trainers/backprop.py
+++ b/pybrain/supervised/trainers/backprop.py
@@ -50,6 +50,8 @@ class BackpropTrainer(Trainer):
     def train(self):
         """Train the associated module for one epoch."""
         assert len(self.ds) > 0, "Dataset cannot be empty."
+        # the parameters may have been changed since the last update
+        self.descent.values[:] = self.module.params
         self.module.resetDerivatives()
         errors = 0
         ponderation = 0.
diff --git a/pybrain/supervised/trainers/rprop.py b/pybrain/supervised/trainers/rprop.py
index 885b0c8..c20f6f5 100644
--- a/pybrain/supervised/trainers/rprop.py
+++ b/pybrain/supervised/trainers/rprop.py
@@ -37,6 +37,8 @@ class RPropMinusTrainer(BackpropTrainer):
 
     def train(self):
         """ Train the network for one epoch """
+        # the parameters may have been changed since the last update
+        self.descent.values[:] = self.module.params
         self.module.resetDerivatives()
         errors = 0
         ponderation = 0
-- 
2.43.0


From a81b4a21776abedeecb1399daf4a71831f65644b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:28 +0000
Subject: [PATCH 045/193] fix: an optimizer keeps the best point found during
 its initialization

---
 pybrain/optimization/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/optimization/optimizer.py b/pybrain/optimization/optimizer.py
index d6faf3f..d811559 100644
--- a/pybrain/optimization/optimizer.py
+++ b/pybrain/optimization/optimizer.py
@@ -152,8 +152,8 @@ class BlackBoxOptimizer(DirectSearchLearner):
         #set the starting point for optimization (as provided, or randomly)
         self._setInitEvaluable(initEvaluable)        
         self.bestEvaluation = None
-        self._additionalInit()
         self.bestEvaluable = self._initEvaluable
+        self._additionalInit()
         
     def _flipDirection(self):
         self.__evaluator = oppositeFunction(self.__evaluator)
-- 
2.43.0


From 4f006985527c6a0d2a21a95ae0f199e81a0ea4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:28 +0000
Subject: [PATCH 046/193] fix: ES with integer population multiples

---
 pybrain/optimization/populationbased/es.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/optimization/populationbased/es.py b/pybrain/optimization/populationbased/es.py
index c2405b7..1d8557e 100644
--- a/pybrain/optimization/populationbased/es.py
+++ b/pybrain/optimization/populationbased/es.py
@@ -49,7 +49,7 @@ class ES(BlackBoxOptimizer):
             self._sortPopulation(noHallOfFame = True)
 
         # produce offspring from the the mu best ones
-        self.population = self.population[:self.mu] * (self._popsize/self.mu)
+        self.population = self.population[:self.mu] * (self._popsize // self.mu)
 
         # mutate the offspring
         if self.elitism:
-- 
2.43.0


From ea9507a3df2aae5d78ebf83eb1ab0b33591e0683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:28 +0000
Subject: [PATCH 047/193] fix: StochasticHillClimber returns the best point
 found, not the last accepted one

---
 pybrain/optimization/hillclimber.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/pybrain/optimization/hillclimber.py b/pybrain/optimization/hillclimber.py
index ca15e8a..63c5173 100644
--- a/pybrain/optimization/hillclimber.py
+++ b/pybrain/optimization/hillclimber.py
@@ -40,20 +40,26 @@ class StochasticHillClimber(HillClimber):
     #: The larger the temperature, the more explorative (less greedy) it behaves.
     temperature = 1.
 
+    def _additionalInit(self):
+        HillClimber._additionalInit(self)
+        # the present point of the walk, which is not always the best one
+        self._current, self._currentEvaluation = self.bestEvaluable, self.bestEvaluation
+
     def _learnStep(self):
         # re-evaluate the current individual in case the evaluator is noisy
         if self.evaluatorIsNoisy:
-            self.bestEvaluation = self._oneEvaluation(self.bestEvaluable)
+            self._currentEvaluation = self._oneEvaluation(self._current)
 
         # hill-climbing
-        challenger = self.bestEvaluable.copy()
+        challenger = self._current.copy()
         challenger.mutate()
         newEval = self._oneEvaluation(challenger)
 
-        # if the new evaluation was better, it got stored automatically. Otherwise:
-        if ((not self.minimize and newEval < self.bestEvaluation) or
-            (self.minimize and newEval > self.bestEvaluation)):
-            acceptProbability = exp(-abs(newEval-self.bestEvaluation)/self.temperature)
-            if random() < acceptProbability:
-                self.bestEvaluable, self.bestEvaluation = challenger, newEval
+        # a better evaluation is always accepted, otherwise:
+        if ((not self.minimize and newEval < self._currentEvaluation) or
+            (self.minimize and newEval > self._currentEvaluation)):
+            acceptProbability = exp(-abs(newEval-self._currentEvaluation)/self.temperature)
+            if random() >= acceptProbability:
+                return
+        self._current, self._currentEvaluation = challenger, newEval
 
-- 
2.43.0


From b3f4636f7ada2bdb077b864b8ca9fa3f7ca9c155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:28 +0000
Subject: [PATCH 048/193] fix: GA accepts the scalar bound of function
 environments

---
 pybrain/optimization/populationbased/ga.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pybrain/optimization/populationbased/ga.py b/pybrain/optimization/populationbased/ga.py
index 083c7f2..60e37b6 100644
--- a/pybrain/optimization/populationbased/ga.py
+++ b/pybrain/optimization/populationbased/ga.py
@@ -1,7 +1,7 @@
 __author__ = 'Tom Schaul, tom@idsia.ch'
 
 from scipy import randn, zeros
-from scipy import random as rd, array
+from scipy import random as rd, array, isscalar
 from random import choice, random, gauss, shuffle, sample
 from numpy import ndarray
 
@@ -34,6 +34,9 @@ class GA(ContinuousOptimizer, Evolution):
 
     '''added by JPQ'''
     def initBoundaries(self):
+        if isscalar(self.xBound):
+            # the same symmetric bound for all parameters
+            self.xBound = [(-self.xBound, self.xBound)] * self.numParameters
         assert len(self.xBound) == self.numParameters
         self.mins = array([min_ for min_, max_ in self.xBound])
         self.maxs = array([max_ for min_, max_ in self.xBound])
-- 
2.43.0


From a0900c0c1b0220861148a1bcaa463f044dd39dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:28 +0000
Subject: [PATCH 049/193] fix: GA with a single selected parent

---
 pybrain/optimization/populationbased/ga.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pybrain/optimization/populationbased/ga.py b/pybrain/optimization/populationbased/ga.py
index 60e37b6..5d97b13 100644
--- a/pybrain/optimization/populationbased/ga.py
+++ b/pybrain/optimization/populationbased/ga.py
@@ -115,6 +115,9 @@ class GA(ContinuousOptimizer, Evolution):
                 res[:point] = p2[:point]
                 res[point:] = p1[point:]
                 children.append(res)
+        if not children:
+            # a single parent
+            children = list(parents)
         shuffle(children)
         if len(children) > nbChildren:
             children = children[:nbChildren]  
-- 
2.43.0


From 7e23f1e41fd5d114a041ff08d8f4a063704b6afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:28 +0000
Subject: [PATCH 050/193] fix: PGPE with global exploration

---
 pybrain/optimization/finitedifference/pgpe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/optimization/finitedifference/pgpe.py b/pybrain/optimization/finitedifference/pgpe.py
index c6da77d..1264cd6 100644
--- a/pybrain/optimization/finitedifference/pgpe.py
+++ b/pybrain/optimization/finitedifference/pgpe.py
@@ -72,7 +72,7 @@ class PGPE(FiniteDifferences):
         if fakt2 > 0.: #for sigma adaption alg. follows only positive gradients
             if self.exploration == "global":         
                 #apply sigma update globally        
-                self.sigList = self.gdSig(fakt2 * ((self.deltas ** 2).sum() - (self.sigList ** 2).sum())
+                self.sigList = self.gdSig(fakt2 * ((deltas ** 2).sum() - (self.sigList ** 2).sum())
                                           / (self.sigList * float(self.numParameters)))
             elif self.exploration == "local":
                 #apply sigma update locally
-- 
2.43.0


From d36ee31cea4428fb30eea18245f240fab857d35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:28 +0000
Subject: [PATCH 051/193] fix: finite differences follow the gradient downhill
 when minimizing

---
 pybrain/optimization/finitedifference/fd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pybrain/optimization/finitedifference/fd.py b/pybrain/optimization/finitedifference/fd.py
index ad64f9c..46cb5c8 100644
--- a/pybrain/optimization/finitedifference/fd.py
+++ b/pybrain/optimization/finitedifference/fd.py
@@ -20,6 +20,8 @@ class FiniteDifferences(ContinuousOptimizer):
     momentum = 0.0
     rprop = False
 
+    mustMaximize = True
+
     def _setInitEvaluable(self, evaluable):
         ContinuousOptimizer._setInitEvaluable(self, evaluable)
         self.current = self._initEvaluable
-- 
2.43.0


From 4b779b8aba66344a79d6634d68085d3ba85f2a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:28 +0000
Subject: [PATCH 052/193] fix: FEM and NES accept arrays for their settings,
 integer parameter counts

---
 pybrain/optimization/distributionbased/fem.py |  6 +++---
 pybrain/optimization/distributionbased/ves.py | 10 +++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pybrain/optimization/distributionbased/fem.py b/pybrain/optimization/distributionbased/fem.py
index 86edfb9..c5faee6 100644
--- a/pybrain/optimization/distributionbased/fem.py
+++ b/pybrain/optimization/distributionbased/fem.py
@@ -59,11 +59,11 @@ class FEM(DistributionBasedOptimizer):
         self.mus = []
         self.sigmas = []
 
-        if self.rangemins == None:
+        if self.rangemins is None:
             self.rangemins = -ones(xdim)
-        if self.rangemaxs == None:
+        if self.rangemaxs is None:
             self.rangemaxs = ones(xdim)
-        if self.initCovariances == None:
+        if self.initCovariances is None:
             if self.diagonalOnly:
                 self.initCovariances = ones(xdim)
             else:
diff --git a/pybrain/optimization/distributionbased/ves.py b/pybrain/optimization/distributionbased/ves.py
index 4851294..f339c4e 100644
--- a/pybrain/optimization/distributionbased/ves.py
+++ b/pybrain/optimization/distributionbased/ves.py
@@ -47,7 +47,7 @@ class VanillaGradientEvolutionStrategies(DistributionBasedOptimizer):
     def _additionalInit(self):
         xdim = self.numParameters
         assert not self.diagonalOnly, 'Diagonal-only not yet supported'
-        self.numDistrParams = xdim + xdim * (xdim + 1) / 2
+        self.numDistrParams = xdim + xdim * (xdim + 1) // 2
 
         if self.momentum != None:
             self.momentumVector = zeros(self.numDistrParams)
@@ -56,11 +56,11 @@ class VanillaGradientEvolutionStrategies(DistributionBasedOptimizer):
         if self.batchSize is None:
             self.batchSize = 10 * self.numParameters
 
-        if self.rangemins == None:
+        if self.rangemins is None:
             self.rangemins = -ones(xdim)
-        if self.rangemaxs == None:
+        if self.rangemaxs is None:
             self.rangemaxs = ones(xdim)
-        if self.initCovariances == None:
+        if self.initCovariances is None:
             if self.diagonalOnly:
                 self.initCovariances = ones(xdim)
             else:
@@ -86,7 +86,7 @@ class VanillaGradientEvolutionStrategies(DistributionBasedOptimizer):
             self._allDistributions = [(self.x.copy(), self.sigma.copy())]
 
     def _produceNewSample(self, z=None):
-        if z == None:
+        if z is None:
             p = randn(self.numParameters)
             z = dot(self.factorSigma.T, p) + self.x
         self.allSamples.append(z)
-- 
2.43.0


From 1f3c86534ce4dd098ec81d1da5fc6ff77b1d01c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:24 +0000
Subject: [PATCH 053/193] fix: maxLearningSteps allowed one step more than
 asked for

---
 pybrain/optimization/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/optimization/optimizer.py b/pybrain/optimization/optimizer.py
index d811559..9863bdb 100644
--- a/pybrain/optimization/optimizer.py
+++ b/pybrain/optimization/optimizer.py
@@ -195,7 +195,7 @@ class BlackBoxOptimizer(DirectSearchLearner):
         """ The main loop that does the learning. """
         assert self.__evaluator is not None, "No evaluator has been set. Learning cannot start."
         if additionalLearningSteps is not None:
-            self.maxLearningSteps = self.numLearningSteps + additionalLearningSteps - 1
+            self.maxLearningSteps = self.numLearningSteps + additionalLearningSteps
         while not self._stoppingCriterion():
             try:
                 self._learnStep()
@@ -287,7 +287,7 @@ class BlackBoxOptimizer(DirectSearchLearner):
             if ((self.minimize and self.bestEvaluation <= self.desiredEvaluation)
                 or (not self.minimize and self.bestEvaluation >= self.desiredEvaluation)):
                 return True
-        if self.maxLearningSteps is not None and self.numLearningSteps > self.maxLearningSteps:
+        if self.maxLearningSteps is not None and self.numLearningSteps >= self.maxLearningSteps:
             return True
         return False
     
-- 
2.43.0


From 8984dadbdea168f9e1e1cee461c7865e5b153ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:24 +0000
Subject: [PATCH 054/193] fix: rank-mu update of CMA-ES uses the steps without
 the step size

---
 pybrain/optimization/distributionbased/cmaes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/optimization/distributionbased/cmaes.py b/pybrain/optimization/distributionbased/cmaes.py
index 81e963c..9fc3975 100644
--- a/pybrain/optimization/distributionbased/cmaes.py
+++ b/pybrain/optimization/distributionbased/cmaes.py
@@ -68,7 +68,7 @@ class CMAES(ContinuousOptimizer):
         arx = arx[:, arindex]
         arzsel = arz[:, range(self.mu)]
         arxsel = arx[:, range(self.mu)]
-        arxmut = arxsel - tile(self.center.reshape(self.numParameters, 1), (1, self.mu))
+        arxmut = (arxsel - tile(self.center.reshape(self.numParameters, 1), (1, self.mu))) / self.stepSize
 
         zmean = dot(arzsel, self.weights)
         self.center = dot(arxsel, self.weights)
-- 
2.43.0


From 1e6d94dc1a0a9168aeb6d41b2ce51aa29da8643d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:24 +0000
Subject: [PATCH 055/193] fix: xNES with importance mixing

---
 pybrain/optimization/distributionbased/xnes.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pybrain/optimization/distributionbased/xnes.py b/pybrain/optimization/distributionbased/xnes.py
index 245ebe3..6d1adf2 100644
--- a/pybrain/optimization/distributionbased/xnes.py
+++ b/pybrain/optimization/distributionbased/xnes.py
@@ -70,6 +70,7 @@ class XNES(DistributionBasedOptimizer):
 
         self._lastLogDetA = self._logDetA
         self._lastInvA = self._invA
+        self._lastCenter = self._center.copy()
 
         self._center += self.centerLearningRate * dot(self._A, dCenter)
         self._A = dot(self._A, expm(dA))
@@ -81,8 +82,6 @@ class XNES(DistributionBasedOptimizer):
     @property
     def _lastA(self): return self._allDistributions[-2][1]
     @property
-    def _lastCenter(self): return self._allDistributions[-2][0]
-    @property
     def _population(self):
         if self._wasUnwrapped:
             return [self._allEvaluated[i].params for i in self._pointers]
@@ -125,7 +124,7 @@ class XNES(DistributionBasedOptimizer):
             [self._oneEvaluation(self._sample2base(self._produceSample())) for _ in range(self.batchSize)]
             self._pointers = list(range(len(self._allEvaluated)-self.batchSize, len(self._allEvaluated)))
         else:
-            reuseindices, newpoints = importanceMixing(list(map(self._base2sample, self._currentEvaluations)),
+            reuseindices, newpoints = importanceMixing(list(map(self._base2sample, self._population)),
                                                        self._oldpdf, self._newpdf, self._produceSample, self.forcedRefresh)
             [self._oneEvaluation(self._sample2base(s)) for s in newpoints]
             self._pointers = ([self._pointers[i] for i in reuseindices]+
-- 
2.43.0


From 27eb5dc6afd5e9ff0aca2f88ec70276d9d17be52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:24 +0000
Subject: [PATCH 056/193] fix: online NES can store its distributions

---
 pybrain/optimization/distributionbased/ves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/optimization/distributionbased/ves.py b/pybrain/optimization/distributionbased/ves.py
index f339c4e..a44abba 100644
--- a/pybrain/optimization/distributionbased/ves.py
+++ b/pybrain/optimization/distributionbased/ves.py
@@ -195,7 +195,7 @@ class VanillaGradientEvolutionStrategies(DistributionBasedOptimizer):
         self.sigma = dot(self.factorSigma.T, self.factorSigma)
 
         if self.storeAllDistributions:
-            self._allDistributions.append(self.x.copy(), self.sigma.copy())
+            self._allDistributions.append((self.x.copy(), self.sigma.copy()))
 
     def _calcBatchUpdate(self, fitnesses):
         gradient = self._calcVanillaBatchGradient(self.allSamples[-self.batchSize:], fitnesses)
-- 
2.43.0


From bac21420a7b8d923c046084d649b54ca0b79846d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:24 +0000
Subject: [PATCH 057/193] fix: batch size of a noisy non-elitist ES counts the
 parents

---
 pybrain/optimization/populationbased/es.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/optimization/populationbased/es.py b/pybrain/optimization/populationbased/es.py
index 1d8557e..84b177a 100644
--- a/pybrain/optimization/populationbased/es.py
+++ b/pybrain/optimization/populationbased/es.py
@@ -70,7 +70,7 @@ class ES(BlackBoxOptimizer):
     @property
     def batchSize(self):
         if self.evaluatorIsNoisy:
-            return self._popsize
+            return self.mu + self.lambada
         else:
             return self.lambada
 
-- 
2.43.0


From bd4e7fe3045f46399ea9d77a75535805f703c2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:24 +0000
Subject: [PATCH 058/193] fix: Nelder-Mead stays within its evaluation budget

---
 pybrain/optimization/neldermead.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pybrain/optimization/neldermead.py b/pybrain/optimization/neldermead.py
index 394d6be..9b81b18 100644
--- a/pybrain/optimization/neldermead.py
+++ b/pybrain/optimization/neldermead.py
@@ -22,13 +22,18 @@ class NelderMead(ContinuousOptimizer):
         if self._stoppingCriterion():
             raise DesiredFoundException()
 
+    def _boundedEvaluation(self, x):
+        if self.maxEvaluations is not None and self.numEvaluations >= self.maxEvaluations:
+            raise DesiredFoundException()
+        return self._oneEvaluation(x)
+
     def _learnStep(self):
         try:
-            fmin(func = self._oneEvaluation,
+            fmin(func = self._boundedEvaluation,
                  x0 = self.bestEvaluable,
                  callback = self._callback,
                  ftol = self.stopPrecision,
-                 maxfun = self.maxEvaluations-self.numEvaluations-1,
+                 maxfun = None if self.maxEvaluations is None else self.maxEvaluations-self.numEvaluations,
                  disp = self.verbose)
         except DesiredFoundException:
             pass
-- 
2.43.0


From 35c28eed5d9afbba629451bf25a2743dfe2d2a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:24 +0000
Subject: [PATCH 059/193] fix: random masks respect maskOnProbability and keep
 at least one parameter

---
 pybrain/structure/evolvables/maskedparameters.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pybrain/structure/evolvables/maskedparameters.py b/pybrain/structure/evolvables/maskedparameters.py
index caf0020..7ad043e 100644
--- a/pybrain/structure/evolvables/maskedparameters.py
+++ b/pybrain/structure/evolvables/maskedparameters.py
@@ -72,13 +72,16 @@ class MaskedParameters(TopologyEvolvable):
         self.mask = zeros(self.pcontainer.paramdim, dtype=bool)
         onbits = []
         for i in range(self.pcontainer.paramdim):
-            if random() > self.maskOnProbability:
+            if random() < self.maskOnProbability:
                 self.mask[i] = True
                 onbits.append(i)
         over = len(onbits) - self.maxComplexity
         if over > 0:
             for i in sample(onbits, over):
                 self.mask[i] = False
+        if sum(self.mask) == 0:
+            # there must always be at least one on
+            self.mask[int(random()*self.pcontainer.paramdim)] = True
         self.maskableParams = randn(self.pcontainer.paramdim)*self.stdParams
         self._applyMask()
 
-- 
2.43.0


From 728932996c9264abdb56e639a16bd55c28c3df06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:44 +0000
Subject: [PATCH 060/193] fix: copies of masked parameters no longer share
 their parameters

---
 pybrain/structure/evolvables/topology.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/pybrain/structure/evolvables/topology.py b/pybrain/structure/evolvables/topology.py
index e1e6016..cac70ad 100644
--- a/pybrain/structure/evolvables/topology.py
+++ b/pybrain/structure/evolvables/topology.py
@@ -33,11 +33,6 @@ class TopologyEvolvable(ParameterContainer):
         return res
 
     def copy(self):
-        """ copy everything, except the pcontainer """
-        # CHECKME: is this correct, or might it be misleading?
-        tmp = self.pcontainer
-        self.pcontainer = None
-        cp = Evolvable.copy(self)
-        cp.pcontainer = tmp
-        self.pcontainer = tmp
-        return cp
\ No newline at end of file
+        """ copy everything, including the pcontainer: a copy that shares it would see
+        its parameters change with those of the original. """
+        return Evolvable.copy(self)
-- 
2.43.0


From 173e217f922877158c69e7886edf598cf678f4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:44 +0000
Subject: [PATCH 061/193] fix: block and triangular matrix utilities use
 integer indices

---
 pybrain/utilities.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index 363827b..b101e3e 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -542,12 +542,12 @@ def permuteToBlocks2d(arr, blockheight, blockwidth):
     arr = arr.flatten()
     new = zeros(size(arr))
     for i in range(size(arr)):
-        blockx = (i % width) / blockwidth
-        blocky = i / width / blockheight
-        blockoffset = blocky * width / blockwidth + blockx
+        blockx = (i % width) // blockwidth
+        blocky = i // width // blockheight
+        blockoffset = blocky * width // blockwidth + blockx
         blockoffset *= blockwidth * blockheight
         inblockx = i % blockwidth
-        inblocky = (i / width) % blockheight
+        inblocky = (i // width) % blockheight
         j = blockoffset + inblocky * blockwidth + inblockx
         new[j] = arr[i]
     return new
@@ -557,7 +557,7 @@ def triu2flat(m):
     """ Flattens an upper triangular matrix, returning a vector of the
     non-zero elements. """
     dim = m.shape[0]
-    res = zeros(dim * (dim + 1) / 2)
+    res = zeros(dim * (dim + 1) // 2)
     index = 0
     for row in range(dim):
         res[index:index + dim - row] = m[row, row:]
@@ -596,7 +596,7 @@ def blockCombine(l):
     hs = sum(hdims)
     vdims = [row[0].shape[0] for row in l]
     vs = sum(vdims)
-    res = zeros((hs, vs))
+    res = zeros((vs, hs))
     vindex = 0
     for i, row in enumerate(l):
         hindex = 0
-- 
2.43.0


From 6576e469dd82627d0d55f82f1101ca075032fe37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:36 +0000
Subject: [PATCH 062/193] fix: a diverging memetic search leaves the mutation
 operators as they were

---
 .../memetic/innerinversememetic.py            |  6 +++--
 pybrain/optimization/memetic/innermemetic.py  |  6 +++--
 .../optimization/memetic/inversememetic.py    |  6 +++--
 pybrain/optimization/memetic/memetic.py       | 26 +++++++++++--------
 4 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/pybrain/optimization/memetic/innerinversememetic.py b/pybrain/optimization/memetic/innerinversememetic.py
index 61e4c83..725cbde 100644
--- a/pybrain/optimization/memetic/innerinversememetic.py
+++ b/pybrain/optimization/memetic/innerinversememetic.py
@@ -8,5 +8,7 @@ class InnerInverseMemeticSearch(InnerMemeticSearch, InverseMemeticSearch):
 
     def _learnStep(self):
         self.switchMutations()
-        InnerMemeticSearch._learnStep(self)
-        self.switchMutations()
\ No newline at end of file
+        try:
+            InnerMemeticSearch._learnStep(self)
+        finally:
+            self.switchMutations()
\ No newline at end of file
diff --git a/pybrain/optimization/memetic/innermemetic.py b/pybrain/optimization/memetic/innermemetic.py
index 4f98bc7..bbb93cb 100644
--- a/pybrain/optimization/memetic/innermemetic.py
+++ b/pybrain/optimization/memetic/innermemetic.py
@@ -12,8 +12,10 @@ class InnerMemeticSearch(ES, MemeticSearch):
 
     def _learnStep(self):
         self.switchMutations()
-        ES._learnStep(self)
-        self.switchMutations()
+        try:
+            ES._learnStep(self)
+        finally:
+            self.switchMutations()
 
     @property
     def batchSize(self):
diff --git a/pybrain/optimization/memetic/inversememetic.py b/pybrain/optimization/memetic/inversememetic.py
index 053e35d..0253734 100644
--- a/pybrain/optimization/memetic/inversememetic.py
+++ b/pybrain/optimization/memetic/inversememetic.py
@@ -8,5 +8,7 @@ class InverseMemeticSearch(MemeticSearch):
 
     def _learnStep(self):
         self.switchMutations()
-        MemeticSearch._learnStep(self)
-        self.switchMutations()
+        try:
+            MemeticSearch._learnStep(self)
+        finally:
+            self.switchMutations()
diff --git a/pybrain/optimization/memetic/memetic.py b/pybrain/optimization/memetic/memetic.py
index 74ab11e..1071483 100644
--- a/pybrain/optimization/memetic/memetic.py
+++ b/pybrain/optimization/memetic/memetic.py
@@ -25,7 +25,6 @@ class MemeticSearch(HillClimber, TopologyOptimizer):
         if self.numEvaluations == 0:
             return BlackBoxOptimizer._oneEvaluation(self, evaluable)
         else:
-            self.switchMutations()
             if isinstance(evaluable, MaskedParameters):
                 evaluable.returnZeros = False
                 x0 = evaluable.params
@@ -36,21 +35,26 @@ class MemeticSearch(HillClimber, TopologyOptimizer):
             else:
                 f = lambda x: BlackBoxOptimizer._oneEvaluation(self, x)
                 x0 = evaluable
-            outsourced = self.localSearch(f, x0,
-                                          maxEvaluations = self.localSteps,
-                                          desiredEvaluation = self.desiredEvaluation,
-                                          minimize = self.minimize,
-                                          **self.localSearchArgs)
-            assert self.localSteps > outsourced.batchSize, 'localSteps too small ('+str(self.localSteps)+\
-                                                '), because local search has a batch size of '+str(outsourced.batchSize)
-            _, fitness = outsourced.learn()
             self.switchMutations()
+            try:
+                outsourced = self.localSearch(f, x0,
+                                              maxEvaluations = self.localSteps,
+                                              desiredEvaluation = self.desiredEvaluation,
+                                              minimize = self.minimize,
+                                              **self.localSearchArgs)
+                assert self.localSteps > outsourced.batchSize, 'localSteps too small ('+str(self.localSteps)+\
+                                                    '), because local search has a batch size of '+str(outsourced.batchSize)
+                _, fitness = outsourced.learn()
+            finally:
+                self.switchMutations()
             return fitness
 
     def _learnStep(self):
         self.switchMutations()
-        HillClimber._learnStep(self)
-        self.switchMutations()
+        try:
+            HillClimber._learnStep(self)
+        finally:
+            self.switchMutations()
 
     def _notify(self):
         HillClimber._notify(self)
-- 
2.43.0


From e947b0afb1d95cd62ae55aac452ff06836317ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:05 +0000
Subject: [PATCH 063/193] fix: topology optimizers no longer overwrite the
 initial point they are given

---
 pybrain/optimization/optimizer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pybrain/optimization/optimizer.py b/pybrain/optimization/optimizer.py
index 9863bdb..2abdc66 100644
--- a/pybrain/optimization/optimizer.py
+++ b/pybrain/optimization/optimizer.py
@@ -179,7 +179,7 @@ class BlackBoxOptimizer(DirectSearchLearner):
         # we wrap it into a ParameterContainer.
         if isinstance(evaluable, ndarray):            
             pc = ParameterContainer(len(evaluable))
-            pc._setParameters(evaluable)
+            pc._setParameters(evaluable.copy())
             self._wasWrapped = True
             evaluable = pc
         self._initEvaluable = evaluable
@@ -337,8 +337,8 @@ class TopologyOptimizer(BlackBoxOptimizer):
         # distinguish modules from parameter containers.
         if not isinstance(evaluable, TopologyEvolvable):
             if isinstance(evaluable, Module):
-                self._initEvaluable = MaskedModule(self._initEvaluable)
+                self._initEvaluable = MaskedModule(self._initEvaluable.copy())
             else:
-                self._initEvaluable = MaskedParameters(self._initEvaluable, returnZeros = True)   
+                self._initEvaluable = MaskedParameters(self._initEvaluable.copy(), returnZeros = True)   
     
      
-- 
2.43.0


From 30dec26047064149ca2f5854d7f07e44ade83557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:04 +0000
Subject: [PATCH 064/193] fix: non-dominated front of more than 100 items

---
 pybrain/tools/nondominated.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pybrain/tools/nondominated.py b/pybrain/tools/nondominated.py
index 9f0fb7d..9ba0fcb 100644
--- a/pybrain/tools/nondominated.py
+++ b/pybrain/tools/nondominated.py
@@ -150,9 +150,9 @@ def _non_dominated_front_merge_arr(iterable, key=lambda x: x, allowequality=True
     items = list(iterable)
     l = len(items)
     if l > 100:
-        part1 = list(_non_dominated_front_merge_arr(items[:l / 2], key, allowequality))
-        part2 = list(_non_dominated_front_merge_arr(items[l / 2:], key, allowequality))
-        if len(part1) >= l / 3 or len(part2) >= l / 3:
+        part1 = list(_non_dominated_front_merge_arr(items[:l // 2], key, allowequality))
+        part2 = list(_non_dominated_front_merge_arr(items[l // 2:], key, allowequality))
+        if len(part1) >= l // 3 or len(part2) >= l // 3:
             return _non_dominated_front_arr(part1 + part2, key, allowequality)
         else:
             return _non_dominated_front_merge_arr(part1 + part2, key, allowequality)
-- 
2.43.0


From 5f8e09b1f5c8397846346873f4a10351e8ff0919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:04 +0000
Subject: [PATCH 065/193] fix: crowding distance with an objective that is
 equal for all

---
 pybrain/tools/nondominated.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pybrain/tools/nondominated.py b/pybrain/tools/nondominated.py
index 9ba0fcb..6174d6c 100644
--- a/pybrain/tools/nondominated.py
+++ b/pybrain/tools/nondominated.py
@@ -15,6 +15,9 @@ def crowding_distance(individuals, fitnesses):
         individuals.sort(key=lambda x: fitnesses[x][i])
         # normalization between 0 and 1.
         normalization = float(fitnesses[individuals[0]][i] - fitnesses[individuals[-1]][i])
+        if normalization == 0:
+            # all the same: this objective does not separate them
+            normalization = 1.
         # Make sure the boundary points are always selected.
         distances[individuals[0]] = 1e100
         distances[individuals[-1]] = 1e100
@@ -264,6 +267,9 @@ def const_crowding_distance(individuals, fitnesses):
         individuals.sort(key=lambda x: fitnesses[x][0][i])
         # normalization between 0 and 1.
         normalization = float(fitnesses[individuals[0]][0][i] - fitnesses[individuals[-1]][0][i])
+        if normalization == 0:
+            # all the same: this objective does not separate them
+            normalization = 1.
         # Make sure the boundary points are always selected.
         distances[individuals[0]] = 1e100
         distances[individuals[-1]] = 1e100
-- 
2.43.0


From 46beb3c0e287b7142cb7fbaa0f114cd87a33a5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:04 +0000
Subject: [PATCH 066/193] fix: multi-objective GA without elitism

---
 .../populationbased/multiobjective/constnsga2.py       | 10 +++++++---
 .../populationbased/multiobjective/nsga2.py            | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/pybrain/optimization/populationbased/multiobjective/constnsga2.py b/pybrain/optimization/populationbased/multiobjective/constnsga2.py
index c346362..a221a68 100644
--- a/pybrain/optimization/populationbased/multiobjective/constnsga2.py
+++ b/pybrain/optimization/populationbased/multiobjective/constnsga2.py
@@ -41,15 +41,19 @@ class ConstMultiObjectiveGA(GA):
         if self.storeAllPopulations:
             self._allGenerations.append((self.currentpop, self.fitnesses))
 
+        candidates = dict(self.fitnesses)
         if self.elitism:
             self.bestEvaluable = list(const_non_dominated_front(list(map(tuple, self.currentpop)),
                                                           key=lambda x: self.fitnesses[x],
                                                           allowequality = self.allowEquality))
         else:
-            self.bestEvaluable = list(const_non_dominated_front(list(map(tuple, self.currentpop))+self.bestEvaluable,
-                                                          key=lambda x: self.fitnesses[x],
+            # the best of all generations
+            if self.bestEvaluation is not None:
+                candidates.update(list(zip(self.bestEvaluable, self.bestEvaluation)))
+            self.bestEvaluable = list(const_non_dominated_front(list(candidates),
+                                                          key=lambda x: candidates[x],
                                                           allowequality = self.allowEquality))
-        self.bestEvaluation = [self.fitnesses[indiv] for indiv in self.bestEvaluable]
+        self.bestEvaluation = [candidates[indiv] for indiv in self.bestEvaluable]
 #        self.eliteProportion = float(len(self.bestEvaluable))/self.populationSize
 #        number_of_feasible = const_number_of_feasible_pop(map(tuple, self.currentpop),
 #                                                          key=lambda x: self.fitnesses[x],
diff --git a/pybrain/optimization/populationbased/multiobjective/nsga2.py b/pybrain/optimization/populationbased/multiobjective/nsga2.py
index 3cc7fba..0fb0bdb 100644
--- a/pybrain/optimization/populationbased/multiobjective/nsga2.py
+++ b/pybrain/optimization/populationbased/multiobjective/nsga2.py
@@ -43,15 +43,19 @@ class MultiObjectiveGA(GA):
         if self.storeAllPopulations:
             self._allGenerations.append((self.currentpop, self.fitnesses))
 
+        candidates = dict(self.fitnesses)
         if self.elitism:
             self.bestEvaluable = list(non_dominated_front(list(map(tuple, self.currentpop)),
                                                           key=lambda x: self.fitnesses[x],
                                                           allowequality = self.allowEquality))
         else:
-            self.bestEvaluable = list(non_dominated_front(list(map(tuple, self.currentpop))+self.bestEvaluable,
-                                                          key=lambda x: self.fitnesses[x],
+            # the best of all generations
+            if self.bestEvaluation is not None:
+                candidates.update(list(zip(self.bestEvaluable, self.bestEvaluation)))
+            self.bestEvaluable = list(non_dominated_front(list(candidates),
+                                                          key=lambda x: candidates[x],
                                                           allowequality = self.allowEquality))
-        self.bestEvaluation = [self.fitnesses[indiv] for indiv in self.bestEvaluable]
+        self.bestEvaluation = [candidates[indiv] for indiv in self.bestEvaluable]
 
         self.produceOffspring()
 
-- 
2.43.0


From f2b596bc21fcba0517367271bf8c6d0945050712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:30 +0000
Subject: [PATCH 067/193] fix: opposite of a constrained multi-objective
 function keeps feasibility

---
 pybrain/rl/environments/functions/transformations.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/functions/transformations.py b/pybrain/rl/environments/functions/transformations.py
index d34f00f..ae494ad 100644
--- a/pybrain/rl/environments/functions/transformations.py
+++ b/pybrain/rl/environments/functions/transformations.py
@@ -24,7 +24,16 @@ def oppositeFunction(basef):
                 res = FunctionEnvironment(basef.xdim, basef.xopt)
         else:
             res = FitnessEvaluator()        
-        res.f = lambda x:-basef.f(x)
+        if isinstance(basef, MultiObjectiveFunction):
+            def opposite(x):
+                y = -basef.f(x)
+                # the constraints are those of the original function
+                res.feasible = basef.feasible
+                res.violation = basef.violation
+                return y
+            res.f = opposite
+        else:
+            res.f = lambda x:-basef.f(x)
         if not basef.desiredValue is None:
             res.desiredValue = -basef.desiredValue
         res.toBeMinimized = not basef.toBeMinimized
-- 
2.43.0


From 6bf8859f168e40d41982cd4c90b9659f75c674f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:20 +0000
Subject: [PATCH 068/193] fix: softmax of large inputs

---
 pybrain/structure/modules/softmax.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pybrain/structure/modules/softmax.py b/pybrain/structure/modules/softmax.py
index f1f41cf..3219283 100644
--- a/pybrain/structure/modules/softmax.py
+++ b/pybrain/structure/modules/softmax.py
@@ -14,7 +14,8 @@ class SoftmaxLayer(NeuronLayer):
     # CHECKME: temperature parameter?
 
     def _forwardImplementation(self, inbuf, outbuf):
-        outbuf[:] = safeExp(inbuf)
+        # only differences matter: the largest input must not be cut off
+        outbuf[:] = safeExp(inbuf - max(inbuf))
         outbuf /= sum(outbuf)
 
     def _backwardImplementation(self, outerr, inerr, outbuf, inbuf):
@@ -32,8 +33,9 @@ class PartialSoftmaxLayer(NeuronLayer):
         self.argdict.update(size=size, slicelength=slicelength)
 
     def _forwardImplementation(self, inbuf, outbuf):
-        outbuf[:] = safeExp(inbuf)
         slices = outbuf.reshape(scipy.size(outbuf) // self.slicelength, self.slicelength)
+        inslices = inbuf.reshape(slices.shape)
+        slices[:] = safeExp(inslices - inslices.max(axis=1).reshape(-1, 1))
         slices /= slices.sum(axis=1).reshape(-1, 1)
 
     def _backwardImplementation(self, outerr, inerr, outbuf, inbuf):
-- 
2.43.0


From b7d987c480f69918b2cb144833f45cd3bd3bb72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:20 +0000
Subject: [PATCH 069/193] fix: mixing coefficients of large inputs

---
 pybrain/structure/modules/mixturedensity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/structure/modules/mixturedensity.py b/pybrain/structure/modules/mixturedensity.py
index 2ca110b..5619c14 100644
--- a/pybrain/structure/modules/mixturedensity.py
+++ b/pybrain/structure/modules/mixturedensity.py
@@ -28,7 +28,8 @@ class MixtureDensityLayer(NeuronLayer):
         values!) from given activations """        
         K = self.nGaussians
         # Mixing parameters and stddevs
-        outbuf[0:K*2] = safeExp(inbuf[0:K*2])
+        outbuf[0:K] = safeExp(inbuf[0:K] - max(inbuf[0:K]))
+        outbuf[K:K*2] = safeExp(inbuf[K:K*2])
         outbuf[0:K] /= sum(outbuf[0:K])
         # Means
         outbuf[K*2:] = inbuf[K*2:]
-- 
2.43.0


From 743c63cc7ab33c8537bcd488288809bedfc43595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:47 +0000
Subject: [PATCH 070/193] fix: removing no individuals removed all

---
 pybrain/supervised/evolino/gpopulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/supervised/evolino/gpopulation.py b/pybrain/supervised/evolino/gpopulation.py
index 0b689bd..1fa6ffb 100644
--- a/pybrain/supervised/evolino/gpopulation.py
+++ b/pybrain/supervised/evolino/gpopulation.py
@@ -125,7 +125,7 @@ class SimplePopulation(Population):
             If n is greater than the number of individuals inside the population
             all individuals are returned.
         """
-        return set(self.getSortedIndividualList()[-n:])
+        return set(self.getSortedIndividualList()[-n:]) if n > 0 else set()
 
     def removeWorstIndividuals(self, n):
         """ Removes the n individuals with the lowest fitness ranking.
-- 
2.43.0


From 2c65b0c0694eb623aff39b91ba16c11ce7c1c9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:47 +0000
Subject: [PATCH 071/193] fix: maximal fitness of a population

---
 pybrain/supervised/evolino/gpopulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/supervised/evolino/gpopulation.py b/pybrain/supervised/evolino/gpopulation.py
index 1fa6ffb..2c33e73 100644
--- a/pybrain/supervised/evolino/gpopulation.py
+++ b/pybrain/supervised/evolino/gpopulation.py
@@ -105,7 +105,7 @@ class SimplePopulation(Population):
 
     def getMaxFitness(self):
         """ Returns the maximal fitness value """
-        return self.getIndividualFitness(self.getBestIndividuals(1))
+        return max(self._fitness.values())
 
 
 
-- 
2.43.0


From 1a165230dc8688e9ed5dd25dc0607ae7a936046e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:48 +0000
Subject: [PATCH 072/193] fix: evolino hangs with small subpopulations

---
 pybrain/supervised/evolino/filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/supervised/evolino/filter.py b/pybrain/supervised/evolino/filter.py
index 127f447..7a93d12 100644
--- a/pybrain/supervised/evolino/filter.py
+++ b/pybrain/supervised/evolino/filter.py
@@ -224,7 +224,8 @@ class EvolinoSubSelection(Filter):
 
         n = population.getIndividualsN()
         if self.nParents is None:
-            nKeep = n // 4
+            # without parents there would be no children
+            nKeep = max(1, n // 4)
         else:
             nKeep = self.nParents
 
-- 
2.43.0


From 10515f9b9070dc76285e6299c70759521bd8e4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:48 +0000
Subject: [PATCH 073/193] fix: evolino evaluation with the default washout
 ratio

---
 pybrain/supervised/evolino/filter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pybrain/supervised/evolino/filter.py b/pybrain/supervised/evolino/filter.py
index 7a93d12..4f1e3cd 100644
--- a/pybrain/supervised/evolino/filter.py
+++ b/pybrain/supervised/evolino/filter.py
@@ -8,7 +8,7 @@ from pybrain.supervised.evolino.population import SimplePopulation
 from pybrain.tools.validation import Validator
 from pybrain.tools.kwargsprocessor import KWArgsProcessor
 
-from numpy import array, dot, concatenate, Infinity
+from numpy import array, dot, concatenate, Infinity, isscalar
 from scipy.linalg import pinv2
 from copy import deepcopy
 
@@ -51,6 +51,10 @@ class EvolinoEvaluation(Filter):
             :key wtRatio: See __init__
         """
 
+        if not isscalar(wtRatio):
+            # washout to training
+            wtRatio = wtRatio[0] / float(sum(wtRatio))
+
         # === extract sequences from dataset ===
         numSequences = dataset.getNumSequences()
         washout_sequences = []
-- 
2.43.0


From 5ef9f81843c006e43904879e8486d40052eb15d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:07 +0000
Subject: [PATCH 074/193] fix: tournaments are won by the samples drawn

---
 pybrain/tools/rankingfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/tools/rankingfunctions.py b/pybrain/tools/rankingfunctions.py
index ea9a923..185f348 100644
--- a/pybrain/tools/rankingfunctions.py
+++ b/pybrain/tools/rankingfunctions.py
@@ -58,7 +58,7 @@ class TournamentSelection(RankingFunction):
                     randindex = randint(0, len(R) - 1)
                 l.append(randindex)
             fits = [R[x] for x in l]
-            res[argmax(fits)] += 1
+            res[l[argmax(fits)]] += 1
         return res
 
 
-- 
2.43.0


From d7f704f15174a72fd4666a45a46aaea1bc789937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:29 +0000
Subject: [PATCH 075/193] fix: action values of states that come as
 observations

---
 pybrain/rl/learners/valuebased/interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/learners/valuebased/interface.py b/pybrain/rl/learners/valuebased/interface.py
index c4a6ae1..9c4b657 100644
--- a/pybrain/rl/learners/valuebased/interface.py
+++ b/pybrain/rl/learners/valuebased/interface.py
@@ -56,7 +56,7 @@ class ActionValueTable(Table, ActionValueInterface):
         return action
 
     def getActionValues(self, state):
-        return self.params.reshape(self.numRows, self.numColumns)[state, :].flatten()
+        return self.params.reshape(self.numRows, self.numColumns)[int(state), :].flatten()
 
     def initialize(self, value=0.0):
         """ Initialize the whole table with the given value. """
-- 
2.43.0


From 72e75ddf9a8be4f57e53746b85a5673ef3b261a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:29 +0000
Subject: [PATCH 076/193] fix: agents with observations or actions of several
 values

---
 pybrain/rl/agents/logging.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pybrain/rl/agents/logging.py b/pybrain/rl/agents/logging.py
index c13e356..745b7ba 100644
--- a/pybrain/rl/agents/logging.py
+++ b/pybrain/rl/agents/logging.py
@@ -41,9 +41,9 @@ class LoggingAgent(Agent):
 
     def getAction(self):
         """Step 2: store the action in a temporary variable until reward is given. """
-        assert self.lastobs != None
-        assert self.lastaction == None
-        assert self.lastreward == None
+        assert self.lastobs is not None
+        assert self.lastaction is None
+        assert self.lastreward is None
 
         # implement getAction in subclass and set self.lastaction
 
@@ -51,9 +51,9 @@ class LoggingAgent(Agent):
     def giveReward(self, r):
         """Step 3: store observation, action and reward in the history dataset. """
         # step 3: assume that state and action have been set
-        assert self.lastobs != None
-        assert self.lastaction != None
-        assert self.lastreward == None
+        assert self.lastobs is not None
+        assert self.lastaction is not None
+        assert self.lastreward is None
 
         self.lastreward = r
 
-- 
2.43.0


From 61b97050b98fa927f6e34f254e3fab0a9f0c9cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:29 +0000
Subject: [PATCH 077/193] fix: normalized observations are clipped

---
 pybrain/rl/environments/task.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pybrain/rl/environments/task.py b/pybrain/rl/environments/task.py
index e771044..261c0ee 100644
--- a/pybrain/rl/environments/task.py
+++ b/pybrain/rl/environments/task.py
@@ -52,9 +52,10 @@ class Task(object):
             if not l:
                 result.append(s)
             else:
-                result.append((s - l[0]) / (l[1] - l[0]) * 2 - 1.0)
-        if self.clipping:
-            clip(result, -1, 1)
+                r = (s - l[0]) / (l[1] - l[0]) * 2 - 1.0
+                if self.clipping:
+                    r = clip(r, -1, 1)
+                result.append(r)
         return asarray(result)
 
     def denormalize(self, actors):
-- 
2.43.0


From 12af7c6148d1a28e1dfe83cd98ab79ec7bd29b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:29 +0000
Subject: [PATCH 078/193] fix: Q-lambda truncates rewards to integers

---
 pybrain/rl/learners/valuebased/qlambda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/learners/valuebased/qlambda.py b/pybrain/rl/learners/valuebased/qlambda.py
index 1c6a507..ef4f510 100644
--- a/pybrain/rl/learners/valuebased/qlambda.py
+++ b/pybrain/rl/learners/valuebased/qlambda.py
@@ -35,7 +35,7 @@ class QLambda(ValueBasedLearner):
             laststate = int(states[i - 1])
             # action = int(actions[i])
             lastaction = int(actions[i - 1])
-            lastreward = int(rewards[i - 1])
+            lastreward = float(rewards[i - 1])
 
             qvalue = self.module.getValue(laststate, lastaction)
             maxnext = self.module.getValue(state, self.module.getMaxAction(state))
-- 
2.43.0


From 4081692333263ff14898cbb47969f7c5250c20ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:46 +0000
Subject: [PATCH 079/193] fix: Q-lambda learns across episodes

---
 pybrain/rl/learners/valuebased/qlambda.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pybrain/rl/learners/valuebased/qlambda.py b/pybrain/rl/learners/valuebased/qlambda.py
index ef4f510..fa65620 100644
--- a/pybrain/rl/learners/valuebased/qlambda.py
+++ b/pybrain/rl/learners/valuebased/qlambda.py
@@ -24,6 +24,7 @@ class QLambda(ValueBasedLearner):
         states = self.dataset['state']
         actions = self.dataset['action']
         rewards = self.dataset['reward']
+        starts = set(int(s) for s in self.dataset['sequence_index'][:, 0])
 
         for i in range(states.shape[0] - 1, 0, -1):
             lbda = self.qlambda ** (states.shape[0] - 1 - i)
@@ -31,6 +32,11 @@ class QLambda(ValueBasedLearner):
             if lbda < 0.0001:
                 break
 
+            # the first state of an episode does not follow the last state
+            # of the previous one
+            if i in starts:
+                continue
+
             state = int(states[i])
             laststate = int(states[i - 1])
             # action = int(actions[i])
-- 
2.43.0


From 1d5f937a711a9bbd7cca77b1a8a0e8aab2b46460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:46 +0000
Subject: [PATCH 080/193] fix: Q and SARSA never learn when not in batch mode

---
 pybrain/rl/learners/valuebased/q.py     | 18 ++++++++++++++----
 pybrain/rl/learners/valuebased/sarsa.py | 18 ++++++++++++++----
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/pybrain/rl/learners/valuebased/q.py b/pybrain/rl/learners/valuebased/q.py
index 9c7fc3f..cf7beac 100644
--- a/pybrain/rl/learners/valuebased/q.py
+++ b/pybrain/rl/learners/valuebased/q.py
@@ -14,8 +14,19 @@ class Q(ValueBasedLearner):
         self.alpha = alpha
         self.gamma = gamma
 
+        self._forgetLast()
+
+    def _forgetLast(self):
         self.laststate = None
         self.lastaction = None
+        self.lastreward = None
+
+    def newEpisode(self):
+        ValueBasedLearner.newEpisode(self)
+        self._forgetLast()
+
+    def reset(self):
+        self._forgetLast()
 
     def learn(self):
         """ Learn on the current dataset, either for many timesteps and
@@ -32,14 +43,13 @@ class Q(ValueBasedLearner):
         if self.batchMode:
             samples = self.dataset
         else:
-            samples = [[self.dataset.getSample()]]
+            samples = [[self.dataset.getSample(len(self.dataset) - 1)]]
 
         for seq in samples:
             # information from the previous episode (sequence)
             # should not influence the training on this episode
-            self.laststate = None
-            self.lastaction = None
-            self.lastreward = None
+            if self.batchMode:
+                self._forgetLast()
 
             for state, action, reward in seq:
 
diff --git a/pybrain/rl/learners/valuebased/sarsa.py b/pybrain/rl/learners/valuebased/sarsa.py
index 226a40e..d8dfe72 100644
--- a/pybrain/rl/learners/valuebased/sarsa.py
+++ b/pybrain/rl/learners/valuebased/sarsa.py
@@ -21,21 +21,31 @@ class SARSA(ValueBasedLearner):
         self.alpha = alpha
         self.gamma = gamma
 
+        self._forgetLast()
+
+    def _forgetLast(self):
         self.laststate = None
         self.lastaction = None
+        self.lastreward = None
+
+    def newEpisode(self):
+        ValueBasedLearner.newEpisode(self)
+        self._forgetLast()
+
+    def reset(self):
+        self._forgetLast()
 
     def learn(self):
         if self.batchMode:
             samples = self.dataset
         else:
-            samples = [[self.dataset.getSample()]]
+            samples = [[self.dataset.getSample(len(self.dataset) - 1)]]
 
         for seq in samples:
             # information from the previous episode (sequence)
             # should not influence the training on this episode
-            self.laststate = None
-            self.lastaction = None
-            self.lastreward = None
+            if self.batchMode:
+                self._forgetLast()
             for state, action, reward in seq:
 
                 state = int(state)
-- 
2.43.0


From e7190c40836c617fad70fc94510b380345dafeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:22 +0000
Subject: [PATCH 081/193] fix: neuro-fitted Q-learning from the actions of a
 dataset

---
 pybrain/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index b101e3e..eb39861 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -382,7 +382,7 @@ def asBinary(i):
 def one_to_n(val, maxval):
     """ Returns a 1-in-n binary encoding of a non-negative integer. """
     a = zeros(maxval, float)
-    a[val] = 1.
+    a[int(val)] = 1.
     return a
 
 
-- 
2.43.0


From fa12044fac0b54bddbc777068f20f89a7aeb2ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:32 +0000
Subject: [PATCH 082/193] fix: policy gradients of several episodes

---
 pybrain/rl/learners/directsearch/enac.py      | 2 +-
 pybrain/rl/learners/directsearch/reinforce.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/learners/directsearch/enac.py b/pybrain/rl/learners/directsearch/enac.py
index 397bd9b..7ae1618 100644
--- a/pybrain/rl/learners/directsearch/enac.py
+++ b/pybrain/rl/learners/directsearch/enac.py
@@ -24,7 +24,7 @@ class ENAC(PolicyGradientLearner):
         print((self.dataset.getNumSequences()))
         for n in range(self.dataset.getNumSequences()):
             _state, _action, reward = self.dataset.getSequence(n)
-            seqidx = ravel(self.dataset['sequence_index'])
+            seqidx = ravel(self.dataset['sequence_index']).astype(int)
             if n == self.dataset.getNumSequences() - 1:
                 # last sequence until end of dataset
                 loglh = self.loglh['loglh'][seqidx[n]:, :]
diff --git a/pybrain/rl/learners/directsearch/reinforce.py b/pybrain/rl/learners/directsearch/reinforce.py
index 5f4217f..a0020a6 100644
--- a/pybrain/rl/learners/directsearch/reinforce.py
+++ b/pybrain/rl/learners/directsearch/reinforce.py
@@ -17,7 +17,7 @@ class Reinforce(PolicyGradientLearner):
 
         # initialize variables
         returns = self.dataset.getSumOverSequences('reward')
-        seqidx = ravel(self.dataset['sequence_index'])
+        seqidx = ravel(self.dataset['sequence_index']).astype(int)
 
         # sum of sequences up to n-1
         loglhs = [sum(self.loglh['loglh'][seqidx[n]:seqidx[n + 1], :]) for n in range(self.dataset.getNumSequences() - 1)]
-- 
2.43.0


From 17a69d7ce4012e08f11b6be365ba9df5e6cfd9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:32 +0000
Subject: [PATCH 083/193] fix: log likelihoods of actions accumulate over the
 steps, and REINFORCE descends

---
 pybrain/rl/learners/directsearch/policygradient.py | 1 +
 pybrain/rl/learners/directsearch/reinforce.py      | 3 +--
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/learners/directsearch/policygradient.py b/pybrain/rl/learners/directsearch/policygradient.py
index 5699179..cb1eb59 100644
--- a/pybrain/rl/learners/directsearch/policygradient.py
+++ b/pybrain/rl/learners/directsearch/policygradient.py
@@ -122,6 +122,7 @@ class PolicyGradientLearner(DirectSearchLearner, DataSetLearner, ExploringLearne
         explorative = ExploringLearner.explore(self, state, action)
 
         # backward pass through network and store derivs
+        self.network.resetDerivatives()
         self.network.backward()
         self.loglh.appendLinked(self.network.derivs.copy())
 
diff --git a/pybrain/rl/learners/directsearch/reinforce.py b/pybrain/rl/learners/directsearch/reinforce.py
index a0020a6..7eb7f12 100644
--- a/pybrain/rl/learners/directsearch/reinforce.py
+++ b/pybrain/rl/learners/directsearch/reinforce.py
@@ -26,8 +26,7 @@ class Reinforce(PolicyGradientLearner):
         loglhs = array(loglhs)
 
         baselines = mean(loglhs ** 2 * returns, 0) / mean(loglhs ** 2, 0)
-        # TODO: why gradient negative?
-        gradient = -mean(loglhs * (returns - baselines), 0)
+        gradient = mean(loglhs * (returns - baselines), 0)
 
         return gradient
 
-- 
2.43.0


From 13a7e8600f180f8d6b51b34dfe2835bfab73eca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:32 +0000
Subject: [PATCH 084/193] fix: gradient of the state-dependent exploration

---
 pybrain/rl/explorers/continuous/sde.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/pybrain/rl/explorers/continuous/sde.py b/pybrain/rl/explorers/continuous/sde.py
index e45373d..c83df95 100644
--- a/pybrain/rl/explorers/continuous/sde.py
+++ b/pybrain/rl/explorers/continuous/sde.py
@@ -61,20 +61,18 @@ class StateDependentExplorer(Explorer, ParameterContainer):
         outbuf[:] = inbuf + dot(self.state, self.explmatrix)
 
     def _backwardImplementation(self, outerr, inerr, outbuf, inbuf):
-        expln_params = expln(self.params
-                        ).reshape(len(outbuf), len(self.state))
-        explnPrime_params = explnPrime(self.params
-                        ).reshape(len(outbuf), len(self.state))
+        # one sigma for every action
+        expln_params = expln(self.params)
+        explnPrime_params = explnPrime(self.params)
+        sumxsquared = dot(self.state, self.state)
 
-        idx = 0
         for j in range(len(outbuf)):
-            sigma_subst2 = dot(self.state ** 2, expln_params[j, :]**2)
-            for i in range(len(self.state)):
-                self._derivs[idx] = ((outbuf[j] - inbuf[j]) ** 2 - sigma_subst2) / sigma_subst2 * \
-                    self.state[i] ** 2 * expln_params[j, i] * explnPrime_params[j, i]
-                # if self.autoalpha and sigma_subst2 != 0:
-                # self._derivs[idx] /= sigma_subst2
-                idx += 1
+            sigma_subst2 = sumxsquared * expln_params[j] ** 2
+            if sigma_subst2 != 0:
+                self._derivs[j] += ((outbuf[j] - inbuf[j]) ** 2 - sigma_subst2) / sigma_subst2 * \
+                    sumxsquared * expln_params[j] * explnPrime_params[j]
+            # if self.autoalpha and sigma_subst2 != 0:
+            # self._derivs[j] /= sigma_subst2
             inerr[j] = (outbuf[j] - inbuf[j])
             # if not self.autoalpha and sigma_subst2 != 0:
             #     inerr[j] /= sigma_subst2
-- 
2.43.0


From 0ec433895ca5a1a1a1b89e7cd3496ee8687badb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:04 +0000
Subject: [PATCH 085/193] fix: observing the simple environment moved it again

---
 pybrain/rl/environments/simple/environment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pybrain/rl/environments/simple/environment.py b/pybrain/rl/environments/simple/environment.py
index e0af3ac..95f2368 100644
--- a/pybrain/rl/environments/simple/environment.py
+++ b/pybrain/rl/environments/simple/environment.py
@@ -26,6 +26,7 @@ class SimpleEnvironment(Environment):
         self.action = action
 
     def update(self):
+        self.updated = True
         self.state = [s + 0.1 * a for s, a in zip(self.state, self.action)]
         if self.noise:
             self.state += random.normal(0, self.noise, self.dim)
-- 
2.43.0


From 0438e6994124737ff6b40470639156f86640853b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:04 +0000
Subject: [PATCH 086/193] fix: minimize task rewarded the previous action

---
 pybrain/rl/environments/simple/tasks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/simple/tasks.py b/pybrain/rl/environments/simple/tasks.py
index 7419880..3e53580 100644
--- a/pybrain/rl/environments/simple/tasks.py
+++ b/pybrain/rl/environments/simple/tasks.py
@@ -28,8 +28,9 @@ class MinimizeTask(EpisodicTask):
         return self.state
 
     def performAction(self, action):
-        EpisodicTask.performAction(self, action)
+        # the reward added by the superclass is the one of this action
         self.action = action
+        EpisodicTask.performAction(self, action)
 
     def getReward(self):
         # sleep(0.01)
-- 
2.43.0


From 29fc7fe3bc68548f031031e935e5ad6bacbf5dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:54 +0000
Subject: [PATCH 087/193] fix: legal positions of the capture game included
 forbidden suicides

---
 pybrain/rl/environments/twoplayergames/capturegame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/twoplayergames/capturegame.py b/pybrain/rl/environments/twoplayergames/capturegame.py
index 9dd9660..9b9f93b 100644
--- a/pybrain/rl/environments/twoplayergames/capturegame.py
+++ b/pybrain/rl/environments/twoplayergames/capturegame.py
@@ -202,7 +202,7 @@ class CaptureGame(TwoPlayerGame):
 
     def getLegals(self, c):
         """ return all the legal positions for a color """
-        return [p for p in self._iterPos() if self.b[p] == self.EMPTY]
+        return [p for p in self._iterPos() if self.isLegal(c, p)]
 
     def getAcceptable(self, c):
         """ return all legal positions for a color that don't commit suicide. """
-- 
2.43.0


From 38b95372f5e7bbd481b147777b826b188b953090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:54 +0000
Subject: [PATCH 088/193] fix: illegal moves counted as moves done, so full
 boards were no draws

---
 pybrain/rl/environments/twoplayergames/capturegame.py | 4 ++--
 pybrain/rl/environments/twoplayergames/gomoku.py      | 4 ++--
 pybrain/rl/environments/twoplayergames/pente.py       | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pybrain/rl/environments/twoplayergames/capturegame.py b/pybrain/rl/environments/twoplayergames/capturegame.py
index 9b9f93b..6d70b00 100644
--- a/pybrain/rl/environments/twoplayergames/capturegame.py
+++ b/pybrain/rl/environments/twoplayergames/capturegame.py
@@ -75,12 +75,12 @@ class CaptureGame(TwoPlayerGame):
     def doMove(self, c, pos):
         """ the action is a (color, position) tuple, for the next stone to move.
         returns True if the move was legal. """
+        if pos != 'resign' and not self.isLegal(c, pos):
+            return False
         self.movesDone += 1
         if pos == 'resign':
             self.winner = -c
             return True
-        elif not self.isLegal(c, pos):
-            return False
         elif self._suicide(c, pos):
             assert self.suicideenabled
             self.b[pos] = 'y'
diff --git a/pybrain/rl/environments/twoplayergames/gomoku.py b/pybrain/rl/environments/twoplayergames/gomoku.py
index c9d6bdb..451b940 100644
--- a/pybrain/rl/environments/twoplayergames/gomoku.py
+++ b/pybrain/rl/environments/twoplayergames/gomoku.py
@@ -79,10 +79,10 @@ class GomokuGame(TwoPlayerGame):
     def doMove(self, c, pos):
         """ the action is a (color, position) tuple, for the next stone to move.
         returns True if the move was legal. """
-        self.movesDone += 1
         if not self.isLegal(c, pos):
             return False
-        elif self._fiveRow(c, pos):
+        self.movesDone += 1
+        if self._fiveRow(c, pos):
             self.winner = c
             self.b[pos] = 'x'
             return True
diff --git a/pybrain/rl/environments/twoplayergames/pente.py b/pybrain/rl/environments/twoplayergames/pente.py
index e02190a..cb95185 100644
--- a/pybrain/rl/environments/twoplayergames/pente.py
+++ b/pybrain/rl/environments/twoplayergames/pente.py
@@ -50,10 +50,10 @@ class PenteGame(GomokuGame):
     def doMove(self, c, pos):
         """ the action is a (color, position) tuple, for the next stone to move.
         returns True if the move was legal. """
-        self.movesDone += 1
         if not self.isLegal(c, pos):
             return False
-        elif self._fiveRow(c, pos):
+        self.movesDone += 1
+        if self._fiveRow(c, pos):
             self.winner = c
             self.b[pos] = 'x'
             return True
-- 
2.43.0


From e0912ee3aeec554b4c5a53d0a9b05adb8ed9106f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:54 +0000
Subject: [PATCH 089/193] fix: go-moku module player confused positions of
 boards that are not square

---
 .../twoplayergames/gomokuplayers/moduledecision.py            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/environments/twoplayergames/gomokuplayers/moduledecision.py b/pybrain/rl/environments/twoplayergames/gomokuplayers/moduledecision.py
index d6ad145..8642178 100644
--- a/pybrain/rl/environments/twoplayergames/gomokuplayers/moduledecision.py
+++ b/pybrain/rl/environments/twoplayergames/gomokuplayers/moduledecision.py
@@ -59,10 +59,10 @@ class ModuleDecidingPlayer(RandomGomokuPlayer):
         return drawn
 
     def _convertIndexToPos(self, i):
-        return (i//self.game.size[0], i%self.game.size[0])
+        return (i//self.game.size[1], i%self.game.size[1])
 
     def _convertPosToIndex(self, p):
-        return p[0]*self.game.size[0]+p[1]
+        return p[0]*self.game.size[1]+p[1]
 
     def integrateObservation(self, obs = None):
         pass
-- 
2.43.0


From 994d562f6af1044df137938e3c7fa0df04254779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:54 +0000
Subject: [PATCH 090/193] fix: tournament counted draws as victories of the
 second player

---
 pybrain/rl/experiments/tournament.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pybrain/rl/experiments/tournament.py b/pybrain/rl/experiments/tournament.py
index d298311..b972fb1 100644
--- a/pybrain/rl/experiments/tournament.py
+++ b/pybrain/rl/experiments/tournament.py
@@ -66,8 +66,10 @@ class Tournament(Named):
         wincolor = self.env.getWinner()
         if wincolor == p1.color:
             winner = p1
-        else:
+        elif wincolor == p2.color:
             winner = p2
+        else:
+            winner = self.env.DRAW
         self.results[players].append(winner)
 
     def organize(self, repeat=1):
-- 
2.43.0


From ca7a4abdf97d83f2ac24d87a5f0ed62e885f56df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:54 +0000
Subject: [PATCH 091/193] fix: relative go-moku score counted draws as defeats

---
 .../rl/environments/twoplayergames/tasks/relativegomokutask.py  | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pybrain/rl/environments/twoplayergames/tasks/relativegomokutask.py b/pybrain/rl/environments/twoplayergames/tasks/relativegomokutask.py
index bcf49d1..fd48ce9 100644
--- a/pybrain/rl/environments/twoplayergames/tasks/relativegomokutask.py
+++ b/pybrain/rl/environments/twoplayergames/tasks/relativegomokutask.py
@@ -107,6 +107,8 @@ class RelativeGomokuTask(GomokuTask):
         else:
             self.env.playToTheEnd(self.player, self.opponent)
         moves = self.env.movesDone
+        if self.env.winner == self.env.DRAW:
+            return 0
         win = self.env.winner == self.player.color
         if self.verbose:
             print(('Preset:', preset, 'T:', self.temp, 'Win:', win, 'after', moves, 'moves.'))
-- 
2.43.0


From 4bcf45a580549f5a16fc223b59cf4b7a20c29ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:09 +0000
Subject: [PATCH 092/193] fix: tolerant drawing of an index normalized the
 array of its caller

---
 pybrain/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index eb39861..a71c86d 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -38,7 +38,8 @@ def drawIndex(probs, tolerant=False):
     :key tolerant: if set to True, the array is normalized to sum to 1.  """
     if not sum(probs) < 1.00001 or not sum(probs) > 0.99999:
         if tolerant:
-            probs /= sum(probs)
+            # the given probabilities are left as they are
+            probs = array(probs) / float(sum(probs))
         else:
             print((probs, 1 - sum(probs)))
             raise ValueError()
-- 
2.43.0


From 657d4fe32a5973180552597147646eb616831988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:19 +0000
Subject: [PATCH 093/193] fix: xor tasks observed fractions instead of bits

---
 pybrain/rl/environments/classic/xor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/environments/classic/xor.py b/pybrain/rl/environments/classic/xor.py
index 98ef395..cfb551c 100644
--- a/pybrain/rl/environments/classic/xor.py
+++ b/pybrain/rl/environments/classic/xor.py
@@ -26,7 +26,7 @@ class XORTask(EpisodicTask):
         if self.randomorder:
             self.obs = array([randint(0,1), randint(0,1), 1])
         else:
-            self.obs = array([self._counter%2, (self._counter/2)%2, 1])    
+            self.obs = array([self._counter%2, (self._counter//2)%2, 1])    
         self._counter += 1    
         return self.obs
         
@@ -64,7 +64,7 @@ class XORChainTask(XORTask):
         self.state = 0
         
     def getObservation(self):
-        self.obs = array([self.state%2, (self.state/2)%2, 1])    
+        self.obs = array([self.state%2, (self.state//2)%2, 1])    
         return self.obs
         
     def performAction(self, action):
-- 
2.43.0


From db8ae8e18858ef08315f8fd3d5738b59edb9225a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:19 +0000
Subject: [PATCH 094/193] fix: positions of a maze that is not square shared
 state numbers

---
 pybrain/rl/environments/mazes/tasks/mdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/mazes/tasks/mdp.py b/pybrain/rl/environments/mazes/tasks/mdp.py
index 23a97ec..0d32a0f 100644
--- a/pybrain/rl/environments/mazes/tasks/mdp.py
+++ b/pybrain/rl/environments/mazes/tasks/mdp.py
@@ -28,7 +28,7 @@ class MDPMazeTask(Task):
         """ The agent receives its position in the maze, to make this a fully observable
             MDP problem.
         """
-        obs = array([self.env.perseus[0] * self.env.mazeTable.shape[0] + self.env.perseus[1]])
+        obs = array([self.env.perseus[0] * self.env.mazeTable.shape[1] + self.env.perseus[1]])
         return obs
 
 
-- 
2.43.0


From 7bfc9b1d0d7ff4ce1af10ed2dcdbf84af4b28458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:20 +0000
Subject: [PATCH 095/193] fix: discrete tasks refused actions given as arrays,
 and the 4x3 maze slipped backwards

---
 pybrain/rl/environments/mazes/tasks/maze4x3.py | 3 ++-
 pybrain/rl/environments/mazes/tasks/pomdp.py   | 8 ++++++--
 pybrain/rl/environments/mazes/tasks/shuttle.py | 1 +
 pybrain/rl/environments/mazes/tasks/tiger.py   | 1 +
 4 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/pybrain/rl/environments/mazes/tasks/maze4x3.py b/pybrain/rl/environments/mazes/tasks/maze4x3.py
index 5fbfe30..c162b9f 100644
--- a/pybrain/rl/environments/mazes/tasks/maze4x3.py
+++ b/pybrain/rl/environments/mazes/tasks/maze4x3.py
@@ -38,9 +38,10 @@ class FourByThreeMaze(MazeTask):
         self.bad = False
 
     def performAction(self, action):
+        action = self._actionIndex(action)
         poss = []
         for a in range(self.actions):
-            if action - a % 4 != 2:
+            if (action - a) % 4 != 2:
                 poss.append(a)
         if random() < self.stochAction * len(poss):
             MazeTask.performAction(self, choice(poss))
diff --git a/pybrain/rl/environments/mazes/tasks/pomdp.py b/pybrain/rl/environments/mazes/tasks/pomdp.py
index ef05112..c413cdd 100644
--- a/pybrain/rl/environments/mazes/tasks/pomdp.py
+++ b/pybrain/rl/environments/mazes/tasks/pomdp.py
@@ -47,7 +47,11 @@ class POMDPTask(EpisodicTask, Named):
     def performAction(self, action):
         """ POMDP tasks, as they have discrete actions, can me used by providing either an index,
         or an array with a 1-in-n coding (which can be stochastic). """
+        self.steps += 1
+        EpisodicTask.performAction(self, self._actionIndex(action))
+
+    def _actionIndex(self, action):
+        """ the index of an action given as an index or as an array. """
         if type(action) == ndarray:
             action = drawIndex(action, tolerant = True)
-        self.steps += 1
-        EpisodicTask.performAction(self, action)
\ No newline at end of file
+        return action
diff --git a/pybrain/rl/environments/mazes/tasks/shuttle.py b/pybrain/rl/environments/mazes/tasks/shuttle.py
index f13a6fe..642e36e 100644
--- a/pybrain/rl/environments/mazes/tasks/shuttle.py
+++ b/pybrain/rl/environments/mazes/tasks/shuttle.py
@@ -56,6 +56,7 @@ class ShuttleDocking(MazeTask):
         return res
 
     def performAction(self, action):
+        action = self._actionIndex(action)
         self.steps += 1
         if action == self.TurnAround:
             self._turn()
diff --git a/pybrain/rl/environments/mazes/tasks/tiger.py b/pybrain/rl/environments/mazes/tasks/tiger.py
index 6d0b056..330bac7 100644
--- a/pybrain/rl/environments/mazes/tasks/tiger.py
+++ b/pybrain/rl/environments/mazes/tasks/tiger.py
@@ -30,6 +30,7 @@ class TigerTask(POMDPTask):
         self.nextReward = -1
 
     def performAction(self, action):
+        action = self._actionIndex(action)
         self.steps += 1
         if action != self.Listen:
             self.done = True
-- 
2.43.0


From edadb1b43f12235902d38c3c0339ef9fd0d44ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:20 +0000
Subject: [PATCH 096/193] fix: 4x3 maze ignored its absorbing spot

---
 pybrain/rl/environments/mazes/tasks/maze4x3.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pybrain/rl/environments/mazes/tasks/maze4x3.py b/pybrain/rl/environments/mazes/tasks/maze4x3.py
index c162b9f..29db6f7 100644
--- a/pybrain/rl/environments/mazes/tasks/maze4x3.py
+++ b/pybrain/rl/environments/mazes/tasks/maze4x3.py
@@ -33,9 +33,15 @@ class FourByThreeMaze(MazeTask):
                       [1] * 6, ])
     goal = (3, 4)
 
-    def reset(self):
-        MazeTask.reset(self)
-        self.bad = False
+    # the absorbing spot with negative reward
+    badPos = (2, 4)
+
+    @property
+    def bad(self):
+        return self.env.perseus == self.badPos
+
+    def isFinished(self):
+        return self.bad or MazeTask.isFinished(self)
 
     def performAction(self, action):
         action = self._actionIndex(action)
-- 
2.43.0


From 40fef72b7d96d73c136f4512b288c890ea97f652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:20 +0000
Subject: [PATCH 097/193] fix: shuttle and tiger tasks never accumulated
 rewards, and the shuttle never moved forward

---
 pybrain/rl/environments/mazes/tasks/shuttle.py | 4 +++-
 pybrain/rl/environments/mazes/tasks/tiger.py   | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/mazes/tasks/shuttle.py b/pybrain/rl/environments/mazes/tasks/shuttle.py
index 642e36e..0cbedbe 100644
--- a/pybrain/rl/environments/mazes/tasks/shuttle.py
+++ b/pybrain/rl/environments/mazes/tasks/shuttle.py
@@ -81,6 +81,8 @@ class ShuttleDocking(MazeTask):
                 # close to station, back to station
                 if r < 0.7:
                     self._backup()
+        self.samples += 1
+        self.addReward()
 
     def _backup(self):
         self.env.performAction(PolarMaze.TurnAround)
@@ -92,7 +94,7 @@ class ShuttleDocking(MazeTask):
 
     def _forward(self):
         old = self.env.perseus
-        self.env.performAction(PolarMaze.TurnAround)
+        self.env.performAction(PolarMaze.Forward)
         if self.env.perseus == self.env.goal or self.env.perseus == self.env.initPos[0]:
             self.env.perseus = old
             self.env.bang = True
diff --git a/pybrain/rl/environments/mazes/tasks/tiger.py b/pybrain/rl/environments/mazes/tasks/tiger.py
index 330bac7..00bb310 100644
--- a/pybrain/rl/environments/mazes/tasks/tiger.py
+++ b/pybrain/rl/environments/mazes/tasks/tiger.py
@@ -25,6 +25,7 @@ class TigerTask(POMDPTask):
     def reset(self):
         self.steps = 0
         self.cumreward = 0
+        self.samples = 0
         self.tigerLeft = choice([True, False])
         self.done = False
         self.nextReward = -1
@@ -39,6 +40,8 @@ class TigerTask(POMDPTask):
                 self.nextReward = -100
             else:
                 self.nextReward = 10
+        self.samples += 1
+        self.addReward()
 
     def getObservation(self):
         """ do we think we heard something on the left or on the right?  """
-- 
2.43.0


From 4287523d8b8b6d64e03492794d84210fe83fb3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:20 +0000
Subject: [PATCH 098/193] fix: asking twice for the reward of a bad choice in
 the T-maze gave the final reward

---
 pybrain/rl/environments/mazes/tasks/tmaze.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pybrain/rl/environments/mazes/tasks/tmaze.py b/pybrain/rl/environments/mazes/tasks/tmaze.py
index 6dda091..9042c31 100644
--- a/pybrain/rl/environments/mazes/tasks/tmaze.py
+++ b/pybrain/rl/environments/mazes/tasks/tmaze.py
@@ -58,10 +58,14 @@ class TMaze(MazeTask):
             res[3] = 1
         return res
 
+    def _badChoice(self):
+        return (self.env.perseus[1] == self.length + 1
+                and abs(self.env.perseus[0] - self.env.goal[0]) == 2)
+
+    def isFinished(self):
+        return self._badChoice() or MazeTask.isFinished(self)
+
     def getReward(self):
-        if self.env.perseus[1] == self.length + 1:
-            if abs(self.env.perseus[0] - self.env.goal[0]) == 2:
-                # bad choice taken
-                self.env.perseus = self.env.goal
-                return self.bangPenalty
+        if self._badChoice():
+            return self.bangPenalty
         return MazeTask.getReward(self)
-- 
2.43.0


From e9e98916bb9987c954049e41a642a1f94282de1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:20 +0000
Subject: [PATCH 099/193] fix: mountain car and acrobot accumulated rewards
 across episodes

---
 pybrain/rl/environments/classic/acrobot.py     | 3 ++-
 pybrain/rl/environments/classic/mountaincar.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/environments/classic/acrobot.py b/pybrain/rl/environments/classic/acrobot.py
index d778884..874aefe 100644
--- a/pybrain/rl/environments/classic/acrobot.py
+++ b/pybrain/rl/environments/classic/acrobot.py
@@ -69,6 +69,7 @@ class AcrobotTask(EpisodicTask):
             self.cumreward += self.r
             
     def reset(self):
+        self.cumreward = 0
         self.state = self.GetInitialState()
             
     def getReward(self):
@@ -76,7 +77,7 @@ class AcrobotTask(EpisodicTask):
     
     def isFinished(self):
         if self.done>=3 and self.resetOnSuccess:
-            self.reset()
+            self.state = self.GetInitialState()
             return False
         else:
             return self.done>=3
diff --git a/pybrain/rl/environments/classic/mountaincar.py b/pybrain/rl/environments/classic/mountaincar.py
index 4f4cc2f..3861774 100644
--- a/pybrain/rl/environments/classic/mountaincar.py
+++ b/pybrain/rl/environments/classic/mountaincar.py
@@ -41,6 +41,7 @@ class MountainCar(EpisodicTask):
         self.cumreward = 0
 
     def reset(self):
+        self.cumreward = 0
         self.state = self.GetInitialState()
     
     def getObservation(self):    
@@ -69,7 +70,7 @@ class MountainCar(EpisodicTask):
         
     def isFinished(self):
         if self.done>=3 and self.resetOnSuccess:
-            self.reset()
+            self.state = self.GetInitialState()
             return False
         else:
             return self.done>=3
-- 
2.43.0


From ab81f8576628918bed8b8ee384428564606ad73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:20 +0000
Subject: [PATCH 100/193] fix: double pole dimensions, and non-Markov poles
 judged by velocities instead of positions

---
 pybrain/rl/environments/cartpole/doublepole.py          | 4 +++-
 pybrain/rl/environments/cartpole/nonmarkovdoublepole.py | 7 -------
 pybrain/rl/environments/cartpole/nonmarkovpole.py       | 3 ---
 3 files changed, 3 insertions(+), 11 deletions(-)

diff --git a/pybrain/rl/environments/cartpole/doublepole.py b/pybrain/rl/environments/cartpole/doublepole.py
index ed6409a..10b4317 100644
--- a/pybrain/rl/environments/cartpole/doublepole.py
+++ b/pybrain/rl/environments/cartpole/doublepole.py
@@ -8,7 +8,7 @@ class DoublePoleEnvironment(Environment):
     """ two poles to be balanced from the same cart. """
 
     indim = 1
-    ooutdim = 6
+    outdim = 6
 
     def __init__(self):
         self.p1 = CartPoleEnvironment()
@@ -42,6 +42,8 @@ class DoublePoleEnvironment(Environment):
         """
         self.p1.performAction(action)
         self.p2.performAction(action)
+        # the state that the task judges is the one after the action
+        self.getSensors()
 
     def getCartPosition(self):
         """ auxiliary access to just the cart position, to be used by BalanceTask """
diff --git a/pybrain/rl/environments/cartpole/nonmarkovdoublepole.py b/pybrain/rl/environments/cartpole/nonmarkovdoublepole.py
index 6011946..2e69f55 100644
--- a/pybrain/rl/environments/cartpole/nonmarkovdoublepole.py
+++ b/pybrain/rl/environments/cartpole/nonmarkovdoublepole.py
@@ -18,12 +18,5 @@ class NonMarkovDoublePoleEnvironment(DoublePoleEnvironment, NonMarkovPoleEnviron
         tmp = DoublePoleEnvironment.getSensors(self)
         return (tmp[0], tmp[2], tmp[4])
 
-    def getPoleAngles(self):
-        """ auxiliary access to just the pole angle(s), to be used by BalanceTask """
-        return [self.sensors[0], self.sensors[1]]
-
-    def getCartPosition(self):
-        """ auxiliary access to just the cart position, to be used by BalanceTask """
-        return self.sensors[2]
 
 
diff --git a/pybrain/rl/environments/cartpole/nonmarkovpole.py b/pybrain/rl/environments/cartpole/nonmarkovpole.py
index 301a592..29ebcad 100644
--- a/pybrain/rl/environments/cartpole/nonmarkovpole.py
+++ b/pybrain/rl/environments/cartpole/nonmarkovpole.py
@@ -17,8 +17,5 @@ class NonMarkovPoleEnvironment(CartPoleEnvironment):
         tmp = CartPoleEnvironment.getSensors(self)
         return (tmp[0], tmp[2])
 
-    def getCartPosition(self):
-        """ auxiliary access to just the cart position, to be used by BalanceTask """
-        return self.sensors[1]
 
 
-- 
2.43.0


From 572413770b1cf8c95ad699c67e0b4f4b4f08de3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:20 +0000
Subject: [PATCH 101/193] fix: linearized cart pole exchanged the roles of
 positions and velocities

---
 pybrain/rl/environments/cartpole/cartpole.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/cartpole/cartpole.py b/pybrain/rl/environments/cartpole/cartpole.py
index 7a69572..4990980 100644
--- a/pybrain/rl/environments/cartpole/cartpole.py
+++ b/pybrain/rl/environments/cartpole/cartpole.py
@@ -120,7 +120,7 @@ class CartPoleLinEnvironment(CartPoleEnvironment):
 
 
     def step(self):
-        self.sensors = random.normal(loc=self.sensors * self.A + self.action * self.b, scale=0.001).flatten()
+        self.sensors = random.normal(loc=self.sensors * self.A.T + self.action * self.b, scale=0.001).flatten()
         if self.hasRenderer():
             self.getRenderer().updateData(self.sensors)
             if self.delay:
-- 
2.43.0


From a979b8e8d27e569e0dac5c4f1283eb054b3eeda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:14 +0000
Subject: [PATCH 102/193] fix: maze tasks overwrote the lower bound on their
 reward

---
 pybrain/rl/environments/mazes/tasks/maze.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/mazes/tasks/maze.py b/pybrain/rl/environments/mazes/tasks/maze.py
index 8b91c16..6e14ff1 100644
--- a/pybrain/rl/environments/mazes/tasks/maze.py
+++ b/pybrain/rl/environments/mazes/tasks/maze.py
@@ -30,7 +30,7 @@ class MazeTask(POMDPTask):
         self.setArgs(**args)
         Task.__init__(self, self.mazeclass(self.topology, self.goal, initPos=self.initPos,
                                            stochObs=self.stochObs, stochAction=self.stochAction))
-        self.minReward = min(self.bangPenalty, self.defaultPenalty)
+        self.minReward = min(self.minReward, self.bangPenalty, self.defaultPenalty)
         self.reset()
 
     def getReward(self):
-- 
2.43.0


From 832a0b1b48e6b72b31edbac9ca3a2af7e1302727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:42 +0000
Subject: [PATCH 103/193] fix: random deterministic policies could not be drawn

---
 pybrain/rl/learners/modelbased/policyiteration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/learners/modelbased/policyiteration.py b/pybrain/rl/learners/modelbased/policyiteration.py
index e04a668..bcb0845 100644
--- a/pybrain/rl/learners/modelbased/policyiteration.py
+++ b/pybrain/rl/learners/modelbased/policyiteration.py
@@ -113,7 +113,7 @@ def randomDeterministic(Ts):
     dim = len(Ts[0])
     choices = (rand(dim) * numA).astype(int)
     policy = zeros((dim, numA))
-    for si, a in choices:
+    for si, a in enumerate(choices):
         policy[si, a] = 1
     return policy, collapsedTransitions(Ts, policy)
 
-- 
2.43.0


From 59f33ed0d28173bbd9fc3457ae97beb66b500bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:05 +0000
Subject: [PATCH 104/193] fix: Schwefel function ignored the last coordinate

---
 pybrain/rl/environments/functions/unimodal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/functions/unimodal.py b/pybrain/rl/environments/functions/unimodal.py
index b842619..3e4f973 100644
--- a/pybrain/rl/environments/functions/unimodal.py
+++ b/pybrain/rl/environments/functions/unimodal.py
@@ -18,7 +18,7 @@ class SchwefelFunction(FunctionEnvironment):
     def f(self, x):
         s = 0
         for i in range(len(x)):
-            s += sum(x[:i])**2
+            s += sum(x[:i+1])**2
         return s
 
 
-- 
2.43.0


From 3c7709b617b07afdebe87fa09ffdf8918c157ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:05 +0000
Subject: [PATCH 105/193] fix: evaluating two benchmark functions modified the
 point

---
 pybrain/rl/environments/functions/multimodal.py | 2 +-
 pybrain/rl/environments/functions/unimodal.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/environments/functions/multimodal.py b/pybrain/rl/environments/functions/multimodal.py
index f8d746e..dbfaf4e 100644
--- a/pybrain/rl/environments/functions/multimodal.py
+++ b/pybrain/rl/environments/functions/multimodal.py
@@ -86,7 +86,7 @@ class BucheRastriginFunction(MultiModalFunction):
     """ Deceptive and highly multi-modal."""
     
     def f(self, x):
-        z = x[:]
+        z = x.copy()
         for i in range(self.xdim):
             e = i/(self.xdim-1.)/2.
             if x[i] <= 0 or i%2==0:
diff --git a/pybrain/rl/environments/functions/unimodal.py b/pybrain/rl/environments/functions/unimodal.py
index 3e4f973..870545a 100644
--- a/pybrain/rl/environments/functions/unimodal.py
+++ b/pybrain/rl/environments/functions/unimodal.py
@@ -140,7 +140,7 @@ class BoundedLinear(FunctionEnvironment):
         self._signs = sign(randn(self.xdim))       
     
     def f(self, x):
-        x_ = x[:]
+        x_ = x.copy()
         for i, xi in enumerate(x):
             if xi*self._signs[i] > 5:
                 x_[i] = self._signs[i]*5
-- 
2.43.0


From 8ecb86da00c9f7d6a98208ab2d6782e868edb01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:05 +0000
Subject: [PATCH 106/193] fix: translated function moved the optimum of the
 original, and refused offsets

---
 pybrain/rl/environments/functions/transformations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/environments/functions/transformations.py b/pybrain/rl/environments/functions/transformations.py
index ae494ad..a871955 100644
--- a/pybrain/rl/environments/functions/transformations.py
+++ b/pybrain/rl/environments/functions/transformations.py
@@ -48,12 +48,12 @@ class TranslateFunction(FunctionEnvironment):
     def __init__(self, basef, distance=0.1, offset=None):
         """ by default the offset is random, with a distance of 0.1 to the old one """
         FunctionEnvironment.__init__(self, basef.xdim, basef.xopt)
-        if offset == None:
+        if offset is None:
             self._offset = rand(basef.xdim)
             self._offset *= distance / norm(self._offset)
         else:
             self._offset = offset
-        self.xopt += self._offset
+        self.xopt = self.xopt + self._offset
         self.desiredValue = basef.desiredValue            
         self.toBeMinimized = basef.toBeMinimized
         def tf(x):
-- 
2.43.0


From da76056bd0f07d861c7c9d8a881d717a7253fdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:05 +0000
Subject: [PATCH 107/193] fix: optimum of rotated functions, and given rotation
 matrices

---
 pybrain/rl/environments/functions/transformations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/environments/functions/transformations.py b/pybrain/rl/environments/functions/transformations.py
index a871955..e51ffcf 100644
--- a/pybrain/rl/environments/functions/transformations.py
+++ b/pybrain/rl/environments/functions/transformations.py
@@ -70,14 +70,14 @@ class RotateFunction(FunctionEnvironment):
     def __init__(self, basef, rotMat=None):
         """ by default the rotation matrix is random. """
         FunctionEnvironment.__init__(self, basef.xdim, basef.xopt)
-        if rotMat == None:
+        if rotMat is None:
             # make a random orthogonal rotation matrix
             self._M = orth(rand(basef.xdim, basef.xdim))
         else:
             self._M = rotMat
         self.desiredValue = basef.desiredValue            
         self.toBeMinimized = basef.toBeMinimized   
-        self.xopt = dot(inv(self._M), self.xopt)
+        self.xopt = dot(self.xopt, inv(self._M))
         def rf(x):
             if isinstance(x, ParameterContainer):
                 x = x.params
-- 
2.43.0


From b25831950f252c4a2e9314e9a9ff4c031cd6e755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:05 +0000
Subject: [PATCH 108/193] fix: Rosenbrock function lacked the settings of
 function environments

---
 pybrain/rl/environments/functions/unimodal.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pybrain/rl/environments/functions/unimodal.py b/pybrain/rl/environments/functions/unimodal.py
index 870545a..24159b9 100644
--- a/pybrain/rl/environments/functions/unimodal.py
+++ b/pybrain/rl/environments/functions/unimodal.py
@@ -106,13 +106,9 @@ class RosenbrockFunction(FunctionEnvironment):
     """ Banana-shaped function with a tricky optimum in the valley at 1,1.
     (has another, local optimum in higher dimensions)."""
     def __init__(self, xdim = 2, xopt = None):
-        assert xdim >= self.xdimMin and not (self.xdimMax != None and xdim > self.xdimMax)
-        self.xdim = xdim
-        if xopt == None:
-            self.xopt = ones(self.xdim)
-        else:
-            self.xopt = xopt
-        self.reset()
+        if xopt is None:
+            xopt = ones(xdim)
+        FunctionEnvironment.__init__(self, xdim, xopt)
 
     def f(self, x):
         return sum(100*(x[:-1]**2-x[1:])**2 + (x[:-1]-1)**2)
-- 
2.43.0


From 088aa75abff982fd86fcafdfdcb83db9e71975dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:06 +0000
Subject: [PATCH 109/193] fix: optima of benchmark functions were not where
 they are said to be

---
 .../rl/environments/functions/multimodal.py    | 18 +++++++++++++++---
 .../environments/functions/transformations.py  |  3 ++-
 pybrain/rl/environments/functions/unimodal.py  |  6 ++++--
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/pybrain/rl/environments/functions/multimodal.py b/pybrain/rl/environments/functions/multimodal.py
index dbfaf4e..4181e12 100644
--- a/pybrain/rl/environments/functions/multimodal.py
+++ b/pybrain/rl/environments/functions/multimodal.py
@@ -22,6 +22,10 @@ class FunnelFunction(MultiModalFunction):
     funnelSize = 1.0
     funnelDepth = 1.
 
+    def __init__(self, *args, **kwargs):
+        MultiModalFunction.__init__(self, *args, **kwargs)
+        self.xopt = 2.5 * ones(self.xdim)
+
     def f(self, x):
         return min(dot(x - 2.5 * ones(self.xdim), x - 2.5 * ones(self.xdim)), \
             self.funnelDepth * self.xdim + self.funnelSize * dot(x + 2.5 * ones(self.xdim), x + 2.5 * ones(self.xdim)))
@@ -97,6 +101,10 @@ class BucheRastriginFunction(MultiModalFunction):
 class GriewankRosenbrockFunction(MultiModalFunction):
     """ Composite between the two. """
     
+    def __init__(self, *args, **kwargs):
+        MultiModalFunction.__init__(self, *args, **kwargs)
+        self.xopt = ones(self.xdim)
+
     def f(self, x):
         s = 100 * (x[:-1] ** 2 - x[1:]) ** 2 + (x[:-1] - 1) ** 2
         return 1/(self.xdim-1.) * sum(s / 4000. - cos(s)) +1
@@ -109,6 +117,7 @@ class Schwefel_2_13Function(MultiModalFunction):
         self.A = floor(rand(self.xdim, self.xdim) * 200) - 100
         self.B = floor(rand(self.xdim, self.xdim) * 200) - 100
         self.alphas = 2 * pi * rand(self.xdim) - pi
+        self.xopt = self.alphas.copy()
 
     def f(self, x):
         res = 0
@@ -134,9 +143,10 @@ class Schwefel20Function(MultiModalFunction):
         
     def f(self, x):
         z = 2* x * self._signs        
-        z[1:] += (z[:-1]-self.xopt[:-1]) * 0.25
-        z = 100 * (dot(self._diags, (z-self.xopt)) + self.xopt)
-        return - 1. / float(self.xdim) * sum(z * sin(sqrt(abs(z)))) + self._k + 100 * penalize(z / 100.)
+        opt = 2 * abs(self.xopt)
+        z[1:] += (z[:-1]-opt[:-1]) * 0.25
+        z = 100 * (dot(self._diags, (z-opt)) + opt)
+        return - 1. / float(100 * self.xdim) * sum(z * sin(sqrt(abs(z)))) + self._k + 100 * penalize(z / 100.)
         
     
 class GallagherGauss101MeFunction(MultiModalFunction):
@@ -150,6 +160,7 @@ class GallagherGauss101MeFunction(MultiModalFunction):
         MultiModalFunction.__init__(self, *args, **kwargs)
         print((self.numPeaks, self.xdim))
         self._opts = [(rand(self.xdim) - 0.5) * 8]
+        self.xopt = self._opts[0].copy()
         self._opts.extend([(rand(self.xdim) - 0.5) * 9.8 for _ in range(self.numPeaks-1)])
         alphas = [power(self.maxCond, 2 * i / float(self.numPeaks - 2)) for i in range(self.numPeaks - 1)]
         shuffle(alphas)
@@ -190,6 +201,7 @@ class LunacekBiRastriginFunction(MultiModalFunction):
         self._s = 1 - 1 / (2 * sqrt(self.xdim + 20) - 8.2)
         self._mu1 = -sqrt((self._mu0 ** 2 - 1) / self._s)
         self._signs = sign(randn(self.xdim))
+        self.xopt = self._mu0 / 2. * self._signs
         self._R1 = orth(rand(self.xdim, self.xdim))
         self._R2 = orth(rand(self.xdim, self.xdim))
         self._diags = generateDiags(100, self.xdim)
diff --git a/pybrain/rl/environments/functions/transformations.py b/pybrain/rl/environments/functions/transformations.py
index e51ffcf..f26bcee 100644
--- a/pybrain/rl/environments/functions/transformations.py
+++ b/pybrain/rl/environments/functions/transformations.py
@@ -235,7 +235,8 @@ class BBOBTransformationFunction(FunctionEnvironment):
         else:
             tmp4 = lambda x: dot(prefix, tmp3(x - self.xopt))
                             
-        self.f = lambda x: (noisetrans(basef.f(tmp4(x))) 
+        # the optimum of the base function is moved to the new one
+        self.f = lambda x: (noisetrans(basef.f(tmp4(x) + basef.xopt)) 
                             + penalized * penalize(x))
         
 
diff --git a/pybrain/rl/environments/functions/unimodal.py b/pybrain/rl/environments/functions/unimodal.py
index 24159b9..97a0b47 100644
--- a/pybrain/rl/environments/functions/unimodal.py
+++ b/pybrain/rl/environments/functions/unimodal.py
@@ -76,8 +76,9 @@ class AttractiveSectorFunction(FunctionEnvironment):
     
     def f(self, x):
         from .transformations import BBOBTransformationFunction
-        quad = (x*self.xopt > 0)
-        sz = 100 * x * quad + x * (quad==False)         
+        z = x - self.xopt
+        quad = (z*self.xopt > 0)
+        sz = 100 * z * quad + z * (quad==False)         
         return power(BBOBTransformationFunction.oscillatify(dot(sz, sz)), 0.9)
         
         
@@ -134,6 +135,7 @@ class BoundedLinear(FunctionEnvironment):
         FunctionEnvironment.__init__(self, *args, **kwargs)
         self._w = [power(10, i/(self.xdim-1.)) for i in range(self.xdim)]        
         self._signs = sign(randn(self.xdim))       
+        self.xopt = 5*self._signs
     
     def f(self, x):
         x_ = x.copy()
-- 
2.43.0


From 5cd1b600715020b24a22e7929d72a9096d8243d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:13 +0000
Subject: [PATCH 110/193] fix: oscillation of the BBOB functions dropped the
 sign

---
 pybrain/rl/environments/functions/transformations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pybrain/rl/environments/functions/transformations.py b/pybrain/rl/environments/functions/transformations.py
index f26bcee..0ce995d 100644
--- a/pybrain/rl/environments/functions/transformations.py
+++ b/pybrain/rl/environments/functions/transformations.py
@@ -1,7 +1,7 @@
 __author__ = 'Tom Schaul, tom@idsia.ch'
 
 
-from scipy import rand, dot, power, diag, eye, sqrt, sin, log, exp, ravel, clip, arange
+from scipy import rand, dot, power, diag, eye, sqrt, sin, log, exp, ravel, clip, arange, sign
 from scipy.linalg import orth, norm, inv
 from random import shuffle, random, gauss
 
@@ -264,7 +264,7 @@ class BBOBTransformationFunction(FunctionEnvironment):
                 c1 = 10
                 c2 = 7.9
             else:
-                s = 1
+                s = -1
                 c1 = 5.5
                 c2 = 3.1
             res[i] = s * exp(log(abs(xi)) + 0.049 * (sin(c1 * xi) + sin(c2 * xi)))
@@ -275,7 +275,7 @@ class BBOBTransformationFunction(FunctionEnvironment):
 
     @staticmethod
     def oscillatify(x):
-        return exp(log(abs(x)+1e-100)
+        return sign(x) * exp(log(abs(x)+1e-100)
                    + (x>0) * 0.049 * (sin(10 * x) + sin(7.9 * x))
                    + (x<0) * 0.049 * (sin(5.5 * x) + sin(3.1 * x)))
         
\ No newline at end of file
-- 
2.43.0


From cddc391bd5dafa2fdff1519a11239b143d7ec9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:13 +0000
Subject: [PATCH 111/193] fix: fourth constraint of the Osyczka-Kundu problem
 cut off its Pareto front

---
 pybrain/rl/environments/functions/multiobjective.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/functions/multiobjective.py b/pybrain/rl/environments/functions/multiobjective.py
index c5006ae..934aae3 100644
--- a/pybrain/rl/environments/functions/multiobjective.py
+++ b/pybrain/rl/environments/functions/multiobjective.py
@@ -188,7 +188,7 @@ class ConstOsy(MultiObjectiveFunction):
         g1 = x[0] + x[1] -2.0
         g2 = 6.0 -x[0] -x[1]
         g3 = 2.0 -x[1] +x[0]
-        g4 = 1.0 -x[0] +3.0*x[1]
+        g4 = 2.0 -x[0] +3.0*x[1]
         g5 = 4.0 -(x[2]-3)**2 -x[3]
         g6 = (x[4]-3)**2 +x[5] -4.0
         if g1 >= 0 and g2 >= 0 and g3 >= 0 and g4 >= 0 and g5 >= 0 and g6 >= 0:
-- 
2.43.0


From 7b5b6bfe670b7fed9ec43ac77940a27b2e9089e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:13 +0000
Subject: [PATCH 112/193] fix: example configurations of atoms could not be
 built

---
 pybrain/rl/environments/functions/lennardjones.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/functions/lennardjones.py b/pybrain/rl/environments/functions/lennardjones.py
index 861ccde..74d550d 100644
--- a/pybrain/rl/environments/functions/lennardjones.py
+++ b/pybrain/rl/environments/functions/lennardjones.py
@@ -19,7 +19,7 @@ class LennardJones(MultiModalFunction):
     def _exampleConfig(self, numatoms, noise=0.05, edge=2.):
         """ Arranged in an approximate cube of certain edge length. """
         assert numatoms % 8 == 0
-        x0 = randn(3, 2, 2, 2, numatoms / 8) * noise * edge - edge / 2
+        x0 = randn(3, 2, 2, 2, numatoms // 8) * noise * edge - edge / 2
         x0[0, 0] += edge
         x0[1, :, 0] += edge
         x0[2, :, :, 0] += edge
-- 
2.43.0


From d2ea7740caa434b94a6a83803bd859d6822ea582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:13 +0000
Subject: [PATCH 113/193] fix: functions that need two dimensions divided by
 zero with the default of one

---
 pybrain/rl/environments/functions/unimodal.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pybrain/rl/environments/functions/unimodal.py b/pybrain/rl/environments/functions/unimodal.py
index 97a0b47..8441f11 100644
--- a/pybrain/rl/environments/functions/unimodal.py
+++ b/pybrain/rl/environments/functions/unimodal.py
@@ -40,6 +40,7 @@ class TabletFunction(FunctionEnvironment):
 
 class ElliFunction(FunctionEnvironment):
     """ Ellipsoid. """
+    xdimMin = 2
         
     a = 1000
     
@@ -93,6 +94,7 @@ class DiffPowFunction(FunctionEnvironment):
     """ Different powers.
     Standard setting: a=10 (other variants: a=4)
     """
+    xdimMin = 2
     
     a = 10
     
@@ -130,6 +132,7 @@ class GlasmachersFunction(FunctionEnvironment):
 class BoundedLinear(FunctionEnvironment):
     """ Linear function within the domain [-5,5], constant from the 
     best corner onwards. """
+    xdimMin = 2
     
     def __init__(self, *args, **kwargs):
         FunctionEnvironment.__init__(self, *args, **kwargs)
-- 
2.43.0


From 8d9d53006fb83e68e20188f13dd51c74551c4a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:13 +0000
Subject: [PATCH 114/193] fix: Branin function had its optimum at the origin

---
 pybrain/rl/environments/functions/multimodal.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/functions/multimodal.py b/pybrain/rl/environments/functions/multimodal.py
index 4181e12..69f3868 100644
--- a/pybrain/rl/environments/functions/multimodal.py
+++ b/pybrain/rl/environments/functions/multimodal.py
@@ -4,7 +4,7 @@ from __future__ import print_function
 
 __author__ = 'Tom Schaul, tom@idsia.ch'
 
-from scipy import power, exp, cos, sqrt, rand, sin, floor, dot, ones, sign, randn, prod
+from scipy import array, power, exp, cos, sqrt, rand, sin, floor, dot, ones, sign, randn, prod
 from scipy.linalg import orth
 from math import pi
 from random import shuffle
@@ -232,6 +232,10 @@ class BraninFunction(MultiModalFunction):
 
     _globalOptima = [[-pi, 12.275], [pi, 2.275], [9.42478, 2.475]]
 
+    def __init__(self, *args, **kwargs):
+        MultiModalFunction.__init__(self, *args, **kwargs)
+        self.xopt = array(self._globalOptima[0])
+
     def f(self, x):
         return self._a * (x[1] - self._b * x[0] ** 2 + self._c * x[0] - self._d) ** 2 + self._e * ((1 - self._f) * cos(x[0]) + 1) - self.vopt
 
-- 
2.43.0


From 1c022adf76e8f4d4818ff55d99d05b94fa405a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:32 +0000
Subject: [PATCH 115/193] fix: linear scaling did not reach the end of the
 interval

---
 pybrain/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index a71c86d..553428f 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -109,7 +109,7 @@ def setAllArgs(obj, argdict):
 
 def linscale(d, lim):
     """ utility function to linearly scale array d to the interval defined by lim """
-    return (d - d.min())*(lim[1] - lim[0]) + lim[0]
+    return (d - d.min())*(lim[1] - lim[0])/float(d.max() - d.min() or 1) + lim[0]
 
 
 def percentError(out, true):
-- 
2.43.0


From 680ba7787d318c47ddfc55a0f119c457847885ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:32 +0000
Subject: [PATCH 116/193] fix: integer representation of binary arrays of
 incomplete bytes

---
 pybrain/utilities.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index 553428f..b5d8367 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -739,8 +739,10 @@ def xhash(arr):
 def binArr2int(arr):
     """ Convert a binary array into its (long) integer representation. """
     from numpy import packbits
-    tmp2 = packbits(arr.astype(int))
-    return sum(val * 256 ** i for i, val in enumerate(tmp2[::-1])) 
+    # the number of bits need not be a multiple of 8
+    arr = list(arr)
+    tmp2 = packbits(array([0] * (-len(arr) % 8) + arr).astype(int))
+    return sum(int(val) * 256 ** i for i, val in enumerate(tmp2[::-1])) 
         
 def uniqueArrays(vs):
     """ create a set of arrays """
-- 
2.43.0


From 08985a28396bc85dd278486aa27ac2c56de2769c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:32 +0000
Subject: [PATCH 117/193] fix: semilinear function of arrays of several
 dimensions

---
 pybrain/tools/functions.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pybrain/tools/functions.py b/pybrain/tools/functions.py
index 9c0d847..2b8c6ae 100644
--- a/pybrain/tools/functions.py
+++ b/pybrain/tools/functions.py
@@ -10,8 +10,7 @@ def semilinear(x):
     try:
         # assume x is a numpy array
         shape = x.shape
-        x.flatten()
-        x = x.tolist()
+        x = x.flatten().tolist()
     except AttributeError:
         # no, it wasn't: build shape from length of list
         shape = (1, len(x))
@@ -31,8 +30,7 @@ def semilinearPrime(x):
     try:
         # assume x is a numpy array
         shape = x.shape
-        x.flatten()
-        x = x.tolist()
+        x = x.flatten().tolist()
     except AttributeError:
         # no, it wasn't: build shape from length of list
         shape = (1, len(x))
-- 
2.43.0


From f307931d56e097e05acb0306e038de354f4b7a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:32 +0000
Subject: [PATCH 118/193] fix: linear ranking

---
 pybrain/tools/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/tools/functions.py b/pybrain/tools/functions.py
index 2b8c6ae..b2f40af 100644
--- a/pybrain/tools/functions.py
+++ b/pybrain/tools/functions.py
@@ -68,8 +68,8 @@ def tanhPrime(x):
 
 def ranking(R):
     """ Produces a linear ranking of the values in R. """
-    l = sorted(list(enumerate(R)), cmp=lambda a, b: cmp(a[1], b[1]))
-    l = sorted(list(enumerate(l)), cmp=lambda a, b: cmp(a[1], b[1]))
+    l = sorted(list(enumerate(R)), key=lambda a: a[1])
+    l = sorted(list(enumerate(l)), key=lambda a: a[1])
     return array([kv[0] for kv in l])
 
 
-- 
2.43.0


From 98b2f7dd40916d943a365c8f6ac8ae9edbef4a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:32 +0000
Subject: [PATCH 119/193] fix: flooding with an empty list of relevant elements

---
 pybrain/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index b5d8367..6ff3e4e 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -465,7 +465,7 @@ def flood(stepFunction, fullSet, initSet, relevant=None):
         flooded = full.intersection(set(initSet))
         if relevant is None:
             relevant = full.copy()
-    if relevant:
+    if relevant is not None:
         relevant = set(relevant)
 
     change = flooded.copy()
-- 
2.43.0


From 86d7f1a100a393a5e70a414751e175b56d676bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:32 +0000
Subject: [PATCH 120/193] fix: reachable skipped starting positions and
 modified them

---
 pybrain/utilities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index 6ff3e4e..3b8a8ae 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -421,10 +421,12 @@ def reachable(stepFunction, start, destinations, _alreadyseen=None):
     if _alreadyseen is None:
         _alreadyseen = []
     _alreadyseen.extend(start)
+    # the collection of the caller is left as it is
+    start = list(start)
 
     # dict with distances to destinations
     res = {}
-    for s in start:
+    for s in list(start):
         if s in destinations:
             res[s] = 0
             start.remove(s)
-- 
2.43.0


From 1fe0c9113766b4353975c58c02fa1870810d6a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:18 +0000
Subject: [PATCH 121/193] fix: border weights could not be extrapolated

---
 pybrain/structure/networks/borderswiping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/structure/networks/borderswiping.py b/pybrain/structure/networks/borderswiping.py
index ab3d4ef..0e98d1b 100644
--- a/pybrain/structure/networks/borderswiping.py
+++ b/pybrain/structure/networks/borderswiping.py
@@ -55,7 +55,7 @@ class BorderSwipingNetwork(SwipingNetwork):
                         tmp[t] = MotherConnection(hiddenmesh.componentIndim, name = 'bconn'+str(dim)+str(t))
                         if self.extrapolateBorderValues:
                             p = self._extrapolateBorderAt(t, self.predefined['bordconns'][dim])
-                            if p != None:
+                            if p is not None:
                                 tmp[t].params[:] = p
                 self.predefined['bordconns'][dim] = tmp
 
-- 
2.43.0


From 8b19bf09bad4dc30866e3edce59ef547496dadcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:18 +0000
Subject: [PATCH 122/193] fix: capture game network with direct links

---
 pybrain/structure/networks/custom/capturegame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/structure/networks/custom/capturegame.py b/pybrain/structure/networks/custom/capturegame.py
index 3702ce0..77274cb 100644
--- a/pybrain/structure/networks/custom/capturegame.py
+++ b/pybrain/structure/networks/custom/capturegame.py
@@ -94,7 +94,7 @@ class CaptureGameNetwork(BorderSwipingNetwork):
 
     def _buildDirectLink(self, inmesh, outmesh):
         if not 'directconn' in self.predefined:
-            self.predefined['directconn'] = MotherConnection(inmesh.componentOutdim*outmesh.componentIndim, 'inconn')
+            self.predefined['directconn'] = MotherConnection(inmesh.componentOutdim*outmesh.componentIndim, name='directconn')
         for unit in self._iterateOverUnits():
             self.addConnection(SharedFullConnection(self.predefined['directconn'], inmesh[unit], outmesh[unit]))
 
-- 
2.43.0


From c00b26ddc79eaded50d5d34c7543ee0a65a0a716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:18 +0000
Subject: [PATCH 123/193] fix: capture game network with combined inputs

---
 pybrain/structure/networks/custom/capturegame.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pybrain/structure/networks/custom/capturegame.py b/pybrain/structure/networks/custom/capturegame.py
index 77274cb..6fb46d4 100644
--- a/pybrain/structure/networks/custom/capturegame.py
+++ b/pybrain/structure/networks/custom/capturegame.py
@@ -89,7 +89,7 @@ class CaptureGameNetwork(BorderSwipingNetwork):
             cin = LinearLayer(self.combinputs, name = 'globalin')
             self.addInputModule(cin)
             if 'globalinconn' not in self.predefined:
-                self.predefined['globalinconn'] = MotherConnection(cin.componentOutdim*hiddenmesh.componentIndim, 'globalinconn')
+                self.predefined['globalinconn'] = MotherConnection(cin.outdim*hiddenmesh.componentIndim, name='globalinconn')
             self._linkToAll(cin, hiddenmesh, self.predefined['globalinconn'])
 
     def _buildDirectLink(self, inmesh, outmesh):
@@ -99,8 +99,8 @@ class CaptureGameNetwork(BorderSwipingNetwork):
             self.addConnection(SharedFullConnection(self.predefined['directconn'], inmesh[unit], outmesh[unit]))
 
     def _linkToAll(self, inmod, mesh, conn):
-        for unit in self._iterateOverUnits():
-            self.addConnection(SharedFullConnection(conn, inmod, mesh[unit]))
+        for m in mesh:
+            self.addConnection(SharedFullConnection(conn, inmod, m))
 
     def _generateName(self):
         """ generate a quasi unique name, using construction parameters """
-- 
2.43.0


From b19231302d2bef4489dedbb16b98ec3b4be5889a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:18 +0000
Subject: [PATCH 124/193] fix: states of multi-dimensional lstm cells at the
 borders ended in the slot of another dimension

---
 pybrain/structure/networks/custom/capturegame.py | 13 +------------
 pybrain/structure/networks/multidimensional.py   | 14 +-------------
 pybrain/structure/networks/swiping.py            | 13 +++++++++++--
 3 files changed, 13 insertions(+), 27 deletions(-)

diff --git a/pybrain/structure/networks/custom/capturegame.py b/pybrain/structure/networks/custom/capturegame.py
index 6fb46d4..f717105 100644
--- a/pybrain/structure/networks/custom/capturegame.py
+++ b/pybrain/structure/networks/custom/capturegame.py
@@ -2,7 +2,7 @@ __author__ = 'Tom Schaul, tom@idsia.ch'
 
 import random
 
-from pybrain import SharedFullConnection, MotherConnection, MDLSTMLayer, IdentityConnection
+from pybrain import SharedFullConnection, MotherConnection, MDLSTMLayer
 from pybrain import ModuleMesh, LinearLayer, TanhLayer, SigmoidLayer
 from pybrain.structure.networks import BorderSwipingNetwork
 
@@ -69,17 +69,6 @@ class CaptureGameNetwork(BorderSwipingNetwork):
 
         self._buildBorderStructure(inmesh, hiddenmesh, outmesh)
 
-        # add the identity connections for the states
-        for m in self.modules:
-            if isinstance(m, MDLSTMLayer):
-                tmp = m.stateSlice()
-                index = 0
-                for c in list(self.connections[m]):
-                    if isinstance(c.outmod, MDLSTMLayer):
-                        self.addConnection(IdentityConnection(tmp, c.outmod.stateSlice(),
-                                                              outSliceFrom = self.hsize*(index),
-                                                              outSliceTo = self.hsize*(index+1)))
-                        index += 1
         # direct connections between input and output
         if self.directlink:
             self._buildDirectLink(inmesh, outmesh)
diff --git a/pybrain/structure/networks/multidimensional.py b/pybrain/structure/networks/multidimensional.py
index 16b8fde..365b87c 100644
--- a/pybrain/structure/networks/multidimensional.py
+++ b/pybrain/structure/networks/multidimensional.py
@@ -1,7 +1,7 @@
 __author__ = 'Tom Schaul, tom@idsia.ch'
 
 from pybrain.structure.networks.swiping import SwipingNetwork
-from pybrain import MDLSTMLayer, IdentityConnection
+from pybrain import MDLSTMLayer
 from pybrain import ModuleMesh, LinearLayer, TanhLayer, SigmoidLayer
 from scipy import product
 
@@ -38,18 +38,6 @@ class MultiDimensionalRNN(SwipingNetwork):
 
         self._buildSwipingStructure(inmesh, hiddenmesh, outmesh)
 
-        # add the identity connections for the states
-        for m in self.modules:
-            if isinstance(m, MDLSTMLayer):
-                tmp = m.stateSlice()
-                index = 0
-                for c in list(self.connections[m]):
-                    if isinstance(c.outmod, MDLSTMLayer):
-                        self.addConnection(IdentityConnection(tmp, c.outmod.stateSlice(),
-                                                              outSliceFrom = self.hsize*(index),
-                                                              outSliceTo = self.hsize*(index+1)))
-                        index += 1
-
         self.sortModules()
 
 class MultiDimensionalLSTM(MultiDimensionalRNN):
diff --git a/pybrain/structure/networks/swiping.py b/pybrain/structure/networks/swiping.py
index 945a274..6259d98 100644
--- a/pybrain/structure/networks/swiping.py
+++ b/pybrain/structure/networks/swiping.py
@@ -3,11 +3,12 @@ from __future__ import print_function
 __author__ = 'Tom Schaul, tom@idsia.ch'
 
 from pybrain.structure.networks.feedforward import FeedForwardNetwork
+from pybrain.structure.connections.identity import IdentityConnection
+from pybrain.structure.modules.mdlstm import MDLSTMLayer
+from pybrain.structure.moduleslice import ModuleSlice
 from pybrain.structure.connections.shared import MotherConnection, SharedFullConnection
 from pybrain.utilities import iterCombinations
 
-# TODO: special treatment for multi-dimensional lstm cells: identity connections on state buffers
-
 
 class SwipingNetwork(FeedForwardNetwork):
     """ A network architecture that establishes shared connections between ModuleMeshes (of identical dimensions)
@@ -116,6 +117,14 @@ class SwipingNetwork(FeedForwardNetwork):
                     previousunit = tuple(previousunit)
                     if previousunit[dim] >= 0 and previousunit[dim] < maxval:
                         self.addConnection(SharedFullConnection(hconn, hiddenmesh[previousunit], hiddenmesh[hunit]))
+                        self._passOnState(dim, hiddenmesh[previousunit], hiddenmesh[hunit])
+
+    def _passOnState(self, dim, previous, unit):
+        """ multi-dimensional lstm cells get the state of the previous unit along every dimension. """
+        if isinstance(unit, ModuleSlice) and isinstance(unit.base, MDLSTMLayer):
+            size = unit.base.dim
+            self.addConnection(IdentityConnection(previous.base.stateSlice(), unit.base.stateSlice(),
+                                                  outSliceFrom=size * dim, outSliceTo=size * (dim + 1)))
 
     def _iterateOverUnits(self):
         """ iterate over the coordinates defines by the ranges of self.dims. """
-- 
2.43.0


From 22e203da996e2d8647c329ace762a8542dd3181f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:19 +0000
Subject: [PATCH 125/193] fix: multi-dimensional lstm networks were limited to
 two dimensions

---
 pybrain/structure/networks/multidimensional.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/structure/networks/multidimensional.py b/pybrain/structure/networks/multidimensional.py
index 365b87c..3705129 100644
--- a/pybrain/structure/networks/multidimensional.py
+++ b/pybrain/structure/networks/multidimensional.py
@@ -30,8 +30,8 @@ class MultiDimensionalRNN(SwipingNetwork):
         outmesh = ModuleMesh.viewOnFlatLayer(outmod, dims, 'outmesh')
 
         if self.componentclass is MDLSTMLayer:
-            c = lambda: MDLSTMLayer(self.hsize, 2, self.peepholes).meatSlice()
-            adims = tuple(list(dims)+[4])
+            c = lambda: MDLSTMLayer(self.hsize, len(dims), self.peepholes).meatSlice()
+            adims = tuple(list(dims)+[self.swipes])
             hiddenmesh = ModuleMesh(c, adims, 'hidden', baserename = True)
         else:
             hiddenmesh = ModuleMesh.constructWithLayers(self.componentclass, self.hsize, tuple(list(dims)+[self.swipes]), 'hidden')
-- 
2.43.0


From 9436f031acd8217b974ef4e8a9f3fe9e6a4224f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:59 +0000
Subject: [PATCH 126/193] fix: grid of a Gaussian process

---
 pybrain/auxiliary/gaussprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/auxiliary/gaussprocess.py b/pybrain/auxiliary/gaussprocess.py
index 0deda60..c705d74 100644
--- a/pybrain/auxiliary/gaussprocess.py
+++ b/pybrain/auxiliary/gaussprocess.py
@@ -59,7 +59,7 @@ class GaussianProcess:
             assert len(start) == len(stop) == len(step)
             dimstr = ["start[%i]:stop[%i]:step[%i], " % (i, i, i) for i in range(len(start))]
             dimstr = ''.join(dimstr)
-        return eval('c_[map(ravel, mgrid[' + dimstr + '])]').T
+        return eval('c_[list(map(ravel, mgrid[' + dimstr + ']))]').T
 
     def _buildCov(self, a, b):
         K = zeros((len(a), len(b)), float)
-- 
2.43.0


From c92b723fb02ae26111540eb3ce66d7cfbad88bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:59 +0000
Subject: [PATCH 127/193] fix: Fisher information with given inverse or factor

---
 pybrain/tools/fisher.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pybrain/tools/fisher.py b/pybrain/tools/fisher.py
index 1169ad3..6178e5e 100644
--- a/pybrain/tools/fisher.py
+++ b/pybrain/tools/fisher.py
@@ -10,9 +10,9 @@ def calcFisherInformation(sigma, invSigma=None, factorSigma=None):
     """ Compute the exact Fisher Information Matrix of a Gaussian distribution,
     given its covariance matrix.
     Returns a list of the diagonal blocks. """
-    if invSigma == None:
+    if invSigma is None:
         invSigma = inv(sigma)
-    if factorSigma == None:
+    if factorSigma is None:
         factorSigma = cholesky(sigma)
     dim = sigma.shape[0]
     fim = [invSigma]
@@ -27,9 +27,9 @@ def calcFisherInformation(sigma, invSigma=None, factorSigma=None):
 def calcInvFisher(sigma, invSigma=None, factorSigma=None):
     """ Efficiently compute the exact inverse of the FIM of a Gaussian.
     Returns a list of the diagonal blocks. """
-    if invSigma == None:
+    if invSigma is None:
         invSigma = inv(sigma)
-    if factorSigma == None:
+    if factorSigma is None:
         factorSigma = cholesky(sigma)
     dim = sigma.shape[0]
 
-- 
2.43.0


From 85a3806b59c58e207418499ff70a1c65fada7420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:59 +0000
Subject: [PATCH 128/193] fix: initial weights of a mixture of Gaussians

---
 pybrain/tools/mixtures/mogpuremax.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pybrain/tools/mixtures/mogpuremax.py b/pybrain/tools/mixtures/mogpuremax.py
index 9d2eac1..e710455 100644
--- a/pybrain/tools/mixtures/mogpuremax.py
+++ b/pybrain/tools/mixtures/mogpuremax.py
@@ -32,6 +32,7 @@ class MixtureOfGaussians:
         self.alpha = ones(self.numOGaus)
         self.sigma *= self.epsilon
         self.alpha /= float(self.numOGaus)
+        self.alpha = self.invSigmo(self.alpha)
         for i in range(self.numOGaus):
             self.mue[i] = self.distRange * float(i) * self.distFakt + self.rangeMin
         self.baseline = 0.0
-- 
2.43.0


From 75fadb4d5824045c1b4d2af2f777891bb6bb9a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:21 +0000
Subject: [PATCH 129/193] fix: first step of a policy gradient learner
 discarded parameters set after its construction

---
 pybrain/rl/learners/directsearch/policygradient.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/rl/learners/directsearch/policygradient.py b/pybrain/rl/learners/directsearch/policygradient.py
index cb1eb59..cb48aab 100644
--- a/pybrain/rl/learners/directsearch/policygradient.py
+++ b/pybrain/rl/learners/directsearch/policygradient.py
@@ -112,7 +112,8 @@ class PolicyGradientLearner(DirectSearchLearner, DataSetLearner, ExploringLearne
         if max(gradient) > 1000:
             gradient = gradient / max(gradient) * 1000
 
-        # update the parameters of the module
+        # update the parameters of the module (which may have been changed since the last step)
+        self.gd.values[:] = self.network.params
         p = self.gd(gradient.flatten())
         self.network._setParameters(p)
         self.network.reset()
-- 
2.43.0


From 9d51aeb972b30fdc603534f7fa72a8b67619a5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:21 +0000
Subject: [PATCH 130/193] fix: REINFORCE step of a parameter without influence

---
 pybrain/rl/learners/directsearch/reinforce.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/learners/directsearch/reinforce.py b/pybrain/rl/learners/directsearch/reinforce.py
index 7eb7f12..b4320dd 100644
--- a/pybrain/rl/learners/directsearch/reinforce.py
+++ b/pybrain/rl/learners/directsearch/reinforce.py
@@ -1,7 +1,7 @@
 __author__ = 'Thomas Rueckstiess, ruecksti@in.tum.de'
 
 from pybrain.rl.learners.directsearch.policygradient import PolicyGradientLearner
-from scipy import mean, ravel, array
+from scipy import mean, ravel, array, where
 
 
 class Reinforce(PolicyGradientLearner):
@@ -25,7 +25,9 @@ class Reinforce(PolicyGradientLearner):
         loglhs.append(sum(self.loglh['loglh'][seqidx[-1]:, :]))
         loglhs = array(loglhs)
 
-        baselines = mean(loglhs ** 2 * returns, 0) / mean(loglhs ** 2, 0)
+        # parameters without influence on any action need no baseline
+        sqloglhs = mean(loglhs ** 2, 0)
+        baselines = mean(loglhs ** 2 * returns, 0) / where(sqloglhs == 0, 1, sqloglhs)
         gradient = mean(loglhs * (returns - baselines), 0)
 
         return gradient
-- 
2.43.0


From 97552f95f26bde52839cafba350577bfe13ed077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:44 +0000
Subject: [PATCH 131/193] fix: reward-weighted regression could not be
 constructed or run (missing setArgs, stale momentum attribute)

---
 pybrain/rl/learners/directsearch/rwr.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pybrain/rl/learners/directsearch/rwr.py b/pybrain/rl/learners/directsearch/rwr.py
index 6a712a9..28a4897 100644
--- a/pybrain/rl/learners/directsearch/rwr.py
+++ b/pybrain/rl/learners/directsearch/rwr.py
@@ -6,7 +6,7 @@ from scipy import zeros, array, mean, randn, exp, dot, argmax
 
 from pybrain.datasets import ReinforcementDataSet, ImportanceDataSet, SequentialDataSet
 from pybrain.supervised import BackpropTrainer
-from pybrain.utilities import drawIndex
+from pybrain.utilities import drawIndex, setAllArgs
 from pybrain.rl.learners.directsearch.directsearch import DirectSearchLearner
 
 
@@ -46,7 +46,7 @@ class RWR(DirectSearchLearner):
     def __init__(self, net, task, valueNetwork=None, **args):
         self.net = net
         self.task = task
-        self.setArgs(**args)
+        setAllArgs(self, args)
         if self.valueLearningRate == None:
             self.valueLearningRate = self.learningRate
         if self.valueMomentum == None:
@@ -88,9 +88,9 @@ class RWR(DirectSearchLearner):
         self.weightedDs.clear()
         self.valueDs.clear()
         self.rawDs.clear()
-        self.bp.momentumvector *= 0.0
+        self.bp.descent.momentumvector *= 0.0
         if self.vnet != None:
-            self.vbp.momentumvector *= 0.0
+            self.vbp.descent.momentumvector *= 0.0
             if self.resetAllWeights:
                 self.vnet.params[:] = randn(len(self.vnet.params)) * self.netweights
 
-- 
2.43.0


From e5475f7123f3652e04d8ed42fb3fcf222c0d2f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:55 +0000
Subject: [PATCH 132/193] fix: copy of a network that is part of another
 network

---
 pybrain/structure/networks/network.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pybrain/structure/networks/network.py b/pybrain/structure/networks/network.py
index c5df77f..aa2e564 100644
--- a/pybrain/structure/networks/network.py
+++ b/pybrain/structure/networks/network.py
@@ -285,6 +285,10 @@ class Network(Module, ParameterContainer):
             self._resetBuffers()
         cp = Evolvable.copy(self)
         if self.paramdim > 0:
+            if cp.owner not in (None, cp):
+                # a copy of a part of another network stands for itself
+                cp.owner = cp
+                cp._setDerivatives(self.derivs.copy(), cp)
             cp._setParameters(self.params.copy())
         return cp
 
-- 
2.43.0


From 620a79b1698b1bfb6e5cfb133353dc288afa56a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:38 +0000
Subject: [PATCH 133/193] fix: linear function approximation agent learned
 across episodes, and not at all in batches

---
 pybrain/rl/agents/linearfa.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/pybrain/rl/agents/linearfa.py b/pybrain/rl/agents/linearfa.py
index 8a6024d..c783e22 100644
--- a/pybrain/rl/agents/linearfa.py
+++ b/pybrain/rl/agents/linearfa.py
@@ -4,7 +4,7 @@ __author__ = 'Tom Schaul, tom@idsia.ch'
 
 from pybrain.rl.agents.logging import LoggingAgent
 from pybrain.utilities import drawIndex
-from scipy import array
+from scipy import array, zeros_like
 
 
 class LinearFA_Agent(LoggingAgent):
@@ -66,6 +66,11 @@ class LinearFA_Agent(LoggingAgent):
         if self.logging:
             self.history.newSequence()
         if self.learning and not self.learner.batchMode:
+            if self.lastobs is not None and self.lastreward is not None:
+                self._learnFinal(self.lastobs, self.lastaction, self.lastreward)
+            # the next observation does not follow on the last one
+            self.lastobs = None
+            self._oaro = None
             self.learner.newEpisode()
         else:
             self._temperature *= self.temperature_decay
@@ -80,10 +85,22 @@ class LinearFA_Agent(LoggingAgent):
             print('Learning is done online, and already finished.')
             return
         for seq in self.history:
+            last = None
             for obs, action, reward in seq:
-                if self.lastobs is not None:
-                    self.learner._updateWeights(self.lastobs, self.lastaction, self.lastreward, obs)
-                self.lastobs = obs
-                self.lastaction = action[0]
-                self.lastreward = reward
+                action, reward = int(action[0]), reward[0]
+                if last is not None:
+                    if self.learner.passNextAction:
+                        self.learner._updateWeights(*(last + [obs, action]))
+                    else:
+                        self.learner._updateWeights(*(last + [obs]))
+                last = [obs, action, reward]
+            if last is not None:
+                self._learnFinal(*last)
             self.learner.newEpisode()
+
+    def _learnFinal(self, obs, action, reward):
+        """ Learn from the last step of an episode, after which nothing is to be gained. """
+        if self.learner.passNextAction:
+            self.learner._updateWeights(obs, action, reward, zeros_like(obs), action)
+        else:
+            self.learner._updateWeights(obs, action, reward, zeros_like(obs))
-- 
2.43.0


From d14a313f71382687ab62091d3b40a5f91d550564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:34 +0000
Subject: [PATCH 134/193] fix: cart pole environments needed a function that
 matplotlib does not provide any more

---
 pybrain/rl/environments/cartpole/__init__.py |  2 +-
 pybrain/rl/environments/cartpole/cartpole.py | 27 ++++++++++++++++++--
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/pybrain/rl/environments/cartpole/__init__.py b/pybrain/rl/environments/cartpole/__init__.py
index 2549343..f7a7803 100644
--- a/pybrain/rl/environments/cartpole/__init__.py
+++ b/pybrain/rl/environments/cartpole/__init__.py
@@ -1,6 +1,6 @@
 # try importing the external dependencies
 try:
-    from matplotlib.mlab import rk4
+    import matplotlib
 except ImportError:
     raise ImportError('This environment needs the matplotlib library installed.')
 
diff --git a/pybrain/rl/environments/cartpole/cartpole.py b/pybrain/rl/environments/cartpole/cartpole.py
index 4990980..1467612 100644
--- a/pybrain/rl/environments/cartpole/cartpole.py
+++ b/pybrain/rl/environments/cartpole/cartpole.py
@@ -1,13 +1,36 @@
 __author__ = 'Thomas Rueckstiess, ruecksti@in.tum.de'
 
-from matplotlib.mlab import rk4
 from math import sin, cos
 import time
-from scipy import eye, matrix, random, asarray
+from scipy import eye, matrix, random, asarray, zeros
 
 from pybrain.rl.environments.graphical import GraphicalEnvironment
 
 
+def rk4(derivs, y0, t):
+    """ Integrate a system of ordinary differential equations by the 4th order Runge-Kutta
+        method (matplotlib.mlab does not provide it any more).
+
+        :arg derivs: function of state and time that returns the derivatives of the state
+        :arg y0: initial state
+        :arg t: the times at which to return the state, starting with that of y0
+    """
+    y = zeros((len(t), len(y0)))
+    y[0] = y0
+    for i in range(len(t) - 1):
+        dt = t[i + 1] - t[i]
+        k1 = _flat(derivs(y[i], t[i]))
+        k2 = _flat(derivs(y[i] + dt / 2. * k1, t[i] + dt / 2.))
+        k3 = _flat(derivs(y[i] + dt / 2. * k2, t[i] + dt / 2.))
+        k4 = _flat(derivs(y[i] + dt * k3, t[i] + dt))
+        y[i + 1] = y[i] + dt / 6. * (k1 + 2 * k2 + 2 * k3 + k4)
+    return y
+
+
+def _flat(derivatives):
+    return asarray([float(d) for d in derivatives])
+
+
 class CartPoleEnvironment(GraphicalEnvironment):
     """ This environment implements the cart pole balancing benchmark, as stated in:
         Riedmiller, Peters, Schaal: "Evaluation of Policy Gradient Methods and
-- 
2.43.0


From 53285314e3ddf4e54ff4cda5a0209871e828d3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:34 +0000
Subject: [PATCH 135/193] fix: flexcube tasks with targets could not be
 constructed

---
 pybrain/rl/environments/flexcube/environment.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/environments/flexcube/environment.py b/pybrain/rl/environments/flexcube/environment.py
index 27c9631..d1bac04 100644
--- a/pybrain/rl/environments/flexcube/environment.py
+++ b/pybrain/rl/environments/flexcube/environment.py
@@ -4,13 +4,14 @@ from . import sensors
 import threading
 from pybrain.utilities import threaded
 from pybrain.tools.networking.udpconnection import UDPServer
-from pybrain.rl.environments.environment import Environment
+from pybrain.rl.environments.serverinterface import GraphicalEnvironment
 from scipy import ones, zeros, array, clip, arange, sqrt
 from time import sleep
 
-class FlexCubeEnvironment(Environment):
+class FlexCubeEnvironment(GraphicalEnvironment):
     def __init__(self, render=True, realtime=True, ip="127.0.0.1", port="21560"):
         # initialize base class
+        GraphicalEnvironment.__init__(self)
         self.render = render
         if self.render:
             self.updateDone = True
-- 
2.43.0


From e84def6f76d164ea5ca03e4caca775ac205fa4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:34 +0000
Subject: [PATCH 136/193] fix: flexcube kept the center of gravity of the last
 episode after a reset

---
 pybrain/rl/environments/flexcube/environment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pybrain/rl/environments/flexcube/environment.py b/pybrain/rl/environments/flexcube/environment.py
index d1bac04..7ebf32f 100644
--- a/pybrain/rl/environments/flexcube/environment.py
+++ b/pybrain/rl/environments/flexcube/environment.py
@@ -71,6 +71,7 @@ class FlexCubeEnvironment(GraphicalEnvironment):
                 for k in range(2):
                     self.pos[i * 4 + j * 2 + k] = [i * self.dists[0] - self.dists[0] / 2.0, j * self.dists[0] - self.dists[0] / 2.0 + self.startHight, k * self.dists[0] - self.dists[0] / 2.0]
         self.vel = zeros((8, 3), float)
+        self.centerOfGrav = self.pos.sum(axis=0) / 8.0
 
         idx0 = arange(8).repeat(8)
         idx1 = array(list(range(8)) * 8)
-- 
2.43.0


From f9aaee1e3501cedb0ff4ee97fa7e47e628fc533c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:39 +0000
Subject: [PATCH 137/193] fix: flexcube tasks counted the observations before
 their sensors were chosen

---
 pybrain/rl/environments/flexcube/tasks.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pybrain/rl/environments/flexcube/tasks.py b/pybrain/rl/environments/flexcube/tasks.py
index ee889af..1d6b484 100644
--- a/pybrain/rl/environments/flexcube/tasks.py
+++ b/pybrain/rl/environments/flexcube/tasks.py
@@ -99,9 +99,9 @@ class GrowTask(NoRewardTask):
         NoRewardTask.__init__(self, env)
         self.rewardSensor = ["EdgesSumReal"]
         self.obsSensors = ["EdgesReal", "EdgesTarget"]
-        self.inDim = len(self.getObservation())
         self.plotString = ["World Interactions", "Size", "Reward on Growing Task"]
         self.env.mySensors = sensors.Sensors(self.obsSensors + self.rewardSensor)
+        self.inDim = len(self.getObservation())
         self.epiLen = 200 #suggested episode length
 
 #Aim is to maximize the distance to the starting point  (best reward: 406.43, PGPE)
@@ -110,9 +110,9 @@ class WalkTask(NoRewardTask):
         NoRewardTask.__init__(self, env)
         self.rewardSensor = ["DistToOrigin"]
         self.obsSensors = ["EdgesTarget", "EdgesReal", "VerticesContact", "Time"]
-        self.inDim = len(self.getObservation())
         self.plotString = ["World Interactions", "Distance", "Reward on Walking Task"]
         self.env.mySensors = sensors.Sensors(self.obsSensors + self.rewardSensor)
+        self.inDim = len(self.getObservation())
         self.epiLen = 2000  #suggested episode length
 
     def getReward(self):
@@ -134,9 +134,9 @@ class WalkDirectionTask(WalkTask):
         WalkTask.__init__(self, env)
         self.rewardSensor = ["Target"]
         self.obsSensors.append("Target")
-        self.inDim = len(self.getObservation())
         self.plotString = ["World Interactions", "Distance", "Reward on Target Approach Task"]
         self.env.mySensors = sensors.Sensors(self.obsSensors)
+        self.inDim = len(self.getObservation())
         self.env.mySensors.sensors[4].targetList = [array([160.0, 0.0, 0.0])]
         if self.env.hasRenderInterface(): self.env.getRenderInterface().target = self.env.mySensors.sensors[4].targetList[0]
         self.epiLen = 2000
@@ -184,9 +184,9 @@ class JumpTask(NoRewardTask):
         NoRewardTask.__init__(self, env)
         self.rewardSensor = ["VerticesMinHight"]
         self.obsSensors = ["EdgesTarget", "EdgesReal", "VerticesContact"]
-        self.inDim = len(self.getObservation())
         self.plotString = ["World Interactions", "Distance", "Reward on Walking Task"]
         self.env.mySensors = sensors.Sensors(self.obsSensors + self.rewardSensor)
+        self.inDim = len(self.getObservation())
         self.epiLen = 500
         self.maxReward = 0.0
         self.maxSpeed = self.dif / 10.0
-- 
2.43.0


From f28085a0c738bb318e2aa0997f62a2eae1ad38db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:26 +0000
Subject: [PATCH 138/193] fix: weights of restricted Boltzmann machines were
 inverted and trained as if transposed

---
 pybrain/structure/networks/rbm.py    | 4 ++--
 pybrain/unsupervised/trainers/rbm.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pybrain/structure/networks/rbm.py b/pybrain/structure/networks/rbm.py
index f7f58b9..41f6c51 100644
--- a/pybrain/structure/networks/rbm.py
+++ b/pybrain/structure/networks/rbm.py
@@ -73,9 +73,9 @@ class Rbm(object):
 
     def invert(self):
         """Return the inverse rbm."""
-        # TODO: check if shape is correct
+        weights = self.params.reshape((self.hiddenDim, self.visibleDim)).T
         return self.__class__.fromDims(self.hiddenDim, self.visibleDim,
-                                       params=self.params)
+                                       params=weights.flatten())
 
     def activate(self, inpt):
         return self.net.activate(inpt)
diff --git a/pybrain/unsupervised/trainers/rbm.py b/pybrain/unsupervised/trainers/rbm.py
index 74a2f18..1670f17 100644
--- a/pybrain/unsupervised/trainers/rbm.py
+++ b/pybrain/unsupervised/trainers/rbm.py
@@ -60,7 +60,7 @@ class RbmGibbsTrainer(Trainer):
                 #print("*** Iteration %2d **************************************" % t)
 
                 params = self.rbm.params
-                params = params.reshape((self.rbm.visibleDim, self.rbm.hiddenDim))
+                params = params.reshape((self.rbm.hiddenDim, self.rbm.visibleDim)).T
                 biasParams = self.rbm.biasParams
 
                 mm = cfg.iniMm if t < cfg.mmSwitchIter else cfg.finMm
-- 
2.43.0


From 9e0fe0a40b6e5c640f6c53bf65533c8318142b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:36 +0000
Subject: [PATCH 139/193] fix: deep belief training failed after the first
 layer, trained on nothing and detached the parameters of the network

---
 pybrain/structure/networks/rbm.py           |  4 +-
 pybrain/unsupervised/trainers/deepbelief.py | 64 ++++++++-------------
 2 files changed, 26 insertions(+), 42 deletions(-)

diff --git a/pybrain/structure/networks/rbm.py b/pybrain/structure/networks/rbm.py
index 41f6c51..26e46d6 100644
--- a/pybrain/structure/networks/rbm.py
+++ b/pybrain/structure/networks/rbm.py
@@ -33,8 +33,8 @@ class Rbm(object):
         self.net.sortModules()
         self.bias = [i for i in self.net.modules if isinstance(i, BiasUnit)][0]
         self.biascon = self.net.connections[self.bias][0]
-        self.visible = net['visible']
-        self.hidden = net['hidden']
+        self.visible = net.inmodules[0]
+        self.hidden = net.outmodules[0]
         self.con = self.net.connections[self.visible][0]
 
     @classmethod
diff --git a/pybrain/unsupervised/trainers/deepbelief.py b/pybrain/unsupervised/trainers/deepbelief.py
index 24125d1..b1958a0 100644
--- a/pybrain/unsupervised/trainers/deepbelief.py
+++ b/pybrain/unsupervised/trainers/deepbelief.py
@@ -4,10 +4,8 @@ __author__ = 'Justin S Bayer, bayer.justin@googlemail.com'
 __version__ = '$Id$'
 
 
-import copy
-
 from pybrain.datasets import SupervisedDataSet, UnsupervisedDataSet
-from pybrain.structure import BiasUnit, FeedForwardNetwork, FullConnection
+from pybrain.structure import BiasUnit, FullConnection, LinearLayer
 from pybrain.structure.networks.rbm import Rbm
 from pybrain.structure.modules.neuronlayer import NeuronLayer
 from pybrain.supervised.trainers import Trainer
@@ -62,55 +60,41 @@ class DeepBeliefTrainer(Trainer):
         layercons = (self.net.connections[i][0] for i in layers)
         # The biascons will not be sorted; we have to sort them to zip nicely
         # with the corresponding layers.
-        biascons = self.net.connections[bias]
-        biascons.sort(key=lambda c: layers.index(c.outmod))
+        biascons = sorted(self.net.connections[bias],
+                          key=lambda c: layers.index(c.outmod))
         modules = list(zip(layers, layers[1:], layercons, biascons))
         for visible, hidden, layercon, biascon in modules:
-            rbm = Rbm.fromModules(visible, hidden, bias,
-                                  layercon, biascon)
-            yield rbm
+            # The machine gets modules and connections of its own, so that
+            # those of the network stay its own, and values that have passed
+            # through the visible layer are not passed through it again.
+            rbmbias = BiasUnit()
+            rbmvisible = LinearLayer(visible.outdim)
+            rbmhidden = hidden.__class__(hidden.indim)
+            rbmcon = FullConnection(rbmvisible, rbmhidden)
+            rbmcon.params[:] = layercon.params
+            rbmbiascon = FullConnection(rbmbias, rbmhidden)
+            rbmbiascon.params[:] = biascon.params
+            yield Rbm.fromModules(rbmvisible, rbmhidden, rbmbias,
+                                  rbmcon, rbmbiascon)
+            layercon.params[:] = rbmcon.params
+            biascon.params[:] = rbmbiascon.params
 
     def train(self):
-        # We will build up a network piecewise in order to create a new dataset
-        # for each layer.
+        # Every machine is trained on the dataset as the layers below it
+        # represent it.
         dataset = self.dataset
-        piecenet = FeedForwardNetwork()
-        piecenet.addInputModule(copy.deepcopy(self.net.inmodules[0]))
-        # Add a bias
-        bias = BiasUnit()
-        piecenet.addModule(bias)
-        # Add the first visible layer
-        firstRbm = next(self.iterRbms())
-        visible = copy.deepcopy(firstRbm.visible)
-        piecenet.addModule(visible)
+        datasetfield = self.datasetfield
         # For saving the rbms and their inverses
         self.invRbms = []
         self.rbms = []
         for rbm in self.iterRbms():
-            self.net.sortModules()
             # Train the first layer with an rbm trainer for `epoch` epochs.
             trainer = self.trainerKlass(rbm, dataset, self.cfg)
             for _ in range(self.epochs):
                 trainer.train()
             self.invRbms.append(trainer.invRbm)
             self.rbms.append(rbm)
-            # Add the connections and the hidden layer of the rbm to the net.
-            hidden = copy.deepcopy(rbm.hidden)
-            biascon = FullConnection(bias, hidden)
-            biascon.params[:] = rbm.biasWeights
-            con = FullConnection(visible, hidden)
-            con.params[:] = rbm.weights
-
-            piecenet.addConnection(biascon)
-            piecenet.addConnection(con)
-            piecenet.addModule(hidden)
-            # Overwrite old outputs
-            piecenet.outmodules = [hidden]
-            piecenet.outdim = rbm.hiddenDim
-            piecenet.sortModules()
-
-            dataset = UnsupervisedDataSet(rbm.hiddenDim)
-            for sample, in self.dataset:
-                new_sample = piecenet.activate(sample)
-                dataset.addSample(new_sample)
-            visible = hidden
+            hidden = UnsupervisedDataSet(rbm.hiddenDim)
+            for sample in dataset[datasetfield]:
+                hidden.addSample(rbm.activate(sample))
+            dataset, datasetfield = hidden, 'sample'
-- 
2.43.0


From d3925999dd289cb42e7a97074d7a44864a067000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:31 +0000
Subject: [PATCH 140/193] fix: gaussian layers divided the derivatives of
 earlier passes again

---
 pybrain/structure/modules/gaussianlayer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pybrain/structure/modules/gaussianlayer.py b/pybrain/structure/modules/gaussianlayer.py
index 7ee0b50..574aca0 100644
--- a/pybrain/structure/modules/gaussianlayer.py
+++ b/pybrain/structure/modules/gaussianlayer.py
@@ -34,9 +34,10 @@ class GaussianLayer(NeuronLayer, ParameterContainer):
 
     def _backwardImplementation(self, outerr, inerr, outbuf, inbuf):
         expln_params = expln(self.params)
-        self._derivs += ((outbuf - inbuf)**2 - expln_params**2) / expln_params * explnPrime(self.params)
+        derivs = ((outbuf - inbuf)**2 - expln_params**2) / expln_params * explnPrime(self.params)
         inerr[:] = (outbuf - inbuf)
 
         if not self.autoalpha:
             inerr /= expln_params**2
-            self._derivs /= expln_params**2
+            derivs /= expln_params**2
+        self._derivs += derivs
-- 
2.43.0


From 51154860b09b2aea4b718edbd58fa3653abb35f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:31 +0000
Subject: [PATCH 141/193] fix: state-dependent layers did not accumulate
 derivatives, and scaled those of separate sigmas the wrong way round

---
 pybrain/structure/modules/statedependentlayer.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pybrain/structure/modules/statedependentlayer.py b/pybrain/structure/modules/statedependentlayer.py
index 3abd03d..103e1b7 100644
--- a/pybrain/structure/modules/statedependentlayer.py
+++ b/pybrain/structure/modules/statedependentlayer.py
@@ -51,7 +51,7 @@ class StateDependentLayer(NeuronLayer, ParameterContainer):
             # algorithm for one global sigma for all mu's
             expln_params = expln(self.params)
             sumxsquared = dot(self.state, self.state)
-            self._derivs += (
+            derivs = (
                 sum((outbuf - inbuf) ** 2 - expln_params ** 2 * sumxsquared)
                 / expln_params * explnPrime(self.params)
             )
@@ -59,7 +59,8 @@ class StateDependentLayer(NeuronLayer, ParameterContainer):
 
             if not self.autoalpha and sumxsquared != 0:
                 inerr /= expln_params ** 2 * sumxsquared
-                self._derivs /= expln_params ** 2 * sumxsquared
+                derivs /= expln_params ** 2 * sumxsquared
+            self._derivs += derivs
         else:
             # Algorithm for seperate sigma for each mu
             expln_params = expln(self.params
@@ -71,10 +72,12 @@ class StateDependentLayer(NeuronLayer, ParameterContainer):
             for j in range(len(outbuf)):
                 sigma_subst2 = dot(self.state ** 2, expln_params[j, :]**2)
                 for i in range(len(self.state)):
-                    self._derivs[idx] = ((outbuf[j] - inbuf[j]) ** 2 - sigma_subst2) / sigma_subst2 * \
-                        self.state[i] ** 2 * expln_params[j, i] * explnPrime_params[j, i]
-                    if self.autoalpha and sigma_subst2 != 0:
-                        self._derivs[idx] /= sigma_subst2
+                    if sigma_subst2 != 0:
+                        deriv = ((outbuf[j] - inbuf[j]) ** 2 - sigma_subst2) / sigma_subst2 * \
+                            self.state[i] ** 2 * expln_params[j, i] * explnPrime_params[j, i]
+                        if not self.autoalpha:
+                            deriv /= sigma_subst2
+                        self._derivs[idx] += deriv
                     idx += 1
                 inerr[j] = (outbuf[j] - inbuf[j])
                 if not self.autoalpha and sigma_subst2 != 0:
-- 
2.43.0


From babb405e4bd692a2df740f09bbf2b2a12c98abc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:31 +0000
Subject: [PATCH 142/193] fix: setting masked parameters that include the zeros
 shifted them

---
 pybrain/structure/evolvables/maskedparameters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pybrain/structure/evolvables/maskedparameters.py b/pybrain/structure/evolvables/maskedparameters.py
index 7ad043e..1480ae9 100644
--- a/pybrain/structure/evolvables/maskedparameters.py
+++ b/pybrain/structure/evolvables/maskedparameters.py
@@ -59,6 +59,9 @@ class MaskedParameters(TopologyEvolvable):
 
     def _setParameters(self, x):
         """ sets only the unmasked parameters """
+        if self.returnZeros and len(x) == len(self.maskableParams):
+            # the masked values are included, as in .params
+            x = [x[i] for i in range(len(self.maskableParams)) if self.mask[i]]
         paramcount = 0
         for i in range(len(self.maskableParams)):
             if self.mask[i] == True:
-- 
2.43.0


From 389a85a6b642d44ca5ffbc3d2a0358fa83e9192f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:31 +0000
Subject: [PATCH 143/193] fix: neurons of a copied decomposable network were in
 another order

---
 pybrain/structure/networks/neurondecomposable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/structure/networks/neurondecomposable.py b/pybrain/structure/networks/neurondecomposable.py
index 42fc0ed..85b705a 100644
--- a/pybrain/structure/networks/neurondecomposable.py
+++ b/pybrain/structure/networks/neurondecomposable.py
@@ -39,7 +39,8 @@ class NeuronDecomposableNetwork(object):
                 self.decompositionIndices[outneuron].append(w)
 
     def _neuronIterator(self):
-        for m in self.modules:
+        # always in the same order, also for a copy
+        for m in self.modulesSorted:
             for n in range(m.dim):
                 yield (m, n)
 
-- 
2.43.0


From 67a63d1419932f7ea92c6501621a7d770605ee2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:31 +0000
Subject: [PATCH 144/193] fix: networks with peephole connections could not be
 decomposed

---
 pybrain/structure/networks/neurondecomposable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/structure/networks/neurondecomposable.py b/pybrain/structure/networks/neurondecomposable.py
index 85b705a..ce6bb85 100644
--- a/pybrain/structure/networks/neurondecomposable.py
+++ b/pybrain/structure/networks/neurondecomposable.py
@@ -59,7 +59,7 @@ class NeuronDecomposableNetwork(object):
                                                (x.outmod, x.outmod.whichNeuron(inputIndex=outbuf)))
             elif isinstance(x, NeuronLayer):
                 for n in range(x.paramdim):
-                    self.paramInfo[index + n] = ((x, n), (x, n))
+                    self.paramInfo[index + n] = ((x, n % x.dim), (x, n % x.dim))
             else:
                 raise
             index += x.paramdim
-- 
2.43.0


From 016f65db14b5789bd54be61c1b284ba2d5959f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:31 +0000
Subject: [PATCH 145/193] fix: decomposable version of a network that forgets
 did not forget

---
 pybrain/structure/networks/neurondecomposable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/structure/networks/neurondecomposable.py b/pybrain/structure/networks/neurondecomposable.py
index ce6bb85..4933812 100644
--- a/pybrain/structure/networks/neurondecomposable.py
+++ b/pybrain/structure/networks/neurondecomposable.py
@@ -91,7 +91,7 @@ class NeuronDecomposableNetwork(object):
     def convertNormalNetwork(n):
         """ convert a normal network into a decomposable one """
         if isinstance(n, RecurrentNetwork):
-            res = RecurrentDecomposableNetwork()
+            res = RecurrentDecomposableNetwork(forget=n.forget)
             for c in n.recurrentConns:
                 res.addRecurrentConnection(c)
         else:
-- 
2.43.0


From fa6d4c888394d2a3bb38cd309f23ee566a657fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:00 +0000
Subject: [PATCH 146/193] fix: networks whose parts another network took over
 could not be copied or unpickled

---
 pybrain/structure/networks/network.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/structure/networks/network.py b/pybrain/structure/networks/network.py
index aa2e564..808a50b 100644
--- a/pybrain/structure/networks/network.py
+++ b/pybrain/structure/networks/network.py
@@ -276,7 +276,8 @@ class Network(Module, ParameterContainer):
         if not self.sorted or self.owner not in (None, self) or self.paramdim == 0:
             return
         # when the copying started at one of its parts, that part is not complete yet
-        if sum(x.paramdim for x in self._containerIterator()) == self.paramdim:
+        parts = list(self._containerIterator())
+        if sum(x.paramdim for x in parts) == self.paramdim and all(x.owner is self for x in parts):
             self._setParameters(self.params, self.owner)
             self._setDerivatives(self.derivs, self.owner)
 
-- 
2.43.0


From 1f63bba755ffb024ccc95cbce7369fd0e3ef5234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:10 +0000
Subject: [PATCH 147/193] fix: deep copies and pickles of a network that is
 part of another network

---
 pybrain/structure/networks/network.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pybrain/structure/networks/network.py b/pybrain/structure/networks/network.py
index 808a50b..5f3dafe 100644
--- a/pybrain/structure/networks/network.py
+++ b/pybrain/structure/networks/network.py
@@ -273,7 +273,15 @@ class Network(Module, ParameterContainer):
         """The arrays of a copied or unpickled network are no views: link those
         of the parts to those of the network again."""
         self.__dict__.update(state)
-        if not self.sorted or self.owner not in (None, self) or self.paramdim == 0:
+        self._relink()
+
+    def _relink(self):
+        if self.owner not in (None, self):
+            # its arrays are views of those of the whole, unless that is not complete yet
+            if self.owner.__dict__:
+                self.owner._relink()
+            return
+        if not self.sorted or self.paramdim == 0:
             return
         # when the copying started at one of its parts, that part is not complete yet
         parts = list(self._containerIterator())
-- 
2.43.0


From 5c7f47e41613ce3ec7edeee2c9c56117c30fab9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:29 +0000
Subject: [PATCH 148/193] fix: grid searches could not compute their grid
 (number of steps as a float)

---
 pybrain/tools/gridsearch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/tools/gridsearch.py b/pybrain/tools/gridsearch.py
index 7faa298..6116f4e 100644
--- a/pybrain/tools/gridsearch.py
+++ b/pybrain/tools/gridsearch.py
@@ -99,7 +99,7 @@ class GridSearch2D:
         for i in range(ndim):
             linspaces.append(
                 self._permuteSequence(
-                    list(linspace(self._min_params[i], self._max_params[i], self._n_steps[i]))))
+                    list(linspace(self._min_params[i], self._max_params[i], int(self._n_steps[i])))))
 #        print(linspaces; exit(0))
 #        linspaces = array(linspaces,float)
         nr_c = len(linspaces[0])
-- 
2.43.0


From 8ece17a41405a131fcf5179181c7c38aec940b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:29 +0000
Subject: [PATCH 149/193] fix: training curves could not be saved and lacked
 the last epochs

---
 pybrain/tools/neuralnets.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pybrain/tools/neuralnets.py b/pybrain/tools/neuralnets.py
index 8a76667..4c61283 100644
--- a/pybrain/tools/neuralnets.py
+++ b/pybrain/tools/neuralnets.py
@@ -65,11 +65,12 @@ class NNtools(object):
         logging.info('Saving training curves into ' + learnfname)
         if self.trainCurve is None:
             logging.error('No training curve available for saving!')
-        learnf = open(learnfname, "wb")
-        writer = csv.writer(learnf, dialect='excel')
-        nDataSets = len(self.trainCurve)
-        for i in range(1, len(self.trainCurve[0]) - 1):
-            writer.writerow([self.trainCurve[k][i] for k in range(nDataSets)])
+        learnf = open(learnfname, "w")
+        writer = csv.writer(learnf, dialect='excel', lineterminator='\n')
+        # without test data there is no curve of test errors
+        curves = [c for c in self.trainCurve if len(c) == len(self.trainCurve[0])]
+        for i in range(1, len(self.trainCurve[0])):
+            writer.writerow([c[i] for c in curves])
         learnf.close()
 
     def saveNetwork(self, fname):
-- 
2.43.0


From 02645efbca6de3815826a119b52b23341aa07f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:29 +0000
Subject: [PATCH 150/193] fix: data analysis tools stopped after one batch
 without a convergence criterion, trained beyond the maximum and needed test
 data for a validation

---
 pybrain/tools/neuralnets.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pybrain/tools/neuralnets.py b/pybrain/tools/neuralnets.py
index 4c61283..60269ff 100644
--- a/pybrain/tools/neuralnets.py
+++ b/pybrain/tools/neuralnets.py
@@ -109,6 +109,7 @@ class NNregression(NNtools):
         inc = self.epoinc
         best_error = Infinity
         best_epoch = 0
+        bestweights = None
         learncurve_x = [0]
         learncurve_y = [0.0]
         valcurve_y = [0.0]
@@ -116,7 +117,7 @@ class NNregression(NNtools):
         convtest = 0
         if convergence > 0:
             logging.info("Convergence criterion: %d batches of %d epochs w/o improvement" % (convergence, inc))
-        while epoch <= self.maxepochs and not converged:
+        while epoch < self.maxepochs and not converged:
             self.Trainer.trainEpochs(inc)
             epoch += inc
             learncurve_x.append(epoch)
@@ -142,7 +143,7 @@ class NNregression(NNtools):
                     self.Graph.addData(1, epoch, err_tst)
 
                 # check if convegence criterion is fulfilled (no improvement after N epoincs)
-                if convtest >= convergence:
+                if convergence > 0 and convtest >= convergence:
                     converged = True
 
             if self.Graph is not None:
@@ -153,7 +154,8 @@ class NNregression(NNtools):
         logging.info("Best epoch: %6d, with error: %10g" % (best_epoch, best_error))
         if self.VDS is not None:
             # calculate same errors on VALIDATION data
-            self.Trainer.module.params[:] = bestweights.copy()
+            if bestweights is not None:
+                self.Trainer.module.params[:] = bestweights.copy()
             err_val = ModuleValidator.validate(Validator.MSE, self.Trainer.module, self.VDS)
             logging.info("Result on evaluation data: %10g" % err_val)
         # store training curve for saving into file
@@ -227,8 +229,9 @@ class NNclassifier(NNtools):
             self.Graph.setLegend(['training', 'test'], loc='lower right')
         epoch = 0
         inc = self.epoinc
-        best_error = 100.0
+        best_error = Infinity
         best_epoch = 0
+        bestweights = None
         learncurve_x = [0]
         learncurve_y = [0.0]
         valcurve_y = [0.0]
@@ -236,7 +239,7 @@ class NNclassifier(NNtools):
         convtest = 0
         if convergence > 0:
             logging.info("Convergence criterion: %d batches of %d epochs w/o improvement" % (convergence, inc))
-        while epoch <= self.maxepochs and not converged:
+        while epoch < self.maxepochs and not converged:
             self.Trainer.trainEpochs(inc)
             epoch += inc
             learncurve_x.append(epoch)
@@ -271,7 +274,7 @@ class NNclassifier(NNtools):
                     self.Graph.addData(1, epoch, r_tst)
 
                 # check if convegence criterion is fulfilled (no improvement after N epoincs)
-                if convtest >= convergence:
+                if convergence > 0 and convtest >= convergence:
                     converged = True
 
             if self.Graph is not None:
@@ -281,7 +284,8 @@ class NNclassifier(NNtools):
         logging.info("Best epoch: %6d, with error: %5.2f%%" % (best_epoch, best_error))
         if self.VDS is not None:
             # calculate errors on VALIDATION data
-            self.Trainer.module.params[:] = bestweights.copy()
+            if bestweights is not None:
+                self.Trainer.module.params[:] = bestweights.copy()
             if isinstance(self.DS, SequentialDataSet):
                 r_val = 100. * (1.0 - testOnSequenceData(self.Trainer.module, self.VDS))
             else:
-- 
2.43.0


From 99499df74b46d8ef15c71b6671ef674a47b1f68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:29 +0000
Subject: [PATCH 151/193] fix: the grid search of the SVM trainer returned the
 largest C instead of the best parameters

---
 pybrain/supervised/trainers/svmtrainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/supervised/trainers/svmtrainer.py b/pybrain/supervised/trainers/svmtrainer.py
index 78c8b0e..53460b3 100644
--- a/pybrain/supervised/trainers/svmtrainer.py
+++ b/pybrain/supervised/trainers/svmtrainer.py
@@ -173,7 +173,7 @@ class GridSearch(svm_model):
                 self._save_points(res)
             self._redraw(scores)
         scores = array(scores)
-        best = scores[scores[:, 0].argmax(), 1:]
+        best = scores[scores[:, 2].argmax(), :2]
         self.setParams(C=2 ** best[0], gamma=2 ** best[1])
         logging.info("best log2C=%12.7g, log2g=%11.7g " % (best[0], best[1]))
         param = svm_parameter(**self.params)
-- 
2.43.0


From d931917d60ffcabd94e35d33d37028bb0655acb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:29 +0000
Subject: [PATCH 152/193] fix: targets and number of classes of LIBSVM data
 sets could not be asked for

---
 pybrain/tools/svmdata.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/pybrain/tools/svmdata.py b/pybrain/tools/svmdata.py
index b9761cb..4655ec4 100644
--- a/pybrain/tools/svmdata.py
+++ b/pybrain/tools/svmdata.py
@@ -20,6 +20,8 @@ class SVMData(SupervisedDataSet):
     def loadData(self, fname):
         """ decide which format the data is in """
         self.filename = fname
+        self.nCls = 0
+        self.nSamples = 0
         if fname.find('.mat') >= 0:
             self.loadMATdata(fname)
         elif fname.find('.svm') >= 0:
@@ -39,6 +41,8 @@ class SVMData(SupervisedDataSet):
         classes = list(set(flat_labels))
         self._classes = classes
         self.nClasses = len(classes)
+        self.nCls = max(self.nCls, self.nClasses)
+        self.classHist = {}
         for class_ in classes:
             self.classHist[class_] = flat_labels.count(class_)
 
@@ -131,14 +135,7 @@ class SVMData(SupervisedDataSet):
 
     def getTargets(self):
         """ return the targets of the dataset, preserving the current sample pointer """
-        self.storePointer()
-        self.reset()
-        targets = []
-        while not self.endOfSequences():
-            input, target, dummy = self.getSample()
-            targets.append(target)
-        self.recallPointer()
-        return targets
+        return list(self.getField('target').copy())
 
     def getFileName(self):
         return self.filename
-- 
2.43.0


From 4bddaf0376b35034f75416b1dd59dbac7f9ed2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:17 +0000
Subject: [PATCH 153/193] fix: competitive and multi-population coevolution
 could not be imported

---
 .../populationbased/coevolution/competitivecoevolution.py       | 2 +-
 .../populationbased/coevolution/multipopulationcoevolution.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/optimization/populationbased/coevolution/competitivecoevolution.py b/pybrain/optimization/populationbased/coevolution/competitivecoevolution.py
index 39c27bd..f9da56b 100644
--- a/pybrain/optimization/populationbased/coevolution/competitivecoevolution.py
+++ b/pybrain/optimization/populationbased/coevolution/competitivecoevolution.py
@@ -2,7 +2,7 @@ from __future__ import print_function
 
 __author__ = 'Tom Schaul, tom@idsia.ch'
 
-from pybrain.optimization.coevolution.coevolution import Coevolution
+from pybrain.optimization.populationbased.coevolution.coevolution import Coevolution
 
 
 class CompetitiveCoevolution(Coevolution):
diff --git a/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py b/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py
index 9d0895a..321a2fb 100644
--- a/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py
+++ b/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py
@@ -2,7 +2,7 @@ __author__ = 'Tom Schaul, tom@idsia.ch'
 
 from random import choice
 
-from pybrain.optimization.coevolution.coevolution import Coevolution
+from pybrain.optimization.populationbased.coevolution.coevolution import Coevolution
 
 
 class MultiPopulationCoevolution(Coevolution):
-- 
2.43.0


From a7553b2e2c6dca13db6b192fd8546a0351d2c7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:17 +0000
Subject: [PATCH 154/193] fix: coevolution averaged survivors with their
 parents, and children not at all without elitism

---
 .../optimization/populationbased/coevolution/coevolution.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pybrain/optimization/populationbased/coevolution/coevolution.py b/pybrain/optimization/populationbased/coevolution/coevolution.py
index b7f3aa6..3fbdd60 100644
--- a/pybrain/optimization/populationbased/coevolution/coevolution.py
+++ b/pybrain/optimization/populationbased/coevolution/coevolution.py
@@ -164,12 +164,14 @@ class Coevolution(Named):
         if self.elitism:
             newpop = self._extendPopulation(selected, self.populationSize)
             if self.parentChildAverage < 1:
-                self._averageWithParents(newpop, self.parentChildAverage)
+                children = newpop[self._numSelected():]
+                self._averageWithParents(children, self.parentChildAverage)
+                newpop[self._numSelected():] = children
         else:
             newpop = self._extendPopulation(selected, self.populationSize
                                             + self._numSelected()) [self._numSelected():]
             if self.parentChildAverage < 1:
-                self._averageWithParents(newpop[self._numSelected():], self.parentChildAverage)
+                self._averageWithParents(newpop, self.parentChildAverage)
         return newpop
 
     def _beats(self, h, p):
-- 
2.43.0


From a1b471116a2cfd869bd2fdf625227feaac475472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:17 +0000
Subject: [PATCH 155/193] fix: coevolution counted repeated games several times
 in the average score

---
 pybrain/optimization/populationbased/coevolution/coevolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/optimization/populationbased/coevolution/coevolution.py b/pybrain/optimization/populationbased/coevolution/coevolution.py
index 3fbdd60..9bc9c84 100644
--- a/pybrain/optimization/populationbased/coevolution/coevolution.py
+++ b/pybrain/optimization/populationbased/coevolution/coevolution.py
@@ -207,7 +207,7 @@ class Coevolution(Named):
         if p not in self.allOpponents:
             return 0.
         scoresum, played = 0., 0
-        for opp in self.allOpponents[p]:
+        for opp in set(self.allOpponents[p]):
             scoresum += self.allResults[(p, opp)][2]
             played += self.allResults[(p, opp)][1]
             scoresum -= self.allResults[(opp, p)][2]
-- 
2.43.0


From e039f45fef26ebb7e2a36179fae63f55353769a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:17 +0000
Subject: [PATCH 156/193] fix: multi-population coevolution exceeded its budget
 and extended the list of seeds given

---
 .../coevolution/multipopulationcoevolution.py             | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py b/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py
index 321a2fb..5a574fb 100644
--- a/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py
+++ b/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py
@@ -15,6 +15,7 @@ class MultiPopulationCoevolution(Coevolution):
 
     def _initPopulation(self, seeds):
         """ one part of the seeds for each population, if there's not enough: randomize. """
+        seeds = seeds[:]
         for s in seeds:
             s.parent = None
         while len(seeds) < self.numPops:
@@ -61,7 +62,6 @@ class MultiPopulationCoevolution(Coevolution):
         self.pop = self.pops[self.mainpop]
 
     def _stepsPerGeneration(self):
-        if self.tournamentSize == None:
-            return 2 * self.populationSize** 2
-        else:
-            return Coevolution._stepsPerGeneration(self)
+        bestPart = max(1, self.populationSize//2)
+        tournSize = min(self.tournamentSize, bestPart)
+        return 2 * self.populationSize * tournSize * (self.numPops - 1)
-- 
2.43.0


From 68ff6ffdcb16edc7da9311c0cbe2728e162846bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:14 +0000
Subject: [PATCH 157/193] fix: _buildNetwork failed when the first part has
 several layers

---
 pybrain/tools/shortcuts.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pybrain/tools/shortcuts.py b/pybrain/tools/shortcuts.py
index 27edca2..967daa7 100644
--- a/pybrain/tools/shortcuts.py
+++ b/pybrain/tools/shortcuts.py
@@ -141,8 +141,9 @@ def _buildNetwork(*layers, **options):
 
     prevLayer = firstLayer
 
-    for part in chain(firstPart, layerParts):
-        new_part = True
+    for i, part in enumerate(chain([firstPart], layerParts)):
+        # The rest of the first part belongs to the part of the input layer
+        new_part = i > 0
         for layer in part:
             net.addModule(layer)
             # Pick class depending on whether we entered a new part
-- 
2.43.0


From 9f9e10465f3677b217145b3b119e4d3149299feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:22 +0000
Subject: [PATCH 158/193] fix: KohonenMap's full map was never written to the
 output

---
 pybrain/structure/modules/kohonen.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pybrain/structure/modules/kohonen.py b/pybrain/structure/modules/kohonen.py
index b727b74..13657ac 100644
--- a/pybrain/structure/modules/kohonen.py
+++ b/pybrain/structure/modules/kohonen.py
@@ -12,7 +12,8 @@ class KohonenMap(Module):
         Clusters the inputs in unsupervised fashion while conserving their
         neighbourhood relationship on a 2-dimensional grid. There are two
         versions: With the outputFullMap option set to True, it outputs
-        the full Kohonen map to the next layer, set to False it will only
+        the full Kohonen map (the square difference of each neuron, row by
+        row) to the next layer, set to False it will only
         return 2 values: the x and y coordinate of the winner neuron. """
 
     def __init__(self, dim, nNeurons, name=None, outputFullMap=False):
@@ -49,7 +50,9 @@ class KohonenMap(Module):
         self.difference = self.neurons - tile(inbuf, (self.nNeurons, self.nNeurons, 1))
         error = sum(self.difference ** 2, 2)
         self.winner = array(minimum_position(error))
-        if not self.outputFullMap:
+        if self.outputFullMap:
+            outbuf[:] = error.flatten()
+        else:
             outbuf[:] = self.winner
 
 
-- 
2.43.0


From 2c631f5bfa4d2f2a130eb3654b784c1956594aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:41 +0000
Subject: [PATCH 159/193] fix: XMLstruct used a missing name attribute, left
 empty tags unclosed and values unescaped

---
 pybrain/rl/environments/ode/tools/xmltools.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pybrain/rl/environments/ode/tools/xmltools.py b/pybrain/rl/environments/ode/tools/xmltools.py
index 765ef05..2d81ee6 100644
--- a/pybrain/rl/environments/ode/tools/xmltools.py
+++ b/pybrain/rl/environments/ode/tools/xmltools.py
@@ -3,6 +3,7 @@ from __future__ import print_function
 __author__ = 'Thomas Rueckstiess, ruecksti@in.tum.de'
 
 import sys
+from xml.sax.saxutils import quoteattr
 
 class XMLstruct:
     """
@@ -33,7 +34,11 @@ class XMLstruct:
 
     def __iter__(self):
         """returns the top-level list of tags (including internal tags 'Icontain' and 'myName')"""
-        return self.tag
+        return iter(self.tag)
+
+    @property
+    def name(self):
+        return self.tag['myName']
 
 
     def insert(self, name, attr=None):
@@ -70,8 +75,7 @@ class XMLstruct:
         """Traverse downward from current tag, until given named tag is found. Returns
         true if found and sets stack and current tag correspondingly."""
         if stack is None:
-            stack = self.stack
-            current = self.current
+            return self.current.downTo(name, self.stack, self)
         if self.name == name:
             return(True)
         else:
@@ -175,10 +179,10 @@ class XMLstruct:
         # print(start tag, with attributes if present)
         if nAttr > 0:
             file.write(self._tab * depth + "<" + self.tag['myName'] + " " + \
-                ' '.join([name + '="' + str(val) + '"' for name, val in self.tag.items() \
+                ' '.join([name + '=' + quoteattr(str(val)) for name, val in self.tag.items() \
                 if name != 'myName' and name != 'Icontain']) + endmark + '\n')
         else:
-            file.write(self._tab * depth + "<" + self.tag['myName'] + ">\n")
+            file.write(self._tab * depth + "<" + self.tag['myName'] + endmark + "\n")
         # print(enclosed tags, if any)
         if self.hasSubtag():
             for subtag in self.tag['Icontain']:
-- 
2.43.0


From b0fc535d6413e1c9b0489b2283a28a9c138db910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:41 +0000
Subject: [PATCH 160/193] fix: ConfigGrabber used string.strip, which no longer
 exists

---
 pybrain/rl/environments/ode/tools/configgrab.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pybrain/rl/environments/ode/tools/configgrab.py b/pybrain/rl/environments/ode/tools/configgrab.py
index 7d1f509..79c84ac 100644
--- a/pybrain/rl/environments/ode/tools/configgrab.py
+++ b/pybrain/rl/environments/ode/tools/configgrab.py
@@ -1,7 +1,5 @@
 __author__ = 'Thomas Rueckstiess, ruecksti@in.tum.de'
 
-import string
-
 class ConfigGrabber:
     def __init__(self, filename, sectionId="", delim=("[", "]")):
         # filename:  name of the config file to be parsed
@@ -9,7 +7,7 @@ class ConfigGrabber:
         #            been encountered in the file
         # delim:     tuple of delimiters to identify tags
         self.filename = filename
-        self.sectionId = string.strip(sectionId)
+        self.sectionId = sectionId.strip()
         self.delim = delim
 
     def getValue(self, name):
@@ -18,17 +16,17 @@ class ConfigGrabber:
         output = []
         # ignore sectionId if not set
         if self.sectionId == "":
-            self.sectionId = string.strip(file.readline())
+            self.sectionId = file.readline().strip()
             file.seek(0)
 
         for line in file:
-            if flag == -1 and string.strip(line) == self.sectionId:
+            if flag == -1 and line.strip() == self.sectionId:
                 flag = 0
             if flag > -1:
                 if line[0] != self.delim[0]:
-                    if flag == 1: output.append(string.strip(line))
+                    if flag == 1: output.append(line.strip())
                 else:
-                    if line == self.delim[0] + name + self.delim[1] + "\n": flag = 1
+                    if line.strip() == self.delim[0] + name + self.delim[1]: flag = 1
                     else: flag = 0
         file.close()
         #if len(output)==0: print("Attention: Config for ", name, "not found")
-- 
2.43.0


From 89ff4d408ed7964d93b24286b5da6cad1ba9d1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:41 +0000
Subject: [PATCH 161/193] fix: XODEfile wrote text to a file opened in binary
 mode

---
 pybrain/rl/environments/ode/tools/xodetools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/ode/tools/xodetools.py b/pybrain/rl/environments/ode/tools/xodetools.py
index 4f5557a..b41b14d 100644
--- a/pybrain/rl/environments/ode/tools/xodetools.py
+++ b/pybrain/rl/environments/ode/tools/xodetools.py
@@ -281,7 +281,7 @@ class XODEfile(XMLstruct):
         """writes the created structure (plus header and footer) to file with
         the given basename (.xode is appended)"""
         if filename is None: filename = self._xodename
-        f = open(filename + '.xode', 'wb')  # <-- wb here ensures Linux compatibility
+        f = open(filename + '.xode', 'w', encoding='UTF-8', newline='\n')
         f.write('<?xml version="1.0" encoding="UTF-8"?>\n')
         f.write('<xode version="1.0r23" name="' + self._xodename + '"\n')
         f.write('xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xsi:noNamespaceSchemaLocation="http://tanksoftware.com/xode/1.0r23/xode.xsd">\n\n')
-- 
2.43.0


From d85969684d30a01bb5056e8dd82080ce413fada7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:41 +0000
Subject: [PATCH 162/193] fix: the volume of XODE cylinders was four times too
 large

---
 pybrain/rl/environments/ode/tools/xodetools.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pybrain/rl/environments/ode/tools/xodetools.py b/pybrain/rl/environments/ode/tools/xodetools.py
index b41b14d..e501ec3 100644
--- a/pybrain/rl/environments/ode/tools/xodetools.py
+++ b/pybrain/rl/environments/ode/tools/xodetools.py
@@ -41,9 +41,9 @@ class XODEfile(XMLstruct):
             return mass / float(size[0] * size[1] * size[2])
         elif shape == 'cylinder' or shape == 'cappedCylinder':
             if shape == 'cylinder':
-                return mass / (12.56637061 * size[0] * size[0] * size[1])
+                return mass / (pi * size[0] * size[0] * size[1])
             else:
-                return mass / (size[0] * size[0] * (12.56637061 * (size[1] - 2 * size[0]) + 4.18879020 * size[0]))
+                return mass / (size[0] * size[0] * (pi * (size[1] - 2 * size[0]) + 4.18879020 * size[0]))
         elif shape == 'sphere':
             return mass / (4.18879020 * pow(size[0], 3))
         else:
@@ -56,9 +56,9 @@ class XODEfile(XMLstruct):
             return dens * float(size[0] * size[1] * size[2])
         elif shape == 'cylinder' or shape == 'cappedCylinder':
             if shape == 'cylinder':
-                return dens * (12.56637061 * size[0] * size[0] * size[1])
+                return dens * (pi * size[0] * size[0] * size[1])
             else:
-                return dens * (size[0] * size[0] * (12.56637061 * (size[1] - 2 * size[0]) + 4.18879020 * size[0]))
+                return dens * (size[0] * size[0] * (pi * (size[1] - 2 * size[0]) + 4.18879020 * size[0]))
         elif shape == 'sphere':
             return dens * (4.18879020 * pow(size[0], 3))
         else:
-- 
2.43.0


From 6e9d768df0aa3be1e631293219056b6783837971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:41 +0000
Subject: [PATCH 163/193] fix: merging XODE files replaced pass sets of the
 same name instead of joining them

---
 pybrain/rl/environments/ode/tools/xodetools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/ode/tools/xodetools.py b/pybrain/rl/environments/ode/tools/xodetools.py
index e501ec3..bb0da3e 100644
--- a/pybrain/rl/environments/ode/tools/xodetools.py
+++ b/pybrain/rl/environments/ode/tools/xodetools.py
@@ -221,7 +221,8 @@ class XODEfile(XMLstruct):
         if not xodefile.downTo(joinLevel):
             print(("Error: Cannot merge " + xodefile.name + " at level " + joinLevel))
         self.insertMulti(xodefile.getCurrentSubtags())
-        self._pass.update(xodefile.getPassList())
+        for pset, names in xodefile.getPassList().items():
+            self._pass.setdefault(pset, set()).update(names)
 
     def centerOn(self, name):
         self._centerOn = name
-- 
2.43.0


From d4b4542de3ba86f73f292d35f8de3dfaf8f847e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:42 +0000
Subject: [PATCH 164/193] fix: scaling an XODE model also scaled the normal
 vector of its planes

---
 pybrain/rl/environments/ode/tools/xodetools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/ode/tools/xodetools.py b/pybrain/rl/environments/ode/tools/xodetools.py
index bb0da3e..276c25a 100644
--- a/pybrain/rl/environments/ode/tools/xodetools.py
+++ b/pybrain/rl/environments/ode/tools/xodetools.py
@@ -238,7 +238,7 @@ class XODEfile(XMLstruct):
         """scales all spatial dimensions by the given factor
         FIXME: quaternions may cause problems, which are currently ignored"""
         # scale these attributes...
-        scaleset = set(['x', 'y', 'z', 'a', 'b', 'c', 'd', 'sizex', 'sizey', 'sizez', 'length', 'radius']) 
+        scaleset = set(['x', 'y', 'z', 'd', 'sizex', 'sizey', 'sizez', 'length', 'radius']) 
         # ... unless contained in these tags (in which case they specify angles)
         exclude = set(['euler', 'finiteRotation', 'axisangle'])
         self.scale(sc, scaleset, exclude)
-- 
2.43.0


From d6d31781057792263793a62434e0e54d87a137d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:42 +0000
Subject: [PATCH 165/193] fix: loading an XODE model indexed the result of
 filter()

---
 pybrain/rl/environments/ode/environment.py    | 6 +++---
 pybrain/rl/environments/ode/instances/ccrl.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pybrain/rl/environments/ode/environment.py b/pybrain/rl/environments/ode/environment.py
index 45f2fe9..f492dc9 100644
--- a/pybrain/rl/environments/ode/environment.py
+++ b/pybrain/rl/environments/ode/environment.py
@@ -181,7 +181,7 @@ class ODEEnvironment(Environment):
         f.close()
         try:
             # filter all xode "world" objects from root, take only the first one
-            world = filter(lambda x: isinstance(x, xode.parser.World), self.root.getChildren())[0]
+            world = [x for x in self.root.getChildren() if isinstance(x, xode.parser.World)][0]
         except IndexError:
             # malicious format, no world tag found
             print(("no <world> tag found in " + filename + ". quitting."))
@@ -190,7 +190,7 @@ class ODEEnvironment(Environment):
         self._setWorldParameters()
         try:
             # filter all xode "space" objects from world, take only the first one
-            space = filter(lambda x: isinstance(x, xode.parser.Space), world.getChildren())[0]
+            space = [x for x in world.getChildren() if isinstance(x, xode.parser.Space)][0]
         except IndexError:
             # malicious format, no space tag found
             print(("no <space> tag found in " + filename + ". quitting."))
@@ -292,7 +292,7 @@ class ODEEnvironment(Environment):
             body.name = node.getName()
             try:
                 # filter all xode geom objects and take the first one
-                xgeom = filter(lambda x: isinstance(x, xode.geom.Geom), node.getChildren())[0]
+                xgeom = [x for x in node.getChildren() if isinstance(x, xode.geom.Geom)][0]
             except IndexError:
                 return() # no geom object found, skip this node
             # get the real ode object
diff --git a/pybrain/rl/environments/ode/instances/ccrl.py b/pybrain/rl/environments/ode/instances/ccrl.py
index e340474..63d3379 100644
--- a/pybrain/rl/environments/ode/instances/ccrl.py
+++ b/pybrain/rl/environments/ode/instances/ccrl.py
@@ -94,7 +94,7 @@ class CCRLEnvironment(ODEEnvironment):
         f.close()
         try:
             # filter all xode "world" objects from root, take only the first one
-            world = filter(lambda x: isinstance(x, xode.parser.World), self.root.getChildren())[0]
+            world = [x for x in self.root.getChildren() if isinstance(x, xode.parser.World)][0]
         except IndexError:
             # malicious format, no world tag found
             print(("no <world> tag found in " + filename + ". quitting."))
@@ -103,7 +103,7 @@ class CCRLEnvironment(ODEEnvironment):
         self._setWorldParameters()
         try:
             # filter all xode "space" objects from world, take only the first one
-            space = filter(lambda x: isinstance(x, xode.parser.Space), world.getChildren())[0]
+            space = [x for x in world.getChildren() if isinstance(x, xode.parser.Space)][0]
         except IndexError:
             # malicious format, no space tag found
             print(("no <space> tag found in " + filename + ". quitting."))
-- 
2.43.0


From 5f519e16e7ee7112c884ca9fad38b8fa48763a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:42 +0000
Subject: [PATCH 166/193] fix: warnings about unknown ODE objects failed

---
 pybrain/rl/environments/ode/actuators.py |  4 ++--
 pybrain/rl/environments/ode/sensors.py   | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pybrain/rl/environments/ode/actuators.py b/pybrain/rl/environments/ode/actuators.py
index 6720be2..daa6bd4 100644
--- a/pybrain/rl/environments/ode/actuators.py
+++ b/pybrain/rl/environments/ode/actuators.py
@@ -125,7 +125,7 @@ class SpecificJointActuator(JointActuator):
                 self._joints.append(self._world.getXODERoot().namedChild(name).getODEObject())
             except KeyError:
                 # the given object name is not found. output warning and quit.
-                warnings.warn("Joint with name '", name, "' not found.")
+                warnings.warn("Joint with name '%s' not found." % name)
                 sys.exit()
 
     def _connect(self, world):
@@ -154,7 +154,7 @@ class CopyJointActuator(JointActuator):
                 self._joints.append(self._world.getXODERoot().namedChild(name).getODEObject())
             except KeyError:
                 # the given object name is not found. output warning and quit.
-                warnings.warn("Joint with name '", name, "' not found.")
+                warnings.warn("Joint with name '%s' not found." % name)
                 sys.exit()
 
     def _connect(self, world):
diff --git a/pybrain/rl/environments/ode/sensors.py b/pybrain/rl/environments/ode/sensors.py
index e15c80d..96744a8 100644
--- a/pybrain/rl/environments/ode/sensors.py
+++ b/pybrain/rl/environments/ode/sensors.py
@@ -156,7 +156,7 @@ class DistToPointSensor(Sensor):
             odeObj = self._world.getXODERoot().namedChild(self._bodyName).getODEObject()
         except KeyError:
             # the given object name is not found. output warning and return distance 0.
-            warnings.warn("Object with name '", self._bodyName, "' not found.")
+            warnings.warn("Object with name '%s' not found." % self._bodyName)
             return 0
         self.setValues([norm(odeObj.getPosRelPoint(self._point))])
 
@@ -177,7 +177,7 @@ class BodyDistanceSensor(Sensor):
             odeObj2 = self._world.getXODERoot().namedChild(self._bodyName2).getODEObject()
         except KeyError:
             # the given object name is not found. output warning and return distance 0.
-            warnings.warn("One of the objects '", self._bodyName1, self._bodyName2, "' was not found.")
+            warnings.warn("One of the objects '%s', '%s' was not found." % (self._bodyName1, self._bodyName2))
             return 0
         self.setValues([norm(odeObj1.getPosRelPoint(odeObj2.getPosition()))])
 
@@ -236,7 +236,7 @@ class SpecificJointSensor(JointSensor):
                 self._joints.append(self._world.getXODERoot().namedChild(name).getODEObject())
             except KeyError:
                 # the given object name is not found. output warning and quit.
-                warnings.warn("Joint with name '", name, "' not found.")
+                warnings.warn("Joint with name '%s' not found." % name)
                 sys.exit()
 
     def _connect(self, world):
@@ -267,7 +267,7 @@ class SpecificJointVelocitySensor(JointVelocitySensor):
                 self._joints.append(self._world.getXODERoot().namedChild(name).getODEObject())
             except KeyError:
                 # the given object name is not found. output warning and quit.
-                warnings.warn("Joint with name '", name, "' not found.")
+                warnings.warn("Joint with name '%s' not found." % name)
                 sys.exit()
 
     def _connect(self, world):
@@ -299,7 +299,7 @@ class SpecificBodyPositionSensor(BodyPositionSensor):
                 self._bodies.append(self._world.getXODERoot().namedChild(name).getODEObject())
             except KeyError:
                 # the given object name is not found. output warning and quit.
-                warnings.warn("Body with name '", name, "' not found.")
+                warnings.warn("Body with name '%s' not found." % name)
                 sys.exit()
 
     def _connect(self, world):
-- 
2.43.0


From a6d49f1993b9107e79bd16de72646f4869b960c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:03 +0000
Subject: [PATCH 167/193] fix: Johnnie's jumping and standing up tasks read a
 sensor that does not exist

---
 pybrain/rl/environments/ode/tasks/johnnie.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pybrain/rl/environments/ode/tasks/johnnie.py b/pybrain/rl/environments/ode/tasks/johnnie.py
index a14160c..d16a1b6 100644
--- a/pybrain/rl/environments/ode/tasks/johnnie.py
+++ b/pybrain/rl/environments/ode/tasks/johnnie.py
@@ -129,10 +129,10 @@ class JumpingTask(JohnnieTask):
     def __init__(self, env):
         JohnnieTask.__init__(self, env)
         #add task spezific sensors, TODO build attitude sensors
-        self.env.addSensor(SpecificBodyPositionSensor(['footLeft']))
-        self.env.addSensor(SpecificBodyPositionSensor(['footRight']))
-        self.env.addSensor(SpecificBodyPositionSensor(['palm']))
-        self.env.addSensor(SpecificBodyPositionSensor(['head']))
+        self.env.addSensor(SpecificBodyPositionSensor(['footLeft'], "footLPos"))
+        self.env.addSensor(SpecificBodyPositionSensor(['footRight'], "footRPos"))
+        self.env.addSensor(SpecificBodyPositionSensor(['palm'], "bodyPos"))
+        self.env.addSensor(SpecificBodyPositionSensor(['head'], "headPos"))
 
         #we changed sensors so we need to update environments sensorLength variable
         self.env.obsLen = len(self.env.getSensors())
@@ -146,7 +146,7 @@ class JumpingTask(JohnnieTask):
 
     def getReward(self):
         # calculate reward and return reward
-        reward = self.env.getSensorByName('SpecificBodyPositionSensor8')[1] #reward is hight of head
+        reward = self.env.getSensorByName('headPos')[1] #reward is hight of head
         if reward > self.maxHight:
             self.maxHight = reward
         if self.count == self.epiLen:
@@ -174,7 +174,7 @@ class StandingUpTask(StandingTask):
         if self.count < 800:
             return 0.0
         else:
-            reward = self.env.getSensorByName('SpecificBodyPositionSensor8')[1] / float(self.epiLen - 800) #reward is hight of head
+            reward = self.env.getSensorByName('headPos')[1] / float(self.epiLen - 800) #reward is hight of head
             #to prevent jumping reward can't get bigger than head position while standing absolut upright
             reward = clip(reward, -14.0, 4.0)
             return reward
-- 
2.43.0


From 42842806408615512dfc8888f4d3ac204270dc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:04 +0000
Subject: [PATCH 168/193] fix: the robust standing tasks' perturbation did not
 end, its length was fractional

---
 pybrain/rl/environments/ode/tasks/johnnie.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/environments/ode/tasks/johnnie.py b/pybrain/rl/environments/ode/tasks/johnnie.py
index d16a1b6..df48684 100644
--- a/pybrain/rl/environments/ode/tasks/johnnie.py
+++ b/pybrain/rl/environments/ode/tasks/johnnie.py
@@ -116,13 +116,13 @@ class RStandingTask(StandingTask):
 class RobStandingTask(RStandingTask):
     #increases the amount of perturbation with the number of episodes
     def getDisturb(self):
-        return clip((10 + self.incLearn / 50), 0.0, 50)
+        return clip((10 + self.incLearn // 50), 0, 50)
 
 #Robust standing task suited for complete learning with an empty controller
 class RobustStandingTask(RobStandingTask):
     #increases the amount of perturbation with the number of episodes
     def getDisturb(self):
-        return clip((self.incLearn / 200), 0.0, 50)
+        return clip((self.incLearn // 200), 0, 50)
 
 #The jumping tasks, goal is to maximize the highest point the head reaches during episode
 class JumpingTask(JohnnieTask):
-- 
2.43.0


From 60f0bf1b8c239a1922c9b01275c17a286c6b4100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:28 +0000
Subject: [PATCH 169/193] fix: sensors attached to an XODE file without
 pressure elements were written into the preceding section

---
 pybrain/rl/environments/ode/tools/xodetools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/ode/tools/xodetools.py b/pybrain/rl/environments/ode/tools/xodetools.py
index 276c25a..e922eb1 100644
--- a/pybrain/rl/environments/ode/tools/xodetools.py
+++ b/pybrain/rl/environments/ode/tools/xodetools.py
@@ -257,8 +257,9 @@ class XODEfile(XMLstruct):
         if self._affixToEnvironment is not None:
             f.write('<affixToEnvironment>\n')
             f.write(self._affixToEnvironment + '\n')
-        if self._nSensorElements > 0:
+        if self._nSensorElements > 0 or self.sensors:
             f.write('<sensors>\n')
+        if self._nSensorElements > 0:
             f.write("SpecificJointSensor(" + str(self.sensorElements) + ",name='PressureElements')\n")
         # compile all sensor commands
         for sensor in self.sensors:
-- 
2.43.0


From 3ee727e461117273a833566d8754f4f2626e395c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:19 +0000
Subject: [PATCH 170/193] fix: FEM: the anticipated mean shift was always zero,
 as the previous mean was not copied

---
 pybrain/optimization/distributionbased/fem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/optimization/distributionbased/fem.py b/pybrain/optimization/distributionbased/fem.py
index c5faee6..7994138 100644
--- a/pybrain/optimization/distributionbased/fem.py
+++ b/pybrain/optimization/distributionbased/fem.py
@@ -96,7 +96,7 @@ class FEM(DistributionBasedOptimizer):
         if self.useAnticipatedMeanShift:
             if len(self.allsamples) % 2 == 1 and len(self.allsamples) > 1:
                 if not(self.elitism and chosenOne == self.bestChosenCenter):
-                    mu += self.meanShifts[chosenOne]
+                    mu = mu + self.meanShifts[chosenOne]
 
         if self.diagonalOnly:
             sample = normal(mu, self.sigmas[chosenOne])
@@ -151,7 +151,7 @@ class FEM(DistributionBasedOptimizer):
 
     def _updateMus(self, updateSize, lastSample):
         for c in range(self.numberOfCenters):
-            oldmu = self.mus[c]
+            oldmu = self.mus[c].copy()
             self.mus[c] *= 1. - self.muMultiplier * updateSize[c]
             self.mus[c] += self.muMultiplier * updateSize[c] * lastSample
             # don't update with the ones that were produced with a mean shift
-- 
2.43.0


From 72e48962a992e379b597557fdf9d1700ebe37fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:19 +0000
Subject: [PATCH 171/193] fix: FEM: adaptive shaping changed the shaping
 function of all other FEM optimizers

---
 pybrain/optimization/distributionbased/fem.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pybrain/optimization/distributionbased/fem.py b/pybrain/optimization/distributionbased/fem.py
index 7994138..9104b91 100644
--- a/pybrain/optimization/distributionbased/fem.py
+++ b/pybrain/optimization/distributionbased/fem.py
@@ -55,6 +55,9 @@ class FEM(DistributionBasedOptimizer):
         assert self.numberOfCenters == 1, 'Mixtures of Gaussians not supported yet.'
 
         xdim = self.numParameters
+        if self.adaptiveShaping:
+            # its parameter is adapted: not shared with other optimizers
+            self.shapingFunction = deepcopy(self.shapingFunction)
         self.alphas = ones(self.numberOfCenters) / float(self.numberOfCenters)
         self.mus = []
         self.sigmas = []
-- 
2.43.0


From 7178fdd31e4ac668e7533999cad3c5da5475d8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:05 +0000
Subject: [PATCH 172/193] fix: Rank1NES ignored its batch size, learning rates
 and baseline settings

---
 pybrain/optimization/distributionbased/rank1.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pybrain/optimization/distributionbased/rank1.py b/pybrain/optimization/distributionbased/rank1.py
index 5d675ba..eb3b107 100644
--- a/pybrain/optimization/distributionbased/rank1.py
+++ b/pybrain/optimization/distributionbased/rank1.py
@@ -19,7 +19,7 @@ class Rank1NES(DistributionBasedOptimizer):
     scaleLearningRate = None
     covLearningRate = None 
     batchSize = None 
-    uniformBaseline = True
+    uniformBaseline = False
     shapingFunction = HansenRanking()
     
     # fixed settings
@@ -36,11 +36,11 @@ class Rank1NES(DistributionBasedOptimizer):
     def _additionalInit(self):
         # heuristic settings       
         if self.covLearningRate is None:
-            self.covLearningRate = self._initLearningRate()
+            self.covLearningRate = 0.1
         if self.scaleLearningRate is None:
-            self.scaleLearningRate = self.covLearningRate   
+            self.scaleLearningRate = 0.1
         if self.batchSize is None: 
-            self.batchSize = self._initBatchSize()          
+            self.batchSize = int(max(5,max(4*log2(self.numParameters),0.2*self.numParameters)))
             
         # other initializations
         self._center = self._initEvaluable.copy()          
@@ -48,10 +48,6 @@ class Rank1NES(DistributionBasedOptimizer):
         self._principalVector = randn(self.numParameters)
         self._principalVector /= sqrt(dot(self._principalVector, self._principalVector))
         self._allDistributions = [(self._center.copy(), self._principalVector.copy(), self._logDetA)]
-        self.covLearningRate = 0.1
-        self.batchSize = int(max(5,max(4*log2(self.numParameters),0.2*self.numParameters)))
-        self.uniformBaseline = False
-        self.scaleLearningRate = 0.1
     
     def _stoppingCriterion(self):
         if DistributionBasedOptimizer._stoppingCriterion(self):
-- 
2.43.0


From b1b9ccd7dc9341aa45b711c92cde722f98047595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:05 +0000
Subject: [PATCH 173/193] fix: online VES: the baseline paired each squared
 derivative with the fitness of another sample

---
 pybrain/optimization/distributionbased/ves.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pybrain/optimization/distributionbased/ves.py b/pybrain/optimization/distributionbased/ves.py
index a44abba..8b950e5 100644
--- a/pybrain/optimization/distributionbased/ves.py
+++ b/pybrain/optimization/distributionbased/ves.py
@@ -254,8 +254,9 @@ class VanillaGradientEvolutionStrategies(DistributionBasedOptimizer):
         phi[:self.numParameters] = self._logDerivX(sample, self.x, invSigma)
         logDerivSigma = self._logDerivFactorSigma(sample, self.x, invSigma, self.factorSigma)
         phi[self.numParameters:] = logDerivSigma.flatten()
-        index = len(self.allSamples) % self.batchSize
-        self.phiSquareWindow[index] = multiply(phi, phi)
+        # in the order of the fitnesses: the last sample at the end
+        self.phiSquareWindow[:-1] = self.phiSquareWindow[1:].copy()
+        self.phiSquareWindow[-1] = multiply(phi, phi)
         baseline = self._calcBaseline(shapedfitnesses)
         gradient = multiply((ones(self.numDistrParams) * shapedfitnesses[-1] - baseline), phi)
         return gradient
-- 
2.43.0


From 28bacaf92b497db8da5dd5ab264cb17a79fe0e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:36 +0000
Subject: [PATCH 174/193] fix: UDP connections sent strings instead of bytes
 and could not parse arrays

---
 pybrain/tools/networking/udpconnection.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pybrain/tools/networking/udpconnection.py b/pybrain/tools/networking/udpconnection.py
index 4ab6c14..b42fdd8 100644
--- a/pybrain/tools/networking/udpconnection.py
+++ b/pybrain/tools/networking/udpconnection.py
@@ -21,6 +21,8 @@ __author__ = 'Frank Sehnke, sehnke@in.tum.de'
 
 import socket
 
+from scipy import array, inf, nan, float32, float64, int32 #needed to parse the data received
+
 # The server class
 class UDPServer(object):
     def __init__(self, ip="127.0.0.1", port="21560", buf="1024"):
@@ -55,7 +57,7 @@ class UDPServer(object):
         if self.clients < 1:
             self.UDPInSock.settimeout(10)
             try:
-                cIP = self.UDPInSock.recv(self.buf)
+                cIP = self.UDPInSock.recv(self.buf).decode()
                 self.addClient(cIP)
             except:
                 pass
@@ -63,7 +65,7 @@ class UDPServer(object):
             # At least one client has to send a sign of life during 2 seconds
             self.UDPInSock.settimeout(2)
             try:
-                cIP = self.UDPInSock.recv(self.buf)
+                cIP = self.UDPInSock.recv(self.buf).decode()
                 newClient = True
                 for i in self.cIP:
                     if cIP == i:
@@ -86,7 +88,7 @@ class UDPServer(object):
         sendString = repr(arrayList)
         count = 0
         for i in self.UDPOutSockList:
-            i.sendto(sendString, self.addrList[count])
+            i.sendto(sendString.encode(), self.addrList[count])
             count += 1
 
 # The client class
@@ -107,14 +109,14 @@ class UDPClient(object):
     # Listen for data from server
     def listen(self, arrayList=None):
         # Send alive signal (own IP adress)
-        self.UDPOutSock.sendto(self.ownIP, self.outAddr)
+        self.UDPOutSock.sendto(self.ownIP.encode(), self.outAddr)
         # if there is no data from Server for 10 seconds server is propably down
         self.UDPInSock.settimeout(10)
         try:
             data = self.UDPInSock.recv(self.buf)
 
             try:
-                arrayList = eval(data)
+                arrayList = eval(data.decode())
                 return arrayList
             except:
                 print(("Unsupported data format received from", self.outAddr, "!"))
@@ -129,7 +131,7 @@ class UDPClient(object):
     # Creating the sockets
     def createSockets(self):
         self.UDPOutSock = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
-        self.UDPOutSock.sendto(self.ownIP, self.outAddr)
+        self.UDPOutSock.sendto(self.ownIP.encode(), self.outAddr)
         self.UDPInSock = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
         self.UDPInSock.bind(self.inAddr)
 
-- 
2.43.0


From 0e59c721f84a8a274803a4f4a1dc438eb0420e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:14 +0000
Subject: [PATCH 175/193] fix: MNIST labels were read as text

---
 pybrain/tools/datasets/mnist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/tools/datasets/mnist.py b/pybrain/tools/datasets/mnist.py
index 2f0e990..261c021 100644
--- a/pybrain/tools/datasets/mnist.py
+++ b/pybrain/tools/datasets/mnist.py
@@ -7,7 +7,7 @@ from pybrain.datasets import SupervisedDataSet
 
 
 def labels(filename):
-    fp = open(filename)
+    fp = open(filename, 'rb')
     magicnumber, length = struct.unpack('>ii', fp.read(8))
     assert magicnumber in (2049, 2051), ("Not an MNIST file: %i" % magicnumber)
     for _ in range(length):
-- 
2.43.0


From 54abb2add4c7fccb14dd78c1679bd768406e0bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:57 +0000
Subject: [PATCH 176/193] fix: ExTools could neither save nor load weights and
 results

---
 pybrain/tools/example_tools.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pybrain/tools/example_tools.py b/pybrain/tools/example_tools.py
index 37065a1..7db3524 100644
--- a/pybrain/tools/example_tools.py
+++ b/pybrain/tools/example_tools.py
@@ -28,22 +28,22 @@ class ExTools():
 
     # Method for loading a weight matrix and initialize the network
     def loadWeights(self, filename):
-        filepointer = open(filename)
+        filepointer = open(filename, 'rb')
         self.agent.learner.current = load(filepointer)
         filepointer.close()
         self.agent.learner.gd.init(self.agent.learner.current)
         self.agent.learner.epsilon = 0.2
-        self.agent.learner.initSigmas()
+        self.agent.learner._additionalInit()
 
     # Method for saving the weight matrix    
     def saveWeights(self, filename, w):
-        filepointer = open(filename, 'w+')
+        filepointer = open(filename, 'wb')
         dump(w, filepointer)
         filepointer.close()
 
     # Method for saving the weight matrix    
     def saveResults(self, filename, results):
-        filepointer = open(filename, 'w+')
+        filepointer = open(filename, 'wb')
         dump(results, filepointer)
         filepointer.close()
 
-- 
2.43.0


From c6200e67f82bb30e4a0c1a74d9f49de91f0dd821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:57 +0000
Subject: [PATCH 177/193] fix: ExTools: all experiments shared one list of
 results

---
 pybrain/tools/example_tools.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pybrain/tools/example_tools.py b/pybrain/tools/example_tools.py
index 7db3524..7bb20c8 100644
--- a/pybrain/tools/example_tools.py
+++ b/pybrain/tools/example_tools.py
@@ -18,10 +18,9 @@ class ExTools():
     loadName = "none.wgt"
     saveName = "none.wgt"
     resuName = "none.dat"
-    rl = []
-    rll = []
-
     def __init__(self, batch = 2, prnts = 1, kind = "optimizer"):
+        self.rl = []
+        self.rll = []
         self.batch = batch
         self.prnts = prnts
         self.kind = kind
-- 
2.43.0


From 1cfb8b7ae5f7b442339fc79c580a9099cd73dafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:09 +0000
Subject: [PATCH 178/193] fix: ColorMap.save failed, as it handed the figure to
 savefig as an option

---
 pybrain/tools/plotting/colormaps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/tools/plotting/colormaps.py b/pybrain/tools/plotting/colormaps.py
index 5df4339..99c755e 100644
--- a/pybrain/tools/plotting/colormaps.py
+++ b/pybrain/tools/plotting/colormaps.py
@@ -1,6 +1,6 @@
 __author__ = 'Tom Schaul, tom@idsia.ch'
 
-from pylab import figure, savefig, imshow, axes, axis, cm, show
+from pylab import figure, imshow, axes, axis, cm, show
 from scipy import array, amin, amax
 
 
@@ -30,5 +30,5 @@ class ColorMap:
 
     def save(self, filename):
         """ save colormap to file"""
-        savefig(filename, fig=self.fig, facecolor='black', edgecolor='black')
+        self.fig.savefig(filename, facecolor='black', edgecolor='black')
 
-- 
2.43.0


From 53479b9a1173e70bc074c08d70302e914bf03601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:09 +0000
Subject: [PATCH 179/193] fix: MultilinePlotter: setting a colour, show and
 autoscaling with an empty line failed

---
 pybrain/tools/plotting/multiline.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pybrain/tools/plotting/multiline.py b/pybrain/tools/plotting/multiline.py
index e114def..38e1946 100644
--- a/pybrain/tools/plotting/multiline.py
+++ b/pybrain/tools/plotting/multiline.py
@@ -3,7 +3,7 @@ __author__ = 'Martin Felder and Frank Sehnke'
 
 import math, imp
 from matplotlib.lines import Line2D
-from pylab import clf, plot, axes, show, xlabel, ylabel, savefig, ioff, draw_if_interactive
+from pylab import clf, plot, axes, show, xlabel, ylabel, title, savefig, ioff, draw_if_interactive
 
 
 class MultilinePlotter:
@@ -148,7 +148,7 @@ class MultilinePlotter:
 
         # set as new default linestyle
         if 'color' in kwargs:
-            kwargs.popitem('color')
+            kwargs.pop('color')
         self.defaultLineStyle = kwargs
 
 
@@ -160,7 +160,7 @@ class MultilinePlotter:
         yr = list(self.Axes.get_ylim())
         for i in range(self.nbLines):
             self.Lines[i].set_data(self.indexList[i], self.dataList[i])
-            if self.autoscale > 1.0:
+            if self.autoscale > 1.0 and len(self.indexList[i]) > 0:
                 if self.indexList[i][0] < xr[0]:
                     xr[0] = self.indexList[i][0]
                 ymn = min(self.dataList[i])
-- 
2.43.0


From 5ac751af6acd6743f44a51986ac69347d7330d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:10 +0000
Subject: [PATCH 180/193] fix: plotFitnessProgession: the batch size given for
 one curve was used for all later ones

---
 pybrain/tools/plotting/fitnessprogression.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pybrain/tools/plotting/fitnessprogression.py b/pybrain/tools/plotting/fitnessprogression.py
index 732ac7e..d46f256 100644
--- a/pybrain/tools/plotting/fitnessprogression.py
+++ b/pybrain/tools/plotting/fitnessprogression.py
@@ -71,8 +71,9 @@ def plotFitnessProgession(fitdict, batchsize=1, semilog=True,
     i = 0
     for name, flist in sorted(fitdict.items()):
         if isinstance(flist, tuple):
-            batchsize = flist[1]
-            flist = flist[0]
+            flist, stepsize = flist[0], flist[1]
+        else:
+            stepsize = batchsize
 
         i += 1
         nbRuns = len(flist)
@@ -99,11 +100,11 @@ def plotFitnessProgession(fitdict, batchsize=1, semilog=True,
             else:
                 yPlot = list(reversed((array(list(range(resolution + 1))) / float(resolution)) *
                                              (worstPerf - targetcutoff) + targetcutoff))
-            xPlot = avgFoundAfter(yPlot, flist, batchsize, useMedian=useMedian)
+            xPlot = avgFoundAfter(yPlot, flist, stepsize, useMedian=useMedian)
 
         else:
             longestRun = max(list(map(len, flist)))
-            xPlot = array(list(range(longestRun))) * batchsize
+            xPlot = array(list(range(longestRun))) * stepsize
             summed = zeros(longestRun)
             for l in flist:
                 summed += paddedClipped(l, longestRun)
-- 
2.43.0


From 2103f156f1769fa3947f827251c8df1c1e1123d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:10 +0000
Subject: [PATCH 181/193] fix: plotVariations: dictionaries were sorted, and
 the curves could not be told apart when they came with x values

---
 pybrain/tools/plotting/quickvariations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pybrain/tools/plotting/quickvariations.py b/pybrain/tools/plotting/quickvariations.py
index 0ce2c8a..8f23cb4 100644
--- a/pybrain/tools/plotting/quickvariations.py
+++ b/pybrain/tools/plotting/quickvariations.py
@@ -23,7 +23,7 @@ def plotVariations(datalist, titles, genFun, varyperplot=None, prePlotFun=None,
                     for k,vs in list(odl.items())
                     if len(vs) == 1])
     for x, tit in zip(datalist, titles):
-        for figdict in sorted(dictCombinations(fdl.copy())):
+        for figdict in sorted(dictCombinations(fdl.copy()), key=lambda d: sorted(d.items())):
             pylab.figure()
 
             # it also contains the parameters that don't vary per figure
@@ -35,7 +35,7 @@ def plotVariations(datalist, titles, genFun, varyperplot=None, prePlotFun=None,
             if prePlotFun is not None:
                 prePlotFun(x)
 
-            for i, odict in enumerate(sorted(dictCombinations(odl.copy()))):
+            for i, odict in enumerate(sorted(dictCombinations(odl.copy()), key=lambda d: sorted(d.items()))):
                 # concise labels
                 lab = ''.join([k[:3]+'='+str(v)[:min(5, len(str(v)))]+'-'
                                for k,v in list(odict.items())
@@ -53,7 +53,7 @@ def plotVariations(datalist, titles, genFun, varyperplot=None, prePlotFun=None,
                         xs = list(range(len(ys)))
                     # the differentiator can slightly move the curves to be able to tell them apart if they overlap
                     if _differentiator != 0.0:
-                        ys = generated+_differentiator*i
+                        ys = [y + _differentiator*i for y in ys]
 
                     pylab.plot(xs, ys, label=lab)
 
-- 
2.43.0


From f8c540ce22cb9631942932d805796986ace72494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:10 +0000
Subject: [PATCH 182/193] fix: plot_module_classification_dataset_performance:
 ceil was undefined and the first subplot had number 0

---
 pybrain/tools/plotting/classification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/tools/plotting/classification.py b/pybrain/tools/plotting/classification.py
index 4234488..07715f7 100644
--- a/pybrain/tools/plotting/classification.py
+++ b/pybrain/tools/plotting/classification.py
@@ -46,7 +46,7 @@ class ClassificationDataSetPlot(object):
         """
         # Outputs and detected category error for each sequence.
         for i in range(dataset.getNumSequences()):
-            plt.subplot(ceil(dataset.getNumSequences() / float(cols)), cols, i)
+            plt.subplot(int(np.ceil(dataset.getNumSequences() / float(cols))), cols, i + 1)
             ClassificationDataSetPlot.plot_module_classification_sequence_performance(module, dataset, i, bounds)
 
     @staticmethod
-- 
2.43.0


From 85613a3e25b8a27ab559673455d2b6e8901a7e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:56 +0000
Subject: [PATCH 183/193] fix: MultilinePlotter.setLineStyle added the offset
 twice for the last line

---
 pybrain/tools/plotting/multiline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/tools/plotting/multiline.py b/pybrain/tools/plotting/multiline.py
index 38e1946..7dbe2d2 100644
--- a/pybrain/tools/plotting/multiline.py
+++ b/pybrain/tools/plotting/multiline.py
@@ -130,7 +130,7 @@ class MultilinePlotter:
 
     :key id: The line or lines (list!) to be modified - defaults to last one added """
         if id is None:
-            id = self.currentID
+            id = self.currentID - self.offset
 
         if isinstance(id, list) | isinstance(id, tuple):
             # apply to specified list of lines
-- 
2.43.0


From 969e669cee7a663f6e312f2b3aab2d24673e3fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:56 +0000
Subject: [PATCH 184/193] fix: plotVariations failed unless it was told which
 options vary in a figure

---
 pybrain/tools/plotting/quickvariations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pybrain/tools/plotting/quickvariations.py b/pybrain/tools/plotting/quickvariations.py
index 8f23cb4..54375a9 100644
--- a/pybrain/tools/plotting/quickvariations.py
+++ b/pybrain/tools/plotting/quickvariations.py
@@ -16,6 +16,8 @@ def plotVariations(datalist, titles, genFun, varyperplot=None, prePlotFun=None,
     :key prePlotFun: is called before the plots of a figure
     :key postPlotFun: is called after the plots of a figure (e.g. for realigning axes).
     """
+    if varyperplot is None:
+        varyperplot = []
     odl = subDict(optionlists, varyperplot, False)
     fdl = subDict(optionlists, varyperplot, True)
     # title contains file and non-varying parameters
-- 
2.43.0


From c8e29dd87ba6280b0ea0fb559731b1683426260a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:41 +0000
Subject: [PATCH 185/193] fix: UDPClient could not read empty arrays of
 integers

---
 pybrain/tools/networking/udpconnection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/tools/networking/udpconnection.py b/pybrain/tools/networking/udpconnection.py
index b42fdd8..950c155 100644
--- a/pybrain/tools/networking/udpconnection.py
+++ b/pybrain/tools/networking/udpconnection.py
@@ -21,7 +21,7 @@ __author__ = 'Frank Sehnke, sehnke@in.tum.de'
 
 import socket
 
-from scipy import array, inf, nan, float32, float64, int32 #needed to parse the data received
+from scipy import array, inf, nan, float32, float64, int32, int64 #needed to parse the data received
 
 # The server class
 class UDPServer(object):
-- 
2.43.0


From 9c7da172d963e4dacf0b5dd9f25ca462b090d22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:18 +0000
Subject: [PATCH 186/193] fix: SequenceClassificationDataSet could not be made
 from arrays, as its classes were counted before they were there

---
 pybrain/datasets/classification.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pybrain/datasets/classification.py b/pybrain/datasets/classification.py
index 6191355..237ab2c 100644
--- a/pybrain/datasets/classification.py
+++ b/pybrain/datasets/classification.py
@@ -210,13 +210,13 @@ class SequenceClassificationDataSet(SequentialDataSet, ClassificationDataSet):
         SequentialDataSet.__init__(self, inp, target)
         # we want integer class numbers as targets
         self.convertField('target', int)
-        if len(self) > 0:
-            # calculate class histogram, if we already have data
-            self.calculateStatistics()
         self.nClasses = nb_classes
         self.class_labels = list(range(self.nClasses)) if class_labels is None else class_labels
         # copy classes (targets may be changed into other representation)
         self.setField('class', self.getField('target'))
+        if len(self) > 0:
+            # calculate class histogram, if we already have data
+            self.calculateStatistics()
 
     def __add__(self, other):
         """ NOT IMPLEMENTED """
-- 
2.43.0


From f83ebbd7cedb9e32c844ca88c19a04a8e655ef91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:26 +0000
Subject: [PATCH 187/193] fix: XMLHandling.writeDoubles cut off the first digit
 and wrote commas that could not be read

---
 pybrain/tools/customxml/handling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/tools/customxml/handling.py b/pybrain/tools/customxml/handling.py
index 2a9336d..d2828b6 100644
--- a/pybrain/tools/customxml/handling.py
+++ b/pybrain/tools/customxml/handling.py
@@ -103,7 +103,7 @@ class XMLHandling:
         return None
 
     def writeDoubles(self, node, l, precision = 6):
-        self.addTextNode(node, fListToString(l, precision)[2:-1])
+        self.addTextNode(node, fListToString(l, precision)[1:-1].replace(',', ' '))
 
     def writeMatrix(self, node, m, precision = 6):
         for i, row in enumerate(m):
-- 
2.43.0


From 10e2559e9077a40840696a8d9269f0cf840cb000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:40 +0000
Subject: [PATCH 188/193] fix: GaussianProcess.autonoise averaged the distances
 of unsorted points and failed with a single one

---
 pybrain/auxiliary/gaussprocess.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/auxiliary/gaussprocess.py b/pybrain/auxiliary/gaussprocess.py
index c705d74..aab420b 100644
--- a/pybrain/auxiliary/gaussprocess.py
+++ b/pybrain/auxiliary/gaussprocess.py
@@ -124,12 +124,12 @@ class GaussianProcess:
         if self.autonoise:
             # calculate average neighboring distance for auto-noise
             avgdist = 0
-            sort_trainx = sort(self.trainx)
+            sort_trainx = sort(self.trainx, axis=0)
             for i, d in enumerate(sort_trainx):
                 if i == 0:
                     continue
                 avgdist += d - sort_trainx[i - 1]
-            avgdist /= len(sort_trainx) - 1
+            avgdist /= max(len(sort_trainx) - 1, 1)
             # sort(self.trainx)
 
             # add auto-noise from neighbouring samples (not standard gp)
-- 
2.43.0


From 7c0d255c816669a145072a7de137884708558c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:14 +0000
Subject: [PATCH 189/193] fix: GaussianProcess.plotCurves used functions that
 matplotlib no longer has

---
 pybrain/auxiliary/gaussprocess.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pybrain/auxiliary/gaussprocess.py b/pybrain/auxiliary/gaussprocess.py
index aab420b..f8ba068 100644
--- a/pybrain/auxiliary/gaussprocess.py
+++ b/pybrain/auxiliary/gaussprocess.py
@@ -152,14 +152,13 @@ class GaussianProcess:
         return self.pred_mean + random.multivariate_normal(zeros(len(self.testx)), self.pred_cov)
 
     def plotCurves(self, showSamples=False, force2D=True):
-        from pylab import clf, hold, plot, fill, title, gcf, pcolor, gray
+        from pylab import clf, plot, fill, title, gcf, pcolor, gray
 
         if not self.calculated:
             self._calculate()
 
         if self.indim == 1:
             clf()
-            hold(True)
             if showSamples:
                 # plot samples (gray)
                 for _ in range(5):
@@ -176,17 +175,18 @@ class GaussianProcess:
             title('1D Gaussian Process with mean and variance')
 
         elif self.indim == 2 and not force2D:
-            from matplotlib import axes3d as a3
+            from mpl_toolkits.mplot3d import Axes3D
 
             fig = gcf()
             fig.clear()
-            ax = a3.Axes3D(fig) #@UndefinedVariable
+            ax = Axes3D(fig)
 
             # plot training set
             ax.plot3D(ravel(self.trainx[:, 0]), ravel(self.trainx[:, 1]), ravel(self.trainy), 'ro')
 
             # plot mean
-            (x, y, z) = [m.reshape(sqrt(len(m)), sqrt(len(m))) for m in (self.testx[:, 0], self.testx[:, 1], self.pred_mean)]
+            side = int(floor(sqrt(len(self.pred_mean))))
+            (x, y, z) = [m.reshape(side, side) for m in (self.testx[:, 0], self.testx[:, 1], self.pred_mean)]
             ax.plot_wireframe(x, y, z, colors='gray')
             return ax
 
@@ -194,7 +194,7 @@ class GaussianProcess:
             # plot mean on pcolor map
             gray()
             # (x, y, z) = map(lambda m: m.reshape(sqrt(len(m)), sqrt(len(m))), (self.testx[:,0], self.testx[:,1], self.pred_mean))
-            m = floor(sqrt(len(self.pred_mean)))
+            m = int(floor(sqrt(len(self.pred_mean))))
             pcolor(self.pred_mean.reshape(m, m)[::-1, :])
 
         else: print("plotting only supported for indim=1 or indim=2.")
-- 
2.43.0


From 117c801a16c5bf6cc2302062d324b80ea8e3ff81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:45 +0000
Subject: [PATCH 190/193] fix: DataSet.getLinked returned rows of the unused
 buffer for negative indices

---
 pybrain/datasets/dataset.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pybrain/datasets/dataset.py b/pybrain/datasets/dataset.py
index acd34df..73cec9d 100644
--- a/pybrain/datasets/dataset.py
+++ b/pybrain/datasets/dataset.py
@@ -231,8 +231,11 @@ class DataSet(Serializable):
             self.index += 1
         else:
             # return the indexed line and move marker to next line
+            if index < 0:
+                # count from the end of the data, not of the buffer
+                index += self.getLength()
             self.index = index + 1
-        if index >= self.getLength():
+        if not 0 <= index < self.getLength():
             raise IndexError('index out of bounds of the dataset.')
 
         return [self._convert(self.data[l][index]) for l in self.link]
-- 
2.43.0


From cf672e06f364ae52109ee8250c107b18810def42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:08 +0000
Subject: [PATCH 191/193] fix: DataSet.reconstruct opened files with a function
 that is gone from Python

---
 pybrain/datasets/dataset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pybrain/datasets/dataset.py b/pybrain/datasets/dataset.py
index 73cec9d..fdbee57 100644
--- a/pybrain/datasets/dataset.py
+++ b/pybrain/datasets/dataset.py
@@ -300,7 +300,9 @@ class DataSet(Serializable):
         """Read an incomplete data set (option arraysonly) into the given one. """
         # FIXME: Obsolete! Kept here because of some old files...
         obj = cls(1, 1)
-        for key, val in pickle.load(file(filename)).items():
+        with open(filename, 'rb') as f:
+            data = pickle.load(f)
+        for key, val in data.items():
             obj.setField(key, val)
         return obj
 
-- 
2.43.0


From bf4a3d9eedacbe46fb37ff30c92753ec6b8f12e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:37 +0000
Subject: [PATCH 192/193] fix: SequentialDataSet lost or doubled samples for
 negative sequence numbers

---
 pybrain/datasets/sequential.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pybrain/datasets/sequential.py b/pybrain/datasets/sequential.py
index f6adc8f..5ad3e23 100644
--- a/pybrain/datasets/sequential.py
+++ b/pybrain/datasets/sequential.py
@@ -36,9 +36,19 @@ class SequentialDataSet(SupervisedDataSet):
                 raise EmptySequenceError
             self._appendUnlinked('sequence_index', length)
 
+    def _fromStart(self, index):
+        """Return `index` counted from the first sequence, as negative ones
+        count from the last."""
+        if index < 0:
+            index += self.getNumSequences()
+            if index < 0:
+                raise IndexError('sequence does not exist.')
+        return index
+
     def _getSequenceField(self, index, field):
         """Return a sequence of one single field given by `field` and indexed by
         `index`."""
+        index = self._fromStart(index)
         seq = ravel(self.getField('sequence_index'))
         if len(seq) == index + 1:
             # user wants to access the last sequence, return until end of data
@@ -67,6 +77,7 @@ class SequentialDataSet(SupervisedDataSet):
         sequence `index`, False otherwise.
 
         Mostly used like .endOfData() with while loops."""
+        index = self._fromStart(index)
         seq = ravel(self.getField('sequence_index'))
         if len(seq) == index + 1:
             # user wants to access the last sequence, return until end of data
@@ -98,6 +109,7 @@ class SequentialDataSet(SupervisedDataSet):
         """Return the length of the given sequence. If `index` is pointing
         to the last sequence, the sequence is considered to go until the end
         of the dataset."""
+        index = self._fromStart(index)
         seq = ravel(self.getField('sequence_index'))
         if len(seq) == index + 1:
             # user wants to access the last sequence, return until end of data
@@ -110,6 +122,7 @@ class SequentialDataSet(SupervisedDataSet):
     def removeSequence(self, index):
         """Remove the `index`'th sequence from the dataset and places the
         marker to the sample following the removed sequence."""
+        index = self._fromStart(index)
         if index >= self.getNumSequences():
             # sequence doesn't exist, raise exception
             raise IndexError('sequence does not exist.')
-- 
2.43.0


From 85c2591b108be87a2d977176ac18023b82664a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:28 +0000
Subject: [PATCH 193/193] fix: networks read from a file had their outputs in
 another order when an input module is an output too

---
 pybrain/tools/customxml/networkreader.py | 7 +++++++
 pybrain/tools/customxml/networkwriter.py | 5 ++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/pybrain/tools/customxml/networkreader.py b/pybrain/tools/customxml/networkreader.py
index 37eddb1..9274917 100644
--- a/pybrain/tools/customxml/networkreader.py
+++ b/pybrain/tools/customxml/networkreader.py
@@ -50,6 +50,7 @@ class NetworkReader(XMLHandling):
         n = nclass(**argdict)
         n.name = node.getAttribute('name')
 
+        both = []
         for mnode in self.getChildrenOf(self.getChild(node, 'Modules')):
             m, inmodule, outmodule = self.readModule(mnode)
             if inmodule:
@@ -58,6 +59,12 @@ class NetworkReader(XMLHandling):
                 n.addOutputModule(m)
             if not inmodule and not outmodule:
                 n.addModule(m)
+            if mnode.hasAttribute('outposition'):
+                n.outmodules.remove(m)
+                both.append((int(mnode.getAttribute('outposition')), m))
+        # modules that are inputs as well are listed before the other outputs
+        for position, m in sorted(both, key=lambda x: x[0]):
+            n.outmodules.insert(position, m)
 
         mconns = self.getChild(node, 'MotherConnections')
         if mconns:
diff --git a/pybrain/tools/customxml/networkwriter.py b/pybrain/tools/customxml/networkwriter.py
index 3241645..5e924dc 100644
--- a/pybrain/tools/customxml/networkwriter.py
+++ b/pybrain/tools/customxml/networkwriter.py
@@ -41,7 +41,9 @@ class NetworkWriter(XMLHandling):
         mods = self.newChild(netroot, 'Modules')
         # first write the input modules (in order)
         for im in net.inmodules:
-            self.writeModule(mods, im, True, im in net.outmodules)
+            mnode = self.writeModule(mods, im, True, im in net.outmodules)
+            if im in net.outmodules:
+                mnode.setAttribute('outposition', str(net.outmodules.index(im)))
         # now the output modules (in order)
         for om in net.outmodules:
             if om not in net.inmodules:
@@ -76,6 +78,7 @@ class NetworkWriter(XMLHandling):
             mnode.setAttribute('inmodule', 'True')
         if outmodule:
             mnode.setAttribute('outmodule', 'True')
+        return mnode
 
     def writeConnection(self, rootnode, c, recurrent):
         mnode = self.writeBuildable(rootnode, c)
-- 
2.43.0

