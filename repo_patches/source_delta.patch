From d82595ce24bd7b6dc08da603c4740af0d290bd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:32 +0000
Subject: [PATCH 001/136] fix: gate layers overwrite their buffers instead of
 accumulating over activations

---
 pybrain/structure/modules/gate.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/pybrain/structure/modules/gate.py b/pybrain/structure/modules/gate.py
index 99eceb9..d2ae4c9 100644
--- a/pybrain/structure/modules/gate.py
+++ b/pybrain/structure/modules/gate.py
@@ -18,11 +18,11 @@ class MultiplicationLayer(NeuronLayer):
         self.setArgs(dim=dim, name=self.name)
 
     def _forwardImplementation(self, inbuf, outbuf):
-        outbuf += inbuf[:self.outdim] * inbuf[self.outdim:]
+        outbuf[:] = inbuf[:self.outdim] * inbuf[self.outdim:]
 
     def _backwardImplementation(self, outerr, inerr, outbuf, inbuf):
-        inerr[:self.outdim] += inbuf[self.outdim:] * outerr
-        inerr[self.outdim:] += inbuf[:self.outdim] * outerr
+        inerr[:self.outdim] = inbuf[self.outdim:] * outerr
+        inerr[self.outdim:] = inbuf[:self.outdim] * outerr
 
 
 class GateLayer(NeuronLayer):
@@ -38,13 +38,13 @@ class GateLayer(NeuronLayer):
         self.setArgs(dim=dim, name=self.name)
 
     def _forwardImplementation(self, inbuf, outbuf):
-        outbuf += sigmoid(inbuf[:self.outdim]) * inbuf[self.outdim:]
+        outbuf[:] = sigmoid(inbuf[:self.outdim]) * inbuf[self.outdim:]
 
     def _backwardImplementation(self, outerr, inerr, outbuf, inbuf):
-        inerr[:self.outdim] += (sigmoidPrime(inbuf[:self.outdim])
+        inerr[:self.outdim] = (sigmoidPrime(inbuf[:self.outdim])
                                 * inbuf[self.outdim:]
                                 * outerr)
-        inerr[self.outdim:] += (sigmoid(inbuf[:self.outdim])
+        inerr[self.outdim:] = (sigmoid(inbuf[:self.outdim])
                                 * outerr)
 
 
@@ -62,8 +62,8 @@ class DoubleGateLayer(NeuronLayer):
 
     def _forwardImplementation(self, inbuf, outbuf):
         dim = self.indim // 2
-        outbuf[:dim] += sigmoid(inbuf[:dim]) * inbuf[dim:]
-        outbuf[dim:] += (1 - sigmoid(inbuf[:dim])) * inbuf[dim:]
+        outbuf[:dim] = sigmoid(inbuf[:dim]) * inbuf[dim:]
+        outbuf[dim:] = (1 - sigmoid(inbuf[:dim])) * inbuf[dim:]
 
     def _backwardImplementation(self, outerr, inerr, outbuf, inbuf):
         dim = self.indim // 2
@@ -71,8 +71,8 @@ class DoubleGateLayer(NeuronLayer):
         in1 = inbuf[dim:]
         out0 = outerr[:dim]
         out1 = outerr[dim:]
-        inerr[:dim] += sigmoidPrime(in0) * in1 * out0
-        inerr[dim:] += sigmoid(in0) * out0
+        inerr[:dim] = sigmoidPrime(in0) * in1 * out0
+        inerr[dim:] = sigmoid(in0) * out0
 
         inerr[:dim] -= sigmoidPrime(in0) * in1 * out1
         inerr[dim:] += (1 - sigmoid(in0)) * out1
@@ -87,11 +87,11 @@ class SwitchLayer(NeuronLayer):
         self.setArgs(dim=dim, name=self.name)
 
     def _forwardImplementation(self, inbuf, outbuf):
-        outbuf[:self.indim] += sigmoid(inbuf)
-        outbuf[self.indim:] += 1 - sigmoid(inbuf)
+        outbuf[:self.indim] = sigmoid(inbuf)
+        outbuf[self.indim:] = 1 - sigmoid(inbuf)
 
     def _backwardImplementation(self, outerr, inerr, outbuf, inbuf):
-        inerr += sigmoidPrime(inbuf) * outerr[:self.indim]
+        inerr[:] = sigmoidPrime(inbuf) * outerr[:self.indim]
         inerr -= sigmoidPrime(inbuf) * outerr[self.indim:]
 
 
-- 
2.43.0


From 5d0fdd7a225f2f0cea59fea44feba5bc2c99a498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:32 +0000
Subject: [PATCH 002/136] fix: LinearConnection computes the derivatives of its
 parameters

---
 pybrain/structure/connections/linear.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pybrain/structure/connections/linear.py b/pybrain/structure/connections/linear.py
index 46f8559..6c07d94 100644
--- a/pybrain/structure/connections/linear.py
+++ b/pybrain/structure/connections/linear.py
@@ -24,3 +24,5 @@ class LinearConnection(Connection, ParameterContainer):
     def _backwardImplementation(self, outerr, inerr, inbuf):
         #CHECKME: not setting derivatives -- this means the multiplicative weight is never updated!
         inerr += outerr * self.params
+        ds = self.derivs
+        ds += inbuf * outerr
-- 
2.43.0


From 0b7042b7ff8ec26468e16111dde0942179a52da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:32 +0000
Subject: [PATCH 003/136] fix: FullNotSelfConnection has zero derivatives for
 its unused diagonal weights

---
 pybrain/structure/connections/fullnotself.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/structure/connections/fullnotself.py b/pybrain/structure/connections/fullnotself.py
index 4d81bb2..4c682fe 100644
--- a/pybrain/structure/connections/fullnotself.py
+++ b/pybrain/structure/connections/fullnotself.py
@@ -26,4 +26,4 @@ class FullNotSelfConnection(FullConnection):
         p = reshape(self.params, (self.outdim, self.indim)) * (1-eye(self.outdim))
         inerr += dot(p.T, outerr)
         ds = self.derivs
-        ds += outer(inbuf, outerr).T.flatten()
+        ds += (outer(inbuf, outerr).T * (1-eye(self.outdim))).flatten()
-- 
2.43.0


From 19f59a2d26851692d0d14bff9b7384cecd374be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:32 +0000
Subject: [PATCH 004/136] fix: PermutationConnection sends errors back through
 the inverse permutation

---
 pybrain/structure/connections/permutation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/structure/connections/permutation.py b/pybrain/structure/connections/permutation.py
index 7dda244..1156f61 100644
--- a/pybrain/structure/connections/permutation.py
+++ b/pybrain/structure/connections/permutation.py
@@ -24,7 +24,7 @@ class PermutationConnection(Connection):
                 (self.indim // blocksize), len(permutation)))
 
         self.permutation = array(permutation)
-        self.invpermutation = permute(list(range(len(permutation))), permutation)
+        self.invpermutation = self.permutation.argsort()
         self.blocksize = blocksize
 
     def _forwardImplementation(self, inbuf, outbuf):
-- 
2.43.0


From 9fef3a844d0e4b72c9176a1bd79c9fd45ed8eb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:32 +0000
Subject: [PATCH 005/136] fix: PartialSoftmaxLayer normalizes its output slices

---
 pybrain/structure/modules/softmax.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pybrain/structure/modules/softmax.py b/pybrain/structure/modules/softmax.py
index 0d28f4f..1207354 100644
--- a/pybrain/structure/modules/softmax.py
+++ b/pybrain/structure/modules/softmax.py
@@ -30,9 +30,8 @@ class PartialSoftmaxLayer(NeuronLayer):
 
     def _forwardImplementation(self, inbuf, outbuf):
         outbuf[:] = safeExp(inbuf)
-        outbuf.shape = scipy.size(outbuf) / self.slicelength, self.slicelength
-        s = outbuf.sum(axis=1)
-        outbuf = (outbuf.T / s).T.flatten()
+        slices = outbuf.reshape(scipy.size(outbuf) // self.slicelength, self.slicelength)
+        slices /= slices.sum(axis=1).reshape(-1, 1)
 
     def _backwardImplementation(self, outerr, inerr, outbuf, inbuf):
         inerr[:] = outerr
-- 
2.43.0


From 936d6cd0563e9273b76d9d96498527fdd6607ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:48 +0000
Subject: [PATCH 006/136] fix: drop the comment about missing derivatives in
 LinearConnection

---
 pybrain/structure/connections/linear.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pybrain/structure/connections/linear.py b/pybrain/structure/connections/linear.py
index 6c07d94..8f89bb5 100644
--- a/pybrain/structure/connections/linear.py
+++ b/pybrain/structure/connections/linear.py
@@ -22,7 +22,6 @@ class LinearConnection(Connection, ParameterContainer):
         outbuf += inbuf * self.params
 
     def _backwardImplementation(self, outerr, inerr, inbuf):
-        #CHECKME: not setting derivatives -- this means the multiplicative weight is never updated!
         inerr += outerr * self.params
         ds = self.derivs
         ds += inbuf * outerr
-- 
2.43.0


From f4764134f1ebbcca40209b7827fe992049d6f1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:48 +0000
Subject: [PATCH 007/136] fix: slicing a ModuleSlice uses the offsets of the
 outer slice

---
 pybrain/structure/moduleslice.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pybrain/structure/moduleslice.py b/pybrain/structure/moduleslice.py
index 762d24a..c58bd20 100644
--- a/pybrain/structure/moduleslice.py
+++ b/pybrain/structure/moduleslice.py
@@ -13,12 +13,12 @@ class ModuleSlice(Named):
         if isinstance(base, ModuleSlice):
             # tolerantly handle the case of a slice of another slice
             self.base = base.base
-            self.inOffset = inSliceFrom + base.inSliceFrom
-            self.outOffset = outSliceFrom + base.outSliceFrom
+            self.inOffset = inSliceFrom + base.inOffset
+            self.outOffset = outSliceFrom + base.outOffset
             if inSliceTo == None:
-                inSliceTo = self.base.indim + base.inSliceFrom
+                inSliceTo = base.indim
             if outSliceTo == None:
-                outSliceTo = self.base.outdim + base.outSliceFrom
+                outSliceTo = base.outdim
             self.name = base.base.name
         else:
             self.base = base
-- 
2.43.0


From 276e757e4a824576ce06513d3d2e2e8bc746c7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:06 +0000
Subject: [PATCH 008/136] fix: SequentialDataSet converts its stored sequence
 indices to integers before indexing

---
 pybrain/datasets/sequential.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pybrain/datasets/sequential.py b/pybrain/datasets/sequential.py
index 03b2144..985f661 100644
--- a/pybrain/datasets/sequential.py
+++ b/pybrain/datasets/sequential.py
@@ -39,10 +39,10 @@ class SequentialDataSet(SupervisedDataSet):
     def _getSequenceField(self, index, field):
         """Return a sequence of one single field given by `field` and indexed by
         `index`."""
-        seq = ravel(self.getField('sequence_index'))
+        seq = ravel(self.getField('sequence_index')).astype(int)
         if len(seq) == index + 1:
             # user wants to access the last sequence, return until end of data
-            return self.getField(field)[int(seq[index]):]
+            return self.getField(field)[seq[index]:]
         if len(seq) < index + 1:
             # sequence index beyond number of sequences. raise exception
             raise IndexError('sequence does not exist.')
@@ -80,7 +80,7 @@ class SequentialDataSet(SupervisedDataSet):
     def gotoSequence(self, index):
         """Move the internal marker to the beginning of sequence `index`."""
         try:
-            self.index = ravel(self.getField('sequence_index'))[index]
+            self.index = int(ravel(self.getField('sequence_index'))[index])
         except IndexError:
             raise IndexError('sequence does not exist')
 
@@ -113,7 +113,7 @@ class SequentialDataSet(SupervisedDataSet):
         if index >= self.getNumSequences():
             # sequence doesn't exist, raise exception
             raise IndexError('sequence does not exist.')
-        sequences = ravel(self.getField('sequence_index'))
+        sequences = ravel(self.getField('sequence_index')).astype(int)
         seqstart = sequences[index]
         if index == self.getNumSequences() - 1:
             # last sequence is going to be removed
@@ -154,7 +154,7 @@ class SequentialDataSet(SupervisedDataSet):
             # move sequence marker to the new sequence at position 'index'
             self.currentSeq = index
             # move sample marker to beginning of sequence at position 'index'
-            self.index = ravel(self.getField('sequence_index'))[index]
+            self.index = int(ravel(self.getField('sequence_index'))[index])
 
 
     def clear(self):
-- 
2.43.0


From 37b070b0a82fdac3a1895540fd9bd58ae43cff4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:06 +0000
Subject: [PATCH 009/136] fix: ImportanceDataSet accepts importance arrays

---
 pybrain/datasets/importance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/datasets/importance.py b/pybrain/datasets/importance.py
index bd8235f..ecb5743 100644
--- a/pybrain/datasets/importance.py
+++ b/pybrain/datasets/importance.py
@@ -28,7 +28,7 @@ class ImportanceDataSet(SequentialDataSet):
             :key importance: the importance of the sample. If left None, the
                  importance will be set to 1.0
         """
-        if importance == None:
+        if importance is None:
             importance = ones(len(target))
         self.appendLinked(inp, target, importance)
 
-- 
2.43.0


From 0aae1131d5944740499028450d4c43415200b620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:06 +0000
Subject: [PATCH 010/136] fix: the length of an unlinked DataSet is that of its
 longest field

---
 pybrain/datasets/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/datasets/dataset.py b/pybrain/datasets/dataset.py
index 6a11890..4d673ad 100644
--- a/pybrain/datasets/dataset.py
+++ b/pybrain/datasets/dataset.py
@@ -160,7 +160,7 @@ class DataSet(Serializable):
         return the length of the longest field."""
         if self.link == []:
             try:
-                length = self.endmarker[max(self.endmarker)]
+                length = max(self.endmarker.values())
             except ValueError:
                 return 0
             return length
-- 
2.43.0


From 98bb33b5aa5fff80ee2b3c5038142bb2ae732dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:06 +0000
Subject: [PATCH 011/136] fix: DataSet.randomBatches shuffles the batches

---
 pybrain/datasets/dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/datasets/dataset.py b/pybrain/datasets/dataset.py
index 4d673ad..084f9a1 100644
--- a/pybrain/datasets/dataset.py
+++ b/pybrain/datasets/dataset.py
@@ -359,7 +359,8 @@ class DataSet(Serializable):
 
     def randomBatches(self, label, n):
         """Like .batches(), but the order is random."""
-        permutation = random.shuffle(list(range(len(self))))
+        permutation = list(range((len(self) + n - 1) // n))
+        random.shuffle(permutation)
         return self.batches(label, n, permutation)
 
     def replaceNansByMeans(self):
-- 
2.43.0


From 6e62b2595ecdeb48f52cee42d6abaf02be602ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:06 +0000
Subject: [PATCH 012/136] fix: _convertToOneOfMany uses a data type that holds
 the given bounds

---
 pybrain/datasets/classification.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/datasets/classification.py b/pybrain/datasets/classification.py
index c2b52e5..fd98cf5 100644
--- a/pybrain/datasets/classification.py
+++ b/pybrain/datasets/classification.py
@@ -2,7 +2,7 @@ from __future__ import print_function
 
 __author__ = "Martin Felder, felder@in.tum.de"
 
-from numpy import zeros, where, ravel, r_, single
+from numpy import array, zeros, where, ravel, r_, single
 from numpy.random import permutation
 from pybrain.datasets import SupervisedDataSet, SequentialDataSet
 
@@ -139,7 +139,7 @@ class ClassificationDataSet(SupervisedDataSet):
         if self.nClasses <= 0:
             self.calculateStatistics()
         oldtarg = self.getField('target')
-        newtarg = zeros([len(self), self.nClasses], dtype='Int32') + bounds[0]
+        newtarg = zeros([len(self), self.nClasses], dtype=array(bounds).dtype) + bounds[0]
         for i in range(len(self)):
             newtarg[i, int(oldtarg[i])] = bounds[1]
         self.setField('target', newtarg)
-- 
2.43.0


From 510eeccf249046f5aad2da7e624d1c670cb97fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:06 +0000
Subject: [PATCH 013/136] fix: SequenceClassificationDataSet.stratifiedSplit
 keeps the last sequence

---
 pybrain/datasets/classification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/datasets/classification.py b/pybrain/datasets/classification.py
index fd98cf5..bec0dc2 100644
--- a/pybrain/datasets/classification.py
+++ b/pybrain/datasets/classification.py
@@ -235,7 +235,7 @@ class SequenceClassificationDataSet(SequentialDataSet, ClassificationDataSet):
         It is assumed that the last target for each class is the class of the
         sequence. Also mind that the data will be sorted by class in the
         resulting data sets."""
-        lastidx = ravel(self['sequence_index'][1:] - 1).astype(int)
+        lastidx = r_[self['sequence_index'].astype(int)[1:, 0] - 1, len(self) - 1]
         classes = ravel(self['class'][lastidx])
         trnDs = self.copy()
         trnDs.clear()
-- 
2.43.0


From 02c0a679cab540bbe2f9d494d9b97e40c28f6a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:56 +0000
Subject: [PATCH 014/136] fix: RecurrentNetwork accepts forget as a keyword

---
 pybrain/structure/networks/recurrent.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pybrain/structure/networks/recurrent.py b/pybrain/structure/networks/recurrent.py
index c814b03..fa5c4d5 100644
--- a/pybrain/structure/networks/recurrent.py
+++ b/pybrain/structure/networks/recurrent.py
@@ -147,9 +147,6 @@ class RecurrentNetwork(RecurrentNetworkComponent, Network):
     bufferlist = Network.bufferlist
 
     def __init__(self, *args, **kwargs):
+        forget = kwargs.pop('forget', False)
         Network.__init__(self, *args, **kwargs)
-        if 'forget' in kwargs:
-            forget = kwargs['forget']
-        else:
-            forget = False
         RecurrentNetworkComponent.__init__(self, forget, *args, **kwargs)
-- 
2.43.0


From cde08ecd6967e8532a6ad3b77e0a0f5b68ddb1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:11 +0000
Subject: [PATCH 015/136] fix: FullConnection.whichBuffers takes the slices
 into account

---
 pybrain/structure/connections/full.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/structure/connections/full.py b/pybrain/structure/connections/full.py
index 98ca3f0..041f9cb 100644
--- a/pybrain/structure/connections/full.py
+++ b/pybrain/structure/connections/full.py
@@ -26,4 +26,5 @@ class FullConnection(Connection, ParameterContainer):
     def whichBuffers(self, paramIndex):
         """Return the index of the input module's output buffer and
         the output module's input buffer for the given weight."""
-        return paramIndex % self.inmod.outdim, paramIndex // self.inmod.outdim
+        return (self.inSliceFrom + paramIndex % self.indim,
+                self.outSliceFrom + paramIndex // self.indim)
-- 
2.43.0


From 6dc4db7b778064529e14fc97dd310f3761dc4a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:11 +0000
Subject: [PATCH 016/136] fix: decomposing a network with peephole weights
 assigns them to their neurons

---
 pybrain/structure/networks/neurondecomposable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/structure/networks/neurondecomposable.py b/pybrain/structure/networks/neurondecomposable.py
index 42fc0ed..22bdf63 100644
--- a/pybrain/structure/networks/neurondecomposable.py
+++ b/pybrain/structure/networks/neurondecomposable.py
@@ -58,7 +58,7 @@ class NeuronDecomposableNetwork(object):
                                                (x.outmod, x.outmod.whichNeuron(inputIndex=outbuf)))
             elif isinstance(x, NeuronLayer):
                 for n in range(x.paramdim):
-                    self.paramInfo[index + n] = ((x, n), (x, n))
+                    self.paramInfo[index + n] = ((x, n % x.dim), (x, n % x.dim))
             else:
                 raise
             index += x.paramdim
-- 
2.43.0


From 887820a34ac27772fb7d8e0d26fb518570d76d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:11 +0000
Subject: [PATCH 017/136] fix: _buildNetwork links the layers of the first part

---
 pybrain/tools/shortcuts.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pybrain/tools/shortcuts.py b/pybrain/tools/shortcuts.py
index 27edca2..d8ba5d5 100644
--- a/pybrain/tools/shortcuts.py
+++ b/pybrain/tools/shortcuts.py
@@ -141,8 +141,9 @@ def _buildNetwork(*layers, **options):
 
     prevLayer = firstLayer
 
-    for part in chain(firstPart, layerParts):
-        new_part = True
+    for part in chain([firstPart], layerParts):
+        # the rest of the first part belongs to the part of the input layer
+        new_part = part is not firstPart
         for layer in part:
             net.addModule(layer)
             # Pick class depending on whether we entered a new part
-- 
2.43.0


From f508405cc3a67b7d4bf2487b658da45878edabcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:11 +0000
Subject: [PATCH 018/136] fix: CaptureGameNetwork options directlink and
 combinputs

---
 pybrain/structure/networks/custom/capturegame.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pybrain/structure/networks/custom/capturegame.py b/pybrain/structure/networks/custom/capturegame.py
index 3702ce0..9a8e29b 100644
--- a/pybrain/structure/networks/custom/capturegame.py
+++ b/pybrain/structure/networks/custom/capturegame.py
@@ -89,18 +89,18 @@ class CaptureGameNetwork(BorderSwipingNetwork):
             cin = LinearLayer(self.combinputs, name = 'globalin')
             self.addInputModule(cin)
             if 'globalinconn' not in self.predefined:
-                self.predefined['globalinconn'] = MotherConnection(cin.componentOutdim*hiddenmesh.componentIndim, 'globalinconn')
+                self.predefined['globalinconn'] = MotherConnection(cin.outdim*hiddenmesh.componentIndim, name = 'globalinconn')
             self._linkToAll(cin, hiddenmesh, self.predefined['globalinconn'])
 
     def _buildDirectLink(self, inmesh, outmesh):
         if not 'directconn' in self.predefined:
-            self.predefined['directconn'] = MotherConnection(inmesh.componentOutdim*outmesh.componentIndim, 'inconn')
+            self.predefined['directconn'] = MotherConnection(inmesh.componentOutdim*outmesh.componentIndim, name = 'directconn')
         for unit in self._iterateOverUnits():
             self.addConnection(SharedFullConnection(self.predefined['directconn'], inmesh[unit], outmesh[unit]))
 
     def _linkToAll(self, inmod, mesh, conn):
-        for unit in self._iterateOverUnits():
-            self.addConnection(SharedFullConnection(conn, inmod, mesh[unit]))
+        for unit in mesh:
+            self.addConnection(SharedFullConnection(conn, inmod, unit))
 
     def _generateName(self):
         """ generate a quasi unique name, using construction parameters """
-- 
2.43.0


From e3e7bd322aa01f806724c6d8ec2ef9c09d4bd38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:11 +0000
Subject: [PATCH 019/136] fix: BorderSwipingNetwork extrapolates border weights
 of any size

---
 pybrain/structure/networks/borderswiping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/structure/networks/borderswiping.py b/pybrain/structure/networks/borderswiping.py
index ab3d4ef..0e98d1b 100644
--- a/pybrain/structure/networks/borderswiping.py
+++ b/pybrain/structure/networks/borderswiping.py
@@ -55,7 +55,7 @@ class BorderSwipingNetwork(SwipingNetwork):
                         tmp[t] = MotherConnection(hiddenmesh.componentIndim, name = 'bconn'+str(dim)+str(t))
                         if self.extrapolateBorderValues:
                             p = self._extrapolateBorderAt(t, self.predefined['bordconns'][dim])
-                            if p != None:
+                            if p is not None:
                                 tmp[t].params[:] = p
                 self.predefined['bordconns'][dim] = tmp
 
-- 
2.43.0


From 315efdeecbbbcb3073a2c772b1a62c9377740fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:53 +0000
Subject: [PATCH 020/136] fix: crossproduct with an empty set is empty

---
 pybrain/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index 21ac18f..dd26c93 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -488,7 +488,8 @@ def crossproduct(ss, row=None, level=0):
         row = []
     if len(ss) > 1:
         return reduce(operator.add,
-                      [crossproduct(ss[1:], row + [i], level + 1) for i in ss[0]])
+                      [crossproduct(ss[1:], row + [i], level + 1) for i in ss[0]],
+                      [])
     else:
         return [row + [i] for i in ss[0]]
 
-- 
2.43.0


From 300e1a149b8b277f04fdbe228f50b76f38a8e3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:53 +0000
Subject: [PATCH 021/136] fix: permuteToBlocks computes integer positions

---
 pybrain/utilities.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index dd26c93..df638f5 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -543,12 +543,12 @@ def permuteToBlocks2d(arr, blockheight, blockwidth):
     arr = arr.flatten()
     new = zeros(size(arr))
     for i in range(size(arr)):
-        blockx = (i % width) / blockwidth
-        blocky = i / width / blockheight
-        blockoffset = blocky * width / blockwidth + blockx
+        blockx = (i % width) // blockwidth
+        blocky = i // width // blockheight
+        blockoffset = blocky * width // blockwidth + blockx
         blockoffset *= blockwidth * blockheight
         inblockx = i % blockwidth
-        inblocky = (i / width) % blockheight
+        inblocky = (i // width) % blockheight
         j = blockoffset + inblocky * blockwidth + inblockx
         new[j] = arr[i]
     return new
-- 
2.43.0


From a56256045ba0d8300f810bd314e645318fef5fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:53 +0000
Subject: [PATCH 022/136] fix: triu2flat allocates an integer number of
 elements

---
 pybrain/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index df638f5..b415a8e 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -558,7 +558,7 @@ def triu2flat(m):
     """ Flattens an upper triangular matrix, returning a vector of the
     non-zero elements. """
     dim = m.shape[0]
-    res = zeros(dim * (dim + 1) / 2)
+    res = zeros(dim * (dim + 1) // 2)
     index = 0
     for row in range(dim):
         res[index:index + dim - row] = m[row, row:]
-- 
2.43.0


From 1dd3f4ee4fc960870fe2e1fb4cbee6ca14f53d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:53 +0000
Subject: [PATCH 023/136] fix: blockCombine allocates rows by columns

---
 pybrain/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index b415a8e..ad90e2b 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -597,7 +597,7 @@ def blockCombine(l):
     hs = sum(hdims)
     vdims = [row[0].shape[0] for row in l]
     vs = sum(vdims)
-    res = zeros((hs, vs))
+    res = zeros((vs, hs))
     vindex = 0
     for i, row in enumerate(l):
         hindex = 0
-- 
2.43.0


From 1bd254ef23c74eb3723b798ee28a990b956d7064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:53 +0000
Subject: [PATCH 024/136] fix: linscale scales to the given interval

---
 pybrain/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index ad90e2b..554d756 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -108,7 +108,7 @@ def setAllArgs(obj, argdict):
 
 def linscale(d, lim):
     """ utility function to linearly scale array d to the interval defined by lim """
-    return (d - d.min())*(lim[1] - lim[0]) + lim[0]
+    return (d - d.min())*(lim[1] - lim[0])/float(d.max() - d.min()) + lim[0]
 
 
 def percentError(out, true):
-- 
2.43.0


From 3dbeedc8745a998396e447d1fb4686357efca692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:53 +0000
Subject: [PATCH 025/136] fix: reachable keeps its arguments and finds every
 starting destination

---
 pybrain/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index 554d756..67c0a40 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -419,11 +419,12 @@ def reachable(stepFunction, start, destinations, _alreadyseen=None):
         return {}
     if _alreadyseen is None:
         _alreadyseen = []
+    start = set(start)
     _alreadyseen.extend(start)
 
     # dict with distances to destinations
     res = {}
-    for s in start:
+    for s in list(start):
         if s in destinations:
             res[s] = 0
             start.remove(s)
-- 
2.43.0


From af83486ef6d46f7b1d61030a1e92e6505b55bbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:24 +0000
Subject: [PATCH 026/136] fix: XML files keep modules that are both input and
 output, and the output order

---
 pybrain/tools/customxml/networkreader.py | 11 ++++++++---
 pybrain/tools/customxml/networkwriter.py | 16 +++++++++-------
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/pybrain/tools/customxml/networkreader.py b/pybrain/tools/customxml/networkreader.py
index 9462a51..21db5bd 100644
--- a/pybrain/tools/customxml/networkreader.py
+++ b/pybrain/tools/customxml/networkreader.py
@@ -45,14 +45,19 @@ class NetworkReader(XMLHandling):
         n = nclass(**argdict)
         n.name = node.getAttribute('name')
 
+        outmodules = []
         for mnode in self.getChildrenOf(self.getChild(node, 'Modules')):
             m, inmodule, outmodule = self.readModule(mnode)
             if inmodule:
                 n.addInputModule(m)
-            elif outmodule:
-                n.addOutputModule(m)
-            else:
+            if outmodule:
+                # the value is the position among the output modules
+                pos = mnode.getAttribute('outmodule')
+                outmodules.append((int(pos) if pos.isdigit() else 0, m))
+            if not inmodule and not outmodule:
                 n.addModule(m)
+        for _, m in sorted(outmodules, key=lambda x: x[0]):
+            n.addOutputModule(m)
 
         mconns = self.getChild(node, 'MotherConnections')
         if mconns:
diff --git a/pybrain/tools/customxml/networkwriter.py b/pybrain/tools/customxml/networkwriter.py
index c5ffc52..89c4d51 100644
--- a/pybrain/tools/customxml/networkwriter.py
+++ b/pybrain/tools/customxml/networkwriter.py
@@ -41,15 +41,16 @@ class NetworkWriter(XMLHandling):
         mods = self.newChild(netroot, 'Modules')
         # first write the input modules (in order)
         for im in net.inmodules:
-            self.writeModule(mods, im, True, im in net.outmodules)
+            pos = net.outmodules.index(im) if im in net.outmodules else None
+            self.writeModule(mods, im, True, pos)
         # now the output modules (in order)
-        for om in net.outmodules:
+        for pos, om in enumerate(net.outmodules):
             if om not in net.inmodules:
-                self.writeModule(mods, om, False, True)
+                self.writeModule(mods, om, False, pos)
         # now the rest
         for m in net.modulesSorted:
             if m not in net.inmodules and m not in net.outmodules:
-                self.writeModule(mods, m, False, False)
+                self.writeModule(mods, m, False, None)
 
         # the motherconnections
         if len(net.motherconnections) > 0:
@@ -66,7 +67,8 @@ class NetworkWriter(XMLHandling):
             for c in net.recurrentConns:
                 self.writeConnection(conns, c, True)
 
-    def writeModule(self, rootnode, m, inmodule, outmodule):
+    def writeModule(self, rootnode, m, inmodule, outpos):
+        """ :arg outpos: the position among the output modules, or None """
         if isinstance(m, Network):
             mnode = self.newChild(rootnode, 'Network')
             self.writeNetwork(m, mnode)
@@ -74,8 +76,8 @@ class NetworkWriter(XMLHandling):
             mnode = self.writeBuildable(rootnode, m)
         if inmodule:
             mnode.setAttribute('inmodule', 'True')
-        elif outmodule:
-            mnode.setAttribute('outmodule', 'True')
+        if outpos is not None:
+            mnode.setAttribute('outmodule', str(outpos))
 
     def writeConnection(self, rootnode, c, recurrent):
         mnode = self.writeBuildable(rootnode, c)
-- 
2.43.0


From 03944ed5aede1b346eb5cbd51d7e646da341f0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:13 +0000
Subject: [PATCH 027/136] fix: PermutationConnection stores its arguments for
 XML files

---
 pybrain/structure/connections/permutation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pybrain/structure/connections/permutation.py b/pybrain/structure/connections/permutation.py
index 1156f61..5bbe87a 100644
--- a/pybrain/structure/connections/permutation.py
+++ b/pybrain/structure/connections/permutation.py
@@ -13,6 +13,9 @@ from pybrain.utilities import permute
 class PermutationConnection(Connection):
     """Connection that permutes the input by a given permutation."""
 
+    permutation = None
+    blocksize = None
+
     def __init__(self, inmod, outmod, permutation, blocksize, *args, **kwargs):
         Connection.__init__(self, inmod, outmod, *args, **kwargs)
         if self.indim != self.outdim:
@@ -23,9 +26,9 @@ class PermutationConnection(Connection):
                 "Permutation has wrong size: should be %i but is %i." %(
                 (self.indim // blocksize), len(permutation)))
 
+        self.setArgs(permutation=[int(i) for i in permutation], blocksize=blocksize)
         self.permutation = array(permutation)
         self.invpermutation = self.permutation.argsort()
-        self.blocksize = blocksize
 
     def _forwardImplementation(self, inbuf, outbuf):
         inbuf = inbuf.reshape(self.indim // self.blocksize, self.blocksize)
-- 
2.43.0


From 22b5c42983425f08ab6454fb629642c2abd95b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:36 +0000
Subject: [PATCH 028/136] fix: reading a network from XML only links modules of
 that network

---
 pybrain/tools/customxml/networkreader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pybrain/tools/customxml/networkreader.py b/pybrain/tools/customxml/networkreader.py
index 21db5bd..c5bd5e8 100644
--- a/pybrain/tools/customxml/networkreader.py
+++ b/pybrain/tools/customxml/networkreader.py
@@ -45,6 +45,10 @@ class NetworkReader(XMLHandling):
         n = nclass(**argdict)
         n.name = node.getAttribute('name')
 
+        # names are only known within the network that is being read
+        outer = self.mothers, self.modules
+        self.mothers, self.modules = {}, {}
+
         outmodules = []
         for mnode in self.getChildrenOf(self.getChild(node, 'Modules')):
             m, inmodule, outmodule = self.readModule(mnode)
@@ -72,6 +76,7 @@ class NetworkReader(XMLHandling):
             else:
                 n.addConnection(c)
 
+        self.mothers, self.modules = outer
         n.sortModules()
         return n
 
-- 
2.43.0


From ca46986c1b99a69c880bbf072c7c503c61437416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:56 +0000
Subject: [PATCH 029/136] fix: copies and pickles of data sets keep the vector
 format, plain DataSets can be pickled

---
 pybrain/datasets/dataset.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pybrain/datasets/dataset.py b/pybrain/datasets/dataset.py
index 084f9a1..c89bac6 100644
--- a/pybrain/datasets/dataset.py
+++ b/pybrain/datasets/dataset.py
@@ -311,18 +311,21 @@ class DataSet(Serializable):
         Serializable.save_pickle(self, flo, protocol)
 
     def __reduce__(self):
-        def creator():
-            obj = self.__class__()
-            obj.vectorformat = self.vectorformat
-            return obj
+        creator = self.__class__
         args = tuple()
         state = {
             'data': self.data,
             'link': self.link,
             'endmarker': self.endmarker,
+            'vectorformat': self.vectorformat,
         }
         return creator, args, state, iter([]), iter({})
 
+    def __setstate__(self, state):
+        state = dict(state)
+        self.vectorformat = state.pop('vectorformat', 'none')
+        self.__dict__.update(state)
+
     def copy(self):
         """Return a deep copy."""
         import copy
-- 
2.43.0


From 4a11a2710cdcaa0fd1fca82eff25eab2c64f5b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:56 +0000
Subject: [PATCH 030/136] fix: replaceNansByMeans replaces by the mean of the
 numbers in the column

---
 pybrain/datasets/dataset.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pybrain/datasets/dataset.py b/pybrain/datasets/dataset.py
index c89bac6..5e02528 100644
--- a/pybrain/datasets/dataset.py
+++ b/pybrain/datasets/dataset.py
@@ -369,9 +369,9 @@ class DataSet(Serializable):
     def replaceNansByMeans(self):
         """Replace all not-a-number entries in the dataset by the means of the
         corresponding column."""
-        for d in self.data.values():
-            means = scipy.nansum(d[:self.getLength()], axis=0) / self.getLength()
-            for i in range(self.getLength()):
-                for j in range(d.dim):
-                    if not scipy.isfinite(d[i, j]):
-                        d[i, j] = means[j]
+        for label, d in self.data.items():
+            d = d[:self.endmarker[label]]
+            for j in range(d.shape[1]):
+                valid = scipy.isfinite(d[:, j])
+                if valid.any():
+                    d[~valid, j] = d[valid, j].mean()
-- 
2.43.0


From d4db63fb54337e4c94cc9fb78c932d4eb0e313cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:56 +0000
Subject: [PATCH 031/136] fix: load_libsvm counts features by their indices
 only

---
 pybrain/datasets/classification.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pybrain/datasets/classification.py b/pybrain/datasets/classification.py
index bec0dc2..96499e4 100644
--- a/pybrain/datasets/classification.py
+++ b/pybrain/datasets/classification.py
@@ -48,9 +48,8 @@ class ClassificationDataSet(SupervisedDataSet):
         nFeat = 0
         # find max. number of features
         for line in f:
-            n = int(line.split()[-1].split(':')[0])
-            if n > nFeat:
-                nFeat = n
+            for r in line.split()[1:]:
+                nFeat = max(nFeat, int(r.split(':')[0]))
         f.seek(0)
         labels = []
         features = []
-- 
2.43.0


From a29611f199af540f61007bc9e05c52da6f4fabea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:56 +0000
Subject: [PATCH 032/136] fix: splitByClass and castToRegression assign the
 classes of new samples first

---
 pybrain/datasets/classification.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pybrain/datasets/classification.py b/pybrain/datasets/classification.py
index 96499e4..105278b 100644
--- a/pybrain/datasets/classification.py
+++ b/pybrain/datasets/classification.py
@@ -162,6 +162,7 @@ class ClassificationDataSet(SupervisedDataSet):
         """Produce two new datasets, the first one comprising only the class
         selected (0..nClasses-1), the second one containing the remaining
         samples."""
+        self.assignClasses()
         leftIndices, dummy = where(self['class'] == cls_select)
         rightIndices, dummy = where(self['class'] != cls_select)
         leftDs = self.copy()
@@ -185,6 +186,7 @@ class ClassificationDataSet(SupervisedDataSet):
     def castToRegression(self, values):
         """Converts data set into a SupervisedDataSet for regression. Classes
         are used as indices into the value array given."""
+        self.assignClasses()
         regDs = SupervisedDataSet(self.indim, 1)
         fields = self.getFieldNames()
         fields.remove('target')
-- 
2.43.0


From b5e0a6fa5d1e3cf9b609cb79887e46c4bb0afd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:56 +0000
Subject: [PATCH 033/136] fix: getNumSequences works with the list vector
 format

---
 pybrain/datasets/sequential.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/datasets/sequential.py b/pybrain/datasets/sequential.py
index 985f661..917b95a 100644
--- a/pybrain/datasets/sequential.py
+++ b/pybrain/datasets/sequential.py
@@ -92,7 +92,7 @@ class SequentialDataSet(SupervisedDataSet):
     def getNumSequences(self):
         """Return the number of sequences. The last (open) sequence is also
         counted in, even though there is no additional 'newSequence' marker."""
-        return self.getField('sequence_index').shape[0]
+        return len(self.getField('sequence_index'))
 
     def getSequenceLength(self, index):
         """Return the length of the given sequence. If `index` is pointing
-- 
2.43.0


From 7fbc5cca3eb3253b9060bf9d3bc79d6585809c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:56 +0000
Subject: [PATCH 034/136] fix: convertSequenceToTimeWindows cuts every complete
 window of every sequence

---
 pybrain/tools/datasettools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/tools/datasettools.py b/pybrain/tools/datasettools.py
index 39a54b7..1b866ea 100644
--- a/pybrain/tools/datasettools.py
+++ b/pybrain/tools/datasettools.py
@@ -22,14 +22,14 @@ def convertSequenceToTimeWindows(DSseq, NewClass, winsize):
     DSwin = NewClass(DSseq.indim * winsize, DSseq.outdim)
     nsamples = 0
     nseqs = 0
-    si = r_[DSseq['sequence_index'].flatten(), DSseq.endmarker['sequence_index']]
+    si = r_[DSseq['sequence_index'].flatten(), len(DSseq)].astype(int)
     for i in range(DSseq.getNumSequences()):
         # get one sequence as arrays
         input = DSseq['input'][si[i]:si[i + 1], :]
         target = DSseq['target'][si[i]:si[i + 1], :]
         nseqs += 1
         # cut this sequence into windows, assuming class is given at the last step of each sequence
-        for k in range(winsize, input.shape[0], winsize):
+        for k in range(winsize, input.shape[0] + 1, winsize):
             inp_win = input[k - winsize:k, :]
             tar_win = target[k - 1, :]
             DSwin.addSample(inp_win.flatten(), tar_win.flatten())
-- 
2.43.0


From 5241390e064859ce40cfaeff7843bc2fe77f9dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:56 +0000
Subject: [PATCH 035/136] fix: DataSetNormalizer reads and writes the lines of
 its file format

---
 pybrain/tools/datasettools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pybrain/tools/datasettools.py b/pybrain/tools/datasettools.py
index 1b866ea..07ab451 100644
--- a/pybrain/tools/datasettools.py
+++ b/pybrain/tools/datasettools.py
@@ -88,7 +88,7 @@ class DataSetNormalizer(object):
         # the first line determines whether we interpret the file as
         # giving min/max of features or mean/std
         x = f.readline()
-        self.meanstd = False if x == 'x' else True
+        self.meanstd = False if x.strip() == 'x' else True
 
         # the next line gives the normalization bounds
         bounds = array(f.readline().split()).astype(float)
@@ -105,9 +105,9 @@ class DataSetNormalizer(object):
     def save(self, fname):
         f = open(fname, "w+")
         f.write('x\n')
-        f.write('%g %g' % (self.newmin, self.newmax))
+        f.write('%g %g\n' % (self.newmin, self.newmax))
         for i in range(self.dim):
-            f.write('%d %g %g' % (i + 1, self.par1[i], self.par2[i]))
+            f.write('%d %g %g\n' % (i + 1, self.par1[i], self.par2[i]))
         f.close()
 
     def normalizePattern(self, y):
-- 
2.43.0


From 0a886d27eadc98fd09b5ab0188e9c0622de14306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:56 +0000
Subject: [PATCH 036/136] fix: getSequenceEndsImportance indexes with integers

---
 pybrain/tools/validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/tools/validation.py b/pybrain/tools/validation.py
index 5fdb1f6..493315d 100644
--- a/pybrain/tools/validation.py
+++ b/pybrain/tools/validation.py
@@ -137,7 +137,7 @@ class SequenceHelper(object):
             :arg dataset: Must implement :class:`ImportanceDataSet`
         """
         importance = zeros(dataset.getLength())
-        importance[cls.getSequenceEnds(dataset)] = 1.
+        importance[cls.getSequenceEnds(dataset).astype(int)] = 1.
         return importance
 
 
-- 
2.43.0


From f481696da3818e2567d123be1c2498723ea31043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:35 +0000
Subject: [PATCH 037/136] fix: linkFields works with the list vector format

---
 pybrain/datasets/dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/datasets/dataset.py b/pybrain/datasets/dataset.py
index 5e02528..c9c0b2a 100644
--- a/pybrain/datasets/dataset.py
+++ b/pybrain/datasets/dataset.py
@@ -121,9 +121,9 @@ class DataSet(Serializable):
     def linkFields(self, linklist):
         """Link the length of several fields given by the list of strings
         `linklist`."""
-        length = self[linklist[0]].shape[0]
+        length = len(self[linklist[0]])
         for l in linklist:
-            if self[l].shape[0] != length:
+            if len(self[l]) != length:
                 raise OutOfSyncError
         self.link = linklist
 
-- 
2.43.0


From b17aa7e40954c5b9eb5e7de5116fa74c5e124d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:55 +0000
Subject: [PATCH 038/136] fix: convertField keeps the length of the field

---
 pybrain/datasets/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/datasets/dataset.py b/pybrain/datasets/dataset.py
index c9c0b2a..11d01f9 100644
--- a/pybrain/datasets/dataset.py
+++ b/pybrain/datasets/dataset.py
@@ -261,7 +261,7 @@ class DataSet(Serializable):
     def convertField(self, label, newtype):
         """Convert the given field to a different data type."""
         try:
-            self.setField(label, self.data[label].astype(newtype))
+            self.setField(label, self.data[label][:self.endmarker[label]].astype(newtype))
         except KeyError:
             raise KeyError('convertField: dataset field %s not found.' % label)
 
-- 
2.43.0


From c87e074e3d49b5b7f6e806e28457389001486e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:11 +0000
Subject: [PATCH 039/136] fix: a failed removeSequence leaves the class field
 unlinked

---
 pybrain/datasets/classification.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pybrain/datasets/classification.py b/pybrain/datasets/classification.py
index 105278b..45cf6fc 100644
--- a/pybrain/datasets/classification.py
+++ b/pybrain/datasets/classification.py
@@ -279,8 +279,10 @@ class SequenceClassificationDataSet(SequentialDataSet, ClassificationDataSet):
         """Remove sequence (including class field) from the dataset."""
         self.assignClasses()
         self.linkFields(['input', 'target', 'class'])
-        SequentialDataSet.removeSequence(self, index)
-        self.unlinkFields(['class'])
+        try:
+            SequentialDataSet.removeSequence(self, index)
+        finally:
+            self.unlinkFields(['class'])
 
     def save_netcdf(self, flo, **kwargs):
         """Save the current dataset to the given file as a netCDF dataset to be
-- 
2.43.0


From e0d45e432f234835af7efa2ceed9ec3d9e1ad6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:20 +0000
Subject: [PATCH 040/136] fix: MNIST label files are opened as binary files

---
 pybrain/tools/datasets/mnist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/tools/datasets/mnist.py b/pybrain/tools/datasets/mnist.py
index 2f0e990..261c021 100644
--- a/pybrain/tools/datasets/mnist.py
+++ b/pybrain/tools/datasets/mnist.py
@@ -7,7 +7,7 @@ from pybrain.datasets import SupervisedDataSet
 
 
 def labels(filename):
-    fp = open(filename)
+    fp = open(filename, 'rb')
     magicnumber, length = struct.unpack('>ii', fp.read(8))
     assert magicnumber in (2049, 2051), ("Not an MNIST file: %i" % magicnumber)
     for _ in range(length):
-- 
2.43.0


From a1551bf6796d0e1319b95cb1d511be06025c4c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:20 +0000
Subject: [PATCH 041/136] fix: the training curve is saved as text

---
 pybrain/tools/neuralnets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/tools/neuralnets.py b/pybrain/tools/neuralnets.py
index 8a76667..31eceb9 100644
--- a/pybrain/tools/neuralnets.py
+++ b/pybrain/tools/neuralnets.py
@@ -65,7 +65,7 @@ class NNtools(object):
         logging.info('Saving training curves into ' + learnfname)
         if self.trainCurve is None:
             logging.error('No training curve available for saving!')
-        learnf = open(learnfname, "wb")
+        learnf = open(learnfname, "w")
         writer = csv.writer(learnf, dialect='excel')
         nDataSets = len(self.trainCurve)
         for i in range(1, len(self.trainCurve[0]) - 1):
-- 
2.43.0


From ff0659cbc68f33e35c2383396dcdf31a13a32b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:37 +0000
Subject: [PATCH 042/136] fix: default class labels are in the order of the
 classes

---
 pybrain/datasets/classification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/datasets/classification.py b/pybrain/datasets/classification.py
index 45cf6fc..a73ee84 100644
--- a/pybrain/datasets/classification.py
+++ b/pybrain/datasets/classification.py
@@ -25,7 +25,7 @@ class ClassificationDataSet(SupervisedDataSet):
             self.calculateStatistics()
         self.convertField('target', int)
         if class_labels is None:
-            self.class_labels = list(set(self.getField('target').flatten()))
+            self.class_labels = sorted(set(self.getField('target').flatten()))
         else:
             self.class_labels = class_labels
         # copy classes (may be changed into other representation)
-- 
2.43.0


From 1a75f923f9cfc191e42acfe52dfb7df4026cb675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:25 +0000
Subject: [PATCH 043/136] fix: trainers continue from the current parameters of
 the module

---
 pybrain/supervised/trainers/backprop.py | 1 +
 pybrain/supervised/trainers/rprop.py    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pybrain/supervised/trainers/backprop.py b/pybrain/supervised/trainers/backprop.py
index b4c9f5f..5afb047 100644
--- a/pybrain/supervised/trainers/backprop.py
+++ b/pybrain/supervised/trainers/backprop.py
@@ -50,6 +50,7 @@ class BackpropTrainer(Trainer):
     def train(self):
         """Train the associated module for one epoch."""
         assert len(self.ds) > 0, "Dataset cannot be empty."
+        self.descent.values[:] = self.module.params
         self.module.resetDerivatives()
         errors = 0
         ponderation = 0.
diff --git a/pybrain/supervised/trainers/rprop.py b/pybrain/supervised/trainers/rprop.py
index 885b0c8..e748b87 100644
--- a/pybrain/supervised/trainers/rprop.py
+++ b/pybrain/supervised/trainers/rprop.py
@@ -37,6 +37,7 @@ class RPropMinusTrainer(BackpropTrainer):
 
     def train(self):
         """ Train the network for one epoch """
+        self.descent.values[:] = self.module.params
         self.module.resetDerivatives()
         errors = 0
         ponderation = 0
-- 
2.43.0


From 5fa061fdb3cf96ef72eccc0b6f9de45aa035c4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:25 +0000
Subject: [PATCH 044/136] fix: weight decay applies to batch learning too

---
 pybrain/supervised/trainers/backprop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/supervised/trainers/backprop.py b/pybrain/supervised/trainers/backprop.py
index 5afb047..6d31d84 100644
--- a/pybrain/supervised/trainers/backprop.py
+++ b/pybrain/supervised/trainers/backprop.py
@@ -72,7 +72,7 @@ class BackpropTrainer(Trainer):
         if self.verbose:
             print("Total error: {z: .12g}".format(z=errors / ponderation))
         if self.batchlearning:
-            self.module._setParameters(self.descent(self.module.derivs))
+            self.module._setParameters(self.descent(self.module.derivs - self.weightdecay * self.module.params))
         self.epoch += 1
         self.totalepochs += 1
         return errors / ponderation
-- 
2.43.0


From 5687e9e5313907a50da71d7ffefc39bc4f892938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:25 +0000
Subject: [PATCH 045/136] fix: trainUntilConvergence trains at most maxEpochs
 epochs

---
 pybrain/supervised/trainers/backprop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/supervised/trainers/backprop.py b/pybrain/supervised/trainers/backprop.py
index 6d31d84..c66d73e 100644
--- a/pybrain/supervised/trainers/backprop.py
+++ b/pybrain/supervised/trainers/backprop.py
@@ -236,10 +236,10 @@ class BackpropTrainer(Trainer):
                 bestweights = self.module.params.copy()
                 bestepoch = epochs
 
+            epochs += 1
             if maxEpochs != None and epochs >= maxEpochs:
                 self.module.params[:] = bestweights
                 break
-            epochs += 1
 
             if len(self.validationErrors) >= continueEpochs * 2:
                 # have the validation errors started going up again?
-- 
2.43.0


From 94ea4a331642bff0e1e2922efdb43a61a19ba3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:25 +0000
Subject: [PATCH 046/136] fix: the mixture density error is normalized for
 targets of any dimension

---
 pybrain/supervised/trainers/mixturedensity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/supervised/trainers/mixturedensity.py b/pybrain/supervised/trainers/mixturedensity.py
index 85214d7..ce99b2c 100644
--- a/pybrain/supervised/trainers/mixturedensity.py
+++ b/pybrain/supervised/trainers/mixturedensity.py
@@ -9,7 +9,7 @@ def gaussian(x, mean, stddev):
     """ return value of homogenous Gaussian at given vector point 
     x: vector, mean: vector, stddev: scalar """
     tmp = -0.5 * sum(((x-mean)/stddev)**2)
-    return np.exp(tmp) / (np.power(2.*np.pi, 0.5*len(x)) * stddev)
+    return np.exp(tmp) / (np.power(2.*np.pi, 0.5*len(x)) * np.power(stddev, len(x)))
     
 
 class BackpropTrainerMix(BackpropTrainer):
@@ -72,7 +72,7 @@ class BackpropTrainerMix(BackpropTrainer):
             for k in range(nGauss):
                 delta = means[k]-target
                 grad_m.append(gamma[k]*delta*invvariance[k])
-                grad_s.append(-gamma[k]*(np.dot(delta,delta)*invvariance[k]*invstddev[k] - invstddev[k]))
+                grad_s.append(-gamma[k]*(np.dot(delta,delta)*invvariance[k]*invstddev[k] - nDims*invstddev[k]))
             
             self.module.outputerror[time] = -np.r_[grad_c,grad_s,np.array(grad_m).flatten()]
             self.module.backward()
-- 
2.43.0


From f1b47064a2a30966d4c9a9c75e1918b16b877abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:11 +0000
Subject: [PATCH 047/136] fix: copied and unpickled networks keep their parts
 connected to the flat arrays

---
 pybrain/structure/networks/network.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pybrain/structure/networks/network.py b/pybrain/structure/networks/network.py
index d5c4d2f..c0e2fa3 100644
--- a/pybrain/structure/networks/network.py
+++ b/pybrain/structure/networks/network.py
@@ -263,6 +263,21 @@ class Network(Module, ParameterContainer):
         for m in self.modules:
             m._resetBuffers(length)
 
+    def __setstate__(self, state):
+        """ In a copied or unpickled network, the parts have got their own
+        arrays: put slices of the flat ones back into them. """
+        self.__dict__.update(state)
+        if self.owner is not None or not self.sorted or self.paramdim == 0:
+            return
+        try:
+            partdim = sum(x.paramdim for x in self._containerIterator())
+        except AttributeError:
+            # part of a larger structure that is not completely restored yet
+            return
+        if partdim == self.paramdim:
+            self._setParameters(self.params)
+            self._setDerivatives(self.derivs)
+
     def copy(self, keepBuffers=False):
         if not keepBuffers:
             self._resetBuffers()
-- 
2.43.0


From ee73ac0c739409d7feafd5e1df7284d555ddd12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:11 +0000
Subject: [PATCH 048/136] fix: copied LSTM layers keep their peephole weights
 connected to their parameters

---
 pybrain/structure/modules/lstm.py   | 7 +++++++
 pybrain/structure/modules/mdlstm.py | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/pybrain/structure/modules/lstm.py b/pybrain/structure/modules/lstm.py
index 599d7e2..07408ff 100644
--- a/pybrain/structure/modules/lstm.py
+++ b/pybrain/structure/modules/lstm.py
@@ -79,6 +79,13 @@ class LSTMLayer(NeuronLayer, ParameterContainer):
         """Tell wether the current offset is the maximum offset."""
         return self.maxoffset == self.offset
 
+    def __setstate__(self, state):
+        """ The peephole views of a copy refer to its own arrays. """
+        self.__dict__.update(state)
+        if self.peepholes and self.owner is None:
+            self._setParameters(self.params)
+            self._setDerivatives(self.derivs)
+
     def _forwardImplementation(self, inbuf, outbuf):
         self.maxoffset = max(self.offset + 1, self.maxoffset)
 
diff --git a/pybrain/structure/modules/mdlstm.py b/pybrain/structure/modules/mdlstm.py
index a3336b8..53a9100 100644
--- a/pybrain/structure/modules/mdlstm.py
+++ b/pybrain/structure/modules/mdlstm.py
@@ -85,6 +85,13 @@ class MDLSTMLayer(NeuronLayer, ParameterContainer):
         self.outgatePeepDerivs = \
             self.derivs[size * (1 + self.dimensions):]
 
+    def __setstate__(self, state):
+        """ The peephole views of a copy refer to its own arrays. """
+        self.__dict__.update(state)
+        if self.peepholes and self.owner is None:
+            self._setParameters(self.params)
+            self._setDerivatives(self.derivs)
+
     def _forwardImplementation(self, inbuf, outbuf):
         self.maxoffset = max(self.offset + 1, self.maxoffset)
         size = self.dim
-- 
2.43.0


From 8ec9fa400717ff97ffae4f0f228750c659f3c6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:05 +0000
Subject: [PATCH 049/136] fix: mixture density gradient of the deviations is
 that with respect to their activations

---
 pybrain/supervised/trainers/mixturedensity.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pybrain/supervised/trainers/mixturedensity.py b/pybrain/supervised/trainers/mixturedensity.py
index ce99b2c..dee7efa 100644
--- a/pybrain/supervised/trainers/mixturedensity.py
+++ b/pybrain/supervised/trainers/mixturedensity.py
@@ -61,7 +61,6 @@ class BackpropTrainerMix(BackpropTrainer):
             gamma = np.array(gamma)/sumg
             
             invvariance = 1./par[nGauss:2*nGauss]**2
-            invstddev = 1./np.array(stddevs)
             
             # calculate gradient wrt. mixture coefficients
             grad_c = par[0:nGauss] - gamma
@@ -72,7 +71,7 @@ class BackpropTrainerMix(BackpropTrainer):
             for k in range(nGauss):
                 delta = means[k]-target
                 grad_m.append(gamma[k]*delta*invvariance[k])
-                grad_s.append(-gamma[k]*(np.dot(delta,delta)*invvariance[k]*invstddev[k] - nDims*invstddev[k]))
+                grad_s.append(-gamma[k]*(np.dot(delta,delta)*invvariance[k] - nDims))
             
             self.module.outputerror[time] = -np.r_[grad_c,grad_s,np.array(grad_m).flatten()]
             self.module.backward()
-- 
2.43.0


From 1e3c4af96c81f7abe37b0787adf907567b028d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:17 +0000
Subject: [PATCH 050/136] fix: gradient descent does not change the gradient
 passed to it

---
 pybrain/auxiliary/gradientdescent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/auxiliary/gradientdescent.py b/pybrain/auxiliary/gradientdescent.py
index 4b8b0bb..dc4cdb2 100644
--- a/pybrain/auxiliary/gradientdescent.py
+++ b/pybrain/auxiliary/gradientdescent.py
@@ -2,7 +2,7 @@ __author__ = ('Thomas Rueckstiess, ruecksti@in.tum.de'
               'Justin Bayer, bayer.justin@googlemail.com')
 
 
-from scipy import zeros, asarray, sign, array, cov, dot, clip, ndarray
+from scipy import zeros, sign, array, cov, dot, clip, ndarray
 from scipy.linalg import inv
 
 
@@ -55,7 +55,7 @@ class GradientDescent(object):
         """ calculates parameter change based on given gradient and returns updated parameters """
         # check if gradient has correct dimensionality, then make array """
         assert len(gradient) == len(self.values)
-        gradient_arr = asarray(gradient)
+        gradient_arr = array(gradient)
 
         if self.rprop:
             rprop_theta = self.rprop_theta
-- 
2.43.0


From b6976a52e64ea688078ba75872d50ab63ed9ab58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:45 +0000
Subject: [PATCH 051/136] fix: NNtools check for convergence only if asked to

---
 pybrain/tools/neuralnets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/tools/neuralnets.py b/pybrain/tools/neuralnets.py
index 31eceb9..997d547 100644
--- a/pybrain/tools/neuralnets.py
+++ b/pybrain/tools/neuralnets.py
@@ -141,7 +141,7 @@ class NNregression(NNtools):
                     self.Graph.addData(1, epoch, err_tst)
 
                 # check if convegence criterion is fulfilled (no improvement after N epoincs)
-                if convtest >= convergence:
+                if convergence > 0 and convtest >= convergence:
                     converged = True
 
             if self.Graph is not None:
@@ -270,7 +270,7 @@ class NNclassifier(NNtools):
                     self.Graph.addData(1, epoch, r_tst)
 
                 # check if convegence criterion is fulfilled (no improvement after N epoincs)
-                if convtest >= convergence:
+                if convergence > 0 and convtest >= convergence:
                     converged = True
 
             if self.Graph is not None:
-- 
2.43.0


From 0d5cebe9fc9a15e68179fb65861219043fdfd4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:45 +0000
Subject: [PATCH 052/136] fix: NNtools evaluate the current network if there is
 no better one

---
 pybrain/tools/neuralnets.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pybrain/tools/neuralnets.py b/pybrain/tools/neuralnets.py
index 997d547..90b66e9 100644
--- a/pybrain/tools/neuralnets.py
+++ b/pybrain/tools/neuralnets.py
@@ -152,7 +152,8 @@ class NNregression(NNtools):
         logging.info("Best epoch: %6d, with error: %10g" % (best_epoch, best_error))
         if self.VDS is not None:
             # calculate same errors on VALIDATION data
-            self.Trainer.module.params[:] = bestweights.copy()
+            if self.TDS is not None:
+                self.Trainer.module.params[:] = bestweights.copy()
             err_val = ModuleValidator.validate(Validator.MSE, self.Trainer.module, self.VDS)
             logging.info("Result on evaluation data: %10g" % err_val)
         # store training curve for saving into file
@@ -226,7 +227,7 @@ class NNclassifier(NNtools):
             self.Graph.setLegend(['training', 'test'], loc='lower right')
         epoch = 0
         inc = self.epoinc
-        best_error = 100.0
+        best_error = Infinity
         best_epoch = 0
         learncurve_x = [0]
         learncurve_y = [0.0]
@@ -280,7 +281,8 @@ class NNclassifier(NNtools):
         logging.info("Best epoch: %6d, with error: %5.2f%%" % (best_epoch, best_error))
         if self.VDS is not None:
             # calculate errors on VALIDATION data
-            self.Trainer.module.params[:] = bestweights.copy()
+            if self.TDS is not None:
+                self.Trainer.module.params[:] = bestweights.copy()
             if isinstance(self.DS, SequentialDataSet):
                 r_val = 100. * (1.0 - testOnSequenceData(self.Trainer.module, self.VDS))
             else:
-- 
2.43.0


From 07db1f1f973dbe9e6382e3e1fabaffd79775e2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:45 +0000
Subject: [PATCH 053/136] fix: the saved training curve is complete

---
 pybrain/tools/neuralnets.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pybrain/tools/neuralnets.py b/pybrain/tools/neuralnets.py
index 90b66e9..f38a846 100644
--- a/pybrain/tools/neuralnets.py
+++ b/pybrain/tools/neuralnets.py
@@ -68,8 +68,9 @@ class NNtools(object):
         learnf = open(learnfname, "w")
         writer = csv.writer(learnf, dialect='excel')
         nDataSets = len(self.trainCurve)
-        for i in range(1, len(self.trainCurve[0]) - 1):
-            writer.writerow([self.trainCurve[k][i] for k in range(nDataSets)])
+        for i in range(1, len(self.trainCurve[0])):
+            writer.writerow([self.trainCurve[k][i] for k in range(nDataSets)
+                             if i < len(self.trainCurve[k])])
         learnf.close()
 
     def saveNetwork(self, fname):
-- 
2.43.0


From 8cfa052cd3e75cfbea078e74875f66ba246f7a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:37 +0000
Subject: [PATCH 054/136] fix: arrays are compared to None by identity

---
 pybrain/optimization/distributionbased/fem.py    |  6 +++---
 pybrain/optimization/distributionbased/ves.py    | 16 ++++++++--------
 pybrain/rl/agents/logging.py                     | 12 ++++++------
 .../rl/environments/functions/transformations.py |  4 ++--
 pybrain/rl/environments/functions/unimodal.py    |  4 ++--
 pybrain/structure/modules/statedependentlayer.py |  2 +-
 pybrain/tools/fisher.py                          |  8 ++++----
 7 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/pybrain/optimization/distributionbased/fem.py b/pybrain/optimization/distributionbased/fem.py
index 86edfb9..c5faee6 100644
--- a/pybrain/optimization/distributionbased/fem.py
+++ b/pybrain/optimization/distributionbased/fem.py
@@ -59,11 +59,11 @@ class FEM(DistributionBasedOptimizer):
         self.mus = []
         self.sigmas = []
 
-        if self.rangemins == None:
+        if self.rangemins is None:
             self.rangemins = -ones(xdim)
-        if self.rangemaxs == None:
+        if self.rangemaxs is None:
             self.rangemaxs = ones(xdim)
-        if self.initCovariances == None:
+        if self.initCovariances is None:
             if self.diagonalOnly:
                 self.initCovariances = ones(xdim)
             else:
diff --git a/pybrain/optimization/distributionbased/ves.py b/pybrain/optimization/distributionbased/ves.py
index 4851294..949bb69 100644
--- a/pybrain/optimization/distributionbased/ves.py
+++ b/pybrain/optimization/distributionbased/ves.py
@@ -49,18 +49,18 @@ class VanillaGradientEvolutionStrategies(DistributionBasedOptimizer):
         assert not self.diagonalOnly, 'Diagonal-only not yet supported'
         self.numDistrParams = xdim + xdim * (xdim + 1) / 2
 
-        if self.momentum != None:
+        if self.momentum is not None:
             self.momentumVector = zeros(self.numDistrParams)
-        if self.learningRateSigma == None:
+        if self.learningRateSigma is None:
             self.learningRateSigma = self.learningRate
         if self.batchSize is None:
             self.batchSize = 10 * self.numParameters
 
-        if self.rangemins == None:
+        if self.rangemins is None:
             self.rangemins = -ones(xdim)
-        if self.rangemaxs == None:
+        if self.rangemaxs is None:
             self.rangemaxs = ones(xdim)
-        if self.initCovariances == None:
+        if self.initCovariances is None:
             if self.diagonalOnly:
                 self.initCovariances = ones(xdim)
             else:
@@ -86,7 +86,7 @@ class VanillaGradientEvolutionStrategies(DistributionBasedOptimizer):
             self._allDistributions = [(self.x.copy(), self.sigma.copy())]
 
     def _produceNewSample(self, z=None):
-        if z == None:
+        if z is None:
             p = randn(self.numParameters)
             z = dot(self.factorSigma.T, p) + self.x
         self.allSamples.append(z)
@@ -199,7 +199,7 @@ class VanillaGradientEvolutionStrategies(DistributionBasedOptimizer):
 
     def _calcBatchUpdate(self, fitnesses):
         gradient = self._calcVanillaBatchGradient(self.allSamples[-self.batchSize:], fitnesses)
-        if self.momentum != None:
+        if self.momentum is not None:
             self.momentumVector *= self.momentum
             self.momentumVector += gradient
             return self.momentumVector
@@ -208,7 +208,7 @@ class VanillaGradientEvolutionStrategies(DistributionBasedOptimizer):
 
     def _calcOnlineUpdate(self, fitnesses):
         gradient = self._calcVanillaOnlineGradient(self.allSamples[-1], fitnesses[-self.batchSize:])
-        if self.momentum != None:
+        if self.momentum is not None:
             self.momentumVector *= self.momentum
             self.momentumVector += gradient
             return self.momentumVector
diff --git a/pybrain/rl/agents/logging.py b/pybrain/rl/agents/logging.py
index c13e356..745b7ba 100644
--- a/pybrain/rl/agents/logging.py
+++ b/pybrain/rl/agents/logging.py
@@ -41,9 +41,9 @@ class LoggingAgent(Agent):
 
     def getAction(self):
         """Step 2: store the action in a temporary variable until reward is given. """
-        assert self.lastobs != None
-        assert self.lastaction == None
-        assert self.lastreward == None
+        assert self.lastobs is not None
+        assert self.lastaction is None
+        assert self.lastreward is None
 
         # implement getAction in subclass and set self.lastaction
 
@@ -51,9 +51,9 @@ class LoggingAgent(Agent):
     def giveReward(self, r):
         """Step 3: store observation, action and reward in the history dataset. """
         # step 3: assume that state and action have been set
-        assert self.lastobs != None
-        assert self.lastaction != None
-        assert self.lastreward == None
+        assert self.lastobs is not None
+        assert self.lastaction is not None
+        assert self.lastreward is None
 
         self.lastreward = r
 
diff --git a/pybrain/rl/environments/functions/transformations.py b/pybrain/rl/environments/functions/transformations.py
index d34f00f..bf1620b 100644
--- a/pybrain/rl/environments/functions/transformations.py
+++ b/pybrain/rl/environments/functions/transformations.py
@@ -39,7 +39,7 @@ class TranslateFunction(FunctionEnvironment):
     def __init__(self, basef, distance=0.1, offset=None):
         """ by default the offset is random, with a distance of 0.1 to the old one """
         FunctionEnvironment.__init__(self, basef.xdim, basef.xopt)
-        if offset == None:
+        if offset is None:
             self._offset = rand(basef.xdim)
             self._offset *= distance / norm(self._offset)
         else:
@@ -61,7 +61,7 @@ class RotateFunction(FunctionEnvironment):
     def __init__(self, basef, rotMat=None):
         """ by default the rotation matrix is random. """
         FunctionEnvironment.__init__(self, basef.xdim, basef.xopt)
-        if rotMat == None:
+        if rotMat is None:
             # make a random orthogonal rotation matrix
             self._M = orth(rand(basef.xdim, basef.xdim))
         else:
diff --git a/pybrain/rl/environments/functions/unimodal.py b/pybrain/rl/environments/functions/unimodal.py
index b842619..a71139f 100644
--- a/pybrain/rl/environments/functions/unimodal.py
+++ b/pybrain/rl/environments/functions/unimodal.py
@@ -106,9 +106,9 @@ class RosenbrockFunction(FunctionEnvironment):
     """ Banana-shaped function with a tricky optimum in the valley at 1,1.
     (has another, local optimum in higher dimensions)."""
     def __init__(self, xdim = 2, xopt = None):
-        assert xdim >= self.xdimMin and not (self.xdimMax != None and xdim > self.xdimMax)
+        assert xdim >= self.xdimMin and not (self.xdimMax is not None and xdim > self.xdimMax)
         self.xdim = xdim
-        if xopt == None:
+        if xopt is None:
             self.xopt = ones(self.xdim)
         else:
             self.xopt = xopt
diff --git a/pybrain/structure/modules/statedependentlayer.py b/pybrain/structure/modules/statedependentlayer.py
index 920bb70..3abd03d 100644
--- a/pybrain/structure/modules/statedependentlayer.py
+++ b/pybrain/structure/modules/statedependentlayer.py
@@ -39,7 +39,7 @@ class StateDependentLayer(NeuronLayer, ParameterContainer):
             random.normal(0, expln(self.params), self.module.paramdim))
 
     def _forwardImplementation(self, inbuf, outbuf):
-        assert self.exploration != None
+        assert self.exploration is not None
         if not self.enabled:
             outbuf[:] = inbuf
         else:
diff --git a/pybrain/tools/fisher.py b/pybrain/tools/fisher.py
index 1169ad3..6178e5e 100644
--- a/pybrain/tools/fisher.py
+++ b/pybrain/tools/fisher.py
@@ -10,9 +10,9 @@ def calcFisherInformation(sigma, invSigma=None, factorSigma=None):
     """ Compute the exact Fisher Information Matrix of a Gaussian distribution,
     given its covariance matrix.
     Returns a list of the diagonal blocks. """
-    if invSigma == None:
+    if invSigma is None:
         invSigma = inv(sigma)
-    if factorSigma == None:
+    if factorSigma is None:
         factorSigma = cholesky(sigma)
     dim = sigma.shape[0]
     fim = [invSigma]
@@ -27,9 +27,9 @@ def calcFisherInformation(sigma, invSigma=None, factorSigma=None):
 def calcInvFisher(sigma, invSigma=None, factorSigma=None):
     """ Efficiently compute the exact inverse of the FIM of a Gaussian.
     Returns a list of the diagonal blocks. """
-    if invSigma == None:
+    if invSigma is None:
         invSigma = inv(sigma)
-    if factorSigma == None:
+    if factorSigma is None:
         factorSigma = cholesky(sigma)
     dim = sigma.shape[0]
 
-- 
2.43.0


From 666947f226408d402a4d593607990f2963ccfa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:37 +0000
Subject: [PATCH 055/136] fix: population and parameter counts of ES and VES
 are integers

---
 pybrain/optimization/distributionbased/ves.py | 2 +-
 pybrain/optimization/populationbased/es.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/optimization/distributionbased/ves.py b/pybrain/optimization/distributionbased/ves.py
index 949bb69..9075580 100644
--- a/pybrain/optimization/distributionbased/ves.py
+++ b/pybrain/optimization/distributionbased/ves.py
@@ -47,7 +47,7 @@ class VanillaGradientEvolutionStrategies(DistributionBasedOptimizer):
     def _additionalInit(self):
         xdim = self.numParameters
         assert not self.diagonalOnly, 'Diagonal-only not yet supported'
-        self.numDistrParams = xdim + xdim * (xdim + 1) / 2
+        self.numDistrParams = xdim + xdim * (xdim + 1) // 2
 
         if self.momentum is not None:
             self.momentumVector = zeros(self.numDistrParams)
diff --git a/pybrain/optimization/populationbased/es.py b/pybrain/optimization/populationbased/es.py
index c2405b7..473dbd6 100644
--- a/pybrain/optimization/populationbased/es.py
+++ b/pybrain/optimization/populationbased/es.py
@@ -49,7 +49,7 @@ class ES(BlackBoxOptimizer):
             self._sortPopulation(noHallOfFame = True)
 
         # produce offspring from the the mu best ones
-        self.population = self.population[:self.mu] * (self._popsize/self.mu)
+        self.population = self.population[:self.mu] * (self._popsize//self.mu)
 
         # mutate the offspring
         if self.elitism:
-- 
2.43.0


From a7884fd6d0c2b8989b546601d1f39d5e734b9062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:37 +0000
Subject: [PATCH 056/136] fix: finite differences can minimize

---
 pybrain/optimization/finitedifference/fd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pybrain/optimization/finitedifference/fd.py b/pybrain/optimization/finitedifference/fd.py
index ad64f9c..46cb5c8 100644
--- a/pybrain/optimization/finitedifference/fd.py
+++ b/pybrain/optimization/finitedifference/fd.py
@@ -20,6 +20,8 @@ class FiniteDifferences(ContinuousOptimizer):
     momentum = 0.0
     rprop = False
 
+    mustMaximize = True
+
     def _setInitEvaluable(self, evaluable):
         ContinuousOptimizer._setInitEvaluable(self, evaluable)
         self.current = self._initEvaluable
-- 
2.43.0


From 1c985fce1b5ee944a8a8d93056a5e5c4c5df98f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:58 +0000
Subject: [PATCH 057/136] fix: the finite difference gradient does not depend
 on the fitness level

---
 pybrain/optimization/finitedifference/fd.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pybrain/optimization/finitedifference/fd.py b/pybrain/optimization/finitedifference/fd.py
index 46cb5c8..4cbf9b2 100644
--- a/pybrain/optimization/finitedifference/fd.py
+++ b/pybrain/optimization/finitedifference/fd.py
@@ -45,17 +45,18 @@ class FiniteDifferences(ContinuousOptimizer):
             of the gradient, scaled with a small learning rate alpha. """
 
         # initialize matrix D and vector R
-        D = ones((self.batchSize, self.numParameters))
+        # (the last column is for the fitness at the current point)
+        D = ones((self.batchSize, self.numParameters + 1))
         R = zeros((self.batchSize, 1))
 
         # calculate the gradient with pseudo inverse
         for i in range(self.batchSize):
             deltas = self.perturbation()
             x = self.current + deltas
-            D[i, :] = deltas
+            D[i, :-1] = deltas
             R[i, :] = self._oneEvaluation(x)
         beta = dot(pinv(D), R)
-        gradient = ravel(beta)
+        gradient = ravel(beta)[:-1]
 
         # update the weights
         self.current = self.gd(gradient)
-- 
2.43.0


From a47c55f1814438fbb2eae2b0cad0c5e227807dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:58 +0000
Subject: [PATCH 058/136] fix: PGPE global exploration

---
 pybrain/optimization/finitedifference/pgpe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/optimization/finitedifference/pgpe.py b/pybrain/optimization/finitedifference/pgpe.py
index c6da77d..1264cd6 100644
--- a/pybrain/optimization/finitedifference/pgpe.py
+++ b/pybrain/optimization/finitedifference/pgpe.py
@@ -72,7 +72,7 @@ class PGPE(FiniteDifferences):
         if fakt2 > 0.: #for sigma adaption alg. follows only positive gradients
             if self.exploration == "global":         
                 #apply sigma update globally        
-                self.sigList = self.gdSig(fakt2 * ((self.deltas ** 2).sum() - (self.sigList ** 2).sum())
+                self.sigList = self.gdSig(fakt2 * ((deltas ** 2).sum() - (self.sigList ** 2).sum())
                                           / (self.sigList * float(self.numParameters)))
             elif self.exploration == "local":
                 #apply sigma update locally
-- 
2.43.0


From 5254b121b064f68011381c6b0f399b6b07258633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:58 +0000
Subject: [PATCH 059/136] fix: VES does not change its best point in place

---
 pybrain/optimization/distributionbased/ves.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pybrain/optimization/distributionbased/ves.py b/pybrain/optimization/distributionbased/ves.py
index 9075580..1d5965d 100644
--- a/pybrain/optimization/distributionbased/ves.py
+++ b/pybrain/optimization/distributionbased/ves.py
@@ -153,7 +153,7 @@ class VanillaGradientEvolutionStrategies(DistributionBasedOptimizer):
             # update parameters (unbiased: divide by batchsize)
             update = self._calcBatchUpdate(shapedFits)
             if self.elitism:
-                self.x = self.bestEvaluable
+                self.x = self.bestEvaluable.copy()
             else:
                 self.x += self.learningRate * update[:xdim]
             self.factorSigma += self.learningRateSigma * flat2triu(update[xdim:], xdim)
@@ -195,7 +195,7 @@ class VanillaGradientEvolutionStrategies(DistributionBasedOptimizer):
         self.sigma = dot(self.factorSigma.T, self.factorSigma)
 
         if self.storeAllDistributions:
-            self._allDistributions.append(self.x.copy(), self.sigma.copy())
+            self._allDistributions.append((self.x.copy(), self.sigma.copy()))
 
     def _calcBatchUpdate(self, fitnesses):
         gradient = self._calcVanillaBatchGradient(self.allSamples[-self.batchSize:], fitnesses)
@@ -274,7 +274,7 @@ class VanillaGradientEvolutionStrategies(DistributionBasedOptimizer):
     def _revertToSafety(self):
         """ When encountering a bad matrix, this is how we revert to a safe one. """
         self.factorSigma = eye(self.numParameters)
-        self.x = self.bestEvaluable
+        self.x = self.bestEvaluable.copy()
         self.allFactorSigmas[-1][:] = self.factorSigma
         self.sigma = dot(self.factorSigma.T, self.factorSigma)
 
-- 
2.43.0


From b83662aeec50f890d12a6958ffddaeea451903d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:20 +0000
Subject: [PATCH 060/136] fix: the stochastic hill climber returns the best
 point found

---
 pybrain/optimization/hillclimber.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pybrain/optimization/hillclimber.py b/pybrain/optimization/hillclimber.py
index ca15e8a..553f185 100644
--- a/pybrain/optimization/hillclimber.py
+++ b/pybrain/optimization/hillclimber.py
@@ -40,20 +40,24 @@ class StochasticHillClimber(HillClimber):
     #: The larger the temperature, the more explorative (less greedy) it behaves.
     temperature = 1.
 
+    def _additionalInit(self):
+        HillClimber._additionalInit(self)
+        # the current point may be worse than the best one found
+        self._current, self._currentEvaluation = self._initEvaluable, self.bestEvaluation
+
     def _learnStep(self):
         # re-evaluate the current individual in case the evaluator is noisy
         if self.evaluatorIsNoisy:
-            self.bestEvaluation = self._oneEvaluation(self.bestEvaluable)
+            self._currentEvaluation = self._oneEvaluation(self._current)
 
         # hill-climbing
-        challenger = self.bestEvaluable.copy()
+        challenger = self._current.copy()
         challenger.mutate()
         newEval = self._oneEvaluation(challenger)
 
-        # if the new evaluation was better, it got stored automatically. Otherwise:
-        if ((not self.minimize and newEval < self.bestEvaluation) or
-            (self.minimize and newEval > self.bestEvaluation)):
-            acceptProbability = exp(-abs(newEval-self.bestEvaluation)/self.temperature)
-            if random() < acceptProbability:
-                self.bestEvaluable, self.bestEvaluation = challenger, newEval
-
+        # a worse evaluation is only accepted with some probability
+        drop = self._currentEvaluation - newEval
+        if self.minimize:
+            drop = -drop
+        if drop <= 0 or random() < exp(-drop/self.temperature):
+            self._current, self._currentEvaluation = challenger, newEval
-- 
2.43.0


From cfcecee4d16935b05827754361a19edf7af5d432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:20 +0000
Subject: [PATCH 061/136] fix: a noisy ES stays within its evaluations

---
 pybrain/optimization/populationbased/es.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/optimization/populationbased/es.py b/pybrain/optimization/populationbased/es.py
index 473dbd6..ba0e320 100644
--- a/pybrain/optimization/populationbased/es.py
+++ b/pybrain/optimization/populationbased/es.py
@@ -70,7 +70,7 @@ class ES(BlackBoxOptimizer):
     @property
     def batchSize(self):
         if self.evaluatorIsNoisy:
-            return self._popsize
+            return self.mu + self.lambada
         else:
             return self.lambada
 
-- 
2.43.0


From 005c9d139ac280feab1bcc0d966879376a625814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:20 +0000
Subject: [PATCH 062/136] fix: random masks are on with maskOnProbability

---
 pybrain/structure/evolvables/maskedparameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/structure/evolvables/maskedparameters.py b/pybrain/structure/evolvables/maskedparameters.py
index caf0020..337810d 100644
--- a/pybrain/structure/evolvables/maskedparameters.py
+++ b/pybrain/structure/evolvables/maskedparameters.py
@@ -72,7 +72,7 @@ class MaskedParameters(TopologyEvolvable):
         self.mask = zeros(self.pcontainer.paramdim, dtype=bool)
         onbits = []
         for i in range(self.pcontainer.paramdim):
-            if random() > self.maskOnProbability:
+            if random() < self.maskOnProbability:
                 self.mask[i] = True
                 onbits.append(i)
         over = len(onbits) - self.maxComplexity
-- 
2.43.0


From 55f47b183b4479c79b76e65d6de94a85d6c9725d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:51 +0000
Subject: [PATCH 063/136] fix: scalar bounds of a function apply to every
 dimension, and Rosenbrock has bounds

---
 pybrain/rl/environments/functions/function.py | 7 +++++--
 pybrain/rl/environments/functions/unimodal.py | 8 ++------
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/pybrain/rl/environments/functions/function.py b/pybrain/rl/environments/functions/function.py
index f8cee04..a3927ef 100644
--- a/pybrain/rl/environments/functions/function.py
+++ b/pybrain/rl/environments/functions/function.py
@@ -1,7 +1,7 @@
 from pybrain.utilities import setAllArgs
 __author__ = 'Tom Schaul, tom@idsia.ch'
 
-from scipy import zeros, array, ndarray
+from scipy import zeros, array, ndarray, isscalar
 
 from pybrain.rl.environments import Environment
 from pybrain.structure.parametercontainer import ParameterContainer
@@ -30,13 +30,16 @@ class FunctionEnvironment(Environment, FitnessEvaluator):
         self.feasible=feasible
         self.constrained=constrained
         self.violation=violation
-        self.xbound=xbound
         if xdim is None:
             xdim = self.xdim
         if xdim is None:
             xdim = self.xdimMin
         assert xdim >= self.xdimMin and not (self.xdimMax is not None and xdim > self.xdimMax)
         self.xdim = xdim
+        if isscalar(xbound):
+            # the same symmetric bounds in all dimensions
+            xbound = [(-xbound, xbound)] * xdim
+        self.xbound = xbound
         if xopt is None:
             self.xopt = zeros(self.xdim)
         else:
diff --git a/pybrain/rl/environments/functions/unimodal.py b/pybrain/rl/environments/functions/unimodal.py
index a71139f..d2c6dc2 100644
--- a/pybrain/rl/environments/functions/unimodal.py
+++ b/pybrain/rl/environments/functions/unimodal.py
@@ -106,13 +106,9 @@ class RosenbrockFunction(FunctionEnvironment):
     """ Banana-shaped function with a tricky optimum in the valley at 1,1.
     (has another, local optimum in higher dimensions)."""
     def __init__(self, xdim = 2, xopt = None):
-        assert xdim >= self.xdimMin and not (self.xdimMax is not None and xdim > self.xdimMax)
-        self.xdim = xdim
         if xopt is None:
-            self.xopt = ones(self.xdim)
-        else:
-            self.xopt = xopt
-        self.reset()
+            xopt = ones(xdim)
+        FunctionEnvironment.__init__(self, xdim, xopt)
 
     def f(self, x):
         return sum(100*(x[:-1]**2-x[1:])**2 + (x[:-1]-1)**2)
-- 
2.43.0


From f4a4ce682e6f3822bb9eae35116ae948276604cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:14 +0000
Subject: [PATCH 064/136] fix: each masked parameter container keeps its own
 values

---
 pybrain/structure/evolvables/maskedmodule.py     | 5 +++++
 pybrain/structure/evolvables/maskedparameters.py | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pybrain/structure/evolvables/maskedmodule.py b/pybrain/structure/evolvables/maskedmodule.py
index 0f3e703..c777a0e 100644
--- a/pybrain/structure/evolvables/maskedmodule.py
+++ b/pybrain/structure/evolvables/maskedmodule.py
@@ -14,18 +14,23 @@ class MaskedModule(MaskedParameters, Module):
         return self.pcontainer._resetBuffers()
 
     def activate(self, *args, **kwargs):
+        self._applyMask()
         return self.pcontainer.activate(*args, **kwargs)
 
     def backActivate(self, *args, **kwargs):
+        self._applyMask()
         return self.pcontainer.backActivate(*args, **kwargs)
 
     def forward(self, *args, **kwargs):
+        self._applyMask()
         return self.pcontainer.forward(*args, **kwargs)
 
     def backward(self, *args, **kwargs):
+        self._applyMask()
         return self.pcontainer.backward(*args, **kwargs)
 
     def activateOnDataset(self, *args, **kwargs):
+        self._applyMask()
         return self.pcontainer.activateOnDataset(*args, **kwargs)
 
 
diff --git a/pybrain/structure/evolvables/maskedparameters.py b/pybrain/structure/evolvables/maskedparameters.py
index 337810d..df5f8f0 100644
--- a/pybrain/structure/evolvables/maskedparameters.py
+++ b/pybrain/structure/evolvables/maskedparameters.py
@@ -47,7 +47,8 @@ class MaskedParameters(TopologyEvolvable):
     def params(self):
         """ returns an array with (usually) only the unmasked parameters """
         if self.returnZeros:
-            return self.pcontainer.params
+            # the container may be shared with copies that have another mask
+            return self.mask*self.maskableParams
         else:
             x = zeros(self.paramdim)
             paramcount = 0
-- 
2.43.0


From ff75a7c31d72dd3c98e4a899e71e3b3dc7afc3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:14 +0000
Subject: [PATCH 065/136] fix: the best evaluable found during the
 initialization is kept

---
 pybrain/optimization/optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/optimization/optimizer.py b/pybrain/optimization/optimizer.py
index d6faf3f..792f86d 100644
--- a/pybrain/optimization/optimizer.py
+++ b/pybrain/optimization/optimizer.py
@@ -153,7 +153,8 @@ class BlackBoxOptimizer(DirectSearchLearner):
         self._setInitEvaluable(initEvaluable)        
         self.bestEvaluation = None
         self._additionalInit()
-        self.bestEvaluable = self._initEvaluable
+        if self.bestEvaluation is None:
+            self.bestEvaluable = self._initEvaluable
         
     def _flipDirection(self):
         self.__evaluator = oppositeFunction(self.__evaluator)
-- 
2.43.0


From 239626505ea36151bff8437ca8bf8b206d02fcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:43 +0000
Subject: [PATCH 066/136] fix: optimizers work on a copy of the initial point

---
 pybrain/optimization/optimizer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pybrain/optimization/optimizer.py b/pybrain/optimization/optimizer.py
index 792f86d..11841f6 100644
--- a/pybrain/optimization/optimizer.py
+++ b/pybrain/optimization/optimizer.py
@@ -180,7 +180,7 @@ class BlackBoxOptimizer(DirectSearchLearner):
         # we wrap it into a ParameterContainer.
         if isinstance(evaluable, ndarray):            
             pc = ParameterContainer(len(evaluable))
-            pc._setParameters(evaluable)
+            pc._setParameters(evaluable.copy())
             self._wasWrapped = True
             evaluable = pc
         self._initEvaluable = evaluable
@@ -338,8 +338,8 @@ class TopologyOptimizer(BlackBoxOptimizer):
         # distinguish modules from parameter containers.
         if not isinstance(evaluable, TopologyEvolvable):
             if isinstance(evaluable, Module):
-                self._initEvaluable = MaskedModule(self._initEvaluable)
+                self._initEvaluable = MaskedModule(self._initEvaluable.copy())
             else:
-                self._initEvaluable = MaskedParameters(self._initEvaluable, returnZeros = True)   
+                self._initEvaluable = MaskedParameters(self._initEvaluable.copy(), returnZeros = True)   
     
      
-- 
2.43.0


From 0de190160c1be1e65ac6d85800862c348cdeb968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:21 +0000
Subject: [PATCH 067/136] fix: an optimizer whose direction is changed starts
 again

---
 pybrain/optimization/optimizer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pybrain/optimization/optimizer.py b/pybrain/optimization/optimizer.py
index 11841f6..6605052 100644
--- a/pybrain/optimization/optimizer.py
+++ b/pybrain/optimization/optimizer.py
@@ -110,6 +110,11 @@ class BlackBoxOptimizer(DirectSearchLearner):
         if self.__evaluator is not None:
             if opp is not self._wasOpposed: 
                 self._flipDirection()
+                self._wasOpposed = opp
+                if self.bestEvaluation is not None:
+                    # all evaluations so far have the other sign
+                    self.bestEvaluation = None
+                    self._additionalInit()
         self._wasOpposed = opp
         
     #: Minimize cost or maximize fitness? By default, all functions are maximized.    
-- 
2.43.0


From 6aa8a1bedd6a42769bb8974736a8bea0798eeb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:56 +0000
Subject: [PATCH 068/136] fix: XNES stops when its update is not finite

---
 pybrain/optimization/distributionbased/xnes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pybrain/optimization/distributionbased/xnes.py b/pybrain/optimization/distributionbased/xnes.py
index 245ebe3..ab320c1 100644
--- a/pybrain/optimization/distributionbased/xnes.py
+++ b/pybrain/optimization/distributionbased/xnes.py
@@ -5,8 +5,9 @@ __author__ = 'Tom Schaul, Sun Yi, Tobias Glasmachers'
 from pybrain.tools.rankingfunctions import HansenRanking
 from pybrain.optimization.distributionbased.distributionbased import DistributionBasedOptimizer
 from pybrain.auxiliary.importancemixing import importanceMixing
+from pybrain.utilities import DivergenceError
 from scipy.linalg import expm
-from scipy import dot, array, randn, eye, outer, exp, trace, floor, log, sqrt
+from scipy import dot, array, randn, eye, outer, exp, trace, floor, log, sqrt, isfinite
 
 
 class XNES(DistributionBasedOptimizer):
@@ -67,6 +68,8 @@ class XNES(DistributionBasedOptimizer):
         covGradient -= covTrace/self.numParameters * I
         dA = 0.5 * (self.scaleLearningRate * covTrace/self.numParameters * I
                     +self.covLearningRate * covGradient)
+        if not isfinite(exp(abs(dA)).sum()):
+            raise DivergenceError
 
         self._lastLogDetA = self._logDetA
         self._lastInvA = self._invA
-- 
2.43.0


From a4065e1f1ddc0954f615af3791bd9ad6fdc75b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:09 +0000
Subject: [PATCH 069/136] fix: the non-dominated front of more than 100 items

---
 pybrain/tools/nondominated.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pybrain/tools/nondominated.py b/pybrain/tools/nondominated.py
index 9f0fb7d..9ba0fcb 100644
--- a/pybrain/tools/nondominated.py
+++ b/pybrain/tools/nondominated.py
@@ -150,9 +150,9 @@ def _non_dominated_front_merge_arr(iterable, key=lambda x: x, allowequality=True
     items = list(iterable)
     l = len(items)
     if l > 100:
-        part1 = list(_non_dominated_front_merge_arr(items[:l / 2], key, allowequality))
-        part2 = list(_non_dominated_front_merge_arr(items[l / 2:], key, allowequality))
-        if len(part1) >= l / 3 or len(part2) >= l / 3:
+        part1 = list(_non_dominated_front_merge_arr(items[:l // 2], key, allowequality))
+        part2 = list(_non_dominated_front_merge_arr(items[l // 2:], key, allowequality))
+        if len(part1) >= l // 3 or len(part2) >= l // 3:
             return _non_dominated_front_arr(part1 + part2, key, allowequality)
         else:
             return _non_dominated_front_merge_arr(part1 + part2, key, allowequality)
-- 
2.43.0


From 75ba9709d9a97fb93ee56d4c6151dfc01975f4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:09 +0000
Subject: [PATCH 070/136] fix: crowding distances when all fitnesses are equal
 in an objective

---
 pybrain/tools/nondominated.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pybrain/tools/nondominated.py b/pybrain/tools/nondominated.py
index 9ba0fcb..f754ee1 100644
--- a/pybrain/tools/nondominated.py
+++ b/pybrain/tools/nondominated.py
@@ -14,7 +14,8 @@ def crowding_distance(individuals, fitnesses):
     for i in range(n_obj):
         individuals.sort(key=lambda x: fitnesses[x][i])
         # normalization between 0 and 1.
-        normalization = float(fitnesses[individuals[0]][i] - fitnesses[individuals[-1]][i])
+        # equal values have no distance
+        normalization = float(fitnesses[individuals[0]][i] - fitnesses[individuals[-1]][i]) or 1.
         # Make sure the boundary points are always selected.
         distances[individuals[0]] = 1e100
         distances[individuals[-1]] = 1e100
@@ -263,7 +264,8 @@ def const_crowding_distance(individuals, fitnesses):
     for i in range(n_obj):
         individuals.sort(key=lambda x: fitnesses[x][0][i])
         # normalization between 0 and 1.
-        normalization = float(fitnesses[individuals[0]][0][i] - fitnesses[individuals[-1]][0][i])
+        # equal values have no distance
+        normalization = float(fitnesses[individuals[0]][0][i] - fitnesses[individuals[-1]][0][i]) or 1.
         # Make sure the boundary points are always selected.
         distances[individuals[0]] = 1e100
         distances[individuals[-1]] = 1e100
-- 
2.43.0


From 16a0ec5cf385173161be3bc84b44d0c41ed4b03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:09 +0000
Subject: [PATCH 071/136] fix: Schaffer's benchmark has one value per objective

---
 pybrain/rl/environments/functions/multiobjective.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/functions/multiobjective.py b/pybrain/rl/environments/functions/multiobjective.py
index c5006ae..72e0133 100644
--- a/pybrain/rl/environments/functions/multiobjective.py
+++ b/pybrain/rl/environments/functions/multiobjective.py
@@ -43,7 +43,7 @@ class SchBenchmark(MultiObjectiveFunction):
     xdimMax = 1
 
     def f(self, x):
-        return -array([x**2, (x-2)**2])
+        return -array([x[0]**2, (x[0]-2)**2])
 
 
 class FonBenchmark(MultiObjectiveFunction):
-- 
2.43.0


From 9944f850c01bdb08f083c51e6e9150aa87d7a274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:09 +0000
Subject: [PATCH 072/136] fix: top linear ranking of a single selected sample,
 tournaments of one sample

---
 pybrain/tools/rankingfunctions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pybrain/tools/rankingfunctions.py b/pybrain/tools/rankingfunctions.py
index ea9a923..8c37aed 100644
--- a/pybrain/tools/rankingfunctions.py
+++ b/pybrain/tools/rankingfunctions.py
@@ -54,7 +54,7 @@ class TournamentSelection(RankingFunction):
             l = [i]
             for dummy in range(self.tournamentSize - 1):
                 randindex = i
-                while randindex == i:
+                while randindex == i and len(R) > 1:
                     randindex = randint(0, len(R) - 1)
                 l.append(randindex)
             fits = [R[x] for x in l]
@@ -132,7 +132,11 @@ class TopLinearRanking(TopSelection):
                 res[i] = ranks[i] - cutoff
             else:
                 res[i] = 0.0
-        res /= max(res)
+        if max(res) > 0:
+            res /= max(res)
+        else:
+            # only the best one is selected
+            res[argmax(ranks)] = 1.0
         return res
 
     def getPossibleParameters(self, numberOfSamples):
-- 
2.43.0


From b00d82f64144f6b671085d802f454004b29f1bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:21 +0000
Subject: [PATCH 073/136] fix: multi-objective optimization without elitism

---
 .../populationbased/multiobjective/constnsga2.py       | 10 +++++++---
 .../populationbased/multiobjective/nsga2.py            | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/pybrain/optimization/populationbased/multiobjective/constnsga2.py b/pybrain/optimization/populationbased/multiobjective/constnsga2.py
index c346362..c1b977e 100644
--- a/pybrain/optimization/populationbased/multiobjective/constnsga2.py
+++ b/pybrain/optimization/populationbased/multiobjective/constnsga2.py
@@ -41,15 +41,19 @@ class ConstMultiObjectiveGA(GA):
         if self.storeAllPopulations:
             self._allGenerations.append((self.currentpop, self.fitnesses))
 
+        fitnesses = dict(self.fitnesses)
         if self.elitism:
             self.bestEvaluable = list(const_non_dominated_front(list(map(tuple, self.currentpop)),
                                                           key=lambda x: self.fitnesses[x],
                                                           allowequality = self.allowEquality))
         else:
-            self.bestEvaluable = list(const_non_dominated_front(list(map(tuple, self.currentpop))+self.bestEvaluable,
-                                                          key=lambda x: self.fitnesses[x],
+            # keep the best ones of the former generations
+            if self.bestEvaluation is not None:
+                fitnesses.update(zip(self.bestEvaluable, self.bestEvaluation))
+            self.bestEvaluable = list(const_non_dominated_front(list(fitnesses),
+                                                          key=lambda x: fitnesses[x],
                                                           allowequality = self.allowEquality))
-        self.bestEvaluation = [self.fitnesses[indiv] for indiv in self.bestEvaluable]
+        self.bestEvaluation = [fitnesses[indiv] for indiv in self.bestEvaluable]
 #        self.eliteProportion = float(len(self.bestEvaluable))/self.populationSize
 #        number_of_feasible = const_number_of_feasible_pop(map(tuple, self.currentpop),
 #                                                          key=lambda x: self.fitnesses[x],
diff --git a/pybrain/optimization/populationbased/multiobjective/nsga2.py b/pybrain/optimization/populationbased/multiobjective/nsga2.py
index 3cc7fba..27d6e89 100644
--- a/pybrain/optimization/populationbased/multiobjective/nsga2.py
+++ b/pybrain/optimization/populationbased/multiobjective/nsga2.py
@@ -43,15 +43,19 @@ class MultiObjectiveGA(GA):
         if self.storeAllPopulations:
             self._allGenerations.append((self.currentpop, self.fitnesses))
 
+        fitnesses = dict(self.fitnesses)
         if self.elitism:
             self.bestEvaluable = list(non_dominated_front(list(map(tuple, self.currentpop)),
                                                           key=lambda x: self.fitnesses[x],
                                                           allowequality = self.allowEquality))
         else:
-            self.bestEvaluable = list(non_dominated_front(list(map(tuple, self.currentpop))+self.bestEvaluable,
-                                                          key=lambda x: self.fitnesses[x],
+            # keep the best ones of the former generations
+            if self.bestEvaluation is not None:
+                fitnesses.update(zip(self.bestEvaluable, self.bestEvaluation))
+            self.bestEvaluable = list(non_dominated_front(list(fitnesses),
+                                                          key=lambda x: fitnesses[x],
                                                           allowequality = self.allowEquality))
-        self.bestEvaluation = [self.fitnesses[indiv] for indiv in self.bestEvaluable]
+        self.bestEvaluation = [fitnesses[indiv] for indiv in self.bestEvaluable]
 
         self.produceOffspring()
 
-- 
2.43.0


From 3be80cd51fad500697a25854cb99ed62746f6f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:29 +0000
Subject: [PATCH 074/136] fix: the fourth constraint of the Osyczka and Kundu
 benchmark

---
 pybrain/rl/environments/functions/multiobjective.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/functions/multiobjective.py b/pybrain/rl/environments/functions/multiobjective.py
index 72e0133..2a28e84 100644
--- a/pybrain/rl/environments/functions/multiobjective.py
+++ b/pybrain/rl/environments/functions/multiobjective.py
@@ -188,7 +188,7 @@ class ConstOsy(MultiObjectiveFunction):
         g1 = x[0] + x[1] -2.0
         g2 = 6.0 -x[0] -x[1]
         g3 = 2.0 -x[1] +x[0]
-        g4 = 1.0 -x[0] +3.0*x[1]
+        g4 = 2.0 -x[0] +3.0*x[1]
         g5 = 4.0 -(x[2]-3)**2 -x[3]
         g6 = (x[4]-3)**2 +x[5] -4.0
         if g1 >= 0 and g2 >= 0 and g3 >= 0 and g4 >= 0 and g5 >= 0 and g6 >= 0:
-- 
2.43.0


From 73c4f5bd1cdb2eef5b894d2c3be963fcf1b47f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:07 +0000
Subject: [PATCH 075/136] fix: the Schwefel function depends on every
 coordinate

---
 pybrain/rl/environments/functions/unimodal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/functions/unimodal.py b/pybrain/rl/environments/functions/unimodal.py
index d2c6dc2..c3fe000 100644
--- a/pybrain/rl/environments/functions/unimodal.py
+++ b/pybrain/rl/environments/functions/unimodal.py
@@ -18,7 +18,7 @@ class SchwefelFunction(FunctionEnvironment):
     def f(self, x):
         s = 0
         for i in range(len(x)):
-            s += sum(x[:i])**2
+            s += sum(x[:i+1])**2
         return s
 
 
-- 
2.43.0


From 68f0b4605bd24cf9b006e6a64172bc9a17a34365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:07 +0000
Subject: [PATCH 076/136] fix: functions do not change their argument

---
 pybrain/rl/environments/functions/multimodal.py | 2 +-
 pybrain/rl/environments/functions/unimodal.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/environments/functions/multimodal.py b/pybrain/rl/environments/functions/multimodal.py
index f8d746e..dbfaf4e 100644
--- a/pybrain/rl/environments/functions/multimodal.py
+++ b/pybrain/rl/environments/functions/multimodal.py
@@ -86,7 +86,7 @@ class BucheRastriginFunction(MultiModalFunction):
     """ Deceptive and highly multi-modal."""
     
     def f(self, x):
-        z = x[:]
+        z = x.copy()
         for i in range(self.xdim):
             e = i/(self.xdim-1.)/2.
             if x[i] <= 0 or i%2==0:
diff --git a/pybrain/rl/environments/functions/unimodal.py b/pybrain/rl/environments/functions/unimodal.py
index c3fe000..24159b9 100644
--- a/pybrain/rl/environments/functions/unimodal.py
+++ b/pybrain/rl/environments/functions/unimodal.py
@@ -136,7 +136,7 @@ class BoundedLinear(FunctionEnvironment):
         self._signs = sign(randn(self.xdim))       
     
     def f(self, x):
-        x_ = x[:]
+        x_ = x.copy()
         for i, xi in enumerate(x):
             if xi*self._signs[i] > 5:
                 x_[i] = self._signs[i]*5
-- 
2.43.0


From 4c4230a7babe78bd542875f2940d33f2c0b92e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:08 +0000
Subject: [PATCH 077/136] fix: translated functions do not move the optimum of
 their base function

---
 pybrain/rl/environments/functions/transformations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/functions/transformations.py b/pybrain/rl/environments/functions/transformations.py
index bf1620b..6f160cf 100644
--- a/pybrain/rl/environments/functions/transformations.py
+++ b/pybrain/rl/environments/functions/transformations.py
@@ -44,7 +44,7 @@ class TranslateFunction(FunctionEnvironment):
             self._offset *= distance / norm(self._offset)
         else:
             self._offset = offset
-        self.xopt += self._offset
+        self.xopt = basef.xopt + self._offset
         self.desiredValue = basef.desiredValue            
         self.toBeMinimized = basef.toBeMinimized
         def tf(x):
-- 
2.43.0


From 2e6ab575080e0eb5156eb7c53d543aafa0040593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:08 +0000
Subject: [PATCH 078/136] fix: the optimum of a rotated function

---
 pybrain/rl/environments/functions/transformations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/functions/transformations.py b/pybrain/rl/environments/functions/transformations.py
index 6f160cf..09e09a1 100644
--- a/pybrain/rl/environments/functions/transformations.py
+++ b/pybrain/rl/environments/functions/transformations.py
@@ -68,7 +68,7 @@ class RotateFunction(FunctionEnvironment):
             self._M = rotMat
         self.desiredValue = basef.desiredValue            
         self.toBeMinimized = basef.toBeMinimized   
-        self.xopt = dot(inv(self._M), self.xopt)
+        self.xopt = dot(self.xopt, inv(self._M))
         def rf(x):
             if isinstance(x, ParameterContainer):
                 x = x.params
-- 
2.43.0


From 8638e17a4efb53f0efe69a51744981fdffa070f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:08 +0000
Subject: [PATCH 079/136] fix: the BBOB oscillation keeps the sign

---
 pybrain/rl/environments/functions/transformations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pybrain/rl/environments/functions/transformations.py b/pybrain/rl/environments/functions/transformations.py
index 09e09a1..4179aac 100644
--- a/pybrain/rl/environments/functions/transformations.py
+++ b/pybrain/rl/environments/functions/transformations.py
@@ -1,7 +1,7 @@
 __author__ = 'Tom Schaul, tom@idsia.ch'
 
 
-from scipy import rand, dot, power, diag, eye, sqrt, sin, log, exp, ravel, clip, arange
+from scipy import rand, dot, power, diag, eye, sqrt, sin, log, exp, ravel, clip, arange, sign
 from scipy.linalg import orth, norm, inv
 from random import shuffle, random, gauss
 
@@ -254,7 +254,7 @@ class BBOBTransformationFunction(FunctionEnvironment):
                 c1 = 10
                 c2 = 7.9
             else:
-                s = 1
+                s = -1
                 c1 = 5.5
                 c2 = 3.1
             res[i] = s * exp(log(abs(xi)) + 0.049 * (sin(c1 * xi) + sin(c2 * xi)))
@@ -265,7 +265,7 @@ class BBOBTransformationFunction(FunctionEnvironment):
 
     @staticmethod
     def oscillatify(x):
-        return exp(log(abs(x)+1e-100)
+        return sign(x) * exp(log(abs(x)+1e-100)
                    + (x>0) * 0.049 * (sin(10 * x) + sin(7.9 * x))
                    + (x<0) * 0.049 * (sin(5.5 * x) + sin(3.1 * x)))
         
\ No newline at end of file
-- 
2.43.0


From 325fae4387a79a7cc25da13da328e92eb2d41512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:08 +0000
Subject: [PATCH 080/136] fix: functions that divide by the dimension minus one
 need two dimensions

---
 pybrain/rl/environments/functions/multimodal.py | 2 +-
 pybrain/rl/environments/functions/unimodal.py   | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/functions/multimodal.py b/pybrain/rl/environments/functions/multimodal.py
index dbfaf4e..e215e5c 100644
--- a/pybrain/rl/environments/functions/multimodal.py
+++ b/pybrain/rl/environments/functions/multimodal.py
@@ -30,7 +30,7 @@ class FunnelFunction(MultiModalFunction):
 
 class RastriginFunction(MultiModalFunction):
     """ A classical multimodal benchmark with plenty of local minima, globally arranged on a bowl. """
-    def __init__(self, xdim=1, a=1, xopt=None):
+    def __init__(self, xdim=2, a=1, xopt=None):
         # additional parameter
         self.a = a
         FunctionEnvironment.__init__(self, xdim, xopt)
diff --git a/pybrain/rl/environments/functions/unimodal.py b/pybrain/rl/environments/functions/unimodal.py
index 24159b9..a6edb64 100644
--- a/pybrain/rl/environments/functions/unimodal.py
+++ b/pybrain/rl/environments/functions/unimodal.py
@@ -41,6 +41,8 @@ class TabletFunction(FunctionEnvironment):
 class ElliFunction(FunctionEnvironment):
     """ Ellipsoid. """
         
+    xdimMin = 2
+
     a = 1000
     
     def __init__(self, *args, **kwargs):
@@ -92,6 +94,7 @@ class DiffPowFunction(FunctionEnvironment):
     """ Different powers.
     Standard setting: a=10 (other variants: a=4)
     """
+    xdimMin = 2
     
     a = 10
     
@@ -129,6 +132,8 @@ class GlasmachersFunction(FunctionEnvironment):
 class BoundedLinear(FunctionEnvironment):
     """ Linear function within the domain [-5,5], constant from the 
     best corner onwards. """
+
+    xdimMin = 2
     
     def __init__(self, *args, **kwargs):
         FunctionEnvironment.__init__(self, *args, **kwargs)
-- 
2.43.0


From 4492f3fea1add10055286f794cfc755db338b98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:35 +0000
Subject: [PATCH 081/136] fix: the benchmark functions have their minimum at
 xopt

---
 pybrain/rl/environments/functions/multimodal.py | 17 ++++++++++++++++-
 .../environments/functions/transformations.py   |  2 +-
 pybrain/rl/environments/functions/unimodal.py   |  6 ++++--
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/pybrain/rl/environments/functions/multimodal.py b/pybrain/rl/environments/functions/multimodal.py
index e215e5c..de9a00e 100644
--- a/pybrain/rl/environments/functions/multimodal.py
+++ b/pybrain/rl/environments/functions/multimodal.py
@@ -4,7 +4,7 @@ from __future__ import print_function
 
 __author__ = 'Tom Schaul, tom@idsia.ch'
 
-from scipy import power, exp, cos, sqrt, rand, sin, floor, dot, ones, sign, randn, prod
+from scipy import power, exp, cos, sqrt, rand, sin, floor, dot, ones, sign, randn, prod, array
 from scipy.linalg import orth
 from math import pi
 from random import shuffle
@@ -22,6 +22,10 @@ class FunnelFunction(MultiModalFunction):
     funnelSize = 1.0
     funnelDepth = 1.
 
+    def __init__(self, *args, **kwargs):
+        MultiModalFunction.__init__(self, *args, **kwargs)
+        self.xopt = 2.5 * ones(self.xdim)
+
     def f(self, x):
         return min(dot(x - 2.5 * ones(self.xdim), x - 2.5 * ones(self.xdim)), \
             self.funnelDepth * self.xdim + self.funnelSize * dot(x + 2.5 * ones(self.xdim), x + 2.5 * ones(self.xdim)))
@@ -96,6 +100,10 @@ class BucheRastriginFunction(MultiModalFunction):
     
 class GriewankRosenbrockFunction(MultiModalFunction):
     """ Composite between the two. """
+
+    def __init__(self, *args, **kwargs):
+        MultiModalFunction.__init__(self, *args, **kwargs)
+        self.xopt = ones(self.xdim)
     
     def f(self, x):
         s = 100 * (x[:-1] ** 2 - x[1:]) ** 2 + (x[:-1] - 1) ** 2
@@ -109,6 +117,7 @@ class Schwefel_2_13Function(MultiModalFunction):
         self.A = floor(rand(self.xdim, self.xdim) * 200) - 100
         self.B = floor(rand(self.xdim, self.xdim) * 200) - 100
         self.alphas = 2 * pi * rand(self.xdim) - pi
+        self.xopt = self.alphas.copy()
 
     def f(self, x):
         res = 0
@@ -150,6 +159,7 @@ class GallagherGauss101MeFunction(MultiModalFunction):
         MultiModalFunction.__init__(self, *args, **kwargs)
         print((self.numPeaks, self.xdim))
         self._opts = [(rand(self.xdim) - 0.5) * 8]
+        self.xopt = self._opts[0].copy()
         self._opts.extend([(rand(self.xdim) - 0.5) * 9.8 for _ in range(self.numPeaks-1)])
         alphas = [power(self.maxCond, 2 * i / float(self.numPeaks - 2)) for i in range(self.numPeaks - 1)]
         shuffle(alphas)
@@ -192,6 +202,7 @@ class LunacekBiRastriginFunction(MultiModalFunction):
         self._signs = sign(randn(self.xdim))
         self._R1 = orth(rand(self.xdim, self.xdim))
         self._R2 = orth(rand(self.xdim, self.xdim))
+        self.xopt = self._signs * self._mu0 / 2.
         self._diags = generateDiags(100, self.xdim)
         
     def f(self, x):
@@ -220,6 +231,10 @@ class BraninFunction(MultiModalFunction):
 
     _globalOptima = [[-pi, 12.275], [pi, 2.275], [9.42478, 2.475]]
 
+    def __init__(self, *args, **kwargs):
+        MultiModalFunction.__init__(self, *args, **kwargs)
+        self.xopt = array(self._globalOptima[1])
+
     def f(self, x):
         return self._a * (x[1] - self._b * x[0] ** 2 + self._c * x[0] - self._d) ** 2 + self._e * ((1 - self._f) * cos(x[0]) + 1) - self.vopt
 
diff --git a/pybrain/rl/environments/functions/transformations.py b/pybrain/rl/environments/functions/transformations.py
index 4179aac..d15c3e4 100644
--- a/pybrain/rl/environments/functions/transformations.py
+++ b/pybrain/rl/environments/functions/transformations.py
@@ -226,7 +226,7 @@ class BBOBTransformationFunction(FunctionEnvironment):
         else:
             tmp4 = lambda x: dot(prefix, tmp3(x - self.xopt))
                             
-        self.f = lambda x: (noisetrans(basef.f(tmp4(x))) 
+        self.f = lambda x: (noisetrans(basef.f(tmp4(x) + basef.xopt)) 
                             + penalized * penalize(x))
         
 
diff --git a/pybrain/rl/environments/functions/unimodal.py b/pybrain/rl/environments/functions/unimodal.py
index a6edb64..9300729 100644
--- a/pybrain/rl/environments/functions/unimodal.py
+++ b/pybrain/rl/environments/functions/unimodal.py
@@ -78,8 +78,9 @@ class AttractiveSectorFunction(FunctionEnvironment):
     
     def f(self, x):
         from .transformations import BBOBTransformationFunction
-        quad = (x*self.xopt > 0)
-        sz = 100 * x * quad + x * (quad==False)         
+        z = x - self.xopt
+        quad = (z*self.xopt > 0)
+        sz = 100 * z * quad + z * (quad==False)         
         return power(BBOBTransformationFunction.oscillatify(dot(sz, sz)), 0.9)
         
         
@@ -139,6 +140,7 @@ class BoundedLinear(FunctionEnvironment):
         FunctionEnvironment.__init__(self, *args, **kwargs)
         self._w = [power(10, i/(self.xdim-1.)) for i in range(self.xdim)]        
         self._signs = sign(randn(self.xdim))       
+        self.xopt = 5 * self._signs
     
     def f(self, x):
         x_ = x.copy()
-- 
2.43.0


From 3a1bc5b3fb5ad7f1b60de386053c147b94c4a392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:35 +0000
Subject: [PATCH 082/136] fix: the Schwefel function of BBOB

---
 pybrain/rl/environments/functions/multimodal.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pybrain/rl/environments/functions/multimodal.py b/pybrain/rl/environments/functions/multimodal.py
index de9a00e..497564e 100644
--- a/pybrain/rl/environments/functions/multimodal.py
+++ b/pybrain/rl/environments/functions/multimodal.py
@@ -143,9 +143,10 @@ class Schwefel20Function(MultiModalFunction):
         
     def f(self, x):
         z = 2* x * self._signs        
-        z[1:] += (z[:-1]-self.xopt[:-1]) * 0.25
-        z = 100 * (dot(self._diags, (z-self.xopt)) + self.xopt)
-        return - 1. / float(self.xdim) * sum(z * sin(sqrt(abs(z)))) + self._k + 100 * penalize(z / 100.)
+        opt = 2 * abs(self.xopt)
+        z[1:] += (z[:-1]-opt[:-1]) * 0.25
+        z = 100 * (dot(self._diags, (z-opt)) + opt)
+        return - 0.01 / float(self.xdim) * sum(z * sin(sqrt(abs(z)))) + self._k + 100 * penalize(z / 100.)
         
     
 class GallagherGauss101MeFunction(MultiModalFunction):
-- 
2.43.0


From b2941ae3104555d47b8ebf6b54873a7fc39343f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:30 +0000
Subject: [PATCH 083/136] fix: the opposite of a constrained function tells
 which points are feasible

---
 pybrain/rl/environments/functions/transformations.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/functions/transformations.py b/pybrain/rl/environments/functions/transformations.py
index d15c3e4..f7ec7f9 100644
--- a/pybrain/rl/environments/functions/transformations.py
+++ b/pybrain/rl/environments/functions/transformations.py
@@ -24,7 +24,12 @@ def oppositeFunction(basef):
                 res = FunctionEnvironment(basef.xdim, basef.xopt)
         else:
             res = FitnessEvaluator()        
-        res.f = lambda x:-basef.f(x)
+        def opposite(x):
+            y = -basef.f(x)
+            if isinstance(basef, MultiObjectiveFunction):
+                res.feasible, res.violation = basef.feasible, basef.violation
+            return y
+        res.f = opposite
         if not basef.desiredValue is None:
             res.desiredValue = -basef.desiredValue
         res.toBeMinimized = not basef.toBeMinimized
-- 
2.43.0


From 3e7bab8f2b041bdfedecb1421bd149e71d9e7969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:32 +0000
Subject: [PATCH 084/136] fix: tournament selection counts the wins of the
 sample that won

---
 pybrain/tools/rankingfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/tools/rankingfunctions.py b/pybrain/tools/rankingfunctions.py
index 8c37aed..48e2d33 100644
--- a/pybrain/tools/rankingfunctions.py
+++ b/pybrain/tools/rankingfunctions.py
@@ -58,7 +58,7 @@ class TournamentSelection(RankingFunction):
                     randindex = randint(0, len(R) - 1)
                 l.append(randindex)
             fits = [R[x] for x in l]
-            res[argmax(fits)] += 1
+            res[l[argmax(fits)]] += 1
         return res
 
 
-- 
2.43.0


From 07822a94acac0c382a55340ef969c45afa3baec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:19 +0000
Subject: [PATCH 085/136] fix: illegal moves are not counted as moves

---
 pybrain/rl/environments/twoplayergames/capturegame.py | 5 +++--
 pybrain/rl/environments/twoplayergames/gomoku.py      | 4 ++--
 pybrain/rl/environments/twoplayergames/pente.py       | 4 ++--
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/pybrain/rl/environments/twoplayergames/capturegame.py b/pybrain/rl/environments/twoplayergames/capturegame.py
index 9dd9660..c67c82e 100644
--- a/pybrain/rl/environments/twoplayergames/capturegame.py
+++ b/pybrain/rl/environments/twoplayergames/capturegame.py
@@ -75,13 +75,14 @@ class CaptureGame(TwoPlayerGame):
     def doMove(self, c, pos):
         """ the action is a (color, position) tuple, for the next stone to move.
         returns True if the move was legal. """
-        self.movesDone += 1
         if pos == 'resign':
+            self.movesDone += 1
             self.winner = -c
             return True
         elif not self.isLegal(c, pos):
             return False
-        elif self._suicide(c, pos):
+        self.movesDone += 1
+        if self._suicide(c, pos):
             assert self.suicideenabled
             self.b[pos] = 'y'
             self.winner = -c
diff --git a/pybrain/rl/environments/twoplayergames/gomoku.py b/pybrain/rl/environments/twoplayergames/gomoku.py
index c9d6bdb..451b940 100644
--- a/pybrain/rl/environments/twoplayergames/gomoku.py
+++ b/pybrain/rl/environments/twoplayergames/gomoku.py
@@ -79,10 +79,10 @@ class GomokuGame(TwoPlayerGame):
     def doMove(self, c, pos):
         """ the action is a (color, position) tuple, for the next stone to move.
         returns True if the move was legal. """
-        self.movesDone += 1
         if not self.isLegal(c, pos):
             return False
-        elif self._fiveRow(c, pos):
+        self.movesDone += 1
+        if self._fiveRow(c, pos):
             self.winner = c
             self.b[pos] = 'x'
             return True
diff --git a/pybrain/rl/environments/twoplayergames/pente.py b/pybrain/rl/environments/twoplayergames/pente.py
index e02190a..cb95185 100644
--- a/pybrain/rl/environments/twoplayergames/pente.py
+++ b/pybrain/rl/environments/twoplayergames/pente.py
@@ -50,10 +50,10 @@ class PenteGame(GomokuGame):
     def doMove(self, c, pos):
         """ the action is a (color, position) tuple, for the next stone to move.
         returns True if the move was legal. """
-        self.movesDone += 1
         if not self.isLegal(c, pos):
             return False
-        elif self._fiveRow(c, pos):
+        self.movesDone += 1
+        if self._fiveRow(c, pos):
             self.winner = c
             self.b[pos] = 'x'
             return True
-- 
2.43.0


From bde51551085dffa8bb97e4686ecf68b0efd16959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:19 +0000
Subject: [PATCH 086/136] fix: suicides are no legal capture game positions
 when they are not enabled

---
 pybrain/rl/environments/twoplayergames/capturegame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/twoplayergames/capturegame.py b/pybrain/rl/environments/twoplayergames/capturegame.py
index c67c82e..10d289a 100644
--- a/pybrain/rl/environments/twoplayergames/capturegame.py
+++ b/pybrain/rl/environments/twoplayergames/capturegame.py
@@ -203,7 +203,7 @@ class CaptureGame(TwoPlayerGame):
 
     def getLegals(self, c):
         """ return all the legal positions for a color """
-        return [p for p in self._iterPos() if self.b[p] == self.EMPTY]
+        return [p for p in self._iterPos() if self.isLegal(c, p)]
 
     def getAcceptable(self, c):
         """ return all legal positions for a color that don't commit suicide. """
-- 
2.43.0


From ec1ef9c43e3d9f96d9771f9e3cb55b75ec1fcfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:19 +0000
Subject: [PATCH 087/136] fix: module players on Gomoku boards that are not
 square

---
 .../twoplayergames/gomokuplayers/moduledecision.py            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/environments/twoplayergames/gomokuplayers/moduledecision.py b/pybrain/rl/environments/twoplayergames/gomokuplayers/moduledecision.py
index d6ad145..8642178 100644
--- a/pybrain/rl/environments/twoplayergames/gomokuplayers/moduledecision.py
+++ b/pybrain/rl/environments/twoplayergames/gomokuplayers/moduledecision.py
@@ -59,10 +59,10 @@ class ModuleDecidingPlayer(RandomGomokuPlayer):
         return drawn
 
     def _convertIndexToPos(self, i):
-        return (i//self.game.size[0], i%self.game.size[0])
+        return (i//self.game.size[1], i%self.game.size[1])
 
     def _convertPosToIndex(self, p):
-        return p[0]*self.game.size[0]+p[1]
+        return p[0]*self.game.size[1]+p[1]
 
     def integrateObservation(self, obs = None):
         pass
-- 
2.43.0


From 8b27bc28d4df1c194ddd980fad4433412ff0f294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:19 +0000
Subject: [PATCH 088/136] fix: killing Pente positions are listed once

---
 pybrain/rl/environments/twoplayergames/pente.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/twoplayergames/pente.py b/pybrain/rl/environments/twoplayergames/pente.py
index cb95185..433c362 100644
--- a/pybrain/rl/environments/twoplayergames/pente.py
+++ b/pybrain/rl/environments/twoplayergames/pente.py
@@ -24,7 +24,7 @@ class PenteGame(GomokuGame):
         res = GomokuGame.getKilling(self, c)
         for p in self.getLegals(c):
             k = self._killsWhich(c, p)
-            if self.pairsTaken[c] + len(k) / 2 >= 5:
+            if p not in res and self.pairsTaken[c] + len(k) / 2 >= 5:
                 res.append(p)
         return res
 
-- 
2.43.0


From 6c6c876d038160f20b84170e267c693a5a1d0958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:19 +0000
Subject: [PATCH 089/136] fix: tasks clip normalized sensors

---
 pybrain/rl/environments/task.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pybrain/rl/environments/task.py b/pybrain/rl/environments/task.py
index e771044..261c0ee 100644
--- a/pybrain/rl/environments/task.py
+++ b/pybrain/rl/environments/task.py
@@ -52,9 +52,10 @@ class Task(object):
             if not l:
                 result.append(s)
             else:
-                result.append((s - l[0]) / (l[1] - l[0]) * 2 - 1.0)
-        if self.clipping:
-            clip(result, -1, 1)
+                r = (s - l[0]) / (l[1] - l[0]) * 2 - 1.0
+                if self.clipping:
+                    r = clip(r, -1, 1)
+                result.append(r)
         return asarray(result)
 
     def denormalize(self, actors):
-- 
2.43.0


From d03cf581a7f9adfda1d6bd6dfe9403393e46ec4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:16 +0000
Subject: [PATCH 090/136] fix: drawn tournament games are no wins of the second
 player

---
 pybrain/rl/experiments/tournament.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pybrain/rl/experiments/tournament.py b/pybrain/rl/experiments/tournament.py
index d298311..c467ee0 100644
--- a/pybrain/rl/experiments/tournament.py
+++ b/pybrain/rl/experiments/tournament.py
@@ -64,7 +64,9 @@ class Tournament(Named):
         if players not in self.results:
             self.results[players] = []
         wincolor = self.env.getWinner()
-        if wincolor == p1.color:
+        if wincolor == self.env.DRAW:
+            winner = self.env.DRAW
+        elif wincolor == p1.color:
             winner = p1
         else:
             winner = p2
-- 
2.43.0


From 253bdb3bf03c6435cfb9076b37635271faed6479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:37 +0000
Subject: [PATCH 091/136] fix: Gomoku and Pente opponents play on the board of
 their task

---
 pybrain/rl/environments/twoplayergames/tasks/gomokutask.py | 2 ++
 pybrain/rl/environments/twoplayergames/tasks/pentetask.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pybrain/rl/environments/twoplayergames/tasks/gomokutask.py b/pybrain/rl/environments/twoplayergames/tasks/gomokutask.py
index 3c0296d..8355563 100644
--- a/pybrain/rl/environments/twoplayergames/tasks/gomokutask.py
+++ b/pybrain/rl/environments/twoplayergames/tasks/gomokutask.py
@@ -38,6 +38,8 @@ class GomokuTask(EpisodicTask, Named):
         elif isclass(opponent):
             # assume the agent can be initialized without arguments then.
             opponent = opponent(self.env)
+        else:
+            opponent.game = self.env
         if not self.opponentStart:
             opponent.color = GomokuGame.WHITE
         self.opponent = opponent
diff --git a/pybrain/rl/environments/twoplayergames/tasks/pentetask.py b/pybrain/rl/environments/twoplayergames/tasks/pentetask.py
index daa5338..65767a6 100644
--- a/pybrain/rl/environments/twoplayergames/tasks/pentetask.py
+++ b/pybrain/rl/environments/twoplayergames/tasks/pentetask.py
@@ -19,6 +19,8 @@ class PenteTask(GomokuTask):
         elif isclass(opponent):
             # assume the agent can be initialized without arguments then.
             opponent = opponent(self.env)
+        else:
+            opponent.game = self.env
         if not self.opponentStart:
             opponent.color = PenteGame.WHITE
         self.opponent = opponent
-- 
2.43.0


From 8a9589093e3a7b9ff5e8a47529d1471d0cfe90c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:37 +0000
Subject: [PATCH 092/136] fix: MDP maze observations identify positions of
 mazes that are not square

---
 pybrain/rl/environments/mazes/tasks/mdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/mazes/tasks/mdp.py b/pybrain/rl/environments/mazes/tasks/mdp.py
index 23a97ec..0d32a0f 100644
--- a/pybrain/rl/environments/mazes/tasks/mdp.py
+++ b/pybrain/rl/environments/mazes/tasks/mdp.py
@@ -28,7 +28,7 @@ class MDPMazeTask(Task):
         """ The agent receives its position in the maze, to make this a fully observable
             MDP problem.
         """
-        obs = array([self.env.perseus[0] * self.env.mazeTable.shape[0] + self.env.perseus[1]])
+        obs = array([self.env.perseus[0] * self.env.mazeTable.shape[1] + self.env.perseus[1]])
         return obs
 
 
-- 
2.43.0


From 110f7e75099784e842354df682af0d420f0b057c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:37 +0000
Subject: [PATCH 093/136] fix: the wrong arm of a T-maze is punished and not
 rewarded

---
 pybrain/rl/environments/mazes/tasks/tmaze.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pybrain/rl/environments/mazes/tasks/tmaze.py b/pybrain/rl/environments/mazes/tasks/tmaze.py
index 6dda091..9042c31 100644
--- a/pybrain/rl/environments/mazes/tasks/tmaze.py
+++ b/pybrain/rl/environments/mazes/tasks/tmaze.py
@@ -58,10 +58,14 @@ class TMaze(MazeTask):
             res[3] = 1
         return res
 
+    def _badChoice(self):
+        return (self.env.perseus[1] == self.length + 1
+                and abs(self.env.perseus[0] - self.env.goal[0]) == 2)
+
+    def isFinished(self):
+        return self._badChoice() or MazeTask.isFinished(self)
+
     def getReward(self):
-        if self.env.perseus[1] == self.length + 1:
-            if abs(self.env.perseus[0] - self.env.goal[0]) == 2:
-                # bad choice taken
-                self.env.perseus = self.env.goal
-                return self.bangPenalty
+        if self._badChoice():
+            return self.bangPenalty
         return MazeTask.getReward(self)
-- 
2.43.0


From 9856e49ea8b4a2642075bbb0f63ba69f004c611f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:37 +0000
Subject: [PATCH 094/136] fix: the shuttle moves forward

---
 pybrain/rl/environments/mazes/tasks/shuttle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/mazes/tasks/shuttle.py b/pybrain/rl/environments/mazes/tasks/shuttle.py
index f13a6fe..da5859f 100644
--- a/pybrain/rl/environments/mazes/tasks/shuttle.py
+++ b/pybrain/rl/environments/mazes/tasks/shuttle.py
@@ -91,7 +91,7 @@ class ShuttleDocking(MazeTask):
 
     def _forward(self):
         old = self.env.perseus
-        self.env.performAction(PolarMaze.TurnAround)
+        self.env.performAction(PolarMaze.Forward)
         if self.env.perseus == self.env.goal or self.env.perseus == self.env.initPos[0]:
             self.env.perseus = old
             self.env.bang = True
-- 
2.43.0


From fb16d83730ce13ffef2a4f2272243de5c3879a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:37 +0000
Subject: [PATCH 095/136] fix: actions of the 4x3 maze do not slip backwards,
 and its trap is absorbing

---
 pybrain/rl/environments/mazes/tasks/maze4x3.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pybrain/rl/environments/mazes/tasks/maze4x3.py b/pybrain/rl/environments/mazes/tasks/maze4x3.py
index 5fbfe30..3b561b3 100644
--- a/pybrain/rl/environments/mazes/tasks/maze4x3.py
+++ b/pybrain/rl/environments/mazes/tasks/maze4x3.py
@@ -21,7 +21,6 @@ class FourByThreeMaze(MazeTask):
 
     defaultPenalty = -0.04
     bangPenalty = -0.04
-    minReward = -1
 
     stochAction = 0.1
 
@@ -32,15 +31,14 @@ class FourByThreeMaze(MazeTask):
                       [1, 0, 0, 0, 0, 1],
                       [1] * 6, ])
     goal = (3, 4)
-
-    def reset(self):
-        MazeTask.reset(self)
-        self.bad = False
+    trap = (2, 4)
+    trapPenalty = -1
 
     def performAction(self, action):
+        action = self._actionIndex(action)
         poss = []
         for a in range(self.actions):
-            if action - a % 4 != 2:
+            if (action - a) % 4 != 2:
                 poss.append(a)
         if random() < self.stochAction * len(poss):
             MazeTask.performAction(self, choice(poss))
@@ -48,11 +46,14 @@ class FourByThreeMaze(MazeTask):
             MazeTask.performAction(self, action)
 
     def getReward(self):
-        if self.bad:
-            return self.minReward
+        if self.env.perseus == self.trap:
+            return self.trapPenalty
         else:
             return MazeTask.getReward(self)
 
+    def isFinished(self):
+        return self.env.perseus == self.trap or MazeTask.isFinished(self)
+
     def getObservation(self):
         """only walls on w, E, both or neither are observed. """
         res = zeros(4)
-- 
2.43.0


From 7132d7cd96c60fd7ab4ab8ca8bbe19054b427a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:37 +0000
Subject: [PATCH 096/136] fix: XOR tasks produce binary observations

---
 pybrain/rl/environments/classic/xor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/environments/classic/xor.py b/pybrain/rl/environments/classic/xor.py
index 98ef395..cfb551c 100644
--- a/pybrain/rl/environments/classic/xor.py
+++ b/pybrain/rl/environments/classic/xor.py
@@ -26,7 +26,7 @@ class XORTask(EpisodicTask):
         if self.randomorder:
             self.obs = array([randint(0,1), randint(0,1), 1])
         else:
-            self.obs = array([self._counter%2, (self._counter/2)%2, 1])    
+            self.obs = array([self._counter%2, (self._counter//2)%2, 1])    
         self._counter += 1    
         return self.obs
         
@@ -64,7 +64,7 @@ class XORChainTask(XORTask):
         self.state = 0
         
     def getObservation(self):
-        self.obs = array([self.state%2, (self.state/2)%2, 1])    
+        self.obs = array([self.state%2, (self.state//2)%2, 1])    
         return self.obs
         
     def performAction(self, action):
-- 
2.43.0


From 9515c7b0536cc9b89bb2207cfb722ebef9a11b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:37 +0000
Subject: [PATCH 097/136] fix: mountain car and acrobot episodes start without
 accumulated reward

---
 pybrain/rl/environments/classic/acrobot.py     | 1 +
 pybrain/rl/environments/classic/mountaincar.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pybrain/rl/environments/classic/acrobot.py b/pybrain/rl/environments/classic/acrobot.py
index d778884..217370f 100644
--- a/pybrain/rl/environments/classic/acrobot.py
+++ b/pybrain/rl/environments/classic/acrobot.py
@@ -70,6 +70,7 @@ class AcrobotTask(EpisodicTask):
             
     def reset(self):
         self.state = self.GetInitialState()
+        self.cumreward = 0
             
     def getReward(self):
         return self.r
diff --git a/pybrain/rl/environments/classic/mountaincar.py b/pybrain/rl/environments/classic/mountaincar.py
index 4f4cc2f..94c4f01 100644
--- a/pybrain/rl/environments/classic/mountaincar.py
+++ b/pybrain/rl/environments/classic/mountaincar.py
@@ -42,6 +42,7 @@ class MountainCar(EpisodicTask):
 
     def reset(self):
         self.state = self.GetInitialState()
+        self.cumreward = 0
     
     def getObservation(self):    
         #print(array([self.state[0], self.state[1] * 100, 1]))
-- 
2.43.0


From f880990e6e5344c6c29f0c7a076a2ca06b9b0aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:37 +0000
Subject: [PATCH 098/136] fix: pole environments without derivatives report
 their angles and position

---
 pybrain/rl/environments/cartpole/nonmarkovdoublepole.py | 8 --------
 pybrain/rl/environments/cartpole/nonmarkovpole.py       | 4 ----
 2 files changed, 12 deletions(-)

diff --git a/pybrain/rl/environments/cartpole/nonmarkovdoublepole.py b/pybrain/rl/environments/cartpole/nonmarkovdoublepole.py
index 6011946..ef26999 100644
--- a/pybrain/rl/environments/cartpole/nonmarkovdoublepole.py
+++ b/pybrain/rl/environments/cartpole/nonmarkovdoublepole.py
@@ -18,12 +18,4 @@ class NonMarkovDoublePoleEnvironment(DoublePoleEnvironment, NonMarkovPoleEnviron
         tmp = DoublePoleEnvironment.getSensors(self)
         return (tmp[0], tmp[2], tmp[4])
 
-    def getPoleAngles(self):
-        """ auxiliary access to just the pole angle(s), to be used by BalanceTask """
-        return [self.sensors[0], self.sensors[1]]
-
-    def getCartPosition(self):
-        """ auxiliary access to just the cart position, to be used by BalanceTask """
-        return self.sensors[2]
-
 
diff --git a/pybrain/rl/environments/cartpole/nonmarkovpole.py b/pybrain/rl/environments/cartpole/nonmarkovpole.py
index 301a592..250fa53 100644
--- a/pybrain/rl/environments/cartpole/nonmarkovpole.py
+++ b/pybrain/rl/environments/cartpole/nonmarkovpole.py
@@ -17,8 +17,4 @@ class NonMarkovPoleEnvironment(CartPoleEnvironment):
         tmp = CartPoleEnvironment.getSensors(self)
         return (tmp[0], tmp[2])
 
-    def getCartPosition(self):
-        """ auxiliary access to just the cart position, to be used by BalanceTask """
-        return self.sensors[1]
-
 
-- 
2.43.0


From 28e6a808e7e00bbae6574aa97a90559d4612b602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:37 +0000
Subject: [PATCH 099/136] fix: double pole environments know their output
 dimension

---
 pybrain/rl/environments/cartpole/doublepole.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/cartpole/doublepole.py b/pybrain/rl/environments/cartpole/doublepole.py
index ed6409a..e5c1415 100644
--- a/pybrain/rl/environments/cartpole/doublepole.py
+++ b/pybrain/rl/environments/cartpole/doublepole.py
@@ -8,7 +8,7 @@ class DoublePoleEnvironment(Environment):
     """ two poles to be balanced from the same cart. """
 
     indim = 1
-    ooutdim = 6
+    outdim = 6
 
     def __init__(self):
         self.p1 = CartPoleEnvironment()
-- 
2.43.0


From 63b85f062de39a89952ca999bfa23855256b6207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:01 +0000
Subject: [PATCH 100/136] fix: the tiger and shuttle tasks accumulate rewards
 and take array actions

---
 pybrain/rl/environments/mazes/tasks/pomdp.py   | 9 ++++++---
 pybrain/rl/environments/mazes/tasks/shuttle.py | 4 ++++
 pybrain/rl/environments/mazes/tasks/tiger.py   | 4 ++++
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/pybrain/rl/environments/mazes/tasks/pomdp.py b/pybrain/rl/environments/mazes/tasks/pomdp.py
index ef05112..d165930 100644
--- a/pybrain/rl/environments/mazes/tasks/pomdp.py
+++ b/pybrain/rl/environments/mazes/tasks/pomdp.py
@@ -44,10 +44,13 @@ class POMDPTask(EpisodicTask, Named):
             return self.steps >= self.maxSteps
         return False
 
+    def _actionIndex(self, action):
+        if type(action) == ndarray:
+            action = drawIndex(action, tolerant = True)
+        return action
+
     def performAction(self, action):
         """ POMDP tasks, as they have discrete actions, can me used by providing either an index,
         or an array with a 1-in-n coding (which can be stochastic). """
-        if type(action) == ndarray:
-            action = drawIndex(action, tolerant = True)
         self.steps += 1
-        EpisodicTask.performAction(self, action)
\ No newline at end of file
+        EpisodicTask.performAction(self, self._actionIndex(action))
\ No newline at end of file
diff --git a/pybrain/rl/environments/mazes/tasks/shuttle.py b/pybrain/rl/environments/mazes/tasks/shuttle.py
index da5859f..a2c33be 100644
--- a/pybrain/rl/environments/mazes/tasks/shuttle.py
+++ b/pybrain/rl/environments/mazes/tasks/shuttle.py
@@ -56,7 +56,9 @@ class ShuttleDocking(MazeTask):
         return res
 
     def performAction(self, action):
+        action = self._actionIndex(action)
         self.steps += 1
+        self.env.bang = False
         if action == self.TurnAround:
             self._turn()
         elif action == self.Forward:
@@ -80,6 +82,8 @@ class ShuttleDocking(MazeTask):
                 # close to station, back to station
                 if r < 0.7:
                     self._backup()
+        self.samples += 1
+        self.addReward()
 
     def _backup(self):
         self.env.performAction(PolarMaze.TurnAround)
diff --git a/pybrain/rl/environments/mazes/tasks/tiger.py b/pybrain/rl/environments/mazes/tasks/tiger.py
index 6d0b056..00bb310 100644
--- a/pybrain/rl/environments/mazes/tasks/tiger.py
+++ b/pybrain/rl/environments/mazes/tasks/tiger.py
@@ -25,11 +25,13 @@ class TigerTask(POMDPTask):
     def reset(self):
         self.steps = 0
         self.cumreward = 0
+        self.samples = 0
         self.tigerLeft = choice([True, False])
         self.done = False
         self.nextReward = -1
 
     def performAction(self, action):
+        action = self._actionIndex(action)
         self.steps += 1
         if action != self.Listen:
             self.done = True
@@ -38,6 +40,8 @@ class TigerTask(POMDPTask):
                 self.nextReward = -100
             else:
                 self.nextReward = 10
+        self.samples += 1
+        self.addReward()
 
     def getObservation(self):
         """ do we think we heard something on the left or on the right?  """
-- 
2.43.0


From 7aef0534f87719d51690c015f2fe1c48881c51e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:01 +0000
Subject: [PATCH 101/136] fix: the minimal reward of the 4x3 maze is that of
 its trap

---
 pybrain/rl/environments/mazes/tasks/maze4x3.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pybrain/rl/environments/mazes/tasks/maze4x3.py b/pybrain/rl/environments/mazes/tasks/maze4x3.py
index 3b561b3..f0be3f4 100644
--- a/pybrain/rl/environments/mazes/tasks/maze4x3.py
+++ b/pybrain/rl/environments/mazes/tasks/maze4x3.py
@@ -34,6 +34,10 @@ class FourByThreeMaze(MazeTask):
     trap = (2, 4)
     trapPenalty = -1
 
+    def __init__(self, **args):
+        MazeTask.__init__(self, **args)
+        self.minReward = min(self.minReward, self.trapPenalty)
+
     def performAction(self, action):
         action = self._actionIndex(action)
         poss = []
-- 
2.43.0


From ef2520c88b37c970595464412c54baf1b6dc3bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:14 +0000
Subject: [PATCH 102/136] fix: policy gradient learners slice sequences with
 integer indices

---
 pybrain/rl/learners/directsearch/enac.py      | 2 +-
 pybrain/rl/learners/directsearch/reinforce.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/learners/directsearch/enac.py b/pybrain/rl/learners/directsearch/enac.py
index 397bd9b..7ae1618 100644
--- a/pybrain/rl/learners/directsearch/enac.py
+++ b/pybrain/rl/learners/directsearch/enac.py
@@ -24,7 +24,7 @@ class ENAC(PolicyGradientLearner):
         print((self.dataset.getNumSequences()))
         for n in range(self.dataset.getNumSequences()):
             _state, _action, reward = self.dataset.getSequence(n)
-            seqidx = ravel(self.dataset['sequence_index'])
+            seqidx = ravel(self.dataset['sequence_index']).astype(int)
             if n == self.dataset.getNumSequences() - 1:
                 # last sequence until end of dataset
                 loglh = self.loglh['loglh'][seqidx[n]:, :]
diff --git a/pybrain/rl/learners/directsearch/reinforce.py b/pybrain/rl/learners/directsearch/reinforce.py
index 5f4217f..a0020a6 100644
--- a/pybrain/rl/learners/directsearch/reinforce.py
+++ b/pybrain/rl/learners/directsearch/reinforce.py
@@ -17,7 +17,7 @@ class Reinforce(PolicyGradientLearner):
 
         # initialize variables
         returns = self.dataset.getSumOverSequences('reward')
-        seqidx = ravel(self.dataset['sequence_index'])
+        seqidx = ravel(self.dataset['sequence_index']).astype(int)
 
         # sum of sequences up to n-1
         loglhs = [sum(self.loglh['loglh'][seqidx[n]:seqidx[n + 1], :]) for n in range(self.dataset.getNumSequences() - 1)]
-- 
2.43.0


From 53acab1b74ae7c8a7a17ffd10b480acf711707f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:33 +0000
Subject: [PATCH 103/136] fix: policy gradient learners log the likelihood
 gradient of each single action

---
 pybrain/rl/learners/directsearch/policygradient.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/rl/learners/directsearch/policygradient.py b/pybrain/rl/learners/directsearch/policygradient.py
index 5699179..07ce253 100644
--- a/pybrain/rl/learners/directsearch/policygradient.py
+++ b/pybrain/rl/learners/directsearch/policygradient.py
@@ -121,7 +121,8 @@ class PolicyGradientLearner(DirectSearchLearner, DataSetLearner, ExploringLearne
         # forward pass of exploration
         explorative = ExploringLearner.explore(self, state, action)
 
-        # backward pass through network and store derivs
+        # backward pass through network and store derivs of this action only
+        self.network.resetDerivatives()
         self.network.backward()
         self.loglh.appendLinked(self.network.derivs.copy())
 
-- 
2.43.0


From 2a4a4523d1bc1756d3b5c0dfb89f5a2bb95df189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:33 +0000
Subject: [PATCH 104/136] fix: Reinforce climbs the reward gradient

---
 pybrain/rl/learners/directsearch/reinforce.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pybrain/rl/learners/directsearch/reinforce.py b/pybrain/rl/learners/directsearch/reinforce.py
index a0020a6..7eb7f12 100644
--- a/pybrain/rl/learners/directsearch/reinforce.py
+++ b/pybrain/rl/learners/directsearch/reinforce.py
@@ -26,8 +26,7 @@ class Reinforce(PolicyGradientLearner):
         loglhs = array(loglhs)
 
         baselines = mean(loglhs ** 2 * returns, 0) / mean(loglhs ** 2, 0)
-        # TODO: why gradient negative?
-        gradient = -mean(loglhs * (returns - baselines), 0)
+        gradient = mean(loglhs * (returns - baselines), 0)
 
         return gradient
 
-- 
2.43.0


From 413bf2381dbb14b3d09783042e04386a3d760c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:33 +0000
Subject: [PATCH 105/136] fix: Q and SARSA learn from the last transition
 without batch mode

---
 pybrain/rl/learners/valuebased/q.py     | 4 +++-
 pybrain/rl/learners/valuebased/sarsa.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/learners/valuebased/q.py b/pybrain/rl/learners/valuebased/q.py
index 9c7fc3f..b5da063 100644
--- a/pybrain/rl/learners/valuebased/q.py
+++ b/pybrain/rl/learners/valuebased/q.py
@@ -32,7 +32,9 @@ class Q(ValueBasedLearner):
         if self.batchMode:
             samples = self.dataset
         else:
-            samples = [[self.dataset.getSample()]]
+            # the most recent transition of the current sequence
+            current = self.dataset.getSequence(self.dataset.getNumSequences() - 1)
+            samples = [zip(*[field[-2:] for field in current])]
 
         for seq in samples:
             # information from the previous episode (sequence)
diff --git a/pybrain/rl/learners/valuebased/sarsa.py b/pybrain/rl/learners/valuebased/sarsa.py
index 226a40e..5f24e21 100644
--- a/pybrain/rl/learners/valuebased/sarsa.py
+++ b/pybrain/rl/learners/valuebased/sarsa.py
@@ -28,7 +28,9 @@ class SARSA(ValueBasedLearner):
         if self.batchMode:
             samples = self.dataset
         else:
-            samples = [[self.dataset.getSample()]]
+            # the most recent transition of the current sequence
+            current = self.dataset.getSequence(self.dataset.getNumSequences() - 1)
+            samples = [zip(*[field[-2:] for field in current])]
 
         for seq in samples:
             # information from the previous episode (sequence)
-- 
2.43.0


From 3a5b8ebf83992005b2399c8d902d9d00b920bb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:33 +0000
Subject: [PATCH 106/136] fix: QLambda does not truncate rewards to integers

---
 pybrain/rl/learners/valuebased/qlambda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/learners/valuebased/qlambda.py b/pybrain/rl/learners/valuebased/qlambda.py
index 1c6a507..ef4f510 100644
--- a/pybrain/rl/learners/valuebased/qlambda.py
+++ b/pybrain/rl/learners/valuebased/qlambda.py
@@ -35,7 +35,7 @@ class QLambda(ValueBasedLearner):
             laststate = int(states[i - 1])
             # action = int(actions[i])
             lastaction = int(actions[i - 1])
-            lastreward = int(rewards[i - 1])
+            lastreward = float(rewards[i - 1])
 
             qvalue = self.module.getValue(laststate, lastaction)
             maxnext = self.module.getValue(state, self.module.getMaxAction(state))
-- 
2.43.0


From 41e3ce16b4a6273927ba83071ef270aa6a79e8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:33 +0000
Subject: [PATCH 107/136] fix: NFQ reads integer actions from its data set

---
 pybrain/rl/learners/valuebased/nfq.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/learners/valuebased/nfq.py b/pybrain/rl/learners/valuebased/nfq.py
index 2332026..d6ebe17 100644
--- a/pybrain/rl/learners/valuebased/nfq.py
+++ b/pybrain/rl/learners/valuebased/nfq.py
@@ -30,9 +30,10 @@ class NFQ(ValueBasedLearner):
                 # use experience from last timestep to do Q update
                 (state_, action_, reward_) = lastexperience
 
-                Q = self.module.getValue(state_, action_[0])
+                action_ = int(action_[0])
+                Q = self.module.getValue(state_, action_)
 
-                inp = r_[state_, one_to_n(action_[0], self.module.numActions)]
+                inp = r_[state_, one_to_n(action_, self.module.numActions)]
                 tgt = Q + 0.5*(reward_ + self.gamma * max(self.module.getActionValues(state)) - Q)
                 supervised.addSample(inp, tgt)
 
-- 
2.43.0


From 0228f00b8bbb48af4f18a0fb17b27ae34a427391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:33 +0000
Subject: [PATCH 108/136] fix: action value tables look up the values of states
 observed as floats

---
 pybrain/rl/learners/valuebased/interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/learners/valuebased/interface.py b/pybrain/rl/learners/valuebased/interface.py
index c4a6ae1..9c4b657 100644
--- a/pybrain/rl/learners/valuebased/interface.py
+++ b/pybrain/rl/learners/valuebased/interface.py
@@ -56,7 +56,7 @@ class ActionValueTable(Table, ActionValueInterface):
         return action
 
     def getActionValues(self, state):
-        return self.params.reshape(self.numRows, self.numColumns)[state, :].flatten()
+        return self.params.reshape(self.numRows, self.numColumns)[int(state), :].flatten()
 
     def initialize(self, value=0.0):
         """ Initialize the whole table with the given value. """
-- 
2.43.0


From ecc4d1c3d715472c9b1fda181de6af7c026160a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:33 +0000
Subject: [PATCH 109/136] fix: random deterministic policies can be drawn

---
 pybrain/rl/learners/modelbased/policyiteration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/learners/modelbased/policyiteration.py b/pybrain/rl/learners/modelbased/policyiteration.py
index e04a668..bcb0845 100644
--- a/pybrain/rl/learners/modelbased/policyiteration.py
+++ b/pybrain/rl/learners/modelbased/policyiteration.py
@@ -113,7 +113,7 @@ def randomDeterministic(Ts):
     dim = len(Ts[0])
     choices = (rand(dim) * numA).astype(int)
     policy = zeros((dim, numA))
-    for si, a in choices:
+    for si, a in enumerate(choices):
         policy[si, a] = 1
     return policy, collapsedTransitions(Ts, policy)
 
-- 
2.43.0


From 46414997adb67745b43bd4f34aa85167b796ad39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:50 +0000
Subject: [PATCH 110/136] fix: state dependent exploration runs backward with
 one sigma per action

---
 pybrain/rl/explorers/continuous/sde.py | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/pybrain/rl/explorers/continuous/sde.py b/pybrain/rl/explorers/continuous/sde.py
index e45373d..ac70840 100644
--- a/pybrain/rl/explorers/continuous/sde.py
+++ b/pybrain/rl/explorers/continuous/sde.py
@@ -61,23 +61,11 @@ class StateDependentExplorer(Explorer, ParameterContainer):
         outbuf[:] = inbuf + dot(self.state, self.explmatrix)
 
     def _backwardImplementation(self, outerr, inerr, outbuf, inbuf):
-        expln_params = expln(self.params
-                        ).reshape(len(outbuf), len(self.state))
-        explnPrime_params = explnPrime(self.params
-                        ).reshape(len(outbuf), len(self.state))
-
-        idx = 0
-        for j in range(len(outbuf)):
-            sigma_subst2 = dot(self.state ** 2, expln_params[j, :]**2)
-            for i in range(len(self.state)):
-                self._derivs[idx] = ((outbuf[j] - inbuf[j]) ** 2 - sigma_subst2) / sigma_subst2 * \
-                    self.state[i] ** 2 * expln_params[j, i] * explnPrime_params[j, i]
-                # if self.autoalpha and sigma_subst2 != 0:
-                # self._derivs[idx] /= sigma_subst2
-                idx += 1
-            inerr[j] = (outbuf[j] - inbuf[j])
-            # if not self.autoalpha and sigma_subst2 != 0:
-            #     inerr[j] /= sigma_subst2
+        # one sigma per action, shared by all components of the state
+        expln_sigma = expln(self.sigma)
+        sigma_subst2 = dot(self.state, self.state) * expln_sigma ** 2
+        self._derivs += ((outbuf - inbuf) ** 2 - sigma_subst2) / expln_sigma * explnPrime(self.sigma)
+        inerr[:] = (outbuf - inbuf)
         # auto-alpha
         # inerr /= expln_sigma**2
         # self._derivs /= expln_sigma**2
-- 
2.43.0


From 860e0c731ecadd4eff2e44ce2379b2cc91ead4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:18 +0000
Subject: [PATCH 111/136] fix: reward-weighted regression can be constructed

---
 pybrain/rl/learners/directsearch/rwr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/learners/directsearch/rwr.py b/pybrain/rl/learners/directsearch/rwr.py
index 6a712a9..a3a93f8 100644
--- a/pybrain/rl/learners/directsearch/rwr.py
+++ b/pybrain/rl/learners/directsearch/rwr.py
@@ -6,7 +6,7 @@ from scipy import zeros, array, mean, randn, exp, dot, argmax
 
 from pybrain.datasets import ReinforcementDataSet, ImportanceDataSet, SequentialDataSet
 from pybrain.supervised import BackpropTrainer
-from pybrain.utilities import drawIndex
+from pybrain.utilities import drawIndex, setAllArgs
 from pybrain.rl.learners.directsearch.directsearch import DirectSearchLearner
 
 
@@ -46,7 +46,7 @@ class RWR(DirectSearchLearner):
     def __init__(self, net, task, valueNetwork=None, **args):
         self.net = net
         self.task = task
-        self.setArgs(**args)
+        setAllArgs(self, args)
         if self.valueLearningRate == None:
             self.valueLearningRate = self.learningRate
         if self.valueMomentum == None:
-- 
2.43.0


From f2b7cbc4f56382feb4ad0ac37b9c39d53dfa1af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:42 +0000
Subject: [PATCH 112/136] fix: reward-weighted regression resets the momentum
 of its trainers

---
 pybrain/rl/learners/directsearch/rwr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/learners/directsearch/rwr.py b/pybrain/rl/learners/directsearch/rwr.py
index a3a93f8..28a4897 100644
--- a/pybrain/rl/learners/directsearch/rwr.py
+++ b/pybrain/rl/learners/directsearch/rwr.py
@@ -88,9 +88,9 @@ class RWR(DirectSearchLearner):
         self.weightedDs.clear()
         self.valueDs.clear()
         self.rawDs.clear()
-        self.bp.momentumvector *= 0.0
+        self.bp.descent.momentumvector *= 0.0
         if self.vnet != None:
-            self.vbp.momentumvector *= 0.0
+            self.vbp.descent.momentumvector *= 0.0
             if self.resetAllWeights:
                 self.vnet.params[:] = randn(len(self.vnet.params)) * self.netweights
 
-- 
2.43.0


From e57fbe20d7b33a519830c7d567bb0ed6172ed80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:15 +0000
Subject: [PATCH 113/136] fix: Gaussian processes build their sampling grid

---
 pybrain/auxiliary/gaussprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/auxiliary/gaussprocess.py b/pybrain/auxiliary/gaussprocess.py
index 0deda60..c705d74 100644
--- a/pybrain/auxiliary/gaussprocess.py
+++ b/pybrain/auxiliary/gaussprocess.py
@@ -59,7 +59,7 @@ class GaussianProcess:
             assert len(start) == len(stop) == len(step)
             dimstr = ["start[%i]:stop[%i]:step[%i], " % (i, i, i) for i in range(len(start))]
             dimstr = ''.join(dimstr)
-        return eval('c_[map(ravel, mgrid[' + dimstr + '])]').T
+        return eval('c_[list(map(ravel, mgrid[' + dimstr + ']))]').T
 
     def _buildCov(self, a, b):
         K = zeros((len(a), len(b)), float)
-- 
2.43.0


From 6c3dd57f9364ef1f273b3119c6224bc4ecb981d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:15 +0000
Subject: [PATCH 114/136] fix: ranking sorts without comparison functions

---
 pybrain/tools/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/tools/functions.py b/pybrain/tools/functions.py
index 9c0d847..1c7f744 100644
--- a/pybrain/tools/functions.py
+++ b/pybrain/tools/functions.py
@@ -70,8 +70,8 @@ def tanhPrime(x):
 
 def ranking(R):
     """ Produces a linear ranking of the values in R. """
-    l = sorted(list(enumerate(R)), cmp=lambda a, b: cmp(a[1], b[1]))
-    l = sorted(list(enumerate(l)), cmp=lambda a, b: cmp(a[1], b[1]))
+    l = sorted(list(enumerate(R)), key=lambda kv: kv[1])
+    l = sorted(list(enumerate(l)), key=lambda kv: kv[1][0])
     return array([kv[0] for kv in l])
 
 
-- 
2.43.0


From 74949da6edb42358fe4b03c5ce32914ba49b65b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:45 +0000
Subject: [PATCH 115/136] fix: restricted Boltzmann machines keep their weight
 matrix orientation

---
 pybrain/structure/networks/rbm.py    | 3 ++-
 pybrain/unsupervised/trainers/rbm.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pybrain/structure/networks/rbm.py b/pybrain/structure/networks/rbm.py
index f7f58b9..acc4774 100644
--- a/pybrain/structure/networks/rbm.py
+++ b/pybrain/structure/networks/rbm.py
@@ -74,8 +74,9 @@ class Rbm(object):
     def invert(self):
         """Return the inverse rbm."""
         # TODO: check if shape is correct
+        weights = self.params.reshape((self.hiddenDim, self.visibleDim))
         return self.__class__.fromDims(self.hiddenDim, self.visibleDim,
-                                       params=self.params)
+                                       params=weights.T.flatten())
 
     def activate(self, inpt):
         return self.net.activate(inpt)
diff --git a/pybrain/unsupervised/trainers/rbm.py b/pybrain/unsupervised/trainers/rbm.py
index 74a2f18..1670f17 100644
--- a/pybrain/unsupervised/trainers/rbm.py
+++ b/pybrain/unsupervised/trainers/rbm.py
@@ -60,7 +60,7 @@ class RbmGibbsTrainer(Trainer):
                 #print("*** Iteration %2d **************************************" % t)
 
                 params = self.rbm.params
-                params = params.reshape((self.rbm.visibleDim, self.rbm.hiddenDim))
+                params = params.reshape((self.rbm.hiddenDim, self.rbm.visibleDim)).T
                 biasParams = self.rbm.biasParams
 
                 mm = cfg.iniMm if t < cfg.mmSwitchIter else cfg.finMm
-- 
2.43.0


From 191e02afbbdcf3177f40cfa14b966cd13ec75860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:45 +0000
Subject: [PATCH 116/136] fix: restricted Boltzmann machines can be built from
 existing modules

---
 pybrain/structure/networks/rbm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/structure/networks/rbm.py b/pybrain/structure/networks/rbm.py
index acc4774..da57d80 100644
--- a/pybrain/structure/networks/rbm.py
+++ b/pybrain/structure/networks/rbm.py
@@ -33,8 +33,8 @@ class Rbm(object):
         self.net.sortModules()
         self.bias = [i for i in self.net.modules if isinstance(i, BiasUnit)][0]
         self.biascon = self.net.connections[self.bias][0]
-        self.visible = net['visible']
-        self.hidden = net['hidden']
+        self.visible = self.net.inmodules[0]
+        self.hidden = self.net.outmodules[0]
         self.con = self.net.connections[self.visible][0]
 
     @classmethod
-- 
2.43.0


From 57771ed9dffb351bb7ec28a3ab56d29debff5d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:46 +0000
Subject: [PATCH 117/136] fix: semilinear functions accept arrays of any
 dimension

---
 pybrain/tools/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/tools/functions.py b/pybrain/tools/functions.py
index 1c7f744..5718898 100644
--- a/pybrain/tools/functions.py
+++ b/pybrain/tools/functions.py
@@ -10,7 +10,7 @@ def semilinear(x):
     try:
         # assume x is a numpy array
         shape = x.shape
-        x.flatten()
+        x = x.flatten()
         x = x.tolist()
     except AttributeError:
         # no, it wasn't: build shape from length of list
@@ -31,7 +31,7 @@ def semilinearPrime(x):
     try:
         # assume x is a numpy array
         shape = x.shape
-        x.flatten()
+        x = x.flatten()
         x = x.tolist()
     except AttributeError:
         # no, it wasn't: build shape from length of list
-- 
2.43.0


From 05cf5c96f5ba9be771177738b12299fd67d5900e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:46 +0000
Subject: [PATCH 118/136] fix: grid search steps are whole numbers

---
 pybrain/tools/gridsearch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/tools/gridsearch.py b/pybrain/tools/gridsearch.py
index 7faa298..6116f4e 100644
--- a/pybrain/tools/gridsearch.py
+++ b/pybrain/tools/gridsearch.py
@@ -99,7 +99,7 @@ class GridSearch2D:
         for i in range(ndim):
             linspaces.append(
                 self._permuteSequence(
-                    list(linspace(self._min_params[i], self._max_params[i], self._n_steps[i]))))
+                    list(linspace(self._min_params[i], self._max_params[i], int(self._n_steps[i])))))
 #        print(linspaces; exit(0))
 #        linspaces = array(linspaces,float)
         nr_c = len(linspaces[0])
-- 
2.43.0


From 19d4e5755c484b4a3bd391cc7272a4a6d7111f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:46 +0000
Subject: [PATCH 119/136] fix: pickled dictionary files are opened in binary
 mode

---
 pybrain/tools/filehandling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/tools/filehandling.py b/pybrain/tools/filehandling.py
index 2c6be9b..ac9ebd7 100644
--- a/pybrain/tools/filehandling.py
+++ b/pybrain/tools/filehandling.py
@@ -42,7 +42,7 @@ def selectSome(strings, requiredsubstrings=[], requireAll=True):
 def pickleDumpDict(name, d):
     """ pickle-dump a variable into a file """
     try:
-        f = open(name + '.pickle', 'w')
+        f = open(name + '.pickle', 'wb')
         pickle.dump(d, f)
         f.close()
         return True
@@ -54,7 +54,7 @@ def pickleDumpDict(name, d):
 def pickleReadDict(name):
     """ pickle-read a (default: dictionnary) variable from a file """
     try:
-        f = open(name + '.pickle')
+        f = open(name + '.pickle', 'rb')
         val = pickle.load(f)
         f.close()
     except Exception as e:
-- 
2.43.0


From cb94aeed71bf7cc697417d4cb0eb10114095db68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:46 +0000
Subject: [PATCH 120/136] fix: principal components of single column data

---
 pybrain/auxiliary/pca.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/auxiliary/pca.py b/pybrain/auxiliary/pca.py
index 47887e3..b63469f 100644
--- a/pybrain/auxiliary/pca.py
+++ b/pybrain/auxiliary/pca.py
@@ -8,7 +8,7 @@ of a dataset."""
 __author__ = 'Justin S Bayer, bayerj@in.tum.de'
 
 
-from scipy import asmatrix, cov
+from scipy import asmatrix, atleast_2d, cov
 from scipy.linalg import inv, eig
 from numpy.random import standard_normal
 
@@ -47,7 +47,7 @@ def pca(data, dim):
     # We have to make a copy of the original data and substract the mean
     # of every entry
     data = makeCentered(data)
-    cm = cov(data.T)
+    cm = atleast_2d(cov(data.T))
 
     # OPT only calculate the dim first eigenvectors here
     # The following calculation may seem a bit "weird" but also correct to me.
-- 
2.43.0


From dbc25d1766547abd93f0d88ee3f35ba510b933ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:15 +0000
Subject: [PATCH 121/136] fix: deep belief training runs and updates its
 network

---
 pybrain/unsupervised/trainers/deepbelief.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pybrain/unsupervised/trainers/deepbelief.py b/pybrain/unsupervised/trainers/deepbelief.py
index 24125d1..be45480 100644
--- a/pybrain/unsupervised/trainers/deepbelief.py
+++ b/pybrain/unsupervised/trainers/deepbelief.py
@@ -75,14 +75,13 @@ class DeepBeliefTrainer(Trainer):
         # for each layer.
         dataset = self.dataset
         piecenet = FeedForwardNetwork()
-        piecenet.addInputModule(copy.deepcopy(self.net.inmodules[0]))
         # Add a bias
         bias = BiasUnit()
         piecenet.addModule(bias)
         # Add the first visible layer
         firstRbm = next(self.iterRbms())
         visible = copy.deepcopy(firstRbm.visible)
-        piecenet.addModule(visible)
+        piecenet.addInputModule(visible)
         # For saving the rbms and their inverses
         self.invRbms = []
         self.rbms = []
@@ -97,9 +96,9 @@ class DeepBeliefTrainer(Trainer):
             # Add the connections and the hidden layer of the rbm to the net.
             hidden = copy.deepcopy(rbm.hidden)
             biascon = FullConnection(bias, hidden)
-            biascon.params[:] = rbm.biasWeights
+            biascon.params[:] = rbm.biasParams
             con = FullConnection(visible, hidden)
-            con.params[:] = rbm.weights
+            con.params[:] = rbm.params
 
             piecenet.addConnection(biascon)
             piecenet.addConnection(con)
@@ -110,7 +109,15 @@ class DeepBeliefTrainer(Trainer):
             piecenet.sortModules()
 
             dataset = UnsupervisedDataSet(rbm.hiddenDim)
-            for sample, in self.dataset:
+            for sample in self.dataset[self.datasetfield]:
                 new_sample = piecenet.activate(sample)
                 dataset.addSample(new_sample)
             visible = hidden
+
+        # The connections have been trained as parts of the rbms: hand them
+        # back to the network.
+        for rbm in self.rbms:
+            for c in (rbm.con, rbm.biascon):
+                c.owner = self.net
+        self.net.sorted = False
+        self.net.sortModules()
-- 
2.43.0


From 3a05cae967f439dba6907d4589a354ccf05336b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:42 +0000
Subject: [PATCH 122/136] fix: binary arrays of any length are converted to
 integers

---
 pybrain/utilities.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index 67c0a40..447b015 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -739,9 +739,10 @@ def xhash(arr):
 
 def binArr2int(arr):
     """ Convert a binary array into its (long) integer representation. """
-    from numpy import packbits
-    tmp2 = packbits(arr.astype(int))
-    return sum(val * 256 ** i for i, val in enumerate(tmp2[::-1])) 
+    res = 0
+    for bit in arr:
+        res = 2 * res + (1 if bit else 0)
+    return res
         
 def uniqueArrays(vs):
     """ create a set of arrays """
-- 
2.43.0


From e97cfdd59160596c676d5f0758a8902567e86516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:59 +0000
Subject: [PATCH 123/136] fix: the competitive and multi-population coevolution
 modules can be imported

---
 .../populationbased/coevolution/competitivecoevolution.py       | 2 +-
 .../populationbased/coevolution/multipopulationcoevolution.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/optimization/populationbased/coevolution/competitivecoevolution.py b/pybrain/optimization/populationbased/coevolution/competitivecoevolution.py
index 39c27bd..f9da56b 100644
--- a/pybrain/optimization/populationbased/coevolution/competitivecoevolution.py
+++ b/pybrain/optimization/populationbased/coevolution/competitivecoevolution.py
@@ -2,7 +2,7 @@ from __future__ import print_function
 
 __author__ = 'Tom Schaul, tom@idsia.ch'
 
-from pybrain.optimization.coevolution.coevolution import Coevolution
+from pybrain.optimization.populationbased.coevolution.coevolution import Coevolution
 
 
 class CompetitiveCoevolution(Coevolution):
diff --git a/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py b/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py
index 9d0895a..321a2fb 100644
--- a/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py
+++ b/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py
@@ -2,7 +2,7 @@ __author__ = 'Tom Schaul, tom@idsia.ch'
 
 from random import choice
 
-from pybrain.optimization.coevolution.coevolution import Coevolution
+from pybrain.optimization.populationbased.coevolution.coevolution import Coevolution
 
 
 class MultiPopulationCoevolution(Coevolution):
-- 
2.43.0


From 296c8d97b7a05a3b456b3473e97176f5500ca054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:59 +0000
Subject: [PATCH 124/136] fix: non-elitist coevolution averages children with
 their parents

---
 pybrain/optimization/populationbased/coevolution/coevolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/optimization/populationbased/coevolution/coevolution.py b/pybrain/optimization/populationbased/coevolution/coevolution.py
index b7f3aa6..bd21b0d 100644
--- a/pybrain/optimization/populationbased/coevolution/coevolution.py
+++ b/pybrain/optimization/populationbased/coevolution/coevolution.py
@@ -169,7 +169,7 @@ class Coevolution(Named):
             newpop = self._extendPopulation(selected, self.populationSize
                                             + self._numSelected()) [self._numSelected():]
             if self.parentChildAverage < 1:
-                self._averageWithParents(newpop[self._numSelected():], self.parentChildAverage)
+                self._averageWithParents(newpop, self.parentChildAverage)
         return newpop
 
     def _beats(self, h, p):
-- 
2.43.0


From 5d165f9e04937d908596815c0213ec04a2dcf94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:59 +0000
Subject: [PATCH 125/136] fix: multi-population coevolution leaves the caller's
 list of seeds alone

---
 .../populationbased/coevolution/multipopulationcoevolution.py    | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py b/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py
index 321a2fb..146c35b 100644
--- a/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py
+++ b/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py
@@ -15,6 +15,7 @@ class MultiPopulationCoevolution(Coevolution):
 
     def _initPopulation(self, seeds):
         """ one part of the seeds for each population, if there's not enough: randomize. """
+        seeds = seeds[:]
         for s in seeds:
             s.parent = None
         while len(seeds) < self.numPops:
-- 
2.43.0


From 8dbd478adc8b1345208828ef6da2716d39f6827d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:00 +0000
Subject: [PATCH 126/136] fix: multi-population coevolution counts the games
 against all other populations in its budget

---
 .../populationbased/coevolution/multipopulationcoevolution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py b/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py
index 146c35b..bbf1248 100644
--- a/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py
+++ b/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py
@@ -63,6 +63,6 @@ class MultiPopulationCoevolution(Coevolution):
 
     def _stepsPerGeneration(self):
         if self.tournamentSize == None:
-            return 2 * self.populationSize** 2
+            return 2 * self.populationSize** 2 * (self.numPops - 1)
         else:
-            return Coevolution._stepsPerGeneration(self)
+            return Coevolution._stepsPerGeneration(self) * (self.numPops - 1)
-- 
2.43.0


From ddc2b3ed84e12e1252620f92b0ff71142a58661c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:00 +0000
Subject: [PATCH 127/136] fix: shared sampling stops when it runs out of
 candidates

---
 pybrain/optimization/populationbased/coevolution/coevolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/optimization/populationbased/coevolution/coevolution.py b/pybrain/optimization/populationbased/coevolution/coevolution.py
index bd21b0d..dd37b32 100644
--- a/pybrain/optimization/populationbased/coevolution/coevolution.py
+++ b/pybrain/optimization/populationbased/coevolution/coevolution.py
@@ -216,7 +216,7 @@ class Coevolution(Named):
 
     def _sharedSampling(self, numSelect, selectFrom, relativeTo):
         """ Build a shared sampling set of opponents """
-        if numSelect < 1:
+        if numSelect < 1 or len(selectFrom) == 0:
             return []
         # determine the player of selectFrom with the most wins against players from relativeTo (and which ones)
         tmp = {}
-- 
2.43.0


From 02a186e9f0004036b8df68a462dfedb73e5ed735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:24 +0000
Subject: [PATCH 128/136] fix: evolino accepts the washout ratio as a pair,
 which is its default

---
 pybrain/supervised/evolino/filter.py   | 4 +++-
 pybrain/supervised/trainers/evolino.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pybrain/supervised/evolino/filter.py b/pybrain/supervised/evolino/filter.py
index 127f447..1594cb9 100644
--- a/pybrain/supervised/evolino/filter.py
+++ b/pybrain/supervised/evolino/filter.py
@@ -8,7 +8,7 @@ from pybrain.supervised.evolino.population import SimplePopulation
 from pybrain.tools.validation import Validator
 from pybrain.tools.kwargsprocessor import KWArgsProcessor
 
-from numpy import array, dot, concatenate, Infinity
+from numpy import array, dot, concatenate, size, Infinity
 from scipy.linalg import pinv2
 from copy import deepcopy
 
@@ -53,6 +53,8 @@ class EvolinoEvaluation(Filter):
 
         # === extract sequences from dataset ===
         numSequences = dataset.getNumSequences()
+        if size(wtRatio) > 1:
+            wtRatio = wtRatio[0] / float(sum(wtRatio))
         washout_sequences = []
         training_sequences = []
         for i in range(numSequences):
diff --git a/pybrain/supervised/trainers/evolino.py b/pybrain/supervised/trainers/evolino.py
index 865c9de..ae54c7e 100644
--- a/pybrain/supervised/trainers/evolino.py
+++ b/pybrain/supervised/trainers/evolino.py
@@ -88,7 +88,7 @@ class EvolinoTrainer(Trainer):
         ap.add('selection', default=EvolinoSelection())
         ap.add('reproduction', default=EvolinoReproduction(mutationVariate=self.mutationVariate))
         ap.add('burstMutation', default=EvolinoBurstMutation())
-        ap.add('evaluation', default=EvolinoEvaluation(evolino_network, self.ds, **kwargs))
+        ap.add('evaluation', default=EvolinoEvaluation(evolino_network, self.ds, **dict(kwargs, wtRatio=self._wtRatio)))
 
         self.selection.nParents = self.nParents
 
-- 
2.43.0


From fc5c0c3a5fbcbb1d24d72935892092a34b0ac6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:24 +0000
Subject: [PATCH 129/136] fix: evolino populations return no worst individuals
 when none are asked for

---
 pybrain/supervised/evolino/gpopulation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/supervised/evolino/gpopulation.py b/pybrain/supervised/evolino/gpopulation.py
index 0b689bd..e32dfb6 100644
--- a/pybrain/supervised/evolino/gpopulation.py
+++ b/pybrain/supervised/evolino/gpopulation.py
@@ -125,7 +125,8 @@ class SimplePopulation(Population):
             If n is greater than the number of individuals inside the population
             all individuals are returned.
         """
-        return set(self.getSortedIndividualList()[-n:])
+        inds = self.getSortedIndividualList()
+        return set(inds[max(0, len(inds) - n):])
 
     def removeWorstIndividuals(self, n):
         """ Removes the n individuals with the lowest fitness ranking.
-- 
2.43.0


From e3d7e24c2abced2d372afadb7deff611d6155f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:24 +0000
Subject: [PATCH 130/136] fix: evolino populations return their maximal fitness

---
 pybrain/supervised/evolino/gpopulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/supervised/evolino/gpopulation.py b/pybrain/supervised/evolino/gpopulation.py
index e32dfb6..87eb0d5 100644
--- a/pybrain/supervised/evolino/gpopulation.py
+++ b/pybrain/supervised/evolino/gpopulation.py
@@ -105,7 +105,7 @@ class SimplePopulation(Population):
 
     def getMaxFitness(self):
         """ Returns the maximal fitness value """
-        return self.getIndividualFitness(self.getBestIndividuals(1))
+        return self.getIndividualFitness(self.getBestIndividualsSorted(1)[0])
 
 
 
-- 
2.43.0


From 6e7c4a0e67d1057598c75969a13e1a5e5fd923e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:24 +0000
Subject: [PATCH 131/136] fix: evolino's default selection keeps a parent in
 small subpopulations

---
 pybrain/supervised/evolino/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/supervised/evolino/filter.py b/pybrain/supervised/evolino/filter.py
index 1594cb9..286d498 100644
--- a/pybrain/supervised/evolino/filter.py
+++ b/pybrain/supervised/evolino/filter.py
@@ -226,7 +226,7 @@ class EvolinoSubSelection(Filter):
 
         n = population.getIndividualsN()
         if self.nParents is None:
-            nKeep = n // 4
+            nKeep = max(1, n // 4)
         else:
             nKeep = self.nParents
 
-- 
2.43.0


From 6f3238ae8634b630b5796fd29e5761c1594c1510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:24 +0000
Subject: [PATCH 132/136] fix: Kohonen maps train with integer neighbourhood
 indices

---
 pybrain/structure/modules/kohonen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/structure/modules/kohonen.py b/pybrain/structure/modules/kohonen.py
index 2fcc477..dbeb4f7 100644
--- a/pybrain/structure/modules/kohonen.py
+++ b/pybrain/structure/modules/kohonen.py
@@ -28,7 +28,7 @@ class KohonenMap(Module):
         # create neurons
         self.neurons = random.random((nNeurons, nNeurons, dim))
         self.difference = zeros(self.neurons.shape)
-        self.winner = zeros(2)
+        self.winner = zeros(2, int)
         self.nInput = dim
         self.nNeurons = nNeurons
         self.neighbours = nNeurons
@@ -58,7 +58,7 @@ class KohonenMap(Module):
             closest neuron and its neighbours closer to the input pattern. """
 
         # calculate neighbourhood and limit to edge of matrix
-        n = floor(self.neighbours)
+        n = int(floor(self.neighbours))
         self.neighbours *= self.neighbourdecay
         tl = (self.winner - n)
         br = (self.winner + n + 1)
-- 
2.43.0


From c06d739868e099c61e64595dbcdecba822e7c8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:24 +0000
Subject: [PATCH 133/136] fix: mixtures of gaussians weigh the density with the
 given mixing parameters

---
 pybrain/tools/mixtures/mixtureofgaussian.py | 2 +-
 pybrain/tools/mixtures/mogpuremax.py        | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/tools/mixtures/mixtureofgaussian.py b/pybrain/tools/mixtures/mixtureofgaussian.py
index 92e7c4e..0006a97 100644
--- a/pybrain/tools/mixtures/mixtureofgaussian.py
+++ b/pybrain/tools/mixtures/mixtureofgaussian.py
@@ -56,7 +56,7 @@ class MixtureOfGaussians:
 
     #get mixture for point x
     def getGaus(self, alpha, mue, sigma, x):
-        sigmoA = self.sigmo(self.alpha)
+        sigmoA = self.sigmo(alpha)
         dens = zeros(self.numOGaus)
         for g in range(self.numOGaus):
             dens[g] = self.getStND(x, mue[g], sigma[g])
diff --git a/pybrain/tools/mixtures/mogpuremax.py b/pybrain/tools/mixtures/mogpuremax.py
index 9d2eac1..e710455 100644
--- a/pybrain/tools/mixtures/mogpuremax.py
+++ b/pybrain/tools/mixtures/mogpuremax.py
@@ -32,6 +32,7 @@ class MixtureOfGaussians:
         self.alpha = ones(self.numOGaus)
         self.sigma *= self.epsilon
         self.alpha /= float(self.numOGaus)
+        self.alpha = self.invSigmo(self.alpha)
         for i in range(self.numOGaus):
             self.mue[i] = self.distRange * float(i) * self.distFakt + self.rangeMin
         self.baseline = 0.0
-- 
2.43.0


From 6d75eac0e50c9c05f099246dc0c92cf862f6017c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:32 +0000
Subject: [PATCH 134/136] fix: handicap task steps down to no handicap

---
 pybrain/rl/environments/twoplayergames/tasks/handicaptask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/twoplayergames/tasks/handicaptask.py b/pybrain/rl/environments/twoplayergames/tasks/handicaptask.py
index 13591b6..38e6519 100644
--- a/pybrain/rl/environments/twoplayergames/tasks/handicaptask.py
+++ b/pybrain/rl/environments/twoplayergames/tasks/handicaptask.py
@@ -107,7 +107,7 @@ class HandicapCaptureTask(CaptureGameTask):
             self.addResult(current, win, self.env.movesDone)
             if self.goUp(current) and current < self.maxHandicaps:
                 current += 1
-            elif self.goDown(current) and current > 1:
+            elif self.goDown(current) and current > 0:
                 current -= 1
 
         high = self.bestHandicap()
-- 
2.43.0


From 6357d9351143e273b231446e0b399fcb7dc8a35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:52 +0000
Subject: [PATCH 135/136] fix: feed-forward networks nested in a recurrent
 network work at every time step

---
 pybrain/structure/networks/feedforward.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/structure/networks/feedforward.py b/pybrain/structure/networks/feedforward.py
index c833af2..eeeb41f 100644
--- a/pybrain/structure/networks/feedforward.py
+++ b/pybrain/structure/networks/feedforward.py
@@ -29,7 +29,7 @@ class FeedForwardNetworkComponent(object):
         for m in self.modulesSorted:
             m.forward()
             for c in self.connections[m]:
-                c.forward()
+                c.forward(offset, offset)
 
         index = 0
         for m in self.outmodules:
@@ -46,7 +46,7 @@ class FeedForwardNetworkComponent(object):
 
         for m in reversed(self.modulesSorted):
             for c in self.connections[m]:
-                c.backward()
+                c.backward(offset, offset)
             m.backward()
 
         index = 0
-- 
2.43.0


From d101bbb22af84433324acff469c62147dac1c9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:42:29 +0000
Subject: [PATCH 136/136] fix: networks nested in a forgetful recurrent network
 forget with it

---
 pybrain/structure/networks/network.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pybrain/structure/networks/network.py b/pybrain/structure/networks/network.py
index c0e2fa3..1e5b47e 100644
--- a/pybrain/structure/networks/network.py
+++ b/pybrain/structure/networks/network.py
@@ -149,6 +149,12 @@ class Network(Module, ParameterContainer):
         for m in self.modules:
             m.reset()
 
+    def shift(self, items):
+        """Shift the buffers of all component modules and of the network."""
+        for m in self.modules:
+            m.shift(items)
+        super(Network, self).shift(items)
+
     def _setParameters(self, p, owner=None):
         """ put slices of this array back into the modules """
         ParameterContainer._setParameters(self, p, owner)
-- 
2.43.0

