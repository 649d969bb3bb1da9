From 6a8e890cc5e57619b446cac497069f30e921b0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:08 +0000
Subject: [PATCH 01/43] fix: use the class membership probability of the
 predicted word when decoding

---
 theanolm/scoring/latticedecoder.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/theanolm/scoring/latticedecoder.py b/theanolm/scoring/latticedecoder.py
index 1a29dde..ff6199a 100644
--- a/theanolm/scoring/latticedecoder.py
+++ b/theanolm/scoring/latticedecoder.py
@@ -629,13 +629,15 @@ class LatticeDecoder(object):
         input_word_ids = [[limit_to_shortlist(self, token.history[-1])
                            for token in tokens]]
         input_word_ids = numpy.asarray(input_word_ids).astype('int64')
-        input_class_ids, membership_probs = \
+        input_class_ids, _ = \
             self._vocabulary.get_class_memberships(input_word_ids)
         recurrent_state = [token.state for token in tokens]
         recurrent_state = RecurrentState.combine_sequences(recurrent_state)
         target_word_id = limit_to_shortlist(self, target_word)
-        target_class_ids = numpy.ones(shape=(1, len(tokens))).astype('int64')
-        target_class_ids *= self._vocabulary.word_id_to_class_id[target_word_id]
+        target_word_ids = numpy.ones(shape=(1, len(tokens))).astype('int64')
+        target_word_ids *= target_word_id
+        target_class_ids, membership_probs = \
+            self._vocabulary.get_class_memberships(target_word_ids)
         step_result = self._step_function(input_word_ids,
                                           input_class_ids,
                                           target_class_ids,
-- 
2.43.0


From e5faa1465885ec5ab91ec4b9f938679b49e4bdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:08 +0000
Subject: [PATCH 02/43] fix: never prune all the tokens of a lattice node

---
 theanolm/scoring/latticedecoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theanolm/scoring/latticedecoder.py b/theanolm/scoring/latticedecoder.py
index ff6199a..b9c91d8 100644
--- a/theanolm/scoring/latticedecoder.py
+++ b/theanolm/scoring/latticedecoder.py
@@ -552,7 +552,7 @@ class LatticeDecoder(object):
         # Enforce limit on number of tokens at each node.
         if self._max_tokens_per_node is not None:
             max_tokens = self._max_tokens_per_node // limit_divider
-            max_tokens = max(max_tokens, self._abs_min_max_tokens)
+            max_tokens = max(max_tokens, self._abs_min_max_tokens, 1)
             new_tokens = new_tokens[:max_tokens]
         stats['after-max'] = len(new_tokens)
 
-- 
2.43.0


From 947334ed296c6ba0a9f4f6777cb198871de831fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:08 +0000
Subject: [PATCH 03/43] fix: pass --prune-relative and an integer
 --abs-min-max-tokens to the decoder

---
 theanolm/commands/decode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/theanolm/commands/decode.py b/theanolm/commands/decode.py
index b2a3ee1..f8ddd0b 100644
--- a/theanolm/commands/decode.py
+++ b/theanolm/commands/decode.py
@@ -135,7 +135,7 @@ def add_arguments(parser):
              "linearly in the number of tokens in a node; those parameters "
              "will be divided by the number of tokens and multiplied by R")
     argument_group.add_argument(
-        '--abs-min-max-tokens', metavar='T', type=float, default=30,
+        '--abs-min-max-tokens', metavar='T', type=int, default=30,
         help="if prune-extra-limit is used, do not tighten max-tokens-per-node "
              "further than this (default is 30)")
     argument_group.add_argument(
@@ -219,7 +219,7 @@ def decode(args):
         'max_tokens_per_node': args.max_tokens_per_node,
         'beam': args.beam,
         'recombination_order': args.recombination_order,
-        'prune_relative': args.prune_relative,
+        'prune_extra_limit': args.prune_relative,
         'abs_min_max_tokens': args.abs_min_max_tokens,
         'abs_min_beam': args.abs_min_beam
     }
-- 
2.43.0


From 7bab09461d19c4a2c9bfbec697597ec4204ae4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:08 +0000
Subject: [PATCH 04/43] fix: undefined variable in format_token()

---
 theanolm/commands/decode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theanolm/commands/decode.py b/theanolm/commands/decode.py
index f8ddd0b..99352a3 100644
--- a/theanolm/commands/decode.py
+++ b/theanolm/commands/decode.py
@@ -308,5 +308,5 @@ def format_token(token, utterance_id, vocabulary, log_scale, output_format):
             len(words),
             ' '.join(words))
     else:
-        print("Invalid output format requested:", args.output)
+        print("Invalid output format requested:", output_format)
         sys.exit(1)
-- 
2.43.0


From 56d88b6af2d1d2b882ad9e8daad6917f1b7dac79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:40 +0000
Subject: [PATCH 05/43] fix: write the word insertion penalty of a rescored
 lattice in the base of its other scores

---
 theanolm/commands/decode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theanolm/commands/decode.py b/theanolm/commands/decode.py
index 99352a3..73cd19b 100644
--- a/theanolm/commands/decode.py
+++ b/theanolm/commands/decode.py
@@ -248,7 +248,7 @@ def decode(args):
                                                recomb_tokens,
                                                network.vocabulary)
             rescored_lattice.lm_scale = args.lm_scale
-            rescored_lattice.wi_penalty = args.wi_penalty
+            rescored_lattice.wi_penalty = wi_penalty
             if args.output == "slf":
                 rescored_lattice.write_slf(args.output_file)
             else:
-- 
2.43.0


From a7586ddb252c1bcf12bd6197cef7fcb4b0b613a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:40 +0000
Subject: [PATCH 06/43] fix: missing import of InputError in BasicLayer

---
 theanolm/network/basiclayer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theanolm/network/basiclayer.py b/theanolm/network/basiclayer.py
index 0ebabcb..460010c 100644
--- a/theanolm/network/basiclayer.py
+++ b/theanolm/network/basiclayer.py
@@ -8,7 +8,7 @@ import logging
 
 import theano.tensor as tensor
 
-from theanolm.backend import Parameters, conv1d
+from theanolm.backend import InputError, Parameters, conv1d
 from theanolm.network.weightfunctions import random_matrix, matrix_from_value
 
 class BasicLayer(object, metaclass=ABCMeta):
-- 
2.43.0


From 362a03e32b5ab67a09298f15f47701bbae50baee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:40 +0000
Subject: [PATCH 07/43] fix: score_line() failed on out-of-shortlist words

---
 theanolm/scoring/textscorer.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/theanolm/scoring/textscorer.py b/theanolm/scoring/textscorer.py
index 1b36d0a..08d1118 100644
--- a/theanolm/scoring/textscorer.py
+++ b/theanolm/scoring/textscorer.py
@@ -336,10 +336,7 @@ class TextScorer(object):
         self.num_words += word_ids.size
         self.num_unks += numpy.count_nonzero(word_ids == unk_id)
 
-        class_ids = [vocabulary.word_id_to_class_id[word_id]
-                     for word_id in word_ids]
-        probs = [vocabulary.get_word_prob(word_id)
-                 for word_id in word_ids]
+        class_ids, probs = vocabulary.get_class_memberships(word_ids)
 
         return self.score_sequence(word_ids, class_ids, probs)
 
-- 
2.43.0


From 1dc3c7e2fd12a08edc9411f8ad72e46f7735d59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:40 +0000
Subject: [PATCH 08/43] fix: restoring iterator state left words of another
 position in the buffer

---
 theanolm/parsing/shufflingbatchiterator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/theanolm/parsing/shufflingbatchiterator.py b/theanolm/parsing/shufflingbatchiterator.py
index 5a5ad36..abcfe34 100644
--- a/theanolm/parsing/shufflingbatchiterator.py
+++ b/theanolm/parsing/shufflingbatchiterator.py
@@ -184,6 +184,8 @@ class ShufflingBatchIterator(BatchIterator):
             raise IncompatibleStateError("Current iteration position is "
                                          "missing from training state.")
         self._next_line = int(h5_iterator.attrs['next_line'])
+        self._buffer = []
+        self._end_of_file = False
         logging.debug("Restored iterator to line %d of %d.",
                       self._next_line,
                       self._order.size)
-- 
2.43.0


From 40460e5f700c3534cdde54e86b029a99f6b6a60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:40 +0000
Subject: [PATCH 09/43] fix: statistics function given to set_validation() was
 ignored

---
 theanolm/training/trainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theanolm/training/trainer.py b/theanolm/training/trainer.py
index 68c7252..0ba0457 100644
--- a/theanolm/training/trainer.py
+++ b/theanolm/training/trainer.py
@@ -148,7 +148,7 @@ class Trainer(object):
             self._samples_per_validation = samples_per_validation
 
         if statistics_function is not None:
-            self._statistics_function = statistics_function
+            self._statistic_function = statistics_function
 
     def set_logging(self, log_interval):
         """Sets logging parameters.
-- 
2.43.0


From 589da4b31601018d06484cfd34680f7f6e75934c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:40 +0000
Subject: [PATCH 10/43] fix: RMSProp with Nesterov momentum dropped the mean
 squared gradient updates

---
 theanolm/training/rmspropnesterovoptimizer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/theanolm/training/rmspropnesterovoptimizer.py b/theanolm/training/rmspropnesterovoptimizer.py
index 16c3b14..bae5f0c 100644
--- a/theanolm/training/rmspropnesterovoptimizer.py
+++ b/theanolm/training/rmspropnesterovoptimizer.py
@@ -91,7 +91,6 @@ class RMSPropNesterovOptimizer(BasicOptimizer):
             deltas[path] = -gradient / rms_gradient
         self._normalize(deltas)
 
-        result = []
         for path, param_old in self.network.get_variables().items():
             delta = deltas[path]
             velocity_old = self._params[path + '_velocity']
-- 
2.43.0


From 048f79df637474182c1bf781f6fe9af0b4e00ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:40 +0000
Subject: [PATCH 11/43] fix: saving a scalar parameter in an existing state
 failed

---
 theanolm/backend/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theanolm/backend/parameters.py b/theanolm/backend/parameters.py
index c824bf1..4d67836 100644
--- a/theanolm/backend/parameters.py
+++ b/theanolm/backend/parameters.py
@@ -86,7 +86,7 @@ class Parameters:
 
         for path, param in self._vars.items():
             if path in state:
-                state[path][:] = param.get_value()
+                state[path][...] = param.get_value()
             else:
                 state.create_dataset(path, data=param.get_value())
 
-- 
2.43.0


From 249f7a78b5a6811137a853353a36e2c1edc3c1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:38 +0000
Subject: [PATCH 12/43] fix: scale the parameter updates by the training file
 weights

---
 theanolm/training/basicoptimizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/theanolm/training/basicoptimizer.py b/theanolm/training/basicoptimizer.py
index 6f1af45..62b6072 100644
--- a/theanolm/training/basicoptimizer.py
+++ b/theanolm/training/basicoptimizer.py
@@ -110,7 +110,8 @@ class BasicOptimizer(object, metaclass=ABCMeta):
         weights.tag.test_value = test_value(size=(100, 16), high=1.0)
         word_positions = tensor.eq(self.network.mask, 1).nonzero()
         weight = weights[word_positions].sum()
-        num_words_float = tensor.cast(num_words, theano.config.floatX)
+        num_words_float = tensor.cast(self.network.mask.sum(),
+                                      theano.config.floatX)
         modified_alpha = tensor.switch(tensor.gt(num_words, 0),
                                        alpha * weight / num_words_float,
                                        alpha)
@@ -128,7 +129,7 @@ class BasicOptimizer(object, metaclass=ABCMeta):
                     (self.network.is_training, numpy.int8(1)),
                     (self.network.num_noise_samples,
                      numpy.int64(num_noise_samples))],
-            updates=self._get_param_updates(alpha),
+            updates=self._get_param_updates(modified_alpha),
             name='update_function',
             on_unused_input='ignore',
             profile=profile)
-- 
2.43.0


From 81bbb0aff94e6f7c21a2aba291078dbbf769ffd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:38 +0000
Subject: [PATCH 13/43] fix: resuming training without validation data repeated
 the last epoch

---
 theanolm/training/trainer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/theanolm/training/trainer.py b/theanolm/training/trainer.py
index 0ba0457..e46da53 100644
--- a/theanolm/training/trainer.py
+++ b/theanolm/training/trainer.py
@@ -230,9 +230,6 @@ class Trainer(object):
                 if not self._stopper.start_new_minibatch():
                     break
 
-            if self._validation_iter is None:
-                self._set_candidate_state()
-
             epoch_duration = time() - epoch_start_time
             epoch_minutes = epoch_duration / 60
             epoch_time_h, epoch_time_m = divmod(epoch_minutes, 60)
@@ -247,6 +244,11 @@ class Trainer(object):
             self.epoch_number += 1
             self.update_number = 0
 
+            # When there is no validation data, every epoch ends in saving the
+            # state. Training continues from the beginning of the next epoch.
+            if self._validation_iter is None:
+                self._set_candidate_state()
+
         duration = time() - start_time
         minutes = duration / 60
         time_h, time_m = divmod(minutes, 60)
-- 
2.43.0


From 3c2d87817f650b5448b0cfb5fee7618b90ffe4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:38 +0000
Subject: [PATCH 14/43] fix: training continued without an optimizer after an
 error

---
 theanolm/commands/train.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/theanolm/commands/train.py b/theanolm/commands/train.py
index cf9b10c..714b2ca 100644
--- a/theanolm/commands/train.py
+++ b/theanolm/commands/train.py
@@ -442,6 +442,7 @@ def train(args):
                   "parameters are disconnected from the output. Make sure all "
                   "the layers are correctly connected in the network "
                   "architecture. The error message was: `{}´".format(e))
+            sys.exit(1)
 
         if args.print_graph:
             print("Cost function computation graph:")
-- 
2.43.0


From 66052024c7ac728fb818c8ce1f24cea9a91b8747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:38 +0000
Subject: [PATCH 15/43] fix: --print-graph used a nonexistent attribute

---
 theanolm/commands/train.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theanolm/commands/train.py b/theanolm/commands/train.py
index 714b2ca..7e8a481 100644
--- a/theanolm/commands/train.py
+++ b/theanolm/commands/train.py
@@ -446,7 +446,7 @@ def train(args):
 
         if args.print_graph:
             print("Cost function computation graph:")
-            theano.printing.debugprint(optimizer.gradient_update_function)
+            theano.printing.debugprint(optimizer.update_function)
 
         trainer.initialize(network, state, optimizer)
 
-- 
2.43.0


From 818ca9a1cdb8127de0ac4d0a0f479496af0f1db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:54 +0000
Subject: [PATCH 16/43] fix: number of out-of-vocabulary words was not logged

---
 theanolm/commands/score.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/theanolm/commands/score.py b/theanolm/commands/score.py
index 00da3f2..623bfd0 100644
--- a/theanolm/commands/score.py
+++ b/theanolm/commands/score.py
@@ -426,6 +426,5 @@ def _score_utterances(input_file, vocabulary, scorer, output_file,
     else:
         logging.info("%d words processed, including start-of-sentence and "
               "end-of-sentence tags, and %d (%.1f %%) out-of-vocabulary "
-              "words".format(scorer.num_words,
-                             scorer.num_unks,
-                             scorer.num_unks / scorer.num_words))
+              "words", scorer.num_words, scorer.num_unks,
+              100 * scorer.num_unks / scorer.num_words)
-- 
2.43.0


From 696f0e00821746a9e4ea1e6d6060f9e307710c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:54 +0000
Subject: [PATCH 17/43] fix: scoring text failed if no word of a sentence was
 predicted

---
 theanolm/commands/score.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/theanolm/commands/score.py b/theanolm/commands/score.py
index 623bfd0..3bf5f5a 100644
--- a/theanolm/commands/score.py
+++ b/theanolm/commands/score.py
@@ -215,8 +215,10 @@ def _score_text(input_file, vocabulary, scorer, output_file,
                 output_file.write("# Sentence {0}\n".format(num_sentences))
                 _write_word_scores(vocabulary, merged_words, merged_logprobs,
                                    output_file, log_scale)
-                output_file.write("Sentence perplexity: {0}\n\n".format(
-                    numpy.exp(-seq_logprob / num_seq_probs)))
+                if num_seq_probs > 0:
+                    output_file.write("Sentence perplexity: {0}\n".format(
+                        numpy.exp(-seq_logprob / num_seq_probs)))
+                output_file.write("\n")
 
     output_file.write("Number of sentences: {0}\n".format(num_sentences))
     output_file.write("Number of words: {0}\n".format(num_words))
@@ -227,7 +229,7 @@ def _score_text(input_file, vocabulary, scorer, output_file,
                       .format(num_unks))
     output_file.write("Number of zero probabilities: {0}\n"
                       .format(num_zeroprobs))
-    if num_words > 0:
+    if num_probs > 0:
         cross_entropy = -total_logprob / num_probs
         perplexity = numpy.exp(cross_entropy)
         output_file.write("Cross entropy (base e): {0}\n".format(cross_entropy))
-- 
2.43.0


From 96d2bc51c29bd38c0fe6243bc22a715c19c35d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:54 +0000
Subject: [PATCH 18/43] fix: transition IDs of a null link were appended in the
 wrong order

---
 theanolm/scoring/rescoredlattice.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/theanolm/scoring/rescoredlattice.py b/theanolm/scoring/rescoredlattice.py
index 41566db..909a96a 100644
--- a/theanolm/scoring/rescoredlattice.py
+++ b/theanolm/scoring/rescoredlattice.py
@@ -50,8 +50,9 @@ def _follow_word_from_node(node, word):
             ac_logprob += link.ac_logprob
         if link.lm_logprob is not None:
             lm_logprob += link.lm_logprob
-        if link.transitions is not None:
-            transitions += link.transitions
+        if link.transitions:
+            transitions = link.transitions + "_" + transitions \
+                          if transitions else link.transitions
         return (end_node, ac_logprob, lm_logprob, transitions)
 
 class RescoredLattice(Lattice):
-- 
2.43.0


From 0c8e6f39aec63d67a9c18f9f243f0e9aa0229606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:54 +0000
Subject: [PATCH 19/43] fix: order of more than ten inputs was lost when
 loading an architecture

---
 theanolm/network/architecture.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/theanolm/network/architecture.py b/theanolm/network/architecture.py
index 57a4d8a..0d92fb1 100644
--- a/theanolm/network/architecture.py
+++ b/theanolm/network/architecture.py
@@ -62,7 +62,7 @@ class Architecture(object):
                 "network state.")
         h5_inputs = h5_arch['inputs']
         inputs = []
-        for input_id in sorted(h5_inputs.keys()):
+        for input_id in sorted(h5_inputs.keys(), key=int):
             h5_input = h5_inputs[input_id]
             inputs.append(cls._read_h5_dict(h5_input))
 
@@ -276,7 +276,7 @@ class Architecture(object):
         for variable in h5_dict:
             values = []
             h5_values = h5_dict[variable]
-            for value_id in sorted(h5_values.attrs.keys()):
+            for value_id in sorted(h5_values.attrs.keys(), key=int):
                 values.append(h5_values.attrs[value_id])
             result[variable] = values
         return result
-- 
2.43.0


From 0d1660fdcbec83ee291aae74ac2d3c0a8e44b879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:08 +0000
Subject: [PATCH 20/43] fix: state of an architecture with different layers was
 not rejected properly

---
 theanolm/network/architecture.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/theanolm/network/architecture.py b/theanolm/network/architecture.py
index 0d92fb1..2f0a0ab 100644
--- a/theanolm/network/architecture.py
+++ b/theanolm/network/architecture.py
@@ -233,6 +233,10 @@ class Architecture(object):
                 "Architecture parameter 'inputs' is missing from neural "
                 "network state.")
         h5_inputs = h5_arch['inputs']
+        if len(h5_inputs) != len(self.inputs):
+            raise IncompatibleStateError(
+                "Neural network state has {} inputs, while this architecture "
+                "has {}.".format(len(h5_inputs), len(self.inputs)))
         for input_id, input_value in enumerate(self.inputs):
             h5_input = h5_inputs[str(input_id)]
             self._check_h5_dict(h5_input, input_value)
@@ -242,6 +246,10 @@ class Architecture(object):
                 "Architecture parameter 'layers' is missing from neural "
                 "network state.")
         h5_layers = h5_arch['layers']
+        if len(h5_layers) != len(self.layers):
+            raise IncompatibleStateError(
+                "Neural network state has {} layers, while this architecture "
+                "has {}.".format(len(h5_layers), len(self.layers)))
         for layer_id, layer in enumerate(self.layers):
             h5_layer = h5_layers[str(layer_id)]
             self._check_h5_dict(h5_layer, layer)
@@ -334,6 +342,12 @@ class Architecture(object):
                             "Neural network state does not specify devices, "
                             "while this architecture uses {}."
                             .format(', '.join(str(x) for x in values)))
+                if (variable not in h5_group) or \
+                   (len(h5_group[variable].attrs) != len(values)):
+                    raise IncompatibleStateError(
+                        "Neural network state does not have exactly {1} {0}, "
+                        "while this architecture does."
+                        .format(variable, len(values)))
                 h5_values = h5_group[variable]
                 for value_id, value in enumerate(values):
                     h5_value = h5_values.attrs[str(value_id)]
@@ -343,6 +357,10 @@ class Architecture(object):
                             "architecture has {0}={1}."
                             .format(variable, value, h5_value))
             else:
+                if variable not in h5_group.attrs:
+                    raise IncompatibleStateError(
+                        "Neural network state does not specify {0}, while this "
+                        "architecture has {0}={1}.".format(variable, values))
                 h5_value = h5_group.attrs[variable]
                 if values != h5_value:
                     raise IncompatibleStateError(
-- 
2.43.0


From d0ed5727366038e318b4f2d6dfe27f22e3cdecee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:18 +0000
Subject: [PATCH 21/43] fix: evaluating a word class move failed on zero counts

---
 wordclasses/numpybigramoptimizer.py  | 30 +++++++++++++++++-----------
 wordclasses/theanobigramoptimizer.py | 14 ++++---------
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/wordclasses/numpybigramoptimizer.py b/wordclasses/numpybigramoptimizer.py
index ea58de4..ff5c637 100644
--- a/wordclasses/numpybigramoptimizer.py
+++ b/wordclasses/numpybigramoptimizer.py
@@ -100,14 +100,12 @@ class NumpyBigramOptimizer(BigramOptimizer):
         # old class
         old_count = self._class_counts[old_class_id]
         new_count = old_count - self._word_counts[word_id]
-        result = 2 * old_count * numpy.log(old_count)
-        result -= 2 * new_count * numpy.log(new_count)
+        result = -2 * self._ll_change(old_count, new_count)
 
         # new class
         old_count = self._class_counts[new_class_id]
         new_count = old_count + self._word_counts[word_id]
-        result += 2 * old_count * numpy.log(old_count)
-        result -= 2 * new_count * numpy.log(new_count)
+        result -= 2 * self._ll_change(old_count, new_count)
 
         # Iterate over classes other than the old and new class of the word.
         class_ids = numpy.arange(self.num_classes)
@@ -117,26 +115,26 @@ class NumpyBigramOptimizer(BigramOptimizer):
         # old class, class X
         old_counts = self._cc_counts[old_class_id,iter_class_ids]
         new_counts = old_counts - self._wc_counts[word_id,iter_class_ids]
-        result -= (numpy.ma.log(old_counts) * old_counts).sum()
-        result += (numpy.ma.log(new_counts) * new_counts).sum()
+        result -= self._xlogx(old_counts).sum()
+        result += self._xlogx(new_counts).sum()
 
         # new class, class X
         old_counts = self._cc_counts[new_class_id,iter_class_ids]
         new_counts = old_counts + self._wc_counts[word_id,iter_class_ids]
-        result -= (numpy.ma.log(old_counts) * old_counts).sum()
-        result += (numpy.ma.log(new_counts) * new_counts).sum()
+        result -= self._xlogx(old_counts).sum()
+        result += self._xlogx(new_counts).sum()
 
         # class X, old class
         old_counts = self._cc_counts[iter_class_ids,old_class_id]
         new_counts = old_counts - self._cw_counts[iter_class_ids,word_id]
-        result -= (numpy.ma.log(old_counts) * old_counts).sum()
-        result += (numpy.ma.log(new_counts) * new_counts).sum()
+        result -= self._xlogx(old_counts).sum()
+        result += self._xlogx(new_counts).sum()
 
         # class X, new class
         old_counts = self._cc_counts[iter_class_ids,new_class_id]
         new_counts = old_counts + self._cw_counts[iter_class_ids,word_id]
-        result -= (numpy.ma.log(old_counts) * old_counts).sum()
-        result += (numpy.ma.log(new_counts) * new_counts).sum()
+        result -= self._xlogx(old_counts).sum()
+        result += self._xlogx(new_counts).sum()
 
         # old class, new class
         old_count = self._cc_counts[old_class_id,new_class_id]
@@ -172,6 +170,14 @@ class NumpyBigramOptimizer(BigramOptimizer):
 
         return result
 
+    @staticmethod
+    def _xlogx(x):
+        """A helper function that computes ``x * log(x)``, where ``x`` is a
+        vector that may contain zeros.
+        """
+
+        return numpy.ma.filled(numpy.ma.log(x) * x, 0)
+
     def _ll_change(self, old_count, new_count):
         result = 0
         if old_count != 0:
diff --git a/wordclasses/theanobigramoptimizer.py b/wordclasses/theanobigramoptimizer.py
index 1854cc1..316fb33 100644
--- a/wordclasses/theanobigramoptimizer.py
+++ b/wordclasses/theanobigramoptimizer.py
@@ -120,14 +120,12 @@ class TheanoBigramOptimizer(BigramOptimizer):
         # old class
         old_count = old_class_count
         new_count = old_count - word_count
-        result = 2 * old_count * tensor.log(old_count)
-        result -= 2 * new_count * tensor.log(new_count)
+        result = -2 * self._ll_change(old_count, new_count)
 
         # new class
         old_count = new_class_count
         new_count = old_count + word_count
-        result += 2 * old_count * tensor.log(old_count)
-        result -= 2 * new_count * tensor.log(new_count)
+        result -= 2 * self._ll_change(old_count, new_count)
 
         # Iterate over classes other than the old and new class of the word.
         class_ids = tensor.arange(self.num_classes)
@@ -310,12 +308,8 @@ class TheanoBigramOptimizer(BigramOptimizer):
         count changes.
         """
 
-        result = 0
-        if old_count != 0:
-            result -= old_count * tensor.log(old_count)
-        if new_count != 0:
-            result += new_count * tensor.log(new_count)
-        return result
+        return TheanoBigramOptimizer._xlogx(new_count) - \
+               TheanoBigramOptimizer._xlogx(old_count)
 
     @staticmethod
     def _xlogx(x):
-- 
2.43.0


From 3753c832629f6740f623f7a74b3085ec7a2938cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:18 +0000
Subject: [PATCH 22/43] fix: Kaldi vocabularies with gaps in the word IDs could
 not be read

---
 theanolm/scoring/latticebatch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/theanolm/scoring/latticebatch.py b/theanolm/scoring/latticebatch.py
index 68ea893..aadaf2e 100644
--- a/theanolm/scoring/latticebatch.py
+++ b/theanolm/scoring/latticebatch.py
@@ -43,7 +43,8 @@ class LatticeBatch(object):
         # Read Kaldi word ID mapping.
         if kaldi_vocabulary is not None:
             self.kaldi_word_to_id = read_kaldi_vocabulary(kaldi_vocabulary)
-            self.kaldi_id_to_word = [None] * len(self.kaldi_word_to_id)
+            num_ids = max(self.kaldi_word_to_id.values(), default=-1) + 1
+            self.kaldi_id_to_word = [None] * num_ids
             for word, id in self.kaldi_word_to_id.items():
                 self.kaldi_id_to_word[id] = word
         elif lattice_format == 'kaldi':
-- 
2.43.0


From 5f5608af92691ac121af6c02203a8c5fdcdc620e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:18 +0000
Subject: [PATCH 23/43] fix: sampling failed if the seed sequence contained
 unknown words

---
 theanolm/textsampler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/theanolm/textsampler.py b/theanolm/textsampler.py
index c92c0c7..47b26a1 100644
--- a/theanolm/textsampler.py
+++ b/theanolm/textsampler.py
@@ -93,7 +93,10 @@ class TextSampler(object):
             step_result = self.step_function(input_word_ids,
                                              input_class_ids,
                                              *state.get())
-            token_id = self._vocabulary.word_to_id[token]
+            token_id = self._vocabulary.words_to_ids([token])[0]
+            result[time_step] = token_id
+            if not self._vocabulary.in_shortlist(token_id):
+                token_id = self._vocabulary.word_to_id['<unk>']
             token_class_id = \
                 self._vocabulary.word_id_to_class_id[token_id]
             input_word_ids = token_id * \
@@ -102,8 +105,6 @@ class TextSampler(object):
             input_class_ids = token_class_id * \
                               numpy.ones(shape=(1,
                                 num_sequences)).astype('int64')
-            step_word_ids = input_word_ids
-            result[time_step] = step_word_ids
             state.set(step_result[1:])
         
         #Then sample:
-- 
2.43.0


From b4eca2b1aecacd4d11692ad961274616a63ec459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:10 +0000
Subject: [PATCH 24/43] fix: predictions of bidirectional layers depended on
 the padding of a batch

---
 theanolm/network/grulayer.py  | 3 +++
 theanolm/network/lstmlayer.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/theanolm/network/grulayer.py b/theanolm/network/grulayer.py
index 61d3320..016e4e6 100644
--- a/theanolm/network/grulayer.py
+++ b/theanolm/network/grulayer.py
@@ -78,6 +78,9 @@ class GRULayer(BasicLayer):
             # bidirectional layer. The target word is the next input word, so
             # otherwise predicting it will be trivial.
             preact_dim = layer_input_preact.shape[2]
+            # Padding after the end of a sequence must not affect the state.
+            mask = tensor.cast(self._network.mask[:, :, None], theano.config.floatX)
+            layer_input_preact *= mask
             padding = tensor.zeros([2, num_sequences, preact_dim])
             layer_input_preact = tensor.concatenate(
                 [layer_input_preact[2:], padding],
diff --git a/theanolm/network/lstmlayer.py b/theanolm/network/lstmlayer.py
index 73c3016..92de0c0 100644
--- a/theanolm/network/lstmlayer.py
+++ b/theanolm/network/lstmlayer.py
@@ -83,6 +83,9 @@ class LSTMLayer(BasicLayer):
             # bidirectional layer. The target word is the next input word, so
             # otherwise predicting it will be trivial.
             preact_dim = layer_input_preact.shape[2]
+            # Padding after the end of a sequence must not affect the state.
+            mask = tensor.cast(self._network.mask[:, :, None], theano.config.floatX)
+            layer_input_preact *= mask
             padding = tensor.zeros([2, num_sequences, preact_dim])
             layer_input_preact = tensor.concatenate(
                 [layer_input_preact[2:], padding],
-- 
2.43.0


From adb7f8d797ee7da3de09571b112e2d2df960389e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:51 +0000
Subject: [PATCH 25/43] fix: compressed training and validation files were read
 without decompressing

---
 theanolm/commands/train.py                 |  7 ++----
 theanolm/parsing/__init__.py               |  2 +-
 theanolm/parsing/functions.py              | 27 ++++++++++++++++++++++
 theanolm/parsing/shufflingbatchiterator.py |  7 ++----
 4 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/theanolm/commands/train.py b/theanolm/commands/train.py
index 7e8a481..1bdbad2 100644
--- a/theanolm/commands/train.py
+++ b/theanolm/commands/train.py
@@ -4,7 +4,6 @@
 """
 
 import sys
-import mmap
 import logging
 
 import h5py
@@ -13,7 +12,7 @@ import theano
 
 from theanolm import Vocabulary, Architecture, Network
 from theanolm.backend import TextFileType, get_default_device
-from theanolm.parsing import LinearBatchIterator
+from theanolm.parsing import LinearBatchIterator, map_text_file
 from theanolm.training import Trainer, create_optimizer, CrossEntropyCost, \
                               NCECost, BlackoutCost
 from theanolm.scoring import TextScorer
@@ -456,9 +455,7 @@ def train(args):
                                 exclude_unk=args.exclude_unk,
                                 profile=args.profile)
             logging.info("Validation text: %s", args.validation_file.name)
-            validation_mmap = mmap.mmap(args.validation_file.fileno(),
-                                        0,
-                                        prot=mmap.PROT_READ)
+            validation_mmap = map_text_file(args.validation_file)
             validation_iter = \
                 LinearBatchIterator(validation_mmap,
                                     vocabulary,
diff --git a/theanolm/parsing/__init__.py b/theanolm/parsing/__init__.py
index a7769c7..6da0759 100644
--- a/theanolm/parsing/__init__.py
+++ b/theanolm/parsing/__init__.py
@@ -6,4 +6,4 @@
 from theanolm.parsing.linearbatchiterator import LinearBatchIterator
 from theanolm.parsing.shufflingbatchiterator import ShufflingBatchIterator
 from theanolm.parsing.scoringbatchiterator import ScoringBatchIterator
-from theanolm.parsing.functions import utterance_from_line
+from theanolm.parsing.functions import utterance_from_line, map_text_file
diff --git a/theanolm/parsing/functions.py b/theanolm/parsing/functions.py
index 6d00336..5e0037c 100644
--- a/theanolm/parsing/functions.py
+++ b/theanolm/parsing/functions.py
@@ -3,6 +3,9 @@
 """Functions related to reading text.
 """
 
+import gzip
+import mmap
+
 def utterance_from_line(line):
     """Converts a line of text, read from an input file, into a list of words.
 
@@ -33,6 +36,30 @@ def utterance_from_line(line):
 
     return result
 
+def map_text_file(input_file):
+    """Creates a memory map of the content of a text file.
+
+    The content of a gzip-compressed file is decompressed into memory.
+
+    :type input_file: file object
+    :param input_file: an input text file
+
+    :rtype: mmap.mmap
+    :returns: a memory map of the (decompressed) text
+    """
+
+    binary_file = getattr(input_file, 'buffer', input_file)
+    if not isinstance(binary_file, gzip.GzipFile):
+        return mmap.mmap(input_file.fileno(), 0, prot=mmap.PROT_READ)
+
+    input_file.seek(0)
+    data = binary_file.read()
+    input_file.seek(0)
+    result = mmap.mmap(-1, len(data))
+    result.write(data)
+    result.seek(0)
+    return result
+
 def find_sentence_starts(data):
     """Finds the positions inside a memory-mapped file, where the sentences
     (lines) start.
diff --git a/theanolm/parsing/shufflingbatchiterator.py b/theanolm/parsing/shufflingbatchiterator.py
index abcfe34..96ad131 100644
--- a/theanolm/parsing/shufflingbatchiterator.py
+++ b/theanolm/parsing/shufflingbatchiterator.py
@@ -5,7 +5,6 @@ sentence order.
 """
 
 import sys
-import mmap
 import logging
 
 import numpy
@@ -13,7 +12,7 @@ from numpy import random
 
 from theanolm.backend import IncompatibleStateError
 from theanolm.parsing.batchiterator import BatchIterator
-from theanolm.parsing.functions import find_sentence_starts
+from theanolm.parsing.functions import find_sentence_starts, map_text_file
 
 class SentencePointers(object):
     """A class that creates a memory map of text files and stores pointers to
@@ -42,9 +41,7 @@ class SentencePointers(object):
 
         for subset_file in files:
             subset_index = len(self.mmaps)
-            subset_mmap = mmap.mmap(subset_file.fileno(),
-                                    0,
-                                    prot=mmap.PROT_READ)
+            subset_mmap = map_text_file(subset_file)
             self.mmaps.append(subset_mmap)
 
             logging.debug("Finding sentence start positions in %s.",
-- 
2.43.0


From ef39bbc8c93ce05019c87eeea9b1941a91aa0fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:15 +0000
Subject: [PATCH 26/43] fix: file IDs overflowed when training from more than
 128 files

---
 theanolm/parsing/batchiterator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/theanolm/parsing/batchiterator.py b/theanolm/parsing/batchiterator.py
index 9e1810b..0def530 100644
--- a/theanolm/parsing/batchiterator.py
+++ b/theanolm/parsing/batchiterator.py
@@ -209,13 +209,13 @@ class BatchIterator(object, metaclass=ABCMeta):
         shape = (batch_length, num_sequences)
         word_ids = numpy.ones(shape, numpy.int64) * unk_id
         mask = numpy.zeros(shape, numpy.int8)
-        file_ids = numpy.zeros(shape, numpy.int8)
+        file_ids = numpy.zeros(shape, numpy.int64)
 
         for i, sequence in enumerate(sequences):
             length = len(sequence)
 
             sequence_word_ids = numpy.ones(length, numpy.int64) * unk_id
-            sequence_file_ids = numpy.zeros(length, numpy.int8)
+            sequence_file_ids = numpy.zeros(length, numpy.int64)
             for index, (word, file_id) in enumerate(sequence):
                 if word in self._vocabulary:
                     word_id = self._vocabulary.word_to_id[word]
-- 
2.43.0


From bfdc43e42fa84cb8b2e543629730155681b2fdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:15 +0000
Subject: [PATCH 27/43] fix: recombination order zero compared the whole
 history

---
 theanolm/scoring/latticedecoder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/theanolm/scoring/latticedecoder.py b/theanolm/scoring/latticedecoder.py
index b9c91d8..56a0965 100644
--- a/theanolm/scoring/latticedecoder.py
+++ b/theanolm/scoring/latticedecoder.py
@@ -108,7 +108,8 @@ class LatticeDecoder(object):
             if recombination_order is None:
                 limited_history = self.history
             else:
-                limited_history = self.history[-recombination_order:]
+                first = max(len(self.history) - recombination_order, 0)
+                limited_history = self.history[first:]
             self.recombination_hash = hash(limited_history)
 
         def recompute_total(self, nn_lm_weight, lm_scale, wi_penalty,
-- 
2.43.0


From 3140a37f5dd990184d63302a02c2452b73d4c4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:15 +0000
Subject: [PATCH 28/43] fix: word IDs missing from a Kaldi vocabulary were read
 as epsilon

---
 theanolm/scoring/kaldilattice.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/theanolm/scoring/kaldilattice.py b/theanolm/scoring/kaldilattice.py
index 35e1363..bdf06ed 100644
--- a/theanolm/scoring/kaldilattice.py
+++ b/theanolm/scoring/kaldilattice.py
@@ -108,6 +108,11 @@ class KaldiLattice(Lattice):
                 for id in range(len(self.nodes), state_to + 1):
                     self.nodes.append(self.Node(id))
                 link = self._add_link(self.nodes[state_from], self.nodes[state_to])
+                if not 0 <= kaldi_word_id < len(id_to_word) or \
+                   id_to_word[kaldi_word_id] is None:
+                    raise InputError("Lattice `{}´ contains word ID {} that is "
+                                     "not in the vocabulary."
+                                     .format(self.utterance_id, kaldi_word_id))
                 link.word = id_to_word[kaldi_word_id]
                 if link.word == "<eps>":
                     link.word = None
-- 
2.43.0


From 7b3cf2f56b78adbf6d54c6350b70542d633a2105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:50 +0000
Subject: [PATCH 29/43] fix: a mini-batch with only excluded words turned the
 parameters into NaN

---
 theanolm/training/cost.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theanolm/training/cost.py b/theanolm/training/cost.py
index 1e02cc9..c39b061 100644
--- a/theanolm/training/cost.py
+++ b/theanolm/training/cost.py
@@ -84,7 +84,7 @@ class Cost(object, metaclass=ABCMeta):
         # float64 and pulled out from the GPU earlier than necessary.
         logprobs = self._get_logprobs() * tensor.cast(mask, theano.config.floatX)
         num_words = mask.sum()
-        cost = -logprobs.sum() / num_words
+        cost = -logprobs.sum() / tensor.maximum(num_words, 1)
 
         model_params = self._network.get_variables().values()
         l1_weight = self._l1_regularization
-- 
2.43.0


From 333c3e188c5abe8c8cdb41ab1a85d74d84f8b3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:46 +0000
Subject: [PATCH 30/43] fix: hierarchical softmax gave probability to units
 without a class

---
 theanolm/network/hsoftmaxlayer.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/theanolm/network/hsoftmaxlayer.py b/theanolm/network/hsoftmaxlayer.py
index 4087688..cdd924b 100644
--- a/theanolm/network/hsoftmaxlayer.py
+++ b/theanolm/network/hsoftmaxlayer.py
@@ -6,6 +6,7 @@
 import logging
 
 import numpy
+import theano
 import theano.tensor as tensor
 
 from theanolm.network.basiclayer import BasicLayer
@@ -81,6 +82,16 @@ class HSoftmaxLayer(BasicLayer):
         level1_weight = self._params[self._param_path('level1/W')]
         level1_bias = self._params[self._param_path('level1/b')]
 
+        # If the output size is not exactly the product of the sizes of the two
+        # levels, the last units do not correspond to any output class. They
+        # must not get any of the probability mass.
+        num_unused = self._level1_size * self._level2_size - self.output_size
+        if num_unused > 0:
+            float_type = numpy.dtype(theano.config.floatX).type
+            log_zero = float_type('-inf')
+            level1_bias = tensor.set_subtensor(level1_bias[-1, -num_unused:],
+                                               log_zero)
+
         # First create the output for the whole probability distribution.
         # Combine the first two dimensions so that softmax is taken
         # independently for each location, over the output classes.
-- 
2.43.0


From 28e6a6723929dcec1c211bd35ed35cc79e3377dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:46 +0000
Subject: [PATCH 31/43] fix: reading an SLF lattice with a long path exceeded
 the recursion depth

---
 theanolm/scoring/slflattice.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/theanolm/scoring/slflattice.py b/theanolm/scoring/slflattice.py
index f2264c6..9581222 100644
--- a/theanolm/scoring/slflattice.py
+++ b/theanolm/scoring/slflattice.py
@@ -265,10 +265,12 @@ class SLFLattice(Lattice):
 
         visited = {self.initial_node.id}
 
-        def visit_link(link):
-            """A function that is called recursively to move a word from the
-            link end node to the link.
-            """
+        # A path through a large lattice can be longer than the maximum
+        # recursion depth, so the links that have not been visited yet are kept
+        # in a list.
+        links = list(self.initial_node.out_links)
+        while links:
+            link = links.pop()
             end_node = link.end_node
             if hasattr(end_node, 'word'):
                 if link.word is None:
@@ -278,11 +280,7 @@ class SLFLattice(Lattice):
                                      "and links.")
             if end_node.id not in visited:
                 visited.add(end_node.id)
-                for next_link in end_node.out_links:
-                    visit_link(next_link)
-
-        for link in self.initial_node.out_links:
-            visit_link(link)
+                links.extend(end_node.out_links)
 
         for node in self.nodes:
             if hasattr(node, 'word'):
-- 
2.43.0


From d571b596c5e3b8c5451ae311acd9ab34e4d111a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:03 +0000
Subject: [PATCH 32/43] fix: word classes with only zero probabilities could
 not be read

---
 theanolm/vocabulary/wordclass.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/theanolm/vocabulary/wordclass.py b/theanolm/vocabulary/wordclass.py
index fcb69af..37209d7 100644
--- a/theanolm/vocabulary/wordclass.py
+++ b/theanolm/vocabulary/wordclass.py
@@ -76,11 +76,18 @@ class WordClass(object):
 
     def normalize_probs(self):
         """Normalizes the class membership probabilities to sum to one.
+
+        If every probability is zero (e.g. none of the words occurred in the
+        data that was used to create the classes), the words of the class will
+        be equally probable.
         """
 
         prob_sum = sum(self._probs.values())
         for word_id in self._probs:
-            self._probs[word_id] /= prob_sum
+            if prob_sum > 0:
+                self._probs[word_id] /= prob_sum
+            else:
+                self._probs[word_id] = 1.0 / len(self._probs)
 
     def sample(self):
         """Samples a word from the membership probability distribution.
-- 
2.43.0


From 3fa8b5795664eead7155c940974c3489b819078c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:03 +0000
Subject: [PATCH 33/43] fix: wctool could not write a compressed output file

---
 wordclasses/wctool.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/wordclasses/wctool.py b/wordclasses/wctool.py
index 41aa852..9b94731 100644
--- a/wordclasses/wctool.py
+++ b/wordclasses/wctool.py
@@ -3,6 +3,7 @@
 
 import sys
 import argparse
+import gzip
 import logging
 from time import time
 from theanolm.backend import TextFileType
@@ -11,10 +12,24 @@ from theanolm.vocabulary import Vocabulary
 from theanolm.vocabulary import compute_word_counts, BigramStatistics
 from wordclasses.functions import is_scheduled
 
+def is_compressed(output_file):
+    """Checks if an output file is compressed, meaning that it cannot be
+    rewound and truncated.
+
+    :type output_file: file object
+    :param output_file: a text file or stream
+
+    :rtype: bool
+    :returns: ``True`` if the text is written into a gzip file
+    """
+
+    return isinstance(output_file.buffer, gzip.GzipFile)
+
 def save(optimizer, output_file, output_format):
     """Writes the current classes to a file.
 
-    If the output file is seekable, first rewinds and truncates the file.
+    If the output file is seekable, first rewinds and truncates the file. A
+    compressed file cannot be truncated, so it can be saved only once.
 
     :type optimizer: BigramOptimizer
     :param optimizer: save the current state of this optimizer
@@ -27,7 +42,7 @@ def save(optimizer, output_file, output_format):
                           output file format
     """
 
-    if output_file.seekable():
+    if output_file.seekable() and not is_compressed(output_file):
         output_file.seek(0)
         output_file.truncate()
 
@@ -146,7 +161,8 @@ def main():
                      num_moves,
                      optimizer.log_likelihood(),
                      duration * 100)
-            if is_scheduled(num_words,
+            if (not is_compressed(args.output_file)) and \
+               is_scheduled(num_words,
                             args.output_frequency,
                             vocabulary.num_shortlist_words()):
                 save(optimizer, args.output_file, args.output_format)
-- 
2.43.0


From df9673aaa387c5cc931ef73fe688686d0d87b7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:27 +0000
Subject: [PATCH 34/43] fix: out-of-shortlist words were scored despite
 --exclude-unk when using a shortlist

---
 theanolm/scoring/textscorer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/theanolm/scoring/textscorer.py b/theanolm/scoring/textscorer.py
index 08d1118..c771eb8 100644
--- a/theanolm/scoring/textscorer.py
+++ b/theanolm/scoring/textscorer.py
@@ -103,8 +103,10 @@ class TextScorer(object):
             # mass is left for them.
             mask *= tensor.neq(target_word_ids, self._unk_id)
         elif exclude_unk:
-            # If requested, ignore OOS and OOV probabilities.
+            # If requested, ignore OOV probabilities.
             mask *= tensor.neq(target_word_ids, self._unk_id)
+        if exclude_unk:
+            # If requested, ignore also OOS probabilities.
             mask *= tensor.lt(target_word_ids, shortlist_size)
 
         # Ignore unused input variables, because is_training is only used by
-- 
2.43.0


From bfbc139e381cb7215e5621ec851dc8f735831135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:40 +0000
Subject: [PATCH 35/43] fix: sentence end had zero unigram probability when
 building the vocabulary from text

---
 theanolm/vocabulary/vocabulary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/theanolm/vocabulary/vocabulary.py b/theanolm/vocabulary/vocabulary.py
index df40ad2..2bdfde1 100644
--- a/theanolm/vocabulary/vocabulary.py
+++ b/theanolm/vocabulary/vocabulary.py
@@ -235,6 +235,7 @@ class Vocabulary(object):
 
         # The special tokens should not be included when creating the classes.
         # They are added to separate classes in the end.
+        all_counts = word_counts
         word_counts = dict(word_counts)
         if '<s>' in word_counts:
             del word_counts['<s>']
@@ -270,7 +271,7 @@ class Vocabulary(object):
         _add_special_tokens(id_to_word, word_id_to_class_id, word_classes)
 
         result = cls(id_to_word, word_id_to_class_id, word_classes)
-        result.compute_probs(word_counts, update_class_probs=True)
+        result.compute_probs(all_counts, update_class_probs=True)
         return result
 
     @classmethod
-- 
2.43.0


From 0709c63099c869229235ed985a26b9b1032a6838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:22 +0000
Subject: [PATCH 36/43] fix: prior of the unknown word class ignored
 out-of-shortlist words

---
 theanolm/vocabulary/vocabulary.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/theanolm/vocabulary/vocabulary.py b/theanolm/vocabulary/vocabulary.py
index 2bdfde1..2d37881 100644
--- a/theanolm/vocabulary/vocabulary.py
+++ b/theanolm/vocabulary/vocabulary.py
@@ -612,6 +612,10 @@ class Vocabulary(object):
         result = numpy.zeros(self.num_classes(), dtype=theano.config.floatX)
         numpy.add.at(result, class_ids, probs)
 
+        # The network sees out-of-shortlist words as <unk>.
+        unk_class_id = self.word_id_to_class_id[self.word_to_id['<unk>']]
+        result[unk_class_id] += self._unigram_probs[shortlist_size:].sum()
+
         total = result.sum()
         if total > 0:
             result /= total
-- 
2.43.0


From d04d2da9cc86c6bc4bfed13af69a36022fd30b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:11 +0000
Subject: [PATCH 37/43] fix: BlackOut cost was NaN when padding had zero noise
 probability

---
 theanolm/training/cost.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/theanolm/training/cost.py b/theanolm/training/cost.py
index c39b061..ba75560 100644
--- a/theanolm/training/cost.py
+++ b/theanolm/training/cost.py
@@ -234,6 +234,9 @@ class BlackoutCost(Cost):
         # If a single value is retured, it will be broadcasted to the mini-batch
         # shape.
         target_prior_probs = noise_distribution.probs(target_class_ids)
+        # Padding may have zero prior. Avoid NaN, since it is masked only later.
+        target_prior_probs = tensor.switch(tensor.eq(target_prior_probs, 0),
+                                           1, target_prior_probs)
         target_weighted_probs = target_probs / target_prior_probs
 
         sample, sample_logprobs = self._network.noise_sample()
-- 
2.43.0


From 04b6ffefcc66ea79d9e2ed1901c3045e6cd19572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:35 +0000
Subject: [PATCH 38/43] fix: decoding failed on a CPU because GPU contexts were
 listed

---
 theanolm/backend/gpu.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/theanolm/backend/gpu.py b/theanolm/backend/gpu.py
index 7cd0728..659c2c0 100644
--- a/theanolm/backend/gpu.py
+++ b/theanolm/backend/gpu.py
@@ -77,7 +77,13 @@ def log_free_mem():
     """Writes the available GPU memory to the debug log.
     """
 
-    for name in theano.gpuarray.type.list_contexts():
-        context = theano.gpuarray.type.get_context(name)
-        free_mbytes = context.free_gmem / (1024 * 1024)
-        logging.debug("Available memory on GPU %s: %.0f MB", name, free_mbytes)
+    try:
+        for name in theano.gpuarray.type.list_contexts():
+            context = theano.gpuarray.type.get_context(name)
+            free_mbytes = context.free_gmem / (1024 * 1024)
+            logging.debug("Available memory on GPU %s: %.0f MB", name,
+                          free_mbytes)
+    except AttributeError:
+        # No GPU support or we couldn't list the contexts because an old version
+        # of libgpuarray is installed.
+        pass
-- 
2.43.0


From 3ea6bd3f46ff0c5557a26bb5d3b343313d6cfce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:35 +0000
Subject: [PATCH 39/43] fix: a number sign in an SLF lattice word dropped the
 rest of the line

---
 theanolm/scoring/slflattice.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/theanolm/scoring/slflattice.py b/theanolm/scoring/slflattice.py
index 9581222..fb0d83c 100644
--- a/theanolm/scoring/slflattice.py
+++ b/theanolm/scoring/slflattice.py
@@ -4,6 +4,7 @@
 files.
 """
 
+from itertools import takewhile
 from shlex import shlex
 
 import numpy
@@ -31,8 +32,10 @@ def _split_slf_line(line):
     lex = shlex(line, posix=True)
     lex.quotes = '"'
     lex.wordchars += "'"
+    lex.commenters = ''
     lex.whitespace_split = True
-    return list(lex)
+    # The fields end where a comment starts. A word may contain #, though.
+    return list(takewhile(lambda field: not field.startswith('#'), lex))
 
 def _split_slf_field(field):
     """Parses the name and value from an SLF lattice field.
-- 
2.43.0


From d344c6f5a7d70b48f627a7487ac606fa3511e681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:35 +0000
Subject: [PATCH 40/43] fix: quotation marks and backslashes were not escaped
 in SLF output

---
 theanolm/scoring/lattice.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/theanolm/scoring/lattice.py b/theanolm/scoring/lattice.py
index 3a073e9..6380505 100644
--- a/theanolm/scoring/lattice.py
+++ b/theanolm/scoring/lattice.py
@@ -126,7 +126,9 @@ class Lattice(object):
             if link.word is None:
                 fields.append("W=!NULL")
             else:
-                fields.append("W={}".format(link.word))
+                # The reader expects these characters to be escaped.
+                word = link.word.replace('\\', '\\\\').replace('"', '\\"')
+                fields.append("W={}".format(word))
             if link.ac_logprob is not None:
                 fields.append("a={}".format(link.ac_logprob + 0.0))
             if link.lm_logprob is not None:
-- 
2.43.0


From 3ca02f26d47ab10133819872f25469979a0c7401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:35 +0000
Subject: [PATCH 41/43] fix: scores of null links at the end of a path were
 lost in a rescored lattice

---
 theanolm/scoring/rescoredlattice.py | 62 +++++++++++++++++++++++------
 1 file changed, 50 insertions(+), 12 deletions(-)

diff --git a/theanolm/scoring/rescoredlattice.py b/theanolm/scoring/rescoredlattice.py
index 909a96a..64ab63c 100644
--- a/theanolm/scoring/rescoredlattice.py
+++ b/theanolm/scoring/rescoredlattice.py
@@ -55,6 +55,39 @@ def _follow_word_from_node(node, word):
                           if transitions else link.transitions
         return (end_node, ac_logprob, lm_logprob, transitions)
 
+def _follow_null_links_to_end(node):
+    """Follows null links from the given node to the final node.
+
+    :type node: Node
+    :param node: the last node of a path in the original lattice
+
+    :rtype: tuple of float, float, str
+    :returns: total acoustic log probability, LM log probability, and transition
+              IDs of the null links to the final node (or ``None`` if the final
+              node cannot be reached)
+    """
+
+    if node.final:
+        return (0.0, 0.0, "")
+
+    for link in node.out_links:
+        if link.word is not None:
+            continue
+        scores = _follow_null_links_to_end(link.end_node)
+        if scores is None:
+            continue
+        ac_logprob, lm_logprob, transitions = scores
+        if link.ac_logprob is not None:
+            ac_logprob += link.ac_logprob
+        if link.lm_logprob is not None:
+            lm_logprob += link.lm_logprob
+        if link.transitions:
+            transitions = link.transitions + "_" + transitions \
+                          if transitions else link.transitions
+        return (ac_logprob, lm_logprob, transitions)
+
+    return None
+
 class RescoredLattice(Lattice):
     """Rescored Lattice
 
@@ -97,8 +130,9 @@ class RescoredLattice(Lattice):
             :type create: bool
             :param create: if ``True``, creates new nodes if necessary
 
-            :rtype: Lattice.Node
-            :returns: the last node of the path
+            :rtype: tuple of two Lattice.Nodes
+            :returns: the last node of the path in the created lattice and in
+                      the original lattice
             """
 
             words = [vocabulary.id_to_word[id] if isinstance(id, int) else id
@@ -120,18 +154,21 @@ class RescoredLattice(Lattice):
 
         # Create all the paths that correspond to the final tokens.
         for token in final_tokens:
-            node = follow_word_ids(token.history)
+            node, orig_node = follow_word_ids(token.history)
             # If the lattice is not determinized, it may happen that we have two
             # tokens with the same word sequence.
             if any(link.end_node.final for link in node.out_links):
                 continue
             # For the final link we set the NNLM log probability of the entire
             # path. The created lattice is a tree, so we can equivalently set
-            # the entire path probability in the final link.
+            # the entire path probability in the final link. The null links at
+            # the end of the path are included in the final link.
+            ac_logprob, lm_logprob, transitions = \
+                _follow_null_links_to_end(orig_node) or (0.0, 0.0, "")
             link = self.Link(node, final_node, word=None,
-                             ac_logprob=0,
-                             lm_logprob=token.nn_lm_logprob,
-                             transitions="")
+                             ac_logprob=ac_logprob,
+                             lm_logprob=lm_logprob + token.nn_lm_logprob,
+                             transitions=transitions)
             node.out_links.append(link)
             self.links.append(link)
 
@@ -149,7 +186,7 @@ class RescoredLattice(Lattice):
             # Find the incoming link that corresponds to the token that was kept
             # during recombination.
             try:
-                recomb_from_node = follow_word_ids(new_history[:-1], False)
+                recomb_from_node, _ = follow_word_ids(new_history[:-1], False)
             except NodeNotFoundError:
                 continue
             # Our new lattice doesn't contain null links, so word_to_link maps
@@ -162,7 +199,7 @@ class RescoredLattice(Lattice):
             # that was kept during recombination. The difference in LM log
             # probability can be computed from the token (path) NNLM log
             # probabilities.
-            from_node = follow_word_ids(token.history[:-1])
+            from_node, _ = follow_word_ids(token.history[:-1])
             lm_logprob_diff = token.nn_lm_logprob - nn_lm_logprob
             new_link = self.Link(from_node, recomb_link.end_node, word,
                                  recomb_link.ac_logprob,
@@ -238,8 +275,9 @@ class RescoredLattice(Lattice):
         :param create: if set to ``False``, won't create any nodes but raises a
             ``NodeNotFoundError`` if the path doesn't exist
 
-        :rtype: Lattice.Node
-        :returns: the last node of the path
+        :rtype: tuple of two Lattice.Nodes
+        :returns: the last node of the path in this lattice and in the original
+                  lattice
         """
 
         node = self.initial_node
@@ -272,4 +310,4 @@ class RescoredLattice(Lattice):
             node = link.end_node
             orig_node = orig_end_node
 
-        return node
+        return node, orig_node
-- 
2.43.0


From 9e036fee7fc8c1a38d3d41c8cbad87c4493ac3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:35 +0000
Subject: [PATCH 42/43] fix: paths recombined at the end of a lattice were
 missing from the rescored lattice

---
 theanolm/scoring/rescoredlattice.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/theanolm/scoring/rescoredlattice.py b/theanolm/scoring/rescoredlattice.py
index 64ab63c..ff9e92e 100644
--- a/theanolm/scoring/rescoredlattice.py
+++ b/theanolm/scoring/rescoredlattice.py
@@ -152,8 +152,17 @@ class RescoredLattice(Lattice):
 
         self._add_word_maps(original_lattice.nodes)
 
-        # Create all the paths that correspond to the final tokens.
-        for token in final_tokens:
+        # Create all the paths that correspond to the final tokens. Tokens that
+        # were dropped when recombining the final tokens cannot be linked to the
+        # path that was kept, because the end of sentence is not a word in the
+        # lattice. They need a final link of their own.
+        eos_id = vocabulary.word_to_id['</s>']
+        all_final_tokens = list(final_tokens)
+        kept_histories = set(token.history for token in final_tokens)
+        for token, new_history, _ in recomb_tokens:
+            if token.history[-1] == eos_id and new_history in kept_histories:
+                all_final_tokens.append(token)
+        for token in all_final_tokens:
             node, orig_node = follow_word_ids(token.history)
             # If the lattice is not determinized, it may happen that we have two
             # tokens with the same word sequence.
-- 
2.43.0


From 696edf1f4911cbc4eb7abf39c24fdd608005ac25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:00 +0000
Subject: [PATCH 43/43] fix: a rescored lattice lost the language model scale
 and word insertion penalty of the original

---
 theanolm/commands/decode.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/theanolm/commands/decode.py b/theanolm/commands/decode.py
index 73cd19b..9b6b33b 100644
--- a/theanolm/commands/decode.py
+++ b/theanolm/commands/decode.py
@@ -247,8 +247,10 @@ def decode(args):
                                                final_tokens,
                                                recomb_tokens,
                                                network.vocabulary)
-            rescored_lattice.lm_scale = args.lm_scale
-            rescored_lattice.wi_penalty = wi_penalty
+            rescored_lattice.lm_scale = lattice.lm_scale \
+                if args.lm_scale is None else args.lm_scale
+            rescored_lattice.wi_penalty = lattice.wi_penalty \
+                if wi_penalty is None else wi_penalty
             if args.output == "slf":
                 rescored_lattice.write_slf(args.output_file)
             else:
-- 
2.43.0

