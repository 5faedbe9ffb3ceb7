From 9012c03ef5bc4f46be563fd1f00d2049833dccca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:49 +0000
Subject: [PATCH 01/14] fix: a failure in a worker thread no longer yields a
 short or shifted result

run_multithreads ignored what a worker raised and went on with whatever the other workers
had produced: documents were missing or attributed to the wrong text, and no error reached
the caller. The failure is now raised in the caller once every worker has ended.
---
 scrappybara/utils/multithreading.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/scrappybara/utils/multithreading.py b/scrappybara/utils/multithreading.py
index 648d954..294d0bd 100644
--- a/scrappybara/utils/multithreading.py
+++ b/scrappybara/utils/multithreading.py
@@ -11,9 +11,13 @@ class _Thread(threading.Thread):
         self.__input_items = input_items
         self.__process = process
         self.output_items = []
+        self.error = None  # What the process raised, if anything
 
     def run(self):
-        self.output_items = [self.__process(item) for item in self.__input_items]
+        try:
+            self.output_items = [self.__process(item) for item in self.__input_items]
+        except BaseException as error:
+            self.error = error
 
 
 def run_multithreads(items, process, nb_threads):
@@ -26,4 +30,7 @@ def run_multithreads(items, process, nb_threads):
     for idx, _ in enumerate(items_lists):
         nb_threads[idx].join()
         output_items.extend(nb_threads[idx].output_items)
+    for thread in nb_threads:
+        if thread.error is not None:
+            raise thread.error  # Output items would be incomplete & shifted
     return output_items
-- 
2.43.0


From 4658f63f14db644b875f41c3c439de0f3166e3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:37 +0000
Subject: [PATCH 02/14] fix: the tagger returns one tag per token

Sequence lengths include the start & end markers, so the slice reached two positions past the
last token and reported tags for the end marker and for padding.
---
 scrappybara/syntax/tagger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/syntax/tagger.py b/scrappybara/syntax/tagger.py
index 1ba77ea..6fbed11 100644
--- a/scrappybara/syntax/tagger.py
+++ b/scrappybara/syntax/tagger.py
@@ -21,4 +21,4 @@ class Tagger(object):
         data_per_sentence = [vectorize_sentence(tokens, self.__charset, self.__wordset) for tokens in token_lists]
         seq_lengths, char_codes, word_vectors = zip(*data_per_sentence)
         tag_codes = self.__ptags_model.predict(char_codes, word_vectors)
-        return [[Tag(code) for code in tag_codes[idx][1:sl + 1]] for idx, sl in enumerate(seq_lengths)]
+        return [[Tag(code) for code in tag_codes[idx][1:sl - 1]] for idx, sl in enumerate(seq_lengths)]
-- 
2.43.0


From d321df140aec7f2d23328154d0573b4f57356031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:58 +0000
Subject: [PATCH 03/14] fix: a token gets only one parent in the parse tree

When the network answers LEFT for a token that already has a parent, the parser registered a second
one: the token became a child of both and its first parent was forgotten. Such an answer now only
reduces, as in the arc-eager system the parser implements.
---
 scrappybara/syntax/parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scrappybara/syntax/parser.py b/scrappybara/syntax/parser.py
index d8e72b2..f4ce7b5 100644
--- a/scrappybara/syntax/parser.py
+++ b/scrappybara/syntax/parser.py
@@ -39,6 +39,9 @@ class _Parse(object):
             return Dep.SPLIT  # ROOT cannot have any parent
         return pdep
 
+    def __has_parent(self, idx):
+        return any([child_idx == idx for _, _, child_idx in self.arcs])
+
     def __shift(self):
         self.__stack.append(self.__buffer.popleft())
 
@@ -71,7 +74,8 @@ class _Parse(object):
 
     def register_transition(self, trans):
         if trans == Trans.LEFT:
-            self.arcs.append((self.__pdep(self.__stack[-1]), self.__buffer[0], self.__stack[-1]))
+            if not self.__has_parent(self.__stack[-1]):  # A token cannot have 2 parents
+                self.arcs.append((self.__pdep(self.__stack[-1]), self.__buffer[0], self.__stack[-1]))
             self.__reduce()
         elif trans == Trans.RIGHT:
             self.arcs.append((self.__pdep(self.__buffer[0]), self.__stack[-1], self.__buffer[0]))
-- 
2.43.0


From 2cecffb80bd87a195b15dc01b1e78dc22ffd11ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:58 +0000
Subject: [PATCH 04/14] fix: a corpus without any ngram of some order can be
 smoothed

Maximum likelihood smoothing raised KeyError when no text was long enough to contain
an ngram of one of the orders; that order is now simply empty.
---
 scrappybara/langmodel/mle_smoother.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/langmodel/mle_smoother.py b/scrappybara/langmodel/mle_smoother.py
index faa2e36..6a922d2 100644
--- a/scrappybara/langmodel/mle_smoother.py
+++ b/scrappybara/langmodel/mle_smoother.py
@@ -34,7 +34,7 @@ class MLESmoother(Smoother):
     def __call__(self):
         for order in range(1, self._last_order + 1):
             data_slices = []
-            ngrams = self._ngrams[order]
+            ngrams = self._ngrams.get(order, [])
             for process_range in self._process_ranges(len(self._ngrams.get(order, []))):
                 np_counts = np.array([ngrams[i].count for i in process_range])
                 data_slices.append(_DataSlice(np_counts, self.__total_counts[order]))
-- 
2.43.0


From 070af6c4a7b72c3e46ceec83ec171f122a06d3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:41 +0000
Subject: [PATCH 05/14] fix: a short left context is used in full

With fewer tokens before than the explored range, the start of the slice went negative and dropped
tokens: for order 4, two tokens of context before gave only the last one, so best_token missed the
ngrams that start with the first.
---
 scrappybara/langmodel/token_context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/langmodel/token_context.py b/scrappybara/langmodel/token_context.py
index 4b1b1ac..c4ac122 100644
--- a/scrappybara/langmodel/token_context.py
+++ b/scrappybara/langmodel/token_context.py
@@ -22,7 +22,7 @@ class TokenContext(object):
         """Given an order n, returns all combinations of ngram: before/token/after"""
         assert order > 1
         exploring_range = order - 1
-        tokens_before = self.__tokens_before[len(self.__tokens_before) - exploring_range:]
+        tokens_before = self.__tokens_before[max(0, len(self.__tokens_before) - exploring_range):]
         tokens_after = self.__tokens_after[:exploring_range]
         tokens = tokens_before + [self.token] + tokens_after
         return [' '.join(items) for items in self.__slide_window(tokens, order)]
-- 
2.43.0


From 29a4f7bb8c9109f2db04b0ae2fc5047247087af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:09 +0000
Subject: [PATCH 06/14] fix: a language model is replaced only by a complete
 one

---
 scrappybara/langmodel/language_model_builder.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/scrappybara/langmodel/language_model_builder.py b/scrappybara/langmodel/language_model_builder.py
index 42030ef..d98ba39 100644
--- a/scrappybara/langmodel/language_model_builder.py
+++ b/scrappybara/langmodel/language_model_builder.py
@@ -1,4 +1,5 @@
 import multiprocessing
+import os
 
 from scrappybara.exceptions import ArgumentValueError
 from scrappybara.langmodel.mkn_smoother import MKNSmoother
@@ -60,15 +61,19 @@ class LanguageModelBuilder(object):
         print('\nCalculating probabilities...', end='')
         smoother = self.__smoother(store.ngrams, self.__max_order, self.__nb_processes)()
         print(' [DONE]')
-        # Write ngrams of higher orders
-        for n in range(1, self.__max_order + 1):
-            self.__write_ngram_file(n, smoother.ngrams(n))
+        # Write ngrams of higher orders (the previous files stay in place until all the new ones are complete)
+        filepaths = [self.__write_ngram_file(n, smoother.ngrams(n)) for n in range(1, self.__max_order + 1)]
+        for filepath in filepaths:
+            os.replace(filepath + '.tmp', filepath)
         print('Total execution time: {}'.format(timer.total_time))
 
     def __write_ngram_file(self, order, ngrams):
         filepath = self.__folder_path + '/' + ('%d_grams.txt' % order)
-        with open(filepath, 'w', encoding='utf-8') as writer:
+        with open(filepath + '.tmp', 'w', encoding='utf-8') as writer:
             for ngram in sorted(ngrams, reverse=True):
                 if ngram.proba > 0.0:
                     writer.write('%s\t%d\t%.17f\n' % (ngram.text, ngram.count, ngram.proba))
+            writer.flush()
+            os.fsync(writer.fileno())
         print('Wrote {:,} {}-grams'.format(len(ngrams), order))
+        return filepath
-- 
2.43.0


From 2396374e539cae7fd8456302247f2aea484e4898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:28 +0000
Subject: [PATCH 07/14] fix: a pkl file is replaced only by a complete one

---
 scrappybara/utils/files.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/scrappybara/utils/files.py b/scrappybara/utils/files.py
index 835c26c..36ff8f6 100644
--- a/scrappybara/utils/files.py
+++ b/scrappybara/utils/files.py
@@ -1,3 +1,4 @@
+import os
 import pickle
 
 import scrappybara.config as cfg
@@ -32,7 +33,13 @@ def load_pkl_file(*args):
 
 
 def save_pkl_file(python_object, *args):
-    pickle.dump(python_object, open(file_path(*args), 'wb'))
+    """Saves python object in a pkl file (an existing file stays in place until the new one is complete)"""
+    filepath = file_path(*args)
+    with open(filepath + '.tmp', 'wb') as pkl_file:
+        pickle.dump(python_object, pkl_file)
+        pkl_file.flush()
+        os.fsync(pkl_file.fileno())
+    os.replace(filepath + '.tmp', filepath)
 
 
 def load_set_from_txt_file(*args):
-- 
2.43.0


From e51e4d5a9f47d00c4dc77912b02f323957ea57d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:47 +0000
Subject: [PATCH 08/14] fix: no time is lost between two laps of a timer

---
 scrappybara/utils/timer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scrappybara/utils/timer.py b/scrappybara/utils/timer.py
index 81599c6..2d640e7 100644
--- a/scrappybara/utils/timer.py
+++ b/scrappybara/utils/timer.py
@@ -19,9 +19,10 @@ class Timer(object):
         self.__laps = [0.0]
 
     def _new_lap(self):
-        lap_time = timeit.default_timer() - self.__start_time
+        now = timeit.default_timer()
+        lap_time = now - self.__start_time
         self.__laps.append(lap_time)
-        self.__start_time = timeit.default_timer()
+        self.__start_time = now
         return lap_time
 
     @property
-- 
2.43.0


From 0a45de2f5bd6698e51b8a3070107acf9261c80b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:01 +0000
Subject: [PATCH 09/14] fix: a tree can be iterated by several readers at once

---
 scrappybara/utils/tree.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/scrappybara/utils/tree.py b/scrappybara/utils/tree.py
index 33a3e9a..d095697 100644
--- a/scrappybara/utils/tree.py
+++ b/scrappybara/utils/tree.py
@@ -12,14 +12,9 @@ class Tree:
         self.__parents = {}  # Node => (label, node)
 
     def __iter__(self):
-        self.__iter = iter(self.__parents.items())
-        return self
-
-    def __next__(self):
         """Arc iterator"""
-        child, rparent = next(self.__iter)
-        label, parent = rparent
-        return label, parent, child
+        for child, (label, parent) in self.__parents.items():
+            yield label, parent, child
 
     def __len__(self):
         return 1 + len(self.__parents.keys())
-- 
2.43.0


From 4ac6a312417dd56bb5048bf764641edecf3be810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:13 +0000
Subject: [PATCH 10/14] fix: saving network weights keeps the previous ones
 until the new file is complete

---
 scrappybara/syntax/models.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/scrappybara/syntax/models.py b/scrappybara/syntax/models.py
index 183572b..9aae01a 100644
--- a/scrappybara/syntax/models.py
+++ b/scrappybara/syntax/models.py
@@ -1,3 +1,5 @@
+import os
+
 import numpy as np
 import tensorflow as tf
 
@@ -54,7 +56,12 @@ class _SentenceModel(object):
         return max(history.history[metric]) * 100
 
     def _save(self, filename):
-        self._model.save_weights(str(file_path('models', filename)))
+        """Existing weights stay in place until the new ones are complete"""
+        filepath = file_path('models', filename)
+        self._model.save_weights(filepath + '.tmp.h5')
+        with open(filepath + '.tmp.h5', 'rb+') as h5_file:
+            os.fsync(h5_file.fileno())
+        os.replace(filepath + '.tmp.h5', filepath)
 
     def _load(self, filename):
         self._model.load_weights(str(file_path('models', filename)))
-- 
2.43.0


From 3a1b66df541b9d09bc37aeb86d14063c3983fe04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:49 +0000
Subject: [PATCH 11/14] fix: protected texts within another one are restored

---
 scrappybara/preprocessing/tokenizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/preprocessing/tokenizer.py b/scrappybara/preprocessing/tokenizer.py
index bd6fb52..02d61ab 100644
--- a/scrappybara/preprocessing/tokenizer.py
+++ b/scrappybara/preprocessing/tokenizer.py
@@ -194,7 +194,7 @@ class Tokenizer(object):
         for replace in self.__re_reattach:
             text = re.sub(replace[0], replace[1], text)
         # Re-establish protected patterns
-        for key, value in protected.items():
+        for key, value in reversed(list(protected.items())):  # A protected text may contain keys of previous ones
             text = text.replace(key, value)
         return text.split()
 
-- 
2.43.0


From 7ce928ecc7fb276eb7f70a182633933754814711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:49 +0000
Subject: [PATCH 12/14] fix: texts containing the characters reserved for
 blocks can be processed

---
 scrappybara/preprocessing/sentencizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scrappybara/preprocessing/sentencizer.py b/scrappybara/preprocessing/sentencizer.py
index f27a723..aaa27ef 100644
--- a/scrappybara/preprocessing/sentencizer.py
+++ b/scrappybara/preprocessing/sentencizer.py
@@ -17,6 +17,8 @@ class Sentencizer(object):
     __re_bracket_block_end = '⦆'
     __re_sent_enders = re.compile(r'([.?!:]+|¶)')
     __re_sanitization = [
+        (re.compile('[%s%s%s%s]' % (__re_quote_block_start, __re_quote_block_end, __re_bracket_block_start,
+                                    __re_bracket_block_end)), ' '),  # Reserved for blocks
         (re.compile(r'\."'), '."¶'),  # The end dot of a sentence can be in quote
     ]
 
-- 
2.43.0


From 94de507a96ffe5c88bdb2ff3e05da9eaee911e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:38 +0000
Subject: [PATCH 13/14] fix: a language model holds no ngram whose probability
 is written as zero

---
 scrappybara/langmodel/language_model_builder.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scrappybara/langmodel/language_model_builder.py b/scrappybara/langmodel/language_model_builder.py
index d98ba39..809634f 100644
--- a/scrappybara/langmodel/language_model_builder.py
+++ b/scrappybara/langmodel/language_model_builder.py
@@ -71,8 +71,9 @@ class LanguageModelBuilder(object):
         filepath = self.__folder_path + '/' + ('%d_grams.txt' % order)
         with open(filepath + '.tmp', 'w', encoding='utf-8') as writer:
             for ngram in sorted(ngrams, reverse=True):
-                if ngram.proba > 0.0:
-                    writer.write('%s\t%d\t%.17f\n' % (ngram.text, ngram.count, ngram.proba))
+                proba = '%.17f' % ngram.proba
+                if float(proba) > 0.0:  # A probability written as zero would have no logarithm once loaded
+                    writer.write('%s\t%d\t%s\n' % (ngram.text, ngram.count, proba))
             writer.flush()
             os.fsync(writer.fileno())
         print('Wrote {:,} {}-grams'.format(len(ngrams), order))
-- 
2.43.0


From 0c34ddb1878b13b6dc7bf8f03733227e193d4dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:48 +0000
Subject: [PATCH 14/14] fix: character codes are the same whichever process
 saves them

They followed the iteration order of a set, so saving them again gave other
codes than those the networks had been trained with.
---
 scrappybara/syntax/charset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/syntax/charset.py b/scrappybara/syntax/charset.py
index 5ba4f97..a90ed7a 100644
--- a/scrappybara/syntax/charset.py
+++ b/scrappybara/syntax/charset.py
@@ -29,5 +29,5 @@ class Charset(object):
         special_chars = set('`~!@#$£€%^&*()-_=+[{]}\\|;:\'",<.>/?')
         padding_chars = set('†‡ʃʄ')
         chars = LETTERS | UPPERCASE_LETTERS | DIGITS | special_chars | padding_chars
-        char_code = {char: idx for idx, char in enumerate(chars)}
+        char_code = {char: idx for idx, char in enumerate(sorted(chars))}
         save_pkl_file(char_code, *self.__filepath)
-- 
2.43.0

