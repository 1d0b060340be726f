From 69d878aab3841b16610c68e38121fbac0b0fa0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:04:46 +0000
Subject: [PATCH 01/65] fix: cover every id in RangeNodeSampler with several
 data loaders

Workers started at offsets that ignored the number of data loaders, so
their ranges overlapped. The last batch also replaced a valid id with the
backfill value when the remaining range was not divisible by the number
of loaders.
---
 src/python/deepgnn/graph_engine/samplers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/samplers.py b/src/python/deepgnn/graph_engine/samplers.py
index 96c5dd0..67a3be3 100644
--- a/src/python/deepgnn/graph_engine/samplers.py
+++ b/src/python/deepgnn/graph_engine/samplers.py
@@ -543,7 +543,8 @@ class _RangeNodeIterator(_GEIterator):
         last = self.first + self.batch_size * self.data_parallel_num
         res = np.arange(self.first, last, step=self.data_parallel_num)
         if last > self.last:
-            res[(self.last - self.first) // self.data_parallel_num :] = self.backfill_id
+            count = -(-(self.last - self.first) // self.data_parallel_num)
+            res[count:] = self.backfill_id
 
         self.first += self.num_workers * self.batch_size * self.data_parallel_num
         return res
@@ -572,7 +573,7 @@ class RangeNodeSampler(BaseSampler):
             data_parallel_index=data_parallel_index,
             data_parallel_num=data_parallel_num,
         )
-        self.start_id = first + worker_index * batch_size
+        self.start_id = first + worker_index * batch_size * data_parallel_num
         self.last = last
         assert self.start_id < self.last
         self.batch_size = batch_size
-- 
2.43.0


From fcf09d81def960883ac7ae4baadd74565d537090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:04:46 +0000
Subject: [PATCH 02/65] fix: honour drop_last and feature_dim in
 FileEdgeSampler with features

drop_last was not passed to the iterator when features were requested, and
columns after feature_dim were returned as features.
---
 src/python/deepgnn/graph_engine/samplers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/samplers.py b/src/python/deepgnn/graph_engine/samplers.py
index 67a3be3..2aefae0 100644
--- a/src/python/deepgnn/graph_engine/samplers.py
+++ b/src/python/deepgnn/graph_engine/samplers.py
@@ -374,7 +374,7 @@ class FileEdgeSampler(BaseSampler):
                 edges.append([int(col[0]), int(col[1])])
                 if self.feature_dim > 0:
                     assert self.feature_dim + 2 <= len(col)
-                    features.append([ftype(i) for i in col[2:]])
+                    features.append([ftype(i) for i in col[2 : 2 + self.feature_dim]])
 
         self.edges = np.array(edges, dtype=np.int64)
         self.edges = np.concatenate(
@@ -429,6 +429,7 @@ class FileEdgeSampler(BaseSampler):
                 ),
                 np.zeros(shape=(self.feature_dim), dtype=np.float32),
             ],
+            drop_last=self.drop_last,
             data_parallel_num=self.data_parallel_num,
             data_parallel_index=self.data_parallel_index,
         )
-- 
2.43.0


From 6b1b7bf058107494cb814ea472e514595caab892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:05:04 +0000
Subject: [PATCH 03/65] fix: iterate every epoch and announce the right count
 in CSVNodeSampler

The epoch argument only affected the announced length, the length was
rounded down when several data loaders were used and a second iteration
produced nothing.
---
 src/python/deepgnn/graph_engine/samplers.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/samplers.py b/src/python/deepgnn/graph_engine/samplers.py
index 2aefae0..32dc55c 100644
--- a/src/python/deepgnn/graph_engine/samplers.py
+++ b/src/python/deepgnn/graph_engine/samplers.py
@@ -710,14 +710,16 @@ class CSVNodeSampler(BaseSampler):
 
         self.node_list: np.ndarray = np.array(node_list)
         self.cur_batch = 0
+        self.cur_epoch = 0
         self.count = (
-            (len(node_list) + self.batch_size - 1)
-            // (self.batch_size * self.data_parallel_num)
+            math.ceil(len(node_list) / (self.batch_size * self.data_parallel_num))
             * epoch
         )
 
     def __iter__(self):
-        """No-op."""
+        """Start iteration from the beginning."""
+        self.cur_batch = 0
+        self.cur_epoch = 0
         return self
 
     def __next__(self) -> np.ndarray:
@@ -727,7 +729,11 @@ class CSVNodeSampler(BaseSampler):
             + self.data_parallel_index
         )
         if start_pos >= len(self.node_list):
-            raise StopIteration
+            self.cur_epoch += 1
+            start_pos = self.data_parallel_index
+            if self.cur_epoch >= self.epochs or start_pos >= len(self.node_list):
+                raise StopIteration
+            self.cur_batch = 0
         self.cur_batch += 1
         end_pos = (
             self.cur_batch * self.batch_size * self.data_parallel_num
-- 
2.43.0


From 35da7e6c754b7e642531479c2f51bfe646aaf6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:40:11 +0000
Subject: [PATCH 04/65] fix: use the right window size in gen_skipgrams

---
 src/python/deepgnn/graph_engine/graph_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/graph_ops.py b/src/python/deepgnn/graph_engine/graph_ops.py
index 231f5c7..aad957c 100644
--- a/src/python/deepgnn/graph_engine/graph_ops.py
+++ b/src/python/deepgnn/graph_engine/graph_ops.py
@@ -82,7 +82,7 @@ def gen_skipgrams(
         # each path
         for j in range(0, path_len):
             left_start = max(0, j - left_win_size)
-            right_end = min(path_len - 1, j + left_win_size)
+            right_end = min(path_len - 1, j + right_win_size)
             for k in range(left_start, right_end + 1):
                 if k == j:
                     continue
-- 
2.43.0


From 8410cf4ee79ecd033c0c5a728fedcaadbbc63c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:49:12 +0000
Subject: [PATCH 05/65] fix: split text input only at newlines

---
 .../deepgnn/graph_engine/_adl_reader.py       | 25 +++++++++++--------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/_adl_reader.py b/src/python/deepgnn/graph_engine/_adl_reader.py
index d2417e6..b697093 100644
--- a/src/python/deepgnn/graph_engine/_adl_reader.py
+++ b/src/python/deepgnn/graph_engine/_adl_reader.py
@@ -17,6 +17,16 @@ from deepgnn.graph_engine._base import get_fs
 LINE_DELIMITER = int.from_bytes(b"\n", "little")
 
 
+def _split_lines(data: bytes) -> List[str]:
+    """Split only at newlines: str.splitlines also breaks at characters that can be a part of a line."""
+    if len(data) == 0:
+        return []
+    return [
+        line[:-1] if line.endswith("\r") else line
+        for line in data.decode("utf-8").split("\n")
+    ]
+
+
 # A indicator which is put to the queue with the count.
 # __next__ function in iterable will get each queue item
 # till reach the end which is specified by this indicator.
@@ -182,10 +192,8 @@ class TextFileIterator:
                     sub_block[last_delim_index + 1 :]
                 )
                 if last_delim_index != first_delim_index:
-                    decoded_buf[index]["lines"] = (
+                    decoded_buf[index]["lines"] = _split_lines(
                         sub_block[first_delim_index + 1 : last_delim_index]
-                        .decode("utf-8")
-                        .splitlines()
                     )
 
             len_to_read = self.get_length_to_read()
@@ -237,9 +245,7 @@ class TextFileIterator:
             if cur_buf["suffix"] is not None:
                 if head_block["suffix"] is not None:
                     # there is '\n' in head block, concat the current prefix and head's suffix and decode.
-                    head_block["lines"].extend(
-                        head_buf.decode("utf-8").splitlines(False)
-                    )
+                    head_block["lines"].extend(_split_lines(head_buf))
 
                 # concat lines in current block into head block
                 head_block["lines"].extend(cur_buf["lines"])
@@ -380,8 +386,7 @@ class TextFileIterator:
             self.outputs.task_done()
             # if the head is finish indicator, convert the remaining unprocessed bytes to string and return
             if type(head) is FetchDone:
-                if len(self.remain_bytes) != 0:
-                    line = self.remain_bytes.decode("utf-8").strip("\r\n")
+                for line in _split_lines(self.remain_bytes):
                     if len(line) > 0:
                         buf.append(line)
                 break
@@ -391,9 +396,7 @@ class TextFileIterator:
 
             if head["suffix"] is not None:
                 if len(self.remain_bytes) > 0:
-                    self.remain_lines.extend(
-                        self.remain_bytes.decode("utf-8").splitlines(False)
-                    )
+                    self.remain_lines.extend(_split_lines(self.remain_bytes))
                 self.remain_lines.extend(head["lines"])
                 self.remain_bytes = head["suffix"]
 
-- 
2.43.0


From bc1cb24570a75475a73473daabf0d2228dd15fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:51:06 +0000
Subject: [PATCH 06/65] fix: report failed reads of text input to the consumer

---
 .../deepgnn/graph_engine/_adl_reader.py       | 38 ++++++++++++++-----
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/_adl_reader.py b/src/python/deepgnn/graph_engine/_adl_reader.py
index b697093..42ea5bb 100644
--- a/src/python/deepgnn/graph_engine/_adl_reader.py
+++ b/src/python/deepgnn/graph_engine/_adl_reader.py
@@ -6,6 +6,7 @@ import re
 import random
 import glob
 import threading
+import traceback
 from typing import Optional, List, Iterator
 from queue import Queue
 from concurrent.futures import ThreadPoolExecutor
@@ -199,21 +200,30 @@ class TextFileIterator:
             len_to_read = self.get_length_to_read()
             sub_len = len_to_read // self.thread_count
             last_id = self.thread_count - 1
+            futures = []
             for thread_idx in range(last_id):
+                futures.append(
+                    pool.submit(
+                        _read_block_worker,
+                        thread_idx,
+                        self.offset + (thread_idx * sub_len),
+                        sub_len,
+                    )
+                )
+
+            futures.append(
                 pool.submit(
                     _read_block_worker,
-                    thread_idx,
-                    self.offset + (thread_idx * sub_len),
-                    sub_len,
+                    last_id,
+                    self.offset + (last_id * sub_len),
+                    len_to_read - last_id * sub_len,
                 )
-
-            pool.submit(
-                _read_block_worker,
-                last_id,
-                self.offset + (last_id * sub_len),
-                len_to_read - last_id * sub_len,
             )
 
+        # raise if any part of the block was not read.
+        for f in futures:
+            f.result()
+
         # merge the prefix and suffix between blocks.
         # first we get the head block of the block list,
         # then we will concat each block after the head into head block.
@@ -260,6 +270,13 @@ class TextFileIterator:
         return 0
 
     def _read_block(self):
+        try:
+            self._read_all_blocks()
+        except Exception:
+            self.stop = True
+            self.outputs.put(FetchDone(exception=traceback.format_exc()))
+
+    def _read_all_blocks(self):
         while not self.stop:
             # try to read some data from current file using multi-threading
             block = self._read_block_by_threads()
@@ -386,6 +403,9 @@ class TextFileIterator:
             self.outputs.task_done()
             # if the head is finish indicator, convert the remaining unprocessed bytes to string and return
             if type(head) is FetchDone:
+                if head.exception_info is not None:
+                    self.end = True
+                    raise RuntimeError(head.exception_info)
                 for line in _split_lines(self.remain_bytes):
                     if len(line) > 0:
                         buf.append(line)
-- 
2.43.0


From 7c747efb3fcbc4a1bef919f428c83bf58bc0e58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:54:33 +0000
Subject: [PATCH 07/65] fix: restart TextFileSplitIterator from the beginning
 of its range

---
 src/python/deepgnn/graph_engine/_adl_reader.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/python/deepgnn/graph_engine/_adl_reader.py b/src/python/deepgnn/graph_engine/_adl_reader.py
index 42ea5bb..cdbf528 100644
--- a/src/python/deepgnn/graph_engine/_adl_reader.py
+++ b/src/python/deepgnn/graph_engine/_adl_reader.py
@@ -448,6 +448,7 @@ class TextFileSplitIterator(TextFileIterator):
         total_read_length: int = -1,
     ):
         self.worker_offset = worker_offset
+        self.split_length = total_read_length
         self.total_read_length = total_read_length
 
         super(TextFileSplitIterator, self).__init__(
@@ -480,6 +481,12 @@ class TextFileSplitIterator(TextFileIterator):
 
         return total_files
 
+    def reset(self):
+        # wait for the reading thread before restoring the length left to read.
+        self.join()
+        self.total_read_length = self.split_length
+        super().reset()
+
     def get_length_to_read(self) -> int:
         if self.total_read_length == -1:
             return self.length
-- 
2.43.0


From 60805a4eec09fe3ceedce520f6a80b597d26d1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:55:18 +0000
Subject: [PATCH 08/65] fix: end TextFileSampler without a batch of padding

---
 src/python/deepgnn/graph_engine/samplers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/deepgnn/graph_engine/samplers.py b/src/python/deepgnn/graph_engine/samplers.py
index 32dc55c..d40a8be 100644
--- a/src/python/deepgnn/graph_engine/samplers.py
+++ b/src/python/deepgnn/graph_engine/samplers.py
@@ -925,6 +925,10 @@ class TextFileSampler(BaseSampler):
                 self.end = True
                 break
 
+        # nothing left to read: do not return a batch made of padding only.
+        if len(self.buf) == 0:
+            raise StopIteration
+
         if self.shuffle and new_added:
             random.shuffle(self.buf)
 
-- 
2.43.0


From 800aa919b65f91876e899d4990bf68502caf9af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:26:56 +0000
Subject: [PATCH 09/65] fix: keep creation and removal times of 0 in temporal
 graphs

---
 .../deepgnn/graph_engine/snark/converter/writers.py       | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/converter/writers.py b/src/python/deepgnn/graph_engine/snark/converter/writers.py
index 0ea7a9d..7515f75 100644
--- a/src/python/deepgnn/graph_engine/snark/converter/writers.py
+++ b/src/python/deepgnn/graph_engine/snark/converter/writers.py
@@ -102,8 +102,8 @@ class BinaryWriter:
                         self.node_type_count.append(0)
                     self.node_type_num = type_num_value
                 # Fill defaults for a new node
-                node_created_at = created_at or 0
-                node_removed_at = removed_at or -1
+                node_created_at = 0 if created_at is None else created_at
+                node_removed_at = -1 if removed_at is None else removed_at
                 self.node_writer.add(
                     src,
                     typ,
@@ -146,8 +146,8 @@ class BinaryWriter:
                     or node_removed_at == -1
                     or removed_at <= node_removed_at
                 ), f"Edge ({src}, {dst}, {typ}) was deleted[{removed_at}] after source node[{node_removed_at}]."
-                created_at = created_at or node_created_at
-                removed_at = removed_at or node_removed_at
+                created_at = node_created_at if created_at is None else created_at
+                removed_at = node_removed_at if removed_at is None else removed_at
                 self.edge_writer.add(
                     dst,
                     typ,
-- 
2.43.0


From dd4aff844f28e7842d51a6e1d0b1718e2f3c3bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:30:08 +0000
Subject: [PATCH 10/65] fix: parse bool features of edge lists by value

---
 .../deepgnn/graph_engine/snark/decoders.py       | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/decoders.py b/src/python/deepgnn/graph_engine/snark/decoders.py
index c224f96..18d7733 100644
--- a/src/python/deepgnn/graph_engine/snark/decoders.py
+++ b/src/python/deepgnn/graph_engine/snark/decoders.py
@@ -193,6 +193,13 @@ class EdgeListDecoder(Decoder):
                 return ""
             return item[idx]
 
+        def _get_values(count):
+            items = data
+            if key == "bool":
+                # Any non empty string is True, use the value it represents instead.
+                items = (item.strip().lower() not in ("0", "false") for item in data)
+            return np.fromiter(items, count=count, dtype=key)
+
         if not length[0]:
             return None
 
@@ -202,11 +209,7 @@ class EdgeListDecoder(Decoder):
                 np.fromiter(
                     data, count=values_len * max(coords_dim, 1), dtype=np.int64
                 ).reshape((values_len, coords_dim) if coords_dim else values_len),
-                np.fromiter(
-                    data,
-                    count=values_len,
-                    dtype=key,
-                ),
+                _get_values(values_len),
             )
 
         length_single = length[0]
@@ -225,8 +228,7 @@ class EdgeListDecoder(Decoder):
                     break
             return output
         else:
-            # type: ignore
-            return np.fromiter(data, count=length_single, dtype=key)
+            return _get_values(length_single)
 
     def decode(
         self, line: str
-- 
2.43.0


From 5b5275f32822a992b36338b434567716be5fd063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:31:08 +0000
Subject: [PATCH 11/65] fix: order edges of a JSON record by inherited
 timestamps

---
 src/python/deepgnn/graph_engine/snark/decoders.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/decoders.py b/src/python/deepgnn/graph_engine/snark/decoders.py
index 18d7733..6b30030 100644
--- a/src/python/deepgnn/graph_engine/snark/decoders.py
+++ b/src/python/deepgnn/graph_engine/snark/decoders.py
@@ -415,10 +415,10 @@ class JsonDecoder(Decoder):
                 edge_list,
                 key=lambda edge: (
                     edge["edge_type"],
-                    edge.get("created_at", 0),
+                    edge.get("created_at", node_created_at),
                     (
-                        edge.get("removed_at", 0)
-                        if edge.get("removed_at") != -1
+                        edge.get("removed_at", node_removed_at)
+                        if edge.get("removed_at", node_removed_at) != -1
                         else float("inf")
                     ),
                     edge["dst_id"],
-- 
2.43.0


From 656c43f22c0c8786926112d84733a51dec587781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:32:43 +0000
Subject: [PATCH 12/65] fix: decode empty feature lists of JSON records

---
 src/python/deepgnn/graph_engine/snark/decoders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/snark/decoders.py b/src/python/deepgnn/graph_engine/snark/decoders.py
index 6b30030..00f097c 100644
--- a/src/python/deepgnn/graph_engine/snark/decoders.py
+++ b/src/python/deepgnn/graph_engine/snark/decoders.py
@@ -369,7 +369,7 @@ class JsonDecoder(Decoder):
                     ret_list.append(None)
                     curr += 1
 
-                if isinstance(value, list) and isinstance(value[0], dict):
+                if isinstance(value, list) and value and isinstance(value[0], dict):
                     value = self._serialize_temporal_features(
                         value, created_at, removed_at, key
                     )
-- 
2.43.0


From 5dfed7f7835e1b638d10da0fdf01da248801dbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:34:02 +0000
Subject: [PATCH 13/65] fix: accept neighbors without a type in TSV lines

---
 src/python/deepgnn/graph_engine/snark/decoders.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/snark/decoders.py b/src/python/deepgnn/graph_engine/snark/decoders.py
index 00f097c..364e59a 100644
--- a/src/python/deepgnn/graph_engine/snark/decoders.py
+++ b/src/python/deepgnn/graph_engine/snark/decoders.py
@@ -534,7 +534,8 @@ class TsvDecoder(Decoder):
 
         def order(edge):
             edge_items = edge.split(",")
-            return int(edge_items[1]), int(edge_items[0])
+            edge_type = edge_items[1] if len(edge_items) > 1 else ""
+            return int(edge_type) if edge_type else 0, int(edge_items[0])
 
         for n in sorted(neighbors, key=order):
             neighbor_columns = n.split(",")
-- 
2.43.0


From 4870d522607c732b32c26de1df8252b60781b3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:38:02 +0000
Subject: [PATCH 14/65] fix: finish and report every partition in
 QueueDispatcher.join

---
 src/python/deepgnn/graph_engine/snark/dispatcher.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/dispatcher.py b/src/python/deepgnn/graph_engine/snark/dispatcher.py
index 74c9e2a..5f0fc82 100755
--- a/src/python/deepgnn/graph_engine/snark/dispatcher.py
+++ b/src/python/deepgnn/graph_engine/snark/dispatcher.py
@@ -283,8 +283,6 @@ class QueueDispatcher(Dispatcher):
         self.q_out: mp.Queue = mp.Queue(num_partitions)
         self.partition_func = partion_func
 
-        # not all partitions might be used, we'll keep track them here
-        self.active_partitions: typing.Set = set()
         self.processes = [
             parallel_func(
                 target=process,
@@ -321,7 +319,6 @@ class QueueDispatcher(Dispatcher):
         """
         partition = self.partition_func(line)
         self.q_in[partition].put(line)
-        self.active_partitions.add(partition)
 
         self.count += 1
         if self.count % PROCESS_PRINT_INTERVAL == 0:
@@ -329,11 +326,12 @@ class QueueDispatcher(Dispatcher):
 
     def join(self):
         """Wrapup conversion."""
-        for i in self.active_partitions:
+        # partitions without any records are written and reported as well.
+        for i in range(self.num_partitions):
             self.q_in[i].put(FLAG_ALL_DONE)
             self.q_in[i].close()
 
-        for _ in self.active_partitions:
+        for _ in range(self.num_partitions):
             flag, output = self.q_out.get()
             self.node_count += output["node_count"]
             self.edge_count += output["edge_count"]
@@ -385,7 +383,7 @@ class QueueDispatcher(Dispatcher):
                         pass
 
         for p in self.processes:
-            p.terminate()
+            p.join()
 
     def prop(self, name: str) -> typing.Any:
         """Properties relevant for conversion.
-- 
2.43.0


From 078576cfe489613faa8d5283bfe42174e2660265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:39:46 +0000
Subject: [PATCH 15/65] fix: give every input file and partition to a worker in
 multi-worker conversion

---
 .../deepgnn/graph_engine/snark/convert.py     | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/convert.py b/src/python/deepgnn/graph_engine/snark/convert.py
index 855f82a..61065d0 100755
--- a/src/python/deepgnn/graph_engine/snark/convert.py
+++ b/src/python/deepgnn/graph_engine/snark/convert.py
@@ -4,7 +4,6 @@
 """Conversion functions to internal binary format."""
 from typing import Optional
 import multiprocessing as mp
-import math
 from operator import add
 import fsspec
 import json
@@ -83,13 +82,17 @@ class MultiWorkersConverter:
 
         self.fs, _ = get_fs(graph_path)
 
-        # calculate the partition offset and count of this worker.
-        self.partition_count = (
-            int(math.ceil(partition_count / worker_count)) if not self._debug else 1
-        )
-        self.partition_offset = self.partition_count * worker_index
-        if self.partition_offset + self.partition_count > partition_count:
-            self.partition_count = partition_count - self.partition_offset
+        # calculate the partition offset and count of this worker, workers with smaller
+        # indices take one more partition if partitions can't be divided equally.
+        if self._debug:
+            self.partition_count = 1
+            self.partition_offset = 0
+        else:
+            per_worker, extra = divmod(partition_count, worker_count)
+            self.partition_count = per_worker + (1 if worker_index < extra else 0)
+            self.partition_offset = per_worker * worker_index + min(worker_index, extra)
+        # workers without partitions don't convert anything, input files are split among the rest.
+        self.active_worker_count = min(self.worker_count, partition_count)
 
         if self.dispatcher is None and not self._debug:
             # when converting data in HDFS make sure to turn it off: https://hdfs3.readthedocs.io/en/latest/limitations.html
@@ -128,7 +131,7 @@ class MultiWorkersConverter:
                 buffer_queue_size=self.buffer_queue_size,
                 thread_count=self.thread_count,
                 worker_index=self.worker_index,
-                num_workers=self.worker_count,
+                num_workers=self.active_worker_count,
             )
 
         if not self._debug:
-- 
2.43.0


From f073c0a70f799891cc45f3f159a2e96e481cb346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:41:49 +0000
Subject: [PATCH 16/65] fix: keep partition ids, weights and type counts of
 every worker when merging metadata

---
 .../deepgnn/graph_engine/snark/meta_merger.py | 72 +++++++++++++------
 1 file changed, 49 insertions(+), 23 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/meta_merger.py b/src/python/deepgnn/graph_engine/snark/meta_merger.py
index ad5f082..555e4a8 100644
--- a/src/python/deepgnn/graph_engine/snark/meta_merger.py
+++ b/src/python/deepgnn/graph_engine/snark/meta_merger.py
@@ -17,10 +17,10 @@ from deepgnn.graph_engine._base import get_fs
 # binary_version          equal
 # node_count              additive
 # edge_count              additive
-# node_type_count         equal
-# edge_type_count         equal
-# node_feature_count      equal
-# edge_feature_count      equal
+# node_type_count         maximum
+# edge_type_count         maximum
+# node_feature_count      maximum
+# edge_feature_count      maximum
 # node weight             additive
 # edge weight             additive
 # node count              additive
@@ -55,8 +55,13 @@ class Meta:
         self.node_feature_count = meta["node_feature_count"]
         self.edge_feature_count = meta["edge_feature_count"]
         self.partition_count = len(meta["partitions"])
-        self.node_weights = [[0.0] * self.node_type_count] * self.partition_count
-        self.edge_weights = [[0.0] * self.edge_type_count] * self.partition_count
+        self.partition_ids = list(meta["partitions"])
+        self.node_weights = [
+            [0.0] * self.node_type_count for _ in range(self.partition_count)
+        ]
+        self.edge_weights = [
+            [0.0] * self.edge_type_count for _ in range(self.partition_count)
+        ]
         for j, id in enumerate(meta["partitions"]):
             for i in range(self.node_type_count):
                 self.node_weights[j][i] += meta["partitions"][id]["node_weight"][i]
@@ -67,15 +72,20 @@ class Meta:
         self.edge_count_per_type = meta["edge_count_per_type"]
         self.watermark = meta["watermark"]
 
-    def get_partition(self, offset):
+    def get_partition(self, ids, node_type_count, edge_type_count):
         """Return the sub content of meta info."""
         return {
-            f"{offset + i}": {
-                "node_weight": self.node_weights[i],
-                "edge_weight": self.edge_weights[i],
+            f"{id}": {
+                "node_weight": _pad(self.node_weights[i], node_type_count),
+                "edge_weight": _pad(self.edge_weights[i], edge_type_count),
             }
-            for i in range(self.partition_count)
-        }, offset + self.partition_count
+            for i, id in enumerate(ids)
+        }
+
+
+def _pad(values: list, count: int) -> list:
+    # Workers might not have records of every type.
+    return values + [0] * (count - len(values))
 
 
 def merge(fs, output_dir: str, meta_list: List[Meta]):
@@ -83,29 +93,45 @@ def merge(fs, output_dir: str, meta_list: List[Meta]):
     assert all(
         map(lambda x: x.version == meta_list[0].version, meta_list)
     ), "All partitions must have the same binary version"
+    node_type_count = max([i.node_type_count for i in meta_list])
+    edge_type_count = max([i.edge_type_count for i in meta_list])
     content = {
         "binary_data_version": meta_list[0].version,
         "node_count": sum([i.node_count for i in meta_list]),
         "edge_count": sum([i.edge_count for i in meta_list]),
-        "node_type_count": meta_list[0].node_type_count,
-        "edge_type_count": meta_list[0].edge_type_count,
-        "node_feature_count": int(meta_list[0].node_feature_count),
-        "edge_feature_count": int(meta_list[0].edge_feature_count),
+        "node_type_count": node_type_count,
+        "edge_type_count": edge_type_count,
+        "node_feature_count": max([int(i.node_feature_count) for i in meta_list]),
+        "edge_feature_count": max([int(i.edge_feature_count) for i in meta_list]),
         "watermark": int(meta_list[0].watermark),
     }
-    offset = 0
     content["partitions"] = {}
+    # Partitions keep their ids, because these ids are used in names of binary files.
+    ids = [id for i in meta_list for id in i.partition_ids]
+    if len(set(ids)) < len(ids):
+        ids = [str(id) for id in range(len(ids))]
+    offset = 0
     for i in meta_list:
-        data, offset = i.get_partition(offset)
-        content["partitions"].update(data)
+        content["partitions"].update(
+            i.get_partition(
+                ids[offset : offset + i.partition_count],
+                node_type_count,
+                edge_type_count,
+            )
+        )
+        offset += i.partition_count
 
     content["node_count_per_type"] = [
-        sum([i.node_count_per_type[count] for i in meta_list])
-        for count in range(int(meta_list[0].node_type_count))
+        sum(counts)
+        for counts in zip(
+            *[_pad(i.node_count_per_type, node_type_count) for i in meta_list]
+        )
     ]
     content["edge_count_per_type"] = [
-        sum([i.edge_count_per_type[count] for i in meta_list])
-        for count in range(int(meta_list[0].edge_type_count))
+        sum(counts)
+        for counts in zip(
+            *[_pad(i.edge_count_per_type, edge_type_count) for i in meta_list]
+        )
     ]
 
     with fs.open("{}/meta.json".format(output_dir), "w") as file:
-- 
2.43.0


From 89dfdd5fb0ae535cca202eeb002e08ad1a13c5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:51:43 +0000
Subject: [PATCH 17/65] fix: pass default edge type when sampling neighbors by
 weight

---
 src/python/deepgnn/graph_engine/snark/local.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/deepgnn/graph_engine/snark/local.py b/src/python/deepgnn/graph_engine/snark/local.py
index 58dea18..a1a86dc 100644
--- a/src/python/deepgnn/graph_engine/snark/local.py
+++ b/src/python/deepgnn/graph_engine/snark/local.py
@@ -120,6 +120,7 @@ class Client(Graph):
                 count,
                 default_node,
                 default_weight,
+                default_edge_type,
                 seed=int(random.getrandbits(64)),
                 timestamps=timestamps,
                 return_edge_created_ts=return_edge_created_ts,
-- 
2.43.0


From c13837ead694158553b7f0ea329ba68b8b17f4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:51:43 +0000
Subject: [PATCH 18/65] fix: return edge creation times of uniform samples
 without timestamps

---
 src/python/deepgnn/graph_engine/snark/client.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/client.py b/src/python/deepgnn/graph_engine/snark/client.py
index c82129b..7dcf64c 100644
--- a/src/python/deepgnn/graph_engine/snark/client.py
+++ b/src/python/deepgnn/graph_engine/snark/client.py
@@ -1090,11 +1090,9 @@ class MemoryGraph:
             result_nodes.ctypes.data_as(POINTER(c_int64)),
             result_types.ctypes.data_as(POINTER(c_int32)),
             (
-                None
-                if timestamps is None
-                or len(timestamps) == 0
-                or (not return_edge_created_ts)
-                else result_ts.ctypes.data_as(POINTER(c_int64))
+                result_ts.ctypes.data_as(POINTER(c_int64))
+                if return_edge_created_ts
+                else None
             ),
             c_int64(default_node),
             c_int32(default_type),
-- 
2.43.0


From 8418ea4aff28a1fffa9c3d3b78ae88e62bc9c79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:53:29 +0000
Subject: [PATCH 19/65] fix: keep edge samplers of different strategies apart
 in the local client

---
 src/python/deepgnn/graph_engine/snark/local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/snark/local.py b/src/python/deepgnn/graph_engine/snark/local.py
index a1a86dc..a408b61 100644
--- a/src/python/deepgnn/graph_engine/snark/local.py
+++ b/src/python/deepgnn/graph_engine/snark/local.py
@@ -84,7 +84,7 @@ class Client(Graph):
         """Return an array of edges with a specified type."""
         assert size > 0
 
-        key = str(edge_types)
+        key = _sampling_map[strategy] + str(edge_types)
         if key not in self.edge_samplers:
             self.edge_samplers[key] = client.EdgeSampler(
                 self.graph, self.__check_types(edge_types), _sampling_map[strategy]
-- 
2.43.0


From d6c522e44581b07bed0ee836462e7b291f6d06d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:54:54 +0000
Subject: [PATCH 20/65] fix: load the requested partitions in the local client

---
 src/python/deepgnn/graph_engine/snark/local.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/local.py b/src/python/deepgnn/graph_engine/snark/local.py
index a408b61..5961efa 100644
--- a/src/python/deepgnn/graph_engine/snark/local.py
+++ b/src/python/deepgnn/graph_engine/snark/local.py
@@ -37,9 +37,7 @@ class Client(Graph):
         if len(partitions) == 0:
             self.logger.info("Partitions not set, defaulting to [0]")
             partitions = [0]
-        partitions_with_paths = [
-            (path, partition) for partition in range(len(partitions))
-        ]
+        partitions_with_paths = [(path, partition) for partition in partitions]
         self.logger.info(
             f"Graph data path: {path}. Partitions {partitions}. Storage type {storage_type}. Config path {config_path}. Stream {stream}."
         )
-- 
2.43.0


From dda3cd7cb7c17bfae74c4c653ba50b5a387a69e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:56:40 +0000
Subject: [PATCH 21/65] fix: retry personalized PageRank queries of remote
 graphs

---
 src/python/deepgnn/graph_engine/snark/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/snark/client.py b/src/python/deepgnn/graph_engine/snark/client.py
index 7dcf64c..d344455 100644
--- a/src/python/deepgnn/graph_engine/snark/client.py
+++ b/src/python/deepgnn/graph_engine/snark/client.py
@@ -1136,7 +1136,8 @@ class MemoryGraph:
         etypes_arr = TypeArray(*edge_types)
         result_nodes = np.full((len(nodes), count), default_node, dtype=np.int64)
         result_weights = np.full((len(nodes), count), default_weight, dtype=np.float32)
-        self.lib.PPRSampleNeighbor(
+        self._retryer(
+            self.lib.PPRSampleNeighbor,
             self.g_,
             nodes.ctypes.data_as(POINTER(c_int64)),
             c_size_t(nodes.size),
-- 
2.43.0


From c1ec5640d52ceec1d1cc1898ae4f0ef37e972a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:56:40 +0000
Subject: [PATCH 22/65] fix: limit pauses between retries by the configured
 backoff

---
 src/python/deepgnn/graph_engine/snark/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/snark/client.py b/src/python/deepgnn/graph_engine/snark/client.py
index d344455..44c1c57 100644
--- a/src/python/deepgnn/graph_engine/snark/client.py
+++ b/src/python/deepgnn/graph_engine/snark/client.py
@@ -1429,7 +1429,7 @@ class DistributedGraph(MemoryGraph):
             wait=wait_exponential(
                 multiplier=retry_ops["backoff_multiplier"],
                 min=retry_ops["initial_backoff"],
-                max=retry_ops["max_attempts"],
+                max=retry_ops["max_backoff"],
             ),
             before=before_log(get_logger(), logging.DEBUG),
             after=after_log(get_logger(), logging.WARNING),
-- 
2.43.0


From 5a76dd01ebf93ce080a591fa1f472c0304beadd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:06:08 +0000
Subject: [PATCH 23/65] fix: let an exhausted prefetch generator of an empty
 sampler end again

The number of batches starts as unknown instead of zero, so reading past
the end of an empty sampler raises StopIteration instead of waiting forever.
---
 src/python/deepgnn/graph_engine/prefetch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/prefetch.py b/src/python/deepgnn/graph_engine/prefetch.py
index 6cd7040..8fa6c25 100644
--- a/src/python/deepgnn/graph_engine/prefetch.py
+++ b/src/python/deepgnn/graph_engine/prefetch.py
@@ -152,7 +152,7 @@ class Generator:
         collate_fn: Optional[Callable] = None,
     ):
         """Initialize generator."""
-        self.count = 0
+        self.count = -1  # unknown until the producer reports it
         self.index = 0
         self.outputs: Queue[Tuple[np.ndarray]] = Queue(prefetch_size)
         self.max_workers = max_workers
@@ -190,7 +190,7 @@ class Generator:
 
     def __next__(self):
         """Parse the queue and get the "count" queue item. Use it to decide terminate the iteration or not."""
-        if self.count > 0 and self.index == self.count + 1:
+        if self.count >= 0 and self.index == self.count + 1:
             raise StopIteration
 
         item = self.outputs.get()
-- 
2.43.0


From 44a3f67495374657e5e19c3c7fa3c285773048a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:06:36 +0000
Subject: [PATCH 24/65] fix: report a query error that arrives after the end
 marker of the sampler

The item read after the end marker was returned without looking at it, so
the marker of a failed query was handed out as a batch.
---
 src/python/deepgnn/graph_engine/prefetch.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/prefetch.py b/src/python/deepgnn/graph_engine/prefetch.py
index 8fa6c25..93a6edb 100644
--- a/src/python/deepgnn/graph_engine/prefetch.py
+++ b/src/python/deepgnn/graph_engine/prefetch.py
@@ -204,9 +204,8 @@ class Generator:
             if self.index == self.count + 1:
                 raise StopIteration
 
-            item = self.outputs.get()
-            self.outputs.task_done()
-            self.index += 1
+            # Queries may still be running, their results or errors come next.
+            return next(self)
 
         return item
 
-- 
2.43.0


From 1b012914fde4f3fa94f2a96ae4bb072326b9e6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:14:57 +0000
Subject: [PATCH 25/65] fix: read the number of partitions from the json
 metadata

The backend looked for the partition count on a line of the old text
format, so starting graph engines without an explicit number failed.
---
 src/python/deepgnn/graph_engine/backends/snark/client.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/backends/snark/client.py b/src/python/deepgnn/graph_engine/backends/snark/client.py
index 4791eea..dd4d5b9 100644
--- a/src/python/deepgnn/graph_engine/backends/snark/client.py
+++ b/src/python/deepgnn/graph_engine/backends/snark/client.py
@@ -183,9 +183,8 @@ class SnarkDistributedBackend(GraphEngineBackend):
             # TODO(alsamylk): provide a better metadata reader in snark
             with open(os.path.join(options.data_dir, "meta.json"), "r") as meta:
                 # Use a simple heuristic: number of original partitions, but cap it at 4
-                # to avoid extreme cases. Partition count is written on 7th line.
-                lines = meta.readlines()
-                options.num_ge = min(int(lines[7]), 4)
+                # to avoid extreme cases.
+                options.num_ge = min(len(json.load(meta)["partitions"]), 4)
 
         # Use explicitly set index if it was provided
         if options.server_idx is not None:
-- 
2.43.0


From 197502b507c17a6c105320887edcbac2ea5e3dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:15:05 +0000
Subject: [PATCH 26/65] fix: list discovered graph engine addresses by server
 index

Addresses were listed in the order of the directory listing, so a server
could be told to listen on the address of another host.
---
 src/python/deepgnn/graph_engine/backends/snark/client.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/backends/snark/client.py b/src/python/deepgnn/graph_engine/backends/snark/client.py
index dd4d5b9..93e6ef2 100644
--- a/src/python/deepgnn/graph_engine/backends/snark/client.py
+++ b/src/python/deepgnn/graph_engine/backends/snark/client.py
@@ -396,7 +396,7 @@ class _AddressFinder:
 # _AddressReader must be wrapped by SynchronizedClient to wait all servers.
 class _AddressReader:
     def __init__(self, path: str):
-        self._servers: List[str] = []
+        servers: List[Tuple[int, str]] = []
         for file_name in glob.glob(os.path.join(path, "*.servername")):
             with open(file_name, "r", newline=os.linesep) as f:
                 # First line is the address and the second - server index.
@@ -404,7 +404,9 @@ class _AddressReader:
                 assert len(raw) == 2
                 server_idx = int(raw[1])
                 if server_idx >= 0:
-                    self._servers.append(raw[0].rstrip(os.linesep))
+                    servers.append((server_idx, raw[0].rstrip(os.linesep)))
+        # Servers look up their addresses by index, files are listed in any order.
+        self._servers: List[str] = [address for _, address in sorted(servers)]
 
     def servers(self) -> List[str]:
         return self._servers
-- 
2.43.0


From 0ce0c1ceb1f433478bd026d710a77635bf64273e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:15:13 +0000
Subject: [PATCH 27/65] fix: keep the order of the caller's worker hosts

The list shared with the command line arguments was sorted in place, so
task indices no longer matched it afterwards.
---
 src/python/deepgnn/graph_engine/backends/snark/client.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/backends/snark/client.py b/src/python/deepgnn/graph_engine/backends/snark/client.py
index 93e6ef2..1454217 100644
--- a/src/python/deepgnn/graph_engine/backends/snark/client.py
+++ b/src/python/deepgnn/graph_engine/backends/snark/client.py
@@ -289,9 +289,8 @@ class SnarkDistributedBackend(GraphEngineBackend):
 
     def _extract_server_index(self, workers: List[str], index: int) -> Optional[int]:
         curr_worker = workers[index]
-        workers.sort()
         seen_hosts = set()
-        for worker in workers:
+        for worker in sorted(workers):
             host = worker.rsplit(":", 1)[0]
             if curr_worker != worker:
                 seen_hosts.add(host)
-- 
2.43.0


From 0825f80926662095f394220ddddec642a3fd2842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:16:05 +0000
Subject: [PATCH 28/65] fix: reset a synchronized server in the process that
 runs it

The parent process never holds the server object, so address files of
earlier jobs stayed behind and were read by later jobs with fewer workers.
---
 src/python/deepgnn/graph_engine/backends/snark/synchronized.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/backends/snark/synchronized.py b/src/python/deepgnn/graph_engine/backends/snark/synchronized.py
index c2e5192..3dd8328 100644
--- a/src/python/deepgnn/graph_engine/backends/snark/synchronized.py
+++ b/src/python/deepgnn/graph_engine/backends/snark/synchronized.py
@@ -186,13 +186,12 @@ class _ServerProcess(mp.Process):
         _create_lock_file(self.sync_path, self.id, "server")
         self._stop_event.wait()
         get_logger().info(f"Shutting down server #{self.id}")
+        self._server.reset()
 
     def join(self, timeout: Optional[float] = None):
         """Stop the GE server."""
         self._wait_for_clients(timeout)
         self._stop_event.set()
-        if self._server is not None:
-            self._server.reset()
 
 
 class SynchronizedServer:
-- 
2.43.0


From 743404895934b163be0de5066c02a14538a0ea12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:17:15 +0000
Subject: [PATCH 29/65] fix: register a backend's client before starting its
 server

A worker that was slow between the two steps could find the servers of
faster workers gone already, because they did not know about its client.
---
 .../graph_engine/backends/snark/client.py     | 37 ++++++++++---------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/backends/snark/client.py b/src/python/deepgnn/graph_engine/backends/snark/client.py
index 1454217..a6013db 100644
--- a/src/python/deepgnn/graph_engine/backends/snark/client.py
+++ b/src/python/deepgnn/graph_engine/backends/snark/client.py
@@ -109,6 +109,17 @@ class SnarkDistributedBackend(GraphEngineBackend):
             )
 
         os.makedirs(sync_dir, exist_ok=True)
+        # Register the client first, so servers visible to other workers wait for it.
+        assert client_rank is not None, "Client rank should be always initialized"
+        self._client = SynchronizedClient(  # type: ignore
+            sync_dir,
+            client_rank,
+            len(options.servers),
+            options.ge_start_timeout,
+            DistributedClient,
+            options.servers,
+            options.ssl_cert,
+        )
         if server_index >= 0:
             self._server = SynchronizedServer(
                 sync_dir,
@@ -124,16 +135,6 @@ class SnarkDistributedBackend(GraphEngineBackend):
                 config_path=options.config_path,
                 stream=options.stream,
             )
-        assert client_rank is not None, "Client rank should be always initialized"
-        self._client = SynchronizedClient(  # type: ignore
-            sync_dir,
-            client_rank,
-            len(options.servers),
-            options.ge_start_timeout,
-            DistributedClient,
-            options.servers,
-            options.ssl_cert,
-        )
 
     def _check_servers_option(
         self,
@@ -148,22 +149,24 @@ class SnarkDistributedBackend(GraphEngineBackend):
         address_folder = os.path.join(options.model_dir, "sync", "addresses")
         os.makedirs(sync_folder, exist_ok=True)
         os.makedirs(address_folder, exist_ok=True)
-        server = SynchronizedServer(
+        # Register the client before its server: once all servers are visible to a worker,
+        # they are also going to wait for every client.
+        client = SynchronizedClient(
             sync_folder,
             client_rank,
+            world_size,
             options.ge_start_timeout,
-            _AddressFinder,
+            _AddressReader,
             address_folder,
-            client_rank,
-            server_idx,
         )
-        client = SynchronizedClient(
+        server = SynchronizedServer(
             sync_folder,
             client_rank,
-            world_size,
             options.ge_start_timeout,
-            _AddressReader,
+            _AddressFinder,
             address_folder,
+            client_rank,
+            server_idx,
         )
         options.servers = client.client.servers()
         client.reset()
-- 
2.43.0


From 5b389b2f9462274ff0527a03ae237075f2ff20e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:18:41 +0000
Subject: [PATCH 30/65] fix: download edge timestamps of temporal graphs

Remote temporal graphs were opened without their timestamp files.
---
 src/python/deepgnn/graph_engine/snark/_downloader.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/python/deepgnn/graph_engine/snark/_downloader.py b/src/python/deepgnn/graph_engine/snark/_downloader.py
index 6b84c13..aa413c9 100644
--- a/src/python/deepgnn/graph_engine/snark/_downloader.py
+++ b/src/python/deepgnn/graph_engine/snark/_downloader.py
@@ -82,6 +82,12 @@ def download_graph_data(path: str, partitions: List[Tuple[str, int]]) -> GraphPa
                     mt._Element.EDGE, partition_path, partition_index, -1, fs.sep
                 )
             )
+        if graph_meta.watermark >= 0:
+            lpath.append(
+                mt._get_element_timestamps_path(
+                    mt._Element.EDGE, partition_path, partition_index, -1, fs.sep
+                )
+            )
 
         # Use pattern matching to skip downloading alias tables if they were not created
         lpath.append(
-- 
2.43.0


From a54a5c00f21472362141dd8f8dc070cab5084457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:19:52 +0000
Subject: [PATCH 31/65] fix: download every partition from its own file system

All files were fetched from the file system of the last partition, which
failed when it was a local folder or another remote storage.
---
 src/python/deepgnn/graph_engine/snark/_downloader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/_downloader.py b/src/python/deepgnn/graph_engine/snark/_downloader.py
index aa413c9..85f090d 100644
--- a/src/python/deepgnn/graph_engine/snark/_downloader.py
+++ b/src/python/deepgnn/graph_engine/snark/_downloader.py
@@ -39,13 +39,13 @@ def download_graph_data(path: str, partitions: List[Tuple[str, int]]) -> GraphPa
     data_path = tempfile.TemporaryDirectory(suffix="_snark")
     fs.get(mt._get_meta_path(path, fs.sep), mt._get_meta_path(data_path.name))
     graph_meta = mt.Meta(data_path.name)
-    lpath = []
     for i in range(len(partitions)):
         partition_path, partition_index = partitions[i]
         fs, _ = get_fs(partition_path)
         if isinstance(fs, LocalFileSystem):
             continue
 
+        lpath = []
         lpath.append(mt._get_node_map_path(partition_path, partition_index, -1, fs.sep))
         lpath.append(
             mt._get_neighbors_index_path(partition_path, partition_index, -1, fs.sep)
@@ -102,7 +102,7 @@ def download_graph_data(path: str, partitions: List[Tuple[str, int]]) -> GraphPa
             )
         )
 
+        fs.get(lpath, data_path.name)
         partitions[i] = (data_path.name, partition_index)
 
-    fs.get(lpath, data_path.name)
     return GraphPath(data_path)
-- 
2.43.0


From 778a7fed86846669596ea03d2bb3f78a086111c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:24:40 +0000
Subject: [PATCH 32/65] fix: let forest fire sampling reach isolated nodes

Nodes without edges never joined the sample, so asking for a size that
needs them did not end.
---
 .../graph_engine/snark/preprocess/sampler/forest_fire.py       | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/deepgnn/graph_engine/snark/preprocess/sampler/forest_fire.py b/src/python/deepgnn/graph_engine/snark/preprocess/sampler/forest_fire.py
index 758144f..3664c37 100644
--- a/src/python/deepgnn/graph_engine/snark/preprocess/sampler/forest_fire.py
+++ b/src/python/deepgnn/graph_engine/snark/preprocess/sampler/forest_fire.py
@@ -48,6 +48,9 @@ def __forest_fire_helper(
                 visited.add(initial_node)
                 successor = list(g.successors(initial_node))
                 predecessor = list(g.predecessors(initial_node))
+                if len(successor) == 0 and len(predecessor) == 0:
+                    # no edge is ever going to bring this node to the sample
+                    sample.add_node(initial_node)
                 num_successor = np.random.geometric(1 - forward_prob)
                 num_predecessor = np.random.geometric(1 - forward_prob * back_prob)
 
-- 
2.43.0


From 9d2bae15ab726aaf0a296ae131332f459765a758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:27:38 +0000
Subject: [PATCH 33/65] fix: do not treat an empty chunk as the end of the
 upload

---
 src/python/deepgnn/graph_engine/adl_uploader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/adl_uploader.py b/src/python/deepgnn/graph_engine/adl_uploader.py
index c015f0e..27b8d48 100644
--- a/src/python/deepgnn/graph_engine/adl_uploader.py
+++ b/src/python/deepgnn/graph_engine/adl_uploader.py
@@ -76,7 +76,7 @@ class MultiThreadsAdlDataWriter:
         out_file = None
         while True:
             chunk = self.data_queue.get()
-            if not chunk:
+            if chunk is None:
                 if out_file:
                     out_file.close()
                 self.data_queue.task_done()
@@ -213,7 +213,7 @@ class AdlDataWriter:
         )
         while True:
             chunk = self.data_queues[process_idx].get()
-            if not chunk or not uploader.is_alive():
+            if chunk is None or not uploader.is_alive():
                 break
             uploader.enqueue(chunk)
 
-- 
2.43.0


From 7e553bce854529493e9fcdb1b265d4ff7bb6ca58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:27:38 +0000
Subject: [PATCH 34/65] fix: give every upload thread a stop marker

---
 src/python/deepgnn/graph_engine/adl_uploader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/adl_uploader.py b/src/python/deepgnn/graph_engine/adl_uploader.py
index 27b8d48..3293491 100644
--- a/src/python/deepgnn/graph_engine/adl_uploader.py
+++ b/src/python/deepgnn/graph_engine/adl_uploader.py
@@ -125,9 +125,9 @@ class MultiThreadsAdlDataWriter:
             self.logger.info(f"[uploader processor-{self.process_idx}] stop...")
             self.started = False
 
-            for thread in self.threads:
-                if thread.is_alive():
-                    self.data_queue.put(None)
+            # Any thread can take any marker, so each of them needs one.
+            for _ in self.threads:
+                self.data_queue.put(None)
 
             for thread in self.threads:
                 thread.join()
-- 
2.43.0


From fbd891b0c4605da68846cbd5301d085d7d34b663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:41:45 +0000
Subject: [PATCH 35/65] fix: keep input queues open until conversion workers
 finish

---
 src/python/deepgnn/graph_engine/snark/dispatcher.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/snark/dispatcher.py b/src/python/deepgnn/graph_engine/snark/dispatcher.py
index 5f0fc82..deebf86 100755
--- a/src/python/deepgnn/graph_engine/snark/dispatcher.py
+++ b/src/python/deepgnn/graph_engine/snark/dispatcher.py
@@ -329,7 +329,6 @@ class QueueDispatcher(Dispatcher):
         # partitions without any records are written and reported as well.
         for i in range(self.num_partitions):
             self.q_in[i].put(FLAG_ALL_DONE)
-            self.q_in[i].close()
 
         for _ in range(self.num_partitions):
             flag, output = self.q_out.get()
@@ -346,6 +345,9 @@ class QueueDispatcher(Dispatcher):
             self.partitions.append(output["partition"])
 
             assert flag == FLAG_WORKER_FINISHED_PROCESSING
+        # Workers might be threads, close queues only when they don't need them.
+        for q in self.q_in:
+            q.close()
         self.q_out.close()
 
         for p in self.partitions:
-- 
2.43.0


From d982525df4842a6ef23a4d668c4e3793c084cbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:56:15 +0000
Subject: [PATCH 36/65] fix: return neighbors of every requested edge type

When a node has edges of types 0 and 2 and types 1 and 2 are requested, the
search skipped over type 2 and its edges were never returned.
---
 src/cc/lib/graph/partition.cc | 45 +++++------------------------------
 1 file changed, 6 insertions(+), 39 deletions(-)

diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index e8da9aa..d24025e 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -675,13 +675,6 @@ size_t NeighborIndexIterator(uint64_t internal_id, std::optional<Timestamp> node
         {
             break;
         }
-        for (; i < offset + nb_count && edge_types[curr_type] > m_edge_types[i]; ++i)
-        {
-        }
-        if (i == offset + nb_count)
-        {
-            break;
-        }
         // Find satisfying edge type, if exists
         if (m_edge_types[i] == edge_types[curr_type])
         {
@@ -1140,14 +1133,6 @@ void Partition::SampleNeighbor(bool return_edge_created_ts, int64_t seed, uint64
         {
             break;
         }
-        for (; i < last_type && in_edge_types[curr_type] > m_edge_types[i]; ++i)
-        {
-        }
-        if (i == last_type)
-        {
-            break;
-        }
-
         if (m_edge_types[i] == in_edge_types[curr_type])
         {
             auto lst = m_edge_type_offset[i + 1];
@@ -1223,14 +1208,6 @@ void Partition::SampleNeighbor(bool return_edge_created_ts, int64_t seed, uint64
             break;
         }
 
-        for (; i < last_type && in_edge_types[curr_type] > m_edge_types[i]; ++i)
-        {
-        }
-        if (i == last_type)
-        {
-            break;
-        }
-
         if (total_weight == 0 || left_over_neighbors == 0)
         {
             break;
@@ -1369,11 +1346,10 @@ void Partition::UniformSampleNeighbor(bool without_replacement, bool return_edge
     }
 }
 
-// Advance neighbor_type_index(for edges coming out of the current node) and in_edge_type_index(requested edge
-// types) until underlying types match.
-bool advance_edge_types(size_t &in_edge_type_index, size_t &neighbor_type_index,
-                        const std::span<const Type> &in_edge_types, const std::vector<Type> &neighbor_types,
-                        size_t last_type)
+// Advance in_edge_type_index(requested edge types) until it reaches the type at neighbor_type_index(for edges coming out
+// of the current node). Returns true if types match.
+bool advance_edge_types(size_t &in_edge_type_index, size_t neighbor_type_index,
+                        const std::span<const Type> &in_edge_types, const std::vector<Type> &neighbor_types)
 {
     for (; in_edge_type_index < in_edge_types.size() &&
            in_edge_types[in_edge_type_index] < neighbor_types[neighbor_type_index];
@@ -1384,15 +1360,6 @@ bool advance_edge_types(size_t &in_edge_type_index, size_t &neighbor_type_index,
     {
         return false;
     }
-    for (; neighbor_type_index < last_type && in_edge_types[in_edge_type_index] > neighbor_types[neighbor_type_index];
-         ++neighbor_type_index)
-    {
-    }
-    if (neighbor_type_index >= last_type)
-    {
-        return false;
-    }
-
     return neighbor_types[neighbor_type_index] == in_edge_types[in_edge_type_index];
 }
 
@@ -1411,7 +1378,7 @@ void Partition::UniformSampleNeighborWithReplacement(bool return_edge_created_ts
     const auto last_type = offset + nb_count;
     for (size_t neighbor_type_index = offset; neighbor_type_index < last_type; ++neighbor_type_index)
     {
-        if (!advance_edge_types(in_edge_type_index, neighbor_type_index, in_edge_types, m_edge_types, last_type))
+        if (!advance_edge_types(in_edge_type_index, neighbor_type_index, in_edge_types, m_edge_types))
         {
             continue;
         }
@@ -1492,7 +1459,7 @@ void Partition::UniformSampleNeighborWithoutReplacement(bool return_edge_created
 
     for (size_t i = offset; i < last_type; ++i)
     {
-        if (!advance_edge_types(curr_type, i, in_edge_types, m_edge_types, last_type))
+        if (!advance_edge_types(curr_type, i, in_edge_types, m_edge_types))
         {
             continue;
         }
-- 
2.43.0


From ccc8a871fedb2a1e38fc38c413a611d7a5c8b4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:57:09 +0000
Subject: [PATCH 37/65] fix: look up nodes in the right file when a partition
 has several

The position of a partition in the list of paths was stored as the position of
the loaded file, so nodes from the second file of a partition were read from
another one.
---
 src/cc/lib/graph/graph.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc/lib/graph/graph.cc b/src/cc/lib/graph/graph.cc
index 95de988..8da0161 100644
--- a/src/cc/lib/graph/graph.cc
+++ b/src/cc/lib/graph/graph.cc
@@ -96,7 +96,7 @@ Graph::Graph(Metadata metadata, std::vector<std::string> paths, std::vector<uint
         for (size_t i = 0; i < suffixes.size(); ++i)
         {
             m_partitions.emplace_back(m_metadata, paths[partition_index], suffixes[i], storage_type);
-            ReadNodeMap(paths[partition_index], suffixes[i], partition_index);
+            ReadNodeMap(paths[partition_index], suffixes[i], m_partitions.size() - 1);
         }
     }
 }
-- 
2.43.0


From 095d63477c1ce1b0c1cc1d5aa37e15715790b526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:59:17 +0000
Subject: [PATCH 38/65] fix: count and sample temporal edges by their own
 interval

Binary search over removal times assumed that edges are ordered by them, but
they are stored in the order of creation. Timestamps above 2^31 were truncated
as well.
---
 src/cc/lib/graph/partition.cc | 37 ++++++++++++-----------------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index d24025e..8d7c0f1 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -691,37 +691,24 @@ size_t NeighborIndexIterator(uint64_t internal_id, std::optional<Timestamp> node
 namespace
 {
 
-auto find_start(const std::span<const std::pair<Timestamp, Timestamp>> &range, Timestamp ts)
-{
-    if (range.empty())
-    {
-        return std::end(range);
-    }
-
-    if (range.front().first <= ts && (range.front().second > ts || range.front().second == -1))
-    {
-        return std::begin(range);
-    }
+using cspan_it = std::span<const std::pair<Timestamp, Timestamp>>::iterator;
 
-    ts = std::max(ts, range.front().second);
-    return std::lower_bound(
-        std::begin(range), std::end(range), ts,
-        [](const std::pair<Timestamp, Timestamp> &a, int x) { return a.second != -1 && a.second <= x; });
+// An edge exists in the interval [created, removed), -1 is used for edges that were not removed.
+bool is_visible(const std::pair<Timestamp, Timestamp> &interval, Timestamp ts)
+{
+    return interval.first <= ts && (interval.second > ts || interval.second == -1);
 }
 
-using cspan_it = std::span<const std::pair<Timestamp, Timestamp>>::iterator;
+// Find first edge visible at a timestamp. Edges are not sorted by removal time, so we can't use binary search.
+cspan_it find_start(const std::span<const std::pair<Timestamp, Timestamp>> &range, Timestamp ts)
+{
+    return std::find_if(std::begin(range), std::end(range), [ts](const auto &a) { return is_visible(a, ts); });
+}
 
+// Find end of a continuous sequence of visible edges.
 cspan_it find_last(const std::span<const std::pair<Timestamp, Timestamp>> &range, Timestamp ts)
 {
-    if (range.front().first > ts)
-    {
-        return std::begin(range);
-    }
-
-    auto last = range.front().second;
-    return std::upper_bound(
-        std::begin(range), std::end(range), ts,
-        [last](Timestamp ts, const std::pair<Timestamp, Timestamp> &a) { return a.second > last || a.first > ts; });
+    return std::find_if_not(std::begin(range), std::end(range), [ts](const auto &a) { return is_visible(a, ts); });
 }
 
 } // anonymous namespace
-- 
2.43.0


From 07db9c0c4404185661248bfddf897839c72e933e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:01:44 +0000
Subject: [PATCH 39/65] fix: do not return edges removed at the requested time
 among the last created

Edges exist in the interval [created, removed), as in the other queries.
---
 src/cc/lib/graph/partition.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index 8d7c0f1..3218015 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -821,7 +821,7 @@ size_t Partition::LastNCreatedNeighbors(bool return_edge_created_ts, uint64_t in
         for (size_t index = start; index < last; ++index)
         {
             auto &ts = m_edge_timestamps[index];
-            if ((ts.second != -1 && ts.second < timestamp) || ts.first > timestamp)
+            if (!is_visible(ts, timestamp))
             {
                 continue;
             }
-- 
2.43.0


From 7cf8ebe7f12f21f0ca777dc6d847973f200fcfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:08:21 +0000
Subject: [PATCH 40/65] fix: fill creation times of sampled neighbors when no
 time is requested

The output was left uninitialised for nodes of a temporal graph.
---
 src/cc/lib/graph/graph.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cc/lib/graph/graph.cc b/src/cc/lib/graph/graph.cc
index 8da0161..2f8c60d 100644
--- a/src/cc/lib/graph/graph.cc
+++ b/src/cc/lib/graph/graph.cc
@@ -432,7 +432,8 @@ void Graph::SampleNeighbor(bool return_edge_created_ts, int64_t seed, std::span<
                            std::span<Timestamp> output_edge_created_ts, NodeId default_node_id, float default_weight,
                            Type default_edge_type) const
 {
-    const auto fill_edge_ts_by_partition = return_edge_created_ts && m_metadata.m_watermark >= 0;
+    const auto fill_edge_ts_by_partition =
+        return_edge_created_ts && m_metadata.m_watermark >= 0 && !timestamps.empty();
     if (!check_sorted_unique_types(input_edge_types.data(), input_edge_types.size()))
     {
         std::sort(std::begin(input_edge_types), std::end(input_edge_types));
@@ -484,7 +485,8 @@ void Graph::UniformSampleNeighbor(bool without_replacement, bool return_edge_cre
                                   std::span<Timestamp> output_edge_created_ts, NodeId default_node_id,
                                   Type default_edge_type) const
 {
-    const auto fill_edge_ts_by_partition = return_edge_created_ts && m_metadata.m_watermark >= 0;
+    const auto fill_edge_ts_by_partition =
+        return_edge_created_ts && m_metadata.m_watermark >= 0 && !timestamps.empty();
     snark::Xoroshiro128PlusGenerator gen(seed);
     if (!check_sorted_unique_types(input_edge_types.data(), input_edge_types.size()))
     {
-- 
2.43.0


From 2d1c4147ebc80d0d4bee287448abd354c8956c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:12:06 +0000
Subject: [PATCH 41/65] fix: do not write past the output when sampling from
 more neighbors than requested

Creation times were filled from the number of neighbors to the end even if there are more neighbors than samples.
---
 src/cc/lib/graph/graph.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/cc/lib/graph/graph.cc b/src/cc/lib/graph/graph.cc
index 2f8c60d..a27da9f 100644
--- a/src/cc/lib/graph/graph.cc
+++ b/src/cc/lib/graph/graph.cc
@@ -536,12 +536,11 @@ void Graph::UniformSampleNeighbor(bool without_replacement, bool return_edge_cre
                           default_node_id);
                 std::fill(std::begin(out_nb_types) + neighbors_total_count[node_index], std::end(out_nb_types),
                           default_edge_type);
-            }
-
-            if (fill_edge_ts_by_partition)
-            {
-                std::fill(std::begin(out_nb_ts) + (timestamps.empty() ? 0 : neighbors_total_count[node_index]),
-                          std::end(out_nb_ts), snark::PLACEHOLDER_TIMESTAMP);
+                if (fill_edge_ts_by_partition)
+                {
+                    std::fill(std::begin(out_nb_ts) + neighbors_total_count[node_index], std::end(out_nb_ts),
+                              snark::PLACEHOLDER_TIMESTAMP);
+                }
             }
         }
     }
-- 
2.43.0


From 83b825f64bd92680120ba37752897c0b1131ece5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:14:41 +0000
Subject: [PATCH 42/65] fix: sample from every interval of visible edges
 without replacement

Positions of the second and later intervals were counted from the start of the node's edges, so that edges were repeated or not existing at the requested time.
---
 src/cc/lib/graph/partition.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index 3218015..ce1717a 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -1488,6 +1488,7 @@ void Partition::UniformSampleNeighborWithoutReplacement(bool return_edge_created
                 }
                 const auto local_pos =
                     size_t((lst - std::begin(it_subspan)) + it_dist); // equivavlent of lst - std::begin(timestamp_span)
+                first += local_pos;
                 timestamp_span = timestamp_span.subspan(local_pos);
             }
         }
-- 
2.43.0


From df2fa88176229e6598ff17347b27e6ad148ca574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:26:39 +0000
Subject: [PATCH 43/65] fix: read features into memory in optimized builds

The file was read inside of an assert, so features loaded with NDEBUG were always zero.
---
 src/cc/lib/graph/storage.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cc/lib/graph/storage.h b/src/cc/lib/graph/storage.h
index 2699159..3676d8c 100644
--- a/src/cc/lib/graph/storage.h
+++ b/src/cc/lib/graph/storage.h
@@ -85,7 +85,10 @@ template <typename T> struct MemoryStorage : BaseStorage<T>
         m_data.resize(size);
 
         snark::platform_fseek(file_ptr, 0L, SEEK_SET);
-        assert(size == fread(m_data.data(), 1, size, file_ptr) && "Failed to read node features data");
+        if (m_data.size() != fread(m_data.data(), 1, m_data.size(), file_ptr))
+        {
+            m_logger->log_fatal("Failed to read features data");
+        }
 
         fclose(file_ptr);
     }
-- 
2.43.0


From 2d891d06944fffdc02e300753ed0fecff6cdf167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:28:09 +0000
Subject: [PATCH 44/65] fix: return no string features for edges of graphs
 without edge features

---
 src/cc/lib/graph/partition.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index ce1717a..9fbf6f9 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -1033,7 +1033,7 @@ void Partition::GetEdgeStringFeature(uint64_t internal_src_node_id, NodeId input
 
     auto file_ptr = m_edge_features->start();
     auto has_edge_features = EdgeFeatureOffset(internal_src_node_id, input_edge_dst, input_edge_type);
-    if (!has_edge_features.has_value())
+    if (!has_edge_features.has_value() || m_edge_feature_offset.empty() || m_edge_feature_index.empty())
     {
         return;
     }
-- 
2.43.0


From 19bad1e6a5ee68b429b3375ce932c059366a3ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:29:27 +0000
Subject: [PATCH 45/65] fix: read empty features stored at the end of a file on
 disk

---
 src/cc/lib/graph/storage.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cc/lib/graph/storage.h b/src/cc/lib/graph/storage.h
index 3676d8c..f2ab15c 100644
--- a/src/cc/lib/graph/storage.h
+++ b/src/cc/lib/graph/storage.h
@@ -319,6 +319,9 @@ template <typename T> struct DiskStorage final : BaseStorage<T>
             throw std::out_of_range("File not open!");
         if (feof(file_ptr))
             throw std::out_of_range("File closed unexpectedly!");
+        // Empty features might be located at the end of a file.
+        if (size == 0)
+            return output_ptr;
         if (offset >= m_size)
             throw std::out_of_range("Offset out of range!");
 
-- 
2.43.0


From 73b1ebe365ad50f8c04a7e6c64e5bda2bebf2492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:33:29 +0000
Subject: [PATCH 46/65] fix: do not read headers of missing temporal features

A missing feature takes no space, its header was read from the next feature or past the end.
---
 src/cc/lib/graph/partition.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index 9fbf6f9..adf65dd 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -35,6 +35,12 @@ std::tuple<uint64_t, uint64_t, Timestamp> deserialize_temporal_feature(uint64_t
                                                                        std::shared_ptr<snark::FilePtr> file_ptr,
                                                                        Timestamp timestamp)
 {
+    // Missing features don't have a header.
+    if (stored_size == 0)
+    {
+        return std::make_tuple(initial_offset, 0, -1);
+    }
+
     uint32_t timestamps_size = 0;
     auto timestamps_size_output = std::span(reinterpret_cast<uint8_t *>(&timestamps_size), 4);
     storage->read(initial_offset, timestamps_size_output.size(), std::begin(timestamps_size_output), file_ptr);
-- 
2.43.0


From 06f43b8f367b8d93538fb6c0c77b1d75646a8c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:34:57 +0000
Subject: [PATCH 47/65] fix: replace all values of an outdated sparse feature
 from another partition

---
 src/cc/lib/graph/partition.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index adf65dd..5cd85b0 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -577,8 +577,12 @@ void Partition::GetNodeSparseFeature(uint64_t internal_node_id, std::optional<Ti
         // Overwrite old string features.
         if (feature_flags[feature_index] >= 0)
         {
-            const auto new_indices_size = out_indices[feature_index].size() - out_dimensions[feature_index] - 1;
-            out_indices[feature_index].resize(new_indices_size);
+            auto &indices = out_indices[feature_index];
+            const auto row_size = size_t(out_dimensions[feature_index] + 1);
+            while (indices.size() >= row_size && indices[indices.size() - row_size] == prefix)
+            {
+                indices.resize(indices.size() - row_size);
+            }
             const auto new_values_size = out_values[feature_index].size() - values_sizes[feature_index];
             out_values[feature_index].resize(new_values_size);
         }
-- 
2.43.0


From a30f6672e7a9ffad8157947c0f3abc922a018db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:11:21 +0000
Subject: [PATCH 48/65] fix: create a sampler without elements instead of
 reading past its empty totals

---
 src/cc/lib/graph/sampler.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cc/lib/graph/sampler.cc b/src/cc/lib/graph/sampler.cc
index 6fb1904..05aec37 100644
--- a/src/cc/lib/graph/sampler.cc
+++ b/src/cc/lib/graph/sampler.cc
@@ -32,6 +32,11 @@ SamplerImpl<Partition, element>::SamplerImpl(std::vector<snark::Type> types,
                                              std::vector<std::shared_ptr<std::vector<Partition>>> partitions)
     : m_types(std::move(types)), m_partitions(std::move(partitions)), m_total_weight(0)
 {
+    if (m_partitions.empty())
+    {
+        return;
+    }
+
     for (auto &tp : m_partitions)
     {
         float total_weight = 0;
-- 
2.43.0


From 3c2c35ba7033df61187fd33013a019c64d3a127f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:11:21 +0000
Subject: [PATCH 49/65] fix: keep sampling without replacement inside the
 output when a type or partition is topped up

---
 src/cc/lib/graph/sampler.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cc/lib/graph/sampler.cc b/src/cc/lib/graph/sampler.cc
index 05aec37..4447e21 100644
--- a/src/cc/lib/graph/sampler.cc
+++ b/src/cc/lib/graph/sampler.cc
@@ -106,7 +106,7 @@ void SamplerImpl<Partition, element>::Sample(int64_t seed, std::span<Type> out_t
             // Make sure we don't sample too little.
             if (left - type_count > m_type_min[i])
             {
-                type_count = m_type_max[i];
+                type_count = std::min(m_type_max[i], left - m_type_min[i]);
             }
         }
 
@@ -126,7 +126,7 @@ void SamplerImpl<Partition, element>::Sample(int64_t seed, std::span<Type> out_t
                 // Make sure we don't sample too little and handle larger than sample size output buffer.
                 if (left_items - item_count > m_partition_min[i][p])
                 {
-                    item_count = m_partition_max[i][p];
+                    item_count = std::min(m_partition_max[i][p], left_items - m_partition_min[i][p]);
                 }
             }
 
-- 
2.43.0


From 0fd553674bf9ec91cb535c7f68471279affcedbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:11:21 +0000
Subject: [PATCH 50/65] fix: read edge alias tables from the folder of their
 partition

---
 src/cc/lib/graph/sampler.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cc/lib/graph/sampler.cc b/src/cc/lib/graph/sampler.cc
index 4447e21..c9a8165 100644
--- a/src/cc/lib/graph/sampler.cc
+++ b/src/cc/lib/graph/sampler.cc
@@ -368,10 +368,10 @@ WeightedEdgeSamplerPartition::WeightedEdgeSamplerPartition(Metadata meta, Type t
         logger = std::make_shared<snark::GLogger>();
     }
     std::shared_ptr<BaseStorage<uint8_t>> edge_weights;
-    if (!is_hdfs_path(meta.m_path))
+    if (!is_hdfs_path(partition_path))
     {
         edge_weights =
-            std::make_shared<DiskStorage<uint8_t>>(meta.m_path, partition_index, tp, open_edge_alias, logger);
+            std::make_shared<DiskStorage<uint8_t>>(partition_path, partition_index, tp, open_edge_alias, logger);
     }
     else
     {
-- 
2.43.0


From a89b602021dcb79ff87d915de72b8ecfb7577332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:45 +0000
Subject: [PATCH 51/65] fix: point nodes of later files of a partition to their
 own file on servers

---
 src/cc/lib/distributed/graph_engine.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc/lib/distributed/graph_engine.cc b/src/cc/lib/distributed/graph_engine.cc
index dd75504..9d8b5ce 100644
--- a/src/cc/lib/distributed/graph_engine.cc
+++ b/src/cc/lib/distributed/graph_engine.cc
@@ -86,7 +86,7 @@ GraphEngineServiceImpl::GraphEngineServiceImpl(snark::Metadata metadata, std::ve
         for (size_t i = 0; i < suffixes.size(); ++i)
         {
             m_partitions.emplace_back(m_metadata, paths[partition_index], suffixes[i], storage_type);
-            ReadNodeMap(paths[partition_index], suffixes[i], partition_index);
+            ReadNodeMap(paths[partition_index], suffixes[i], m_partitions.size() - 1);
         }
     }
 }
-- 
2.43.0


From 349d12b63bda06ca0a45ee22de65c52acb822113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:45 +0000
Subject: [PATCH 52/65] fix: return the latest sparse feature when several
 servers have one

---
 src/cc/lib/graph/merger.h | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/cc/lib/graph/merger.h b/src/cc/lib/graph/merger.h
index 08661a0..ac1cd54 100644
--- a/src/cc/lib/graph/merger.h
+++ b/src/cc/lib/graph/merger.h
@@ -114,17 +114,21 @@ void UpdateSparseFeatureIndex(SparseFeaturesReply &reply, std::vector<snark::Spa
         {
             const auto item_index = reply.indices(node_offset);
             auto &response_index_item = response_index[item_index * feature_count + feature_index];
-            if (reply.timestamps(item_index * feature_count + feature_index) <= response_index_item.timestamp ||
-                (response_index_item.shard >= 0 && response_index_item.shard != int(shard)))
+            const auto ts = reply.timestamps(item_index * feature_count + feature_index);
+            if (response_index_item.shard != int(shard))
             {
-                continue;
-            }
+                // pick latest value across all shards.
+                if (ts <= response_index_item.timestamp)
+                {
+                    continue;
+                }
 
-            if (response_index_item.index_count == 0)
-            {
-                response_index_item.shard = shard;
-                response_index_item.index_offset = node_offset;
-                response_index_item.value_offset = value_offset;
+                response_index_item = snark::SparseFeatureIndex{.shard = int(shard),
+                                                                .index_offset = int(node_offset),
+                                                                .index_count = 0,
+                                                                .value_offset = int(value_offset),
+                                                                .value_count = 0,
+                                                                .timestamp = ts};
             }
             response_index_item.index_count += feature_dim;
             response_index_item.value_count += value_increment;
-- 
2.43.0


From 94dbf35a1290795b2189fa8ddd7dd7a2d4a2bdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:45 +0000
Subject: [PATCH 53/65] fix: match timestamps of string features with their
 features in replies of servers

---
 src/cc/lib/distributed/graph_engine.cc | 16 ++++++----------
 src/cc/lib/graph/merger.h              |  4 +---
 2 files changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/cc/lib/distributed/graph_engine.cc b/src/cc/lib/distributed/graph_engine.cc
index 9d8b5ce..8e12cb3 100644
--- a/src/cc/lib/distributed/graph_engine.cc
+++ b/src/cc/lib/distributed/graph_engine.cc
@@ -335,6 +335,7 @@ grpc::Status GraphEngineServiceImpl::GetNodeStringFeatures(::grpc::ServerContext
     auto *reply_dimensions = response->mutable_dimensions();
 
     reply_dimensions->Resize(int(features_size * nodes_size), 0);
+    response->mutable_timestamps()->Resize(int(features_size * nodes_size), -1);
     auto dimensions = std::span(reply_dimensions->mutable_data(), reply_dimensions->size());
     std::vector<uint8_t> values;
     absl::InlinedVector<Timestamp, 1024> feature_flags(features.size());
@@ -361,11 +362,8 @@ grpc::Status GraphEngineServiceImpl::GetNodeStringFeatures(::grpc::ServerContext
                 features, std::span(feature_flags), dims_span, values);
         }
 
-        if (std::any_of(std::begin(feature_flags), std::end(feature_flags),
-                        [](snark::Timestamp ts) { return ts >= 0; }))
-        {
-            response->mutable_timestamps()->Add(std::begin(feature_flags), std::end(feature_flags));
-        }
+        std::copy(std::begin(feature_flags), std::end(feature_flags),
+                  response->mutable_timestamps()->begin() + features_size * node_offset);
     }
 
     response->mutable_values()->append(std::begin(values), std::end(values));
@@ -385,6 +383,7 @@ grpc::Status GraphEngineServiceImpl::GetEdgeStringFeatures(::grpc::ServerContext
     const auto features_size = features.size();
     auto *reply_dimensions = response->mutable_dimensions();
     reply_dimensions->Resize(int(features_size * len), 0);
+    response->mutable_timestamps()->Resize(int(features_size * len), -1);
     auto dimensions = std::span(reply_dimensions->mutable_data(), reply_dimensions->size());
     std::vector<uint8_t> values;
     absl::InlinedVector<Timestamp, 1024> feature_flags(features.size());
@@ -409,11 +408,8 @@ grpc::Status GraphEngineServiceImpl::GetEdgeStringFeatures(::grpc::ServerContext
                 features, std::span(feature_flags), dimensions.subspan(features_size * edge_offset, features_size),
                 values);
         }
-        if (std::any_of(std::begin(feature_flags), std::end(feature_flags),
-                        [](snark::Timestamp ts) { return ts >= 0; }))
-        {
-            response->mutable_timestamps()->Add(std::begin(feature_flags), std::end(feature_flags));
-        }
+        std::copy(std::begin(feature_flags), std::end(feature_flags),
+                  response->mutable_timestamps()->begin() + features_size * edge_offset);
     }
 
     response->mutable_values()->append(std::begin(values), std::end(values));
diff --git a/src/cc/lib/graph/merger.h b/src/cc/lib/graph/merger.h
index ac1cd54..c992e9f 100644
--- a/src/cc/lib/graph/merger.h
+++ b/src/cc/lib/graph/merger.h
@@ -147,7 +147,6 @@ void UpdateStringFeatureIndex(StringFeaturesReply &reply, std::mutex &mtx,
     }
 
     int64_t value_offset = 0;
-    int64_t ts_index = 0;
     for (int64_t feature_index = 0; feature_index < reply.dimensions().size(); ++feature_index)
     {
         const auto dim = reply.dimensions(feature_index);
@@ -157,8 +156,7 @@ void UpdateStringFeatureIndex(StringFeaturesReply &reply, std::mutex &mtx,
         }
 
         std::lock_guard lock(mtx);
-        const auto ts = reply.timestamps(ts_index);
-        ++ts_index;
+        const auto ts = reply.timestamps(feature_index);
         if (std::get<2>(response_index[feature_index]) <= ts)
         {
             response_index[feature_index] = {shard, value_offset, ts};
-- 
2.43.0


From 9663a8bf026921d79564104e3c6656a138037a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:45 +0000
Subject: [PATCH 54/65] fix: count merged neighbors when sampling without
 replacement from several servers

---
 src/cc/lib/graph/reservoir.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cc/lib/graph/reservoir.cc b/src/cc/lib/graph/reservoir.cc
index 6ceaa32..d8751c3 100644
--- a/src/cc/lib/graph/reservoir.cc
+++ b/src/cc/lib/graph/reservoir.cc
@@ -137,7 +137,7 @@ void WithoutReplacementMerge::add(size_t n, std::function<void(size_t, size_t)>
     }
 
     // Randomly shuffle the indices of the left and right reservoirs to determine final indices.
-    size_t left_size = m_seen;
+    size_t left_size = std::min(m_seen, m_k);
     size_t right_size = std::min(n, m_k);
     std::vector<size_t> left_indices(left_size);
     std::vector<size_t> right_indices(right_size);
@@ -169,6 +169,7 @@ void WithoutReplacementMerge::add(size_t n, std::function<void(size_t, size_t)>
             ++right_index;
         }
     }
+    m_seen += n;
 }
 
 void WithoutReplacementMerge::reset()
-- 
2.43.0


From 2b54ca59e587e0a7e0e9c9f19097f2e30aec6496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:45 +0000
Subject: [PATCH 55/65] fix: do not ask servers for more elements than they
 have when sampling without replacement

---
 src/cc/lib/distributed/client.cc | 40 ++++++++++++++++++++++++++++++--
 src/cc/lib/distributed/client.h  |  1 +
 2 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/src/cc/lib/distributed/client.cc b/src/cc/lib/distributed/client.cc
index 0299b09..62965dc 100644
--- a/src/cc/lib/distributed/client.cc
+++ b/src/cc/lib/distributed/client.cc
@@ -54,6 +54,30 @@ void WaitForFutures(std::vector<std::future<void>> &futures)
     }
 }
 
+// Decide how many of the `left` samples should come from a shard. Limits are not empty only for sampling
+// without replacement and store number of elements in each shard.
+size_t ShardSampleCount(size_t left, float weight, std::span<const size_t> limits, size_t shard,
+                        snark::Xoroshiro128PlusGenerator &gen)
+{
+    size_t count = boost::random::binomial_distribution<int32_t>(left, weight)(gen);
+    if (limits.empty())
+    {
+        return count;
+    }
+
+    // We can't subsample more elements than a shard has.
+    count = std::min(count, limits[shard]);
+
+    // Make sure we don't sample too little.
+    const auto rest = std::accumulate(std::begin(limits) + shard + 1, std::end(limits), size_t(0));
+    if (left - count > rest)
+    {
+        count = std::min(limits[shard], left - rest);
+    }
+
+    return count;
+}
+
 template <typename SparseRequest, typename NextCompletionQueue>
 void GetSparseFeature(const SparseRequest &request,
                       std::vector<std::unique_ptr<snark::GraphEngine::Stub>> &engine_stubs, size_t input_size,
@@ -916,12 +940,20 @@ uint64_t GRPCClient::CreateSampler(bool is_edge, CreateSamplerRequest_Category c
 
     WaitForFutures(futures);
 
+    // Weight of a sampler without replacement is the number of elements it can return.
+    std::vector<size_t> sub_sampler_limits;
+    if (category == CreateSamplerRequest_Category_UNIFORM_WITHOUT_REPLACEMENT)
+    {
+        sub_sampler_limits.assign(std::begin(sub_sampler_weights), std::end(sub_sampler_weights));
+    }
+
     // Adjust weights for future sampling.
     conditional_probabilities(sub_sampler_weights);
     std::lock_guard l(m_sampler_mutex);
     uint64_t sampler_id = m_sampler_ids.size();
     m_sampler_ids.emplace_back(std::move(sub_sampler_ids));
     m_sampler_weights.emplace_back(std::move(sub_sampler_weights));
+    m_sampler_limits.emplace_back(std::move(sub_sampler_limits));
     return sampler_id;
 }
 
@@ -935,10 +967,12 @@ void GRPCClient::SampleNodes(int64_t seed, uint64_t sampler_id, std::span<NodeId
     std::vector<SampleReply> replies(m_sampler_stubs.size());
 
     std::span<const float> weights;
+    std::span<const size_t> limits;
     std::span<const uint64_t> sampler_ids;
     {
         std::lock_guard l(m_sampler_mutex);
         weights = std::span(m_sampler_weights[sampler_id].data(), m_sampler_stubs.size());
+        limits = m_sampler_limits[sampler_id];
 
         sampler_ids = std::span(m_sampler_ids[sampler_id].data(), m_sampler_stubs.size());
     }
@@ -956,7 +990,7 @@ void GRPCClient::SampleNodes(int64_t seed, uint64_t sampler_id, std::span<NodeId
         }
 
         auto *call = new AsyncClientCall();
-        const size_t element_count = boost::random::binomial_distribution<int32_t>(left, weights[shard])(gen);
+        const size_t element_count = ShardSampleCount(left, weights[shard], limits, shard, gen);
         left -= element_count;
 
         request.set_seed(subseed(gen));
@@ -990,10 +1024,12 @@ void GRPCClient::SampleEdges(int64_t seed, uint64_t sampler_id, std::span<NodeId
     std::vector<SampleReply> replies(m_sampler_stubs.size());
 
     std::span<const float> weights;
+    std::span<const size_t> limits;
     std::span<const uint64_t> sampler_ids;
     {
         std::lock_guard l(m_sampler_mutex);
         weights = std::span(m_sampler_weights[sampler_id].data(), m_sampler_stubs.size());
+        limits = m_sampler_limits[sampler_id];
         sampler_ids = std::span(m_sampler_ids[sampler_id].data(), m_sampler_stubs.size());
     }
 
@@ -1005,7 +1041,7 @@ void GRPCClient::SampleEdges(int64_t seed, uint64_t sampler_id, std::span<NodeId
     for (size_t shard = 0; shard < m_sampler_stubs.size() && left > 0; ++shard)
     {
         auto *call = new AsyncClientCall();
-        const size_t shard_count = boost::random::binomial_distribution<int32_t>(left, weights[shard])(gen);
+        const size_t shard_count = ShardSampleCount(left, weights[shard], limits, shard, gen);
         left -= shard_count;
 
         request.set_seed(subseed(gen));
diff --git a/src/cc/lib/distributed/client.h b/src/cc/lib/distributed/client.h
index 3000450..e80a39e 100644
--- a/src/cc/lib/distributed/client.h
+++ b/src/cc/lib/distributed/client.h
@@ -96,6 +96,7 @@ class GRPCClient final
     std::mutex m_sampler_mutex;
     std::vector<std::vector<uint64_t>> m_sampler_ids;
     std::vector<std::vector<float>> m_sampler_weights;
+    std::vector<std::vector<size_t>> m_sampler_limits;
 
     std::function<void()> AsyncCompleteRpc(size_t i);
     grpc::CompletionQueue *NextCompletionQueue();
-- 
2.43.0


From 1bf48704b19e89cadc863bbd8e06042fecb75d33 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Mon, 16 Nov 2026 00:49:35 +0000
Subject: [PATCH 56/65] fix: random walks keep edges back to the previous node

---
 src/cc/lib/py_graph.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/cc/lib/py_graph.cc b/src/cc/lib/py_graph.cc
index d92d181..f295b47 100644
--- a/src/cc/lib/py_graph.cc
+++ b/src/cc/lib/py_graph.cc
@@ -951,10 +951,14 @@ int32_t RandomWalk(PyGraph *py_graph, int64_t seed, float p, float q, NodeID def
             {
                 const auto node = neighbors[nb_offset];
                 const auto weight = weights[nb_offset];
-                // Skip parent node, because it was added above.
-                if (node == past_nodes[index])
+                // First step: there is no parent yet, so a self loop is the same as any other edge.
+                if (node == past_nodes[index] && curr_step > 0)
                 {
-                    continue;
+                    // Skip parent node if it was added above.
+                    if (parent == std::end(t_nbs[index]))
+                    {
+                        transition_node_prob.emplace_back(node, weight / p);
+                    }
                 }
 
                 // Found current neighbor in parents neighbors.
-- 
2.43.0


From 055141d26a86f850fa5f094ea3ade634f36e62f7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Mon, 16 Nov 2026 00:49:35 +0000
Subject: [PATCH 57/65] fix: look up PPR neighbour counts at the time of each
 node

---
 src/cc/lib/py_graph.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cc/lib/py_graph.cc b/src/cc/lib/py_graph.cc
index f295b47..3341ba8 100644
--- a/src/cc/lib/py_graph.cc
+++ b/src/cc/lib/py_graph.cc
@@ -1149,11 +1149,17 @@ void lookup_neighbor_lists(PyGraph *py_graph, NB_Count_Cache &cache,
     cache.node_ids.clear();
     cache.nb_ids.clear();
     cache.nb_ids.reserve(input.size());
+    cache.timestamps.clear();
     for (const auto &nt : input)
     {
         cache.nb_ids.emplace_back(nt.first);
+        if (timestamps != nullptr)
+        {
+            cache.timestamps.emplace_back(nt.second);
+        }
     }
 
+    mutable_timestamps = timestamps == nullptr ? nullptr : cache.timestamps.data();
     lookup_neighbor_counts(py_graph, cache, cache.nb_ids, in_edge_types, in_edge_types_size, mutable_timestamps);
     cache.timestamps.clear();
     cache.nb_types.clear();
-- 
2.43.0


From 2c022f50947cad1b3a21404d0d2db5f6cada1393 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Mon, 16 Nov 2026 00:50:40 +0000
Subject: [PATCH 58/65] fix: return nothing from PPR sampling when no neighbors
 are asked for

---
 src/cc/lib/py_graph.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc/lib/py_graph.cc b/src/cc/lib/py_graph.cc
index 3341ba8..093d4a3 100644
--- a/src/cc/lib/py_graph.cc
+++ b/src/cc/lib/py_graph.cc
@@ -1263,7 +1263,7 @@ int32_t PPRSampleNeighbor(PyGraph *py_graph, NodeID *in_node_ids, size_t in_node
             {
                 pq.emplace(kv.second, kv.first);
             }
-            else
+            else if (count > 0)
             {
                 const auto &top = pq.top();
                 if (top.first > kv.second)
-- 
2.43.0


From 8bab1016cff2dabfc30f7774001fddbb57a425a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:18 +0000
Subject: [PATCH 59/65] fix: keep string features in order when several
 partitions store them

---
 src/cc/lib/graph/partition.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index 5cd85b0..4305c92 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -5,6 +5,7 @@
 #include <cstdio>
 #include <cstring>
 #include <limits>
+#include <numeric>
 #include <queue>
 #include <span>
 #include <string>
@@ -646,16 +647,24 @@ void Partition::GetNodeStringFeature(uint64_t internal_node_id, std::optional<Ti
             continue;
         }
 
+        // Other partitions might have already written values of the following features.
+        const auto next_size = std::accumulate(std::begin(out_dimensions) + feature_index + 1,
+                                               std::end(out_dimensions), int64_t(0));
+
         // Overwrite old string features.
         if (feature_flags[feature_index] >= 0)
         {
-            const auto new_size = out_values.size() - out_dimensions[feature_index];
-            out_values.resize(new_size);
+            const auto old_last = std::end(out_values) - next_size;
+            out_values.erase(old_last - out_dimensions[feature_index], old_last);
         }
 
         feature_flags[feature_index] = feature_ts;
         deserialize_string_features(data_offset, stored_size, m_node_features, file_ptr, out_dimensions[feature_index],
                                     out_values);
+
+        // Keep values in the order of features.
+        const auto new_first = std::end(out_values) - out_dimensions[feature_index];
+        std::rotate(new_first - next_size, new_first, std::end(out_values));
     }
 }
 
-- 
2.43.0


From 018874e9e4d60a82574793b0586716052a103b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:40 +0000
Subject: [PATCH 60/65] fix: order checkpoints by their numbers

Checkpoint names were compared as text. Epoch 1000 was older than epoch
999, so a resumed run started from the wrong checkpoint and rotation
removed the newest one.
---
 src/python/deepgnn/pytorch/common/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/python/deepgnn/pytorch/common/utils.py b/src/python/deepgnn/pytorch/common/utils.py
index 5d77340..f7e7867 100644
--- a/src/python/deepgnn/pytorch/common/utils.py
+++ b/src/python/deepgnn/pytorch/common/utils.py
@@ -131,17 +131,19 @@ def get_sorted_checkpoints(
     model_dir: str, perfix: str = PREFIX_CHECKPOINT, sort_ckpt_by_mtime: bool = False
 ) -> List[str]:
     """Return model checkpoints."""
-    ordering_and_checkpoint_path = []
+    ordering_and_checkpoint_path: List[Tuple[List[float], str]] = []
 
     glob_checkpoints = [str(x) for x in Path(model_dir).glob(f"{perfix}-*")]
 
     for path in glob_checkpoints:
         if sort_ckpt_by_mtime:
-            ordering_and_checkpoint_path.append((str(os.path.getmtime(path)), path))
+            ordering_and_checkpoint_path.append(([os.path.getmtime(path)], path))
         else:
             regex_match = re.match(f".*{perfix}-([0-9\\-]+)", path)
             if regex_match and regex_match.groups():
-                ordering_and_checkpoint_path.append((regex_match.groups()[0], path))
+                # Compare numbers, names don't have the same width after epoch 999.
+                ordering = [float(x) for x in re.findall("[0-9]+", regex_match[1])]
+                ordering_and_checkpoint_path.append((ordering, path))
 
     return [checkpoint[1] for checkpoint in sorted(ordering_and_checkpoint_path)]
 
-- 
2.43.0


From ebbe3777ef5a4223070ed567895e1f02bb976de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:40 +0000
Subject: [PATCH 61/65] fix: use the order of checkpoints asked for on the
 command line

sort_ckpt_by_mtime was accepted but never used.
---
 src/python/deepgnn/pytorch/training/trainer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/pytorch/training/trainer.py b/src/python/deepgnn/pytorch/training/trainer.py
index 61943bc..36913c6 100644
--- a/src/python/deepgnn/pytorch/training/trainer.py
+++ b/src/python/deepgnn/pytorch/training/trainer.py
@@ -452,12 +452,18 @@ class Trainer:
             output.update({"init_parameters": self.model.init_parameters})
         torch.save(output, save_path)
         self.logger.info(self._wrap_log(f"Saved checkpoint to {save_path}."))
-        rotate_checkpoints(self.args.save_path, self.args.max_saved_ckpts)
+        rotate_checkpoints(
+            self.args.save_path,
+            self.args.max_saved_ckpts,
+            sort_ckpt_by_mtime=self.args.sort_ckpt_by_mtime,
+        )
 
     def _load_checkpoint(self, ckpt_path: Optional[str] = None):
         if not ckpt_path:
             # Search and sort checkpoints from model path.
-            ckpts = get_sorted_checkpoints(self.args.model_dir)
+            ckpts = get_sorted_checkpoints(
+                self.args.model_dir, sort_ckpt_by_mtime=self.args.sort_ckpt_by_mtime
+            )
             ckpt_path = ckpts[-1] if len(ckpts) > 0 else None
 
         if ckpt_path is not None:
-- 
2.43.0


From 9964567954ed916bc619aeb6399ab765000588bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:40 +0000
Subject: [PATCH 62/65] fix: evaluate all batches after the last training step

An evaluation during training compared the training step with the limit
of steps, so it stopped after one batch when the limit was reached.
---
 src/python/deepgnn/pytorch/training/trainer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/pytorch/training/trainer.py b/src/python/deepgnn/pytorch/training/trainer.py
index 36913c6..a713df7 100644
--- a/src/python/deepgnn/pytorch/training/trainer.py
+++ b/src/python/deepgnn/pytorch/training/trainer.py
@@ -315,7 +315,8 @@ class Trainer:
                     preds.append(pred.detach().cpu())
                     labels.append(label.detach().cpu())
 
-                if self._should_stop():
+                # Steps are not counted in evaluation during training.
+                if self.args.mode != TrainMode.TRAIN and self._should_stop():
                     break
 
         if self.args.use_per_step_metrics:
-- 
2.43.0


From 65f1dd56507b335c5f28e03041cf15d0ae0d683e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:40 +0000
Subject: [PATCH 63/65] fix: load all partitions of cora and citeseer graphs

Only partition 0 was loaded, so a data set converted to more partitions
had only some of its nodes and edges.
---
 src/python/deepgnn/graph_engine/data/cora.py      | 2 +-
 src/python/deepgnn/graph_engine/data/data_util.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/data/cora.py b/src/python/deepgnn/graph_engine/data/cora.py
index 38c21c6..e4279ae 100644
--- a/src/python/deepgnn/graph_engine/data/cora.py
+++ b/src/python/deepgnn/graph_engine/data/cora.py
@@ -108,7 +108,7 @@ if __name__ == "__main__":
     parser.add_argument("--data_dir", default=f"{tempfile.gettempdir()}/cora", type=str)
     parser.add_argument("--train_node_ratio", default=1.0, type=float)
     parser.add_argument("--random_selection", action="store_true")
-    parser.add_argument("--num_partitions", default=1)
+    parser.add_argument("--num_partitions", default=1, type=int)
     args = parser.parse_args()
 
     g = CoraFull(
diff --git a/src/python/deepgnn/graph_engine/data/data_util.py b/src/python/deepgnn/graph_engine/data/data_util.py
index 6e64d62..aded01c 100644
--- a/src/python/deepgnn/graph_engine/data/data_util.py
+++ b/src/python/deepgnn/graph_engine/data/data_util.py
@@ -108,7 +108,9 @@ class Dataset(Client):
         self._build_graph_impl(
             self.input_location, self.output_dir, train_node_ratio, random_selection
         )
-        super().__init__(self.output_dir, partitions=[0])
+        super().__init__(
+            self.output_dir, partitions=list(range(self._num_partitions))
+        )
 
     def _build_graph_impl(
         self,
-- 
2.43.0


From f035c3f646b8d9cba4a52c09928b0722a4afba77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:40 +0000
Subject: [PATCH 64/65] fix: allow polynomial decay to end with its warmup

The last step of a schedule with as many warmup steps as training steps
divided by zero.
---
 src/python/deepgnn/pytorch/common/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/pytorch/common/optimization.py b/src/python/deepgnn/pytorch/common/optimization.py
index 8ba3709..242b988 100644
--- a/src/python/deepgnn/pytorch/common/optimization.py
+++ b/src/python/deepgnn/pytorch/common/optimization.py
@@ -228,7 +228,7 @@ def get_polynomial_decay_schedule_with_warmup(
             return lr_end / lr_init  # as LambdaLR multiplies by lr_init
         else:
             lr_range = lr_init - lr_end
-            decay_steps = num_training_steps - num_warmup_steps
+            decay_steps = max(1, num_training_steps - num_warmup_steps)
             pct_remaining = 1 - (current_step - num_warmup_steps) / decay_steps
             decay = lr_range * pct_remaining**power + lr_end
             return decay / lr_init  # as LambdaLR multiplies by lr_init
-- 
2.43.0


From 1b84648aebbd8c8ec94ca3e4e6c404d1af88079c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:40 +0000
Subject: [PATCH 65/65] fix: sample nodes by position in the average clustering
 coefficient

The position of a node was used as its id, which returns attributes of
the node instead, and one position too many could be drawn.
---
 .../deepgnn/graph_engine/snark/preprocess/sampler/metric.py   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/preprocess/sampler/metric.py b/src/python/deepgnn/graph_engine/snark/preprocess/sampler/metric.py
index 1a12496..04b4697 100644
--- a/src/python/deepgnn/graph_engine/snark/preprocess/sampler/metric.py
+++ b/src/python/deepgnn/graph_engine/snark/preprocess/sampler/metric.py
@@ -51,8 +51,8 @@ def average_clustering(input_graph: nx.digraph, trials: int) -> float:
     g = nx.to_undirected(input_graph)
     n = len(g)
     triangles = 0
-    nodes = g.nodes()
-    for i in [random.randint(0, n) for _ in range(trials)]:
+    nodes = list(g.nodes())
+    for i in [random.randint(0, n - 1) for _ in range(trials)]:
         nbrs = list(g[nodes[i]])
         if len(nbrs) < 2:
             continue
-- 
2.43.0

