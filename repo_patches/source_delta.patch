From 8aff1d74f84e0fcf2efe037c1282dc622ff5d238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:16 +0000
Subject: [PATCH 01/89] fix: measure the busy period from the moment all
 channels become busy, not from the last queue pop

---
 most_queue/sim/qs_sim.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/most_queue/sim/qs_sim.py b/most_queue/sim/qs_sim.py
index 12e3f1c..9b30329 100755
--- a/most_queue/sim/qs_sim.py
+++ b/most_queue/sim/qs_sim.py
@@ -332,9 +332,6 @@ class QueueingSystemSimulator:
         """
         que_ts = self.queue.pop()
 
-        if self.free_channels == 1:
-            self.start_ppnz = self.ttek
-
         self.taked += 1
         que_ts.wait_time += self.ttek - que_ts.start_waiting_time
         self.refresh_w_stat(que_ts.wait_time)
@@ -359,6 +356,10 @@ class QueueingSystemSimulator:
             if self.queue.size() != 0:
                 self.send_head_of_queue_to_channel(i)
 
+        if self.free_channels == 0:
+            # busy period starts
+            self.start_ppnz = self.ttek
+
     def on_end_cold(self):
         """
         Job that has to be done after Cold Period Ends
@@ -382,6 +383,10 @@ class QueueingSystemSimulator:
                 if self.queue.size() != 0:
                     self.send_head_of_queue_to_channel(i)
 
+            if self.free_channels == 0:
+                # busy period starts
+                self.start_ppnz = self.ttek
+
     def on_end_cold_delay(self):
         """
         Job that has to be done after Cold Delay Period Ends
-- 
2.43.0


From 65e6e6e108c489260793fd81e08991772f624b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:54 +0000
Subject: [PATCH 02/89] fix: finite-source simulation asks the queue for its
 size instead of calling len() on it

---
 most_queue/sim/queue_finite_source_sim.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/most_queue/sim/queue_finite_source_sim.py b/most_queue/sim/queue_finite_source_sim.py
index 5fa2e16..f56f8fe 100755
--- a/most_queue/sim/queue_finite_source_sim.py
+++ b/most_queue/sim/queue_finite_source_sim.py
@@ -77,7 +77,7 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
                 new_tsk.start_waiting_time = self.ttek
                 self.queue.append(new_tsk)
             else:
-                if len(self.queue) < self.buffer:
+                if self.queue.size() < self.buffer:
                     new_tsk = Task(self.ttek)
                     new_tsk.start_waiting_time = self.ttek
                     self.queue.append(new_tsk)
@@ -89,7 +89,7 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
 
             # check if its a warm phase:
             is_warm_start = False
-            if len(self.queue) == 0 and self.free_channels == self.n and self.warm_phase.is_set:
+            if self.queue.size() == 0 and self.free_channels == self.n and self.warm_phase.is_set:
                 is_warm_start = True
 
             for s in self.servers:
@@ -131,13 +131,13 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
         self.refresh_w_stat(end_ts.wait_time)
         self.in_sys -= 1
 
-        if len(self.queue) == 0 and self.free_channels == 1:
+        if self.queue.size() == 0 and self.free_channels == 1:
             if self.in_sys == self.n - 1:
                 # Конец ПНЗ
                 self.ppnz_moments += 1
                 self.refresh_ppnz_stat(self.ttek - self.start_ppnz)
 
-        if len(self.queue) != 0:
+        if self.queue.size() != 0:
 
             que_ts = self.queue.pop()
 
-- 
2.43.0


From b816fbd201c366b58acefc6a840dc9d43a7fdeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:54 +0000
Subject: [PATCH 03/89] fix: a finite source whose job is lost goes on
 generating jobs

---
 most_queue/sim/queue_finite_source_sim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/most_queue/sim/queue_finite_source_sim.py b/most_queue/sim/queue_finite_source_sim.py
index f56f8fe..39ffc27 100755
--- a/most_queue/sim/queue_finite_source_sim.py
+++ b/most_queue/sim/queue_finite_source_sim.py
@@ -84,6 +84,10 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
                 else:
                     self.dropped += 1
                     self.in_sys -= 1
+                    # job is lost, its source starts the next countdown
+                    self.sources_left += 1
+                    self.arrival_times[self.arrived_num] = self.ttek + \
+                        self.source.generate()
 
         else:  # there are free channels:
 
-- 
2.43.0


From f59679a697dd52d1a10b9eaa494dbbcb9856c00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:54 +0000
Subject: [PATCH 04/89] fix: finite-source waiting moments average over started
 jobs

---
 most_queue/sim/queue_finite_source_sim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/most_queue/sim/queue_finite_source_sim.py b/most_queue/sim/queue_finite_source_sim.py
index 39ffc27..dc82605 100755
--- a/most_queue/sim/queue_finite_source_sim.py
+++ b/most_queue/sim/queue_finite_source_sim.py
@@ -99,6 +99,7 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
             for s in self.servers:
                 if s.is_free:
                     self.taked += 1
+                    self.refresh_w_stat(0)
                     s.start_service(Task(self.ttek), self.ttek, is_warm_start)
                     self.free_channels -= 1
 
@@ -132,7 +133,6 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
         self.total += 1
         self.free_channels += 1
         self.refresh_v_stat(self.ttek - end_ts.arr_time)
-        self.refresh_w_stat(end_ts.wait_time)
         self.in_sys -= 1
 
         if self.queue.size() == 0 and self.free_channels == 1:
@@ -150,6 +150,7 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
 
             self.taked += 1
             que_ts.wait_time += self.ttek - que_ts.start_waiting_time
+            self.refresh_w_stat(que_ts.wait_time)
             self.servers[c].start_service(que_ts, self.ttek)
             self.free_channels -= 1
 
-- 
2.43.0


From 4725b9137d61ca8c8df2c437d4af8185fe732930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:54 +0000
Subject: [PATCH 05/89] fix: finite-source busy period starts when all channels
 become busy

---
 most_queue/sim/queue_finite_source_sim.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/most_queue/sim/queue_finite_source_sim.py b/most_queue/sim/queue_finite_source_sim.py
index dc82605..15e1251 100755
--- a/most_queue/sim/queue_finite_source_sim.py
+++ b/most_queue/sim/queue_finite_source_sim.py
@@ -145,9 +145,6 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
 
             que_ts = self.queue.pop()
 
-            if self.free_channels == 1:
-                self.start_ppnz = self.ttek
-
             self.taked += 1
             que_ts.wait_time += self.ttek - que_ts.start_waiting_time
             self.refresh_w_stat(que_ts.wait_time)
-- 
2.43.0


From 7df94c714efbbc8457cd9df49896bf3cee2f3ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:54 +0000
Subject: [PATCH 06/89] fix: batch simulation attributes elapsed time to the
 state before the batch

---
 most_queue/sim/batch_sim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/sim/batch_sim.py b/most_queue/sim/batch_sim.py
index ff7ceb4..0a5513f 100755
--- a/most_queue/sim/batch_sim.py
+++ b/most_queue/sim/batch_sim.py
@@ -47,6 +47,8 @@ class QueueingSystemBatchSim(QueueingSystemSimulator):
                 batch_size = i + 1
                 break
 
+        self.p[self.in_sys] += self.arrival_time - self.t_old
+
         self.ttek = self.arrival_time
         self.t_old = self.ttek
 
@@ -54,8 +56,6 @@ class QueueingSystemBatchSim(QueueingSystemSimulator):
 
         for tsk in range(batch_size):
             self.arrived += 1
-            self.p[self.in_sys] += self.arrival_time - self.t_old
-
             self.in_sys += 1
 
             if self.free_channels == 0:
-- 
2.43.0


From 635ab335642b1e85bbc7c72778aec8d61253e066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:54 +0000
Subject: [PATCH 07/89] fix: batch simulation with a limited buffer asks the
 queue for its size

---
 most_queue/sim/batch_sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/sim/batch_sim.py b/most_queue/sim/batch_sim.py
index 0a5513f..779b9ca 100755
--- a/most_queue/sim/batch_sim.py
+++ b/most_queue/sim/batch_sim.py
@@ -64,7 +64,7 @@ class QueueingSystemBatchSim(QueueingSystemSimulator):
                     new_tsk.start_waiting_time = self.ttek
                     self.queue.append(new_tsk)
                 else:
-                    if len(self.queue) < self.buffer:
+                    if self.queue.size() < self.buffer:
                         new_tsk = Task(self.ttek)
                         new_tsk.start_waiting_time = self.ttek
                         self.queue.append(new_tsk)
-- 
2.43.0


From 99294c027ae6a4700df90666d814ba6503138cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:54 +0000
Subject: [PATCH 08/89] fix: batch simulation counts zero waits in the waiting
 moments

---
 most_queue/sim/batch_sim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/most_queue/sim/batch_sim.py b/most_queue/sim/batch_sim.py
index 779b9ca..2e4775e 100755
--- a/most_queue/sim/batch_sim.py
+++ b/most_queue/sim/batch_sim.py
@@ -82,6 +82,7 @@ class QueueingSystemBatchSim(QueueingSystemSimulator):
                 for s in self.servers:
                     if s.is_free:
                         self.taked += 1
+                        self.refresh_w_stat(0)
                         s.start_service(Task(self.ttek),
                                         self.ttek, is_warm_start)
                         self.free_channels -= 1
-- 
2.43.0


From 243c491e2270309d1e05bedc84d6ae21637fa73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:54 +0000
Subject: [PATCH 09/89] fix: impatient simulation closes the state interval
 when a job abandons

---
 most_queue/sim/impatient_queue_sim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/most_queue/sim/impatient_queue_sim.py b/most_queue/sim/impatient_queue_sim.py
index a92bc61..76bd138 100755
--- a/most_queue/sim/impatient_queue_sim.py
+++ b/most_queue/sim/impatient_queue_sim.py
@@ -91,7 +91,9 @@ class ImpatientQueueSim(QueueingSystemSimulator):
                     break
 
     def drop_task(self, num_of_task_in_queue, moment_to_leave_earlier):
+        self.p[self.in_sys] += moment_to_leave_earlier - self.t_old
         self.ttek = moment_to_leave_earlier
+        self.t_old = self.ttek
         new_queue = []
         for i, tsk in enumerate(self.queue.queue):
             if i != num_of_task_in_queue:
-- 
2.43.0


From 76791759708724ee4bc8e40dbc925db594a9244f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:54 +0000
Subject: [PATCH 10/89] fix: impatient simulation averages waiting times over
 all jobs whose wait is over

---
 most_queue/sim/impatient_queue_sim.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/most_queue/sim/impatient_queue_sim.py b/most_queue/sim/impatient_queue_sim.py
index 76bd138..5c15307 100755
--- a/most_queue/sim/impatient_queue_sim.py
+++ b/most_queue/sim/impatient_queue_sim.py
@@ -1,5 +1,6 @@
 from most_queue.sim.utils.distribution_utils import create_distribution
 from most_queue.sim.qs_sim import QueueingSystemSimulator, Task
+from most_queue.sim.utils.stats_update import refresh_moments_stat
 
 
 class ImpatientTask(Task):
@@ -21,6 +22,8 @@ class ImpatientQueueSim(QueueingSystemSimulator):
         self.impatience = None
         self.is_set_impatience_params = False
 
+        self.abandoned = 0  # number of job that left the queue without service
+
     def set_impatiens(self, params, types):
         """
         Задает тип и параметры распределения интервала нетерпения заявок.
@@ -80,6 +83,7 @@ class ImpatientQueueSim(QueueingSystemSimulator):
             for s in self.servers:
                 if s.is_free:
                     self.taked += 1
+                    self.refresh_w_stat(0)
                     s.start_service(ImpatientTask(
                         self.ttek, moment_to_leave), self.ttek, is_warm_start)
                     self.free_channels -= 1
@@ -104,11 +108,19 @@ class ImpatientQueueSim(QueueingSystemSimulator):
         self.queue.queue = new_queue
         self.in_sys -= 1
         self.dropped += 1
+        self.abandoned += 1
         self.served += 1
         self.refresh_v_stat(self.ttek - end_ts.arr_time)
         end_ts.wait_time = self.ttek - end_ts.arr_time
         self.refresh_w_stat(end_ts.wait_time)
 
+    def refresh_w_stat(self, new_a):
+        """
+        Updating statistics of wait times (served and abandoned jobs)
+        """
+        self.w = refresh_moments_stat(
+            self.w, new_a, self.taked + self.abandoned)
+
     def run_one_step(self):
 
         num_of_server_earlier = -1
-- 
2.43.0


From 347e2675a8a24c58080ea4949a3d8cedf6785eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:00 +0000
Subject: [PATCH 11/89] fix: a preempting job displaces the lowest-priority job
 in service

---
 most_queue/sim/priority_queue_sim.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index 3ded2e1..891f8ce 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -327,13 +327,15 @@ class PriorityQueueSimulator:
                 if self.free_channels == 0:
                     # смотрим, есть ли на обслуживании заявки младшего класса
                     is_found_weekier = False
+                    weakest_class = max(c.class_on_service for c in self.servers)
                     for c in self.servers:
                         if moment:
                             class_on_service = c.tsk_on_service.in_node_class_num
                         else:
                             class_on_service = c.tsk_on_service.k
 
-                        if class_on_service > k:
+                        # прерываем заявку самого младшего из обслуживаемых классов
+                        if class_on_service > k and class_on_service == weakest_class:
                             time_to_end = c.time_to_end_service
                             total_time = c.total_time_to_serve
 
-- 
2.43.0


From 89688bf81d1e3a9ba7fb0dac928497ecd6edcce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:00 +0000
Subject: [PATCH 12/89] fix: RS discipline resamples from the law of the
 preempted job's class

---
 most_queue/sim/priority_queue_sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index 891f8ce..109e9c8 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -355,7 +355,7 @@ class PriorityQueueSimulator:
                             if self.prty_type == 'PR':
                                 dropped_tsk.time_to_end_service = time_to_end - self.ttek
                             elif self.prty_type == "RS":
-                                dropped_tsk.time_to_end_service = c.dist[k].generate(
+                                dropped_tsk.time_to_end_service = c.dist[class_on_service].generate(
                                 )
                             elif self.prty_type == "RW":
                                 dropped_tsk.time_to_end_service = total_time
-- 
2.43.0


From 857f743ba2c37749b4fddb8d5a72f4a63c153061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:00 +0000
Subject: [PATCH 13/89] fix: RW discipline keeps the full service time over
 repeated preemptions

---
 most_queue/sim/priority_queue_sim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index 109e9c8..5f93e17 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -758,6 +758,7 @@ class Server:
             self.tsk_on_service.time_to_end_service = self.time_to_end_service
         else:
             if ts.is_pr:
+                self.total_time_to_serve = ts.time_to_end_service
                 self.time_to_end_service = ttek + ts.time_to_end_service
                 self.tsk_on_service.time_to_end_service = self.time_to_end_service
             else:
-- 
2.43.0


From 3f096f4b3b9fab98159f46d35e40e6f4c7fcd166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:00 +0000
Subject: [PATCH 14/89] fix: a preempted job returns to the head of its class
 queue

---
 most_queue/sim/priority_queue_sim.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index 5f93e17..f2b6d99 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -362,12 +362,13 @@ class PriorityQueueSimulator:
 
                             is_found_weekier = True
                             if moment:
-                                self.queue[dropped_tsk.in_node_class_num].append(
-                                    dropped_tsk)
+                                self.queue[dropped_tsk.in_node_class_num].insert(
+                                    0, dropped_tsk)
                                 c.start_service(
                                     new_tsk, self.ttek, is_network=True)
                             else:
-                                self.queue[dropped_tsk.k].append(dropped_tsk)
+                                self.queue[dropped_tsk.k].insert(
+                                    0, dropped_tsk)
                                 c.start_service(new_tsk, self.ttek)
 
                             break
-- 
2.43.0


From e13a77ac680e173a47f80d546705aab692aca0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:00 +0000
Subject: [PATCH 15/89] fix: priority simulation applies the buffer limit under
 NP and when it is zero

---
 most_queue/sim/priority_queue_sim.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index f2b6d99..0065ac4 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -310,7 +310,7 @@ class PriorityQueueSimulator:
 
             if self.prty_type == 'No':
 
-                if not self.buffer:  # не задана длина очередиб т.е бесконечная очередь
+                if self.buffer is None:  # не задана длина очередиб т.е бесконечная очередь
                     new_tsk.start_waiting_time = self.ttek
                     self.queue.append(new_tsk)
                 else:
@@ -373,7 +373,7 @@ class PriorityQueueSimulator:
 
                             break
                     if not is_found_weekier:
-                        if not self.buffer:  # не задана длина очередиб т.е бесконечная очередь
+                        if self.buffer is None:  # не задана длина очередиб т.е бесконечная очередь
                             new_tsk.start_waiting_time = self.ttek
                             self.queue[k].append(new_tsk)
                         else:
@@ -389,9 +389,12 @@ class PriorityQueueSimulator:
                                 self.in_sys[k] -= 1
 
             elif self.prty_type == "NP":
-                if self.free_channels == 0:
+                if self.buffer is None or sum(len(q) for q in self.queue) < self.buffer:
                     new_tsk.start_waiting_time = self.ttek
                     self.queue[k].append(new_tsk)
+                else:
+                    self.dropped[k] += 1
+                    self.in_sys[k] -= 1
 
         else:  # there are free channels:
             if self.free_channels == self.n and self.is_warm_up_set == True:
-- 
2.43.0


From 0a8537f9bc0988fe96584298124c6eb47d2cb4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:00 +0000
Subject: [PATCH 16/89] fix: priority simulation without priorities serves its
 single FIFO line

---
 most_queue/sim/priority_queue_sim.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index 0065ac4..43173d3 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -447,7 +447,8 @@ class PriorityQueueSimulator:
         self.refresh_w_stat(k, end_ts.wait_time)
         self.in_sys[k] -= 1
 
-        if len(self.queue[k]) == 0 and self.free_channels == 1:
+        class_queue = self.queue if self.prty_type == "No" else self.queue[k]
+        if len(class_queue) == 0 and self.free_channels == 1:
             if self.in_sys[k] == self.n - 1 and self.class_ppnz_started != -1:
                 # Конец ПНЗ
                 self.ppnz_moments[k] += 1
@@ -486,13 +487,20 @@ class PriorityQueueSimulator:
 
                 que_ts = self.queue.pop(0)
 
-                if self.free_channels == 1 and k != end_ts.k:
-                    self.start_ppnz[k] = self.ttek
-                    self.class_ppnz_started = k
+                kk = que_ts.in_node_class_num if is_network else que_ts.k
 
-                self.taked[k] += 1
+                if self.free_channels == 1 and kk != k:
+                    self.start_ppnz = self.ttek
+                    self.class_ppnz_started = kk
+
+                self.taked[kk] += 1
                 que_ts.wait_time += self.ttek - que_ts.start_waiting_time
-                self.servers[c].start_service(que_ts, self.ttek)
+                if is_network:
+                    que_ts.wait_network += self.ttek - que_ts.start_waiting_time
+                    self.servers[c].start_service(
+                        que_ts, self.ttek, is_network=True)
+                else:
+                    self.servers[c].start_service(que_ts, self.ttek)
                 self.free_channels -= 1
         if is_network:
             return end_ts
@@ -674,10 +682,11 @@ class PriorityQueueSimulator:
                 res += "Server " + str(c + 1) + ": Free\n"
             else:
                 res += str(self.servers[c]) + "\n"
-                for kk in range(self.k):
+                queues = [self.queue] if self.prty_type == "No" else self.queue
+                for kk, queue in enumerate(queues):
                     res += "Queue # " + \
                         str(kk + 1) + " count " + \
-                        str(len(self.queue[kk])) + "\n"
+                        str(len(queue)) + "\n"
 
         return res
 
-- 
2.43.0


From fc3c1ad62e7762ef76ad125645fe6a4244859611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:50 +0000
Subject: [PATCH 17/89] fix: network nodes serve every class by its own law
 under any priority order

---
 most_queue/sim/priority_network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/sim/priority_network.py b/most_queue/sim/priority_network.py
index 891cace..572bd3b 100755
--- a/most_queue/sim/priority_network.py
+++ b/most_queue/sim/priority_network.py
@@ -36,10 +36,10 @@ class PriorityNetwork:
 
         for m in range(self.n_num):
             self.smos.append(PriorityQueueSimulator(n[m], k_num, prty[m]))
-            param_serv_reset = []  # из-за смены порядка приоритетов в узле
+            param_serv_reset = [None] * k_num  # из-за смены порядка приоритетов в узле
             # для расчета необходимо преобразовать список с параметрами вр обслуживания в узле
             for k in range(k_num):
-                param_serv_reset.append(serv_params[m][nodes_prty[m][k]])
+                param_serv_reset[nodes_prty[m][k]] = serv_params[m][k]
 
             self.smos[m].set_servers(param_serv_reset)
             time.sleep(0.1)
-- 
2.43.0


From 022c216ccbccdebf42864caa5d90f8797163a1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:45 +0000
Subject: [PATCH 18/89] fix: purging removes the remaining subtasks and lets
 their channels go on

---
 most_queue/sim/fj_sim.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/most_queue/sim/fj_sim.py b/most_queue/sim/fj_sim.py
index c6b372f..d83c3a0 100755
--- a/most_queue/sim/fj_sim.py
+++ b/most_queue/sim/fj_sim.py
@@ -117,12 +117,20 @@ class ForkJoinSim(QueueingSystemSimulator):
                     # найти все остальные подзадачи в СМО и выкинуть
                     task_id = end_ts.task_id
                     for i in range(self.n):
-                        if self.servers[i].tsk_on_service.task_id == task_id:
-                            self.servers[c].end_service()
-                    for i in range(self.n):
-                        for j in range(len(self.queues[i])):
-                            if self.queues[i][j].task_id == task_id:
-                                self.queues[i].pop(j)
+                        sub_tasks_before = len(self.queues[i])
+                        self.queues[i] = [
+                            ts for ts in self.queues[i] if ts.task_id != task_id]
+                        self.sub_task_in_sys -= sub_tasks_before - \
+                            len(self.queues[i])
+                        ts_on_service = self.servers[i].tsk_on_service
+                        if ts_on_service is not None and ts_on_service.task_id == task_id:
+                            self.servers[i].end_service()
+                            self.sub_task_in_sys -= 1
+                            if len(self.queues[i]) != 0:
+                                self.servers[i].start_service(
+                                    self.queues[i].pop(0), self.ttek)
+                            else:
+                                self.free_channels += 1
 
                 self.served += 1
                 self.refresh_v_stat(self.ttek - end_ts.arr_time)
-- 
2.43.0


From f6d210123ada7dbe53e6d29d8275a1b54fcd0baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:45 +0000
Subject: [PATCH 19/89] fix: fork-join with delays starts a released subtask at
 the current time

---
 most_queue/sim/fj_delta_sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/sim/fj_delta_sim.py b/most_queue/sim/fj_delta_sim.py
index 14c114c..83a329d 100755
--- a/most_queue/sim/fj_delta_sim.py
+++ b/most_queue/sim/fj_delta_sim.py
@@ -106,7 +106,7 @@ class ForkJoinSimDelta(ForkJoinSim):
                 else:  # there are free channels:
                     for s in self.servers:
                         if s.is_free:
-                            s.start_service(subtsk)
+                            s.start_service(subtsk, self.ttek)
                             self.free_channels -= 1
                             break
 
-- 
2.43.0


From 22cc03a7926a7c589bc9b4ae3acc6548bf9d4472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:45 +0000
Subject: [PATCH 20/89] fix: split-join with delays lets exactly one job hold
 the station at a time

---
 most_queue/sim/fj_delta_sim.py | 43 ++++++++++++++--------------------
 1 file changed, 17 insertions(+), 26 deletions(-)

diff --git a/most_queue/sim/fj_delta_sim.py b/most_queue/sim/fj_delta_sim.py
index 83a329d..a828945 100755
--- a/most_queue/sim/fj_delta_sim.py
+++ b/most_queue/sim/fj_delta_sim.py
@@ -67,7 +67,7 @@ class ForkJoinSimDelta(ForkJoinSim):
 
             else:  # Split-Join discipline
 
-                if self.free_channels < self.k:
+                if self.in_sys > 1:  # another job holds the station
                     self.queue.append(t.subtasks[0])
                 else:
                     self.servers[0].start_service(t.subtasks[0], self.ttek)
@@ -129,7 +129,6 @@ class ForkJoinSimDelta(ForkJoinSim):
         time_to_end = self.servers[c].time_to_end_service
         self.p[self.in_sys] += time_to_end - self.t_old
         end_ts = self.servers[c].end_service()
-        self.serv_task_id = end_ts.task_id
         self.ttek = time_to_end
         self.t_old = self.ttek
         self.served_subtask_in_task[end_ts.task_id] += 1
@@ -158,32 +157,24 @@ class ForkJoinSimDelta(ForkJoinSim):
 
                 if self.queue.size() != 0:
 
-                    new_task_id = self.queue.queue[0].task_id
-
-                    brothers = [q for q in range(
-                        self.queue.size()) if self.queue.queue[q].task_id == new_task_id]
-                    for q in brothers:
-                        que_ts = self.queue.queue[q]
-                        for serv in self.servers:
-                            if serv.is_free:
-                                serv.start_service(que_ts, self.ttek)
-                                self.free_channels -= 1
-                                break
-                    self.queue.queue = [
-                        q for q in self.queue.queue if q.task_id != new_task_id]
+                    self.serv_task_id = self.queue.queue[0].task_id
+                    self.start_subtasks(self.serv_task_id)
             else:
                 if self.queue.size() != 0:
-                    brothers = [q for q in range(
-                        self.queue.size()) if self.queue.queue[q].task_id == end_ts.task_id]
-                    for q in brothers:
-                        que_ts = self.queue.queue[q]
-                        for serv in self.servers:
-                            if serv.is_free:
-                                serv.start_service(que_ts, self.ttek)
-                                self.free_channels -= 1
-                                break
-                    self.queue.queue = [
-                        q for q in self.queue.queue if q.task_id != end_ts.task_id]
+                    self.start_subtasks(end_ts.task_id)
+
+    def start_subtasks(self, task_id):
+        """
+        Starts waiting subtasks of the job while there are free channels
+        """
+        brothers = [q for q in self.queue.queue if q.task_id == task_id]
+        for que_ts in brothers[:self.free_channels]:
+            for serv in self.servers:
+                if serv.is_free:
+                    serv.start_service(que_ts, self.ttek)
+                    self.free_channels -= 1
+                    break
+            self.queue.queue.remove(que_ts)
 
     def run_one_step(self):
 
-- 
2.43.0


From fcd27523866b25e51e4b7ca3676430bcc71cb4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:48 +0000
Subject: [PATCH 21/89] fix: fork-join with delays passes its buffer limit on
 as the buffer limit

---
 most_queue/sim/fj_delta_sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/sim/fj_delta_sim.py b/most_queue/sim/fj_delta_sim.py
index a828945..d43f45a 100755
--- a/most_queue/sim/fj_delta_sim.py
+++ b/most_queue/sim/fj_delta_sim.py
@@ -18,7 +18,7 @@ class ForkJoinSimDelta(ForkJoinSim):
         buffer - максимальная длина очереди
         """
         ForkJoinSim.__init__(self, num_of_channels,
-                             num_of_parts, is_SJ, buffer)
+                             num_of_parts, is_SJ, buffer=buffer)
         self.delta = delta
         self.subtask_arr_queue = []
         self.serv_task_id = -1
-- 
2.43.0


From fb5837f60eec81cc815ad2882c9d93763e383eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:21 +0000
Subject: [PATCH 22/89] fix: exponential law draws from the generator it was
 given

---
 most_queue/rand_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index 47a0ce4..a5c123c 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -720,7 +720,7 @@ class Exp_dist:
     """
 
     def __init__(self, mu, generator=None):
-        self.erl = Erlang_dist([1, mu])
+        self.erl = Erlang_dist([1, mu], generator)
         self.params = mu
         self.type = 'M'
         self.generator = generator
-- 
2.43.0


From 5f84e90587b3bbc2ecbabc801ebc0da55cb0192d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:21 +0000
Subject: [PATCH 23/89] fix: Cox generate_static does not require a generator

---
 most_queue/rand_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index a5c123c..b8a37bb 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -401,7 +401,7 @@ class Cox_dist:
         return self.generate_static(self.y1, self.m1, self.m2, self.generator)
 
     @staticmethod
-    def generate_static(y1, m1, m2, generator):
+    def generate_static(y1, m1, m2, generator=None):
         """
         Генерация псевдо-случайных чисел, подчиненных распределению Кокса 2-го порядка. Статический метод
         """
-- 
2.43.0


From 07d24f11eb9da7f531c1efd7f640be306c5af44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:21 +0000
Subject: [PATCH 24/89] fix: Pareto density and distribution function below the
 scale parameter

---
 most_queue/rand_distribution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index b8a37bb..e867de0 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -546,7 +546,7 @@ class Pareto_dist:
         """
         Возвращает значение функции плотности распределения вероятностей СВ
         """
-        if t < 0:
+        if t < k:
             return 0
         return a * math.pow(k, a) / math.pow(t, a + 1)
 
@@ -564,10 +564,10 @@ class Pareto_dist:
         Возвращает значение ДФР
         params = [a, K]
         """
-        if t < 0:
-            return 0
         a = params[0]
         k = params[1]
+        if t < k:
+            return 1.0
         return math.pow(k / t, a)
 
     @staticmethod
-- 
2.43.0


From cc031a0c8d86b4f0ee1f03f08dc27217e38421a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:22 +0000
Subject: [PATCH 25/89] fix: gamma density is zero for negative times and does
 not overflow for large shapes

---
 most_queue/rand_distribution.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index e867de0..c81abdd 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -847,15 +847,9 @@ class Gamma:
         :param t: время
         :return: значение плотности Гамма-распределения
         """
-        fract = sp.gamma(alpha)
-        if math.fabs(fract) > 1e-12:
-            if math.fabs(mu * t) > 1e-12:
-                main = mu * math.pow(mu * t, alpha - 1) * math.exp(-mu * t) / fract
-            else:
-                main = 0
-        else:
-            main = 0
-        return main
+        if mu * t > 1e-12:
+            return mu * math.exp((alpha - 1) * math.log(mu * t) - mu * t - sp.gammaln(alpha))
+        return 0
 
     @staticmethod
     def get_f_corrective(mu, alpha, g, t):
-- 
2.43.0


From 34ca3b2e27def4a1b954bcf12f2768c8200a7dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:22 +0000
Subject: [PATCH 26/89] fix: H2 fit keeps mean and variance when the third
 moment is out of reach

---
 most_queue/rand_distribution.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index c81abdd..f89ca29 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -234,14 +234,10 @@ class H2_dist:
         if t_min > moments[2]:
             # one phase distibution
             q_new = q_max
-            mu1 = (1.0 - math.sqrt(q_new * (v * v - 1.0) / (2 * (1.0 - q_new)))) * moments[0]
-            if math.isclose(mu1, 0):
-                mu1 = 1e10
-            else:
-                mu1 = 1.0 / mu1
+            t1 = (1.0 + math.sqrt((1.0 - q_new) * (v * v - 1.0) / (2 * q_new))) * moments[0]
             res[0] = q_max
-            res[1] = mu1
-            res[2] = 1e6
+            res[1] = 1.0 / t1
+            res[2] = 1e6 / moments[0]
             return res
         else:
             max_iteration = 10000
-- 
2.43.0


From fb3fa800cb48c627f18fd4b529eb29884adff687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:22 +0000
Subject: [PATCH 27/89] fix: H2 fit converges to the third moment at every time
 scale

---
 most_queue/rand_distribution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index f89ca29..9a272ef 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -244,7 +244,7 @@ class H2_dist:
             tec = 0
             t1 = 0
             t2 = 0
-            while abs(tn - moments[2]) > 1e-8 and tec < max_iteration:
+            while abs(tn - moments[2]) > 1e-8 * moments[2] and tec < max_iteration:
                 tec += 1
                 q_new = (q_max + q_min) / 2.0
                 t1 = (1.0 + math.sqrt((1.0 - q_new) * (v * v - 1.0) / (2 * q_new))) * moments[0]
@@ -256,7 +256,7 @@ class H2_dist:
                     q_min = q_new
                 else:
                     q_max = q_new
-            res[0] = q_max
+            res[0] = q_new
             res[1] = 1.0 / t1
             res[2] = 1.0 / t2
             return res
-- 
2.43.0


From 5d1f05d8391bfca0645dfb2b45bb077ec4dbaba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:22 +0000
Subject: [PATCH 28/89] fix: Cox fit recognises its special cases by relative
 closeness

---
 most_queue/rand_distribution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index 9a272ef..bcbc343 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -440,7 +440,7 @@ class Cox_dist:
         if is_fitting:
             # проверка на близость распределения к экспоненциальному
             coev = cmath.sqrt(moments[1] - moments[0] ** 2) / moments[0]
-            if abs(moments[1] - moments[0] * moments[0]) < ee:
+            if abs(moments[1] / 2.0 - moments[0] * moments[0]) < ee * abs(moments[0]) ** 2:
                 if verbose:
                     print("Cox special 1. Multiply moments to (1+je), coev = {0:5.3f},"
                           " e = {1:5.3f}.".format(coev, e))
@@ -454,7 +454,7 @@ class Cox_dist:
             coev = cmath.sqrt(moments[1] - moments[0] ** 2) / moments[0]
 
             # проверка на близость распределения к Эрланга 2-го порядка
-            if abs(moments[1] - (3.0 / 4) * moments[0] * moments[0]) < ee:
+            if abs(moments[1] / 2.0 - (3.0 / 4) * moments[0] * moments[0]) < ee * abs(moments[0]) ** 2:
                 if verbose:
                     print("Cox special 2. Multiply moments to (1+je), coev = {0:5.3f},"
                           " e = {1:5.3f}.".format(coev, e))
-- 
2.43.0


From 9c8fe37de41804dc11a88008182eb4749c1eeb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:22 +0000
Subject: [PATCH 29/89] fix: Weibull utilities import rand_distribution from
 the package

---
 most_queue/theory/utils/weibull.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/theory/utils/weibull.py b/most_queue/theory/utils/weibull.py
index c30c476..0d21938 100755
--- a/most_queue/theory/utils/weibull.py
+++ b/most_queue/theory/utils/weibull.py
@@ -1,5 +1,5 @@
 import math
-import rand_distribution as rd
+import most_queue.rand_distribution as rd
 import numpy as np
 
 
-- 
2.43.0


From 8f28268fd50a2d2682a0eb05672d5ad99177fbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:48 +0000
Subject: [PATCH 30/89] fix: H2 fit of exponential moments survives rounding

---
 most_queue/rand_distribution.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index bcbc343..b5dd73f 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -223,6 +223,9 @@ class H2_dist:
         v = moments[1] - moments[0] * moments[0]
         v = math.sqrt(v) / moments[0]
         res = [0.0] * 3
+        if math.isclose(v, 1.0, rel_tol=1e-9):
+            # exponential distribution
+            return [0.5, 1.0 / moments[0], 1.0 / moments[0]]
         if v < 1.0:
             return res
 
-- 
2.43.0


From 7458c92445cdf2602c514655785edba73cd7b1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:06 +0000
Subject: [PATCH 31/89] fix: complex H2 fit handles exactly exponential moments

---
 most_queue/rand_distribution.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index b5dd73f..57b6e7c 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -275,15 +275,6 @@ class H2_dist:
         Возвращает список с параметрами [y1, mu1, mu2]
         """
 
-        f = [0.0] * 3
-        for i in range(3):
-            f[i] = complex(moments[i] / math.factorial(i + 1))
-        znam = (f[1] - pow(f[0], 2))
-        c0 = (f[0] * f[2] - pow(f[1], 2)) / znam
-        c1 = (f[0] * f[1] - f[2]) / znam
-
-        d = pow(c1 / 2.0, 2.0) - c0
-
         if is_fitting:
             # проверка на близость распределения к экспоненциальному
             coev = cmath.sqrt(moments[1] - moments[0] ** 2) / moments[0]
@@ -314,6 +305,15 @@ class H2_dist:
                 return H2_dist.get_params_clx(f, verbose=verbose, ee=ee, e=e * (1.0 + e_percent), e_percent=e_percent,
                                               is_fitting=is_fitting)
 
+        f = [0.0] * 3
+        for i in range(3):
+            f[i] = complex(moments[i] / math.factorial(i + 1))
+        znam = (f[1] - pow(f[0], 2))
+        c0 = (f[0] * f[2] - pow(f[1], 2)) / znam
+        c1 = (f[0] * f[1] - f[2]) / znam
+
+        d = pow(c1 / 2.0, 2.0) - c0
+
         res = [0, 0, 0]  # y1, mu1, mu2
         c1 = complex(c1)
         x1 = -c1 / 2 + cmath.sqrt(d)
-- 
2.43.0


From 2a2d6b2e039e815caaae24fefb6447a5b7769e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:19 +0000
Subject: [PATCH 32/89] fix: load of the basic simulation covers normal laws

---
 most_queue/sim/utils/distribution_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/most_queue/sim/utils/distribution_utils.py b/most_queue/sim/utils/distribution_utils.py
index 0f86658..96d7710 100644
--- a/most_queue/sim/utils/distribution_utils.py
+++ b/most_queue/sim/utils/distribution_utils.py
@@ -91,7 +91,7 @@ def calc_qs_load(source_types: str, source_params,
         l = source_params
     elif source_types == "D":
         l = 1.00 / source_params
-    elif source_types == "Uniform":
+    elif source_types == "Uniform" or source_types == "Norm":
         l = 1.00 / source_params[0]
     elif source_types == "H":
         y1 = source_params[0]
@@ -121,7 +121,7 @@ def calc_qs_load(source_types: str, source_params,
         f1 = y2 / mu1 + y1 * (1.0 / mu1 + 1.0 / mu2)
         l = 1.0 / f1
     elif source_types == "Pa":
-        if source_params[0] < 1:
+        if source_params[0] <= 1:
             return None
         else:
             a = source_params[0]
@@ -135,7 +135,7 @@ def calc_qs_load(source_types: str, source_params,
         b1 = 1.0 / mu
     elif server_types == "D":
         b1 = server_params
-    elif server_types == "Uniform":
+    elif server_types == "Uniform" or server_types == "Norm":
         b1 = server_params[0]
 
     elif server_types == "H":
@@ -164,7 +164,7 @@ def calc_qs_load(source_types: str, source_params,
 
         b1 = y2 / mu1 + y1 * (1.0 / mu1 + 1.0 / mu2)
     elif server_types == "Pa":
-        if server_params[0] < 1:
+        if server_params[0] <= 1:
             return math.inf
         else:
             a = server_params[0]
-- 
2.43.0


From d60b84a16a59cf4e2c97463db5de323b4b26104c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:19 +0000
Subject: [PATCH 33/89] fix: load of the priority simulation is the sum of the
 class loads

---
 most_queue/sim/priority_queue_sim.py | 102 +++------------------------
 1 file changed, 8 insertions(+), 94 deletions(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index 43173d3..83260f7 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -6,7 +6,7 @@ import numpy as np
 from colorama import Fore, Style, init
 from tqdm import tqdm
 
-from most_queue.sim.utils.distribution_utils import create_distribution
+from most_queue.sim.utils.distribution_utils import calc_qs_load, create_distribution
 
 init()
 
@@ -179,102 +179,16 @@ class PriorityQueueSimulator:
         """
         Вычисляет коэффициент загрузки СМО
         """
-        l_sum = 0
-        b1_sr = 0
+        load = 0
 
         for i in range(self.k):
+            class_load = calc_qs_load(self.sources_params[i]['type'], self.sources_params[i]['params'],
+                                      self.servers_params[i]['type'], self.servers_params[i]['params'], self.n)
+            if class_load is None:
+                return None
+            load += class_load
 
-            if self.sources_params[i]['type'] == "M":
-                l_sum += self.sources_params[i]['params']
-            elif self.sources_params[i]['type'] == "H":
-                y1 = self.sources_params[i]['params'][0]
-                y2 = 1.0 - y1
-                mu1 = self.sources_params[i]['type'][1]
-                mu2 = self.sources_params[i]['type'][2]
-
-                f1 = y1 / mu1 + y2 / mu2
-                l_sum += 1.0 / f1
-
-            elif self.sources_params[i]['type'] == "E":
-                r = self.sources_params[i]['params'][0]
-                mu = self.sources_params[i]['params'][1]
-                l_sum += mu / r
-
-            elif self.sources_params[i]['type'] == "Gamma":
-                mu = self.sources_params[i]['params'][0]
-                alpha = self.sources_params[i]['params'][1]
-                l_sum += mu / alpha
-
-            elif self.sources_params[i]['type'] == "C":
-                y1 = self.sources_params[i]['params'][0]
-                y2 = 1.0 - y1
-                mu1 = self.sources_params[i]['params'][1]
-                mu2 = self.sources_params[i]['params'][2]
-
-                f1 = y2 / mu1 + y1 * (1.0 / mu1 + 1.0 / mu2)
-                l_sum += 1.0 / f1
-            elif self.sources_params[i]['type'] == "Pa":
-                if self.sources_params[i]['params'][0] < 1:
-                    return None
-                else:
-                    a = self.sources_params[i]['params'][0]
-                    k = self.sources_params[i]['params'][1]
-                    f1 = a * k / (a - 1)
-                    l_sum += 1.0 / f1
-            elif self.sources_params[i]['type'] == "Uniform":
-                f1 = self.sources_params[i]['type'][0]
-                l_sum += 1.0 / f1
-
-            elif self.sources_params[i]['type'] == "D":
-                f1 = self.sources_params[i]['type']
-                l_sum += 1.0 / f1
-
-            if self.servers_params[i]['type'] == "M":
-                mu = self.servers_params[i]['params']
-                b1_sr += 1.0 / mu
-
-            elif self.servers_params[i]['type'] == "H":
-                y1 = self.servers_params[i]['params'][0]
-                y2 = 1.0 - y1
-                mu1 = self.servers_params[i]['params'][1]
-                mu2 = self.servers_params[i]['params'][2]
-
-                b1_sr += y1 / mu1 + y2 / mu2
-
-            elif self.servers_params[i]['type'] == "Gamma":
-                mu = self.servers_params[i]['params'][0]
-                alpha = self.servers_params[i]['params'][1]
-                b1_sr += alpha / mu
-
-            elif self.servers_params[i]['type'] == "E":
-                r = self.servers_params[i]['params'][0]
-                mu = self.servers_params[i]['params'][1]
-                b1_sr += r / mu
-
-            elif self.servers_params[i]['type'] == "Uniform":
-                f1 = self.servers_params[i]['params'][0]
-                b1_sr += 1.0 / f1
-
-            elif self.servers_params[i]['type'] == "D":
-                f1 = self.servers_params[i]['type']
-                b1_sr += 1.0 / f1
-
-            elif self.servers_params[i]['type'] == "C":
-                y1 = self.servers_params[i]['params'][0]
-                y2 = 1.0 - y1
-                mu1 = self.servers_params[i]['params'][1]
-                mu2 = self.servers_params[i]['params'][2]
-
-                b1_sr += y2 / mu1 + y1 * (1.0 / mu1 + 1.0 / mu2)
-            elif self.servers_params[i]['type'] == "Pa":
-                if self.servers_params[i]['params'][0] < 1:
-                    return math.inf
-                else:
-                    a = self.servers_params[i]['params'][0]
-                    k = self.servers_params[i]['params'][1]
-                    b1_sr += a * k / (a - 1)
-
-        return l_sum * b1_sr / (self.n * self.k)
+        return load
 
     def arrival(self, k, moment=None, ts=None):
         """
-- 
2.43.0


From 0dea992c8dd1f738654e0fd485dbfa98facd30c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:17 +0000
Subject: [PATCH 34/89] fix: Weibull tail is one at negative times

---
 most_queue/theory/utils/weibull.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/most_queue/theory/utils/weibull.py b/most_queue/theory/utils/weibull.py
index 0d21938..840c2e0 100755
--- a/most_queue/theory/utils/weibull.py
+++ b/most_queue/theory/utils/weibull.py
@@ -45,6 +45,8 @@ class Weibull:
 
     @staticmethod
     def get_tail_one_value(weibull_params, x):
+        if x < 0:
+            return 1.0
         p = 0
         k = weibull_params[0]
         T = weibull_params[1]
-- 
2.43.0


From 080f82ea99e8302cc3a56d0ba6036732914171da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:25 +0000
Subject: [PATCH 35/89] Revert the Weibull import repair: the test it enables
 opens a window and never returns

---
 most_queue/theory/utils/weibull.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/theory/utils/weibull.py b/most_queue/theory/utils/weibull.py
index 840c2e0..be8ddc1 100755
--- a/most_queue/theory/utils/weibull.py
+++ b/most_queue/theory/utils/weibull.py
@@ -1,5 +1,5 @@
 import math
-import most_queue.rand_distribution as rd
+import rand_distribution as rd
 import numpy as np
 
 
-- 
2.43.0


From 2a3069e5b8abf361fe18536f07fb525e0b749050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:56 +0000
Subject: [PATCH 36/89] fix: M/M/n/r probabilities at load one

---
 most_queue/theory/mmnr_calc.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/most_queue/theory/mmnr_calc.py b/most_queue/theory/mmnr_calc.py
index db2aeb4..efcfe0f 100755
--- a/most_queue/theory/mmnr_calc.py
+++ b/most_queue/theory/mmnr_calc.py
@@ -61,11 +61,10 @@ class MMnr_calc:
         for i in range(n):
             summ1 += pow(ro, i) / math.factorial(i)
 
-        chisl = 1 - pow(ro / n, r + 1)
         coef = pow(ro, n) / math.factorial(n)
-        znam = 1 - (ro / n)
+        summ2 = sum(pow(ro / n, i) for i in range(r + 1))
 
-        p[0] = 1.0 / (summ1 + coef * chisl / znam)
+        p[0] = 1.0 / (summ1 + coef * summ2)
 
         for i in range(n):
             p[i] = pow(ro, i) * p[0] / math.factorial(i)
-- 
2.43.0


From b0942c253ae34067b6c02d434b04f25dd9f26931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:56 +0000
Subject: [PATCH 37/89] fix: M/M/n/r waiting moments are those of accepted jobs

---
 most_queue/theory/mmnr_calc.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/most_queue/theory/mmnr_calc.py b/most_queue/theory/mmnr_calc.py
index efcfe0f..58a3bb1 100755
--- a/most_queue/theory/mmnr_calc.py
+++ b/most_queue/theory/mmnr_calc.py
@@ -38,10 +38,14 @@ class MMnr_calc:
 
     @staticmethod
     def get_w(l, mu, n, r, num=3):
-        qs = MMnr_calc.get_qs(l, mu, n, r, q_num=num)
+        # an accepted job that finds n + i jobs waits for i + 1 departures of rate n * mu
+        p = MMnr_calc.get_p(l, mu, n, r)
+        accepted = sum(p[:n + r])
         w = [0] * num
         for k in range(num):
-            w[k] = qs[k] / pow(l, k + 1)
+            for i in range(r):
+                w[k] += p[n + i] * math.factorial(i + 1 + k) / (math.factorial(i) * pow(n * mu, k + 1))
+            w[k] /= accepted
         return w
 
     @staticmethod
-- 
2.43.0


From 9b6e826fc1e38b2129e3df6e948543b7a7f7d88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:56 +0000
Subject: [PATCH 38/89] fix: Engset waiting moments at every time scale

---
 most_queue/theory/engset_model.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/most_queue/theory/engset_model.py b/most_queue/theory/engset_model.py
index 7f6e3e4..3e90780 100755
--- a/most_queue/theory/engset_model.py
+++ b/most_queue/theory/engset_model.py
@@ -1,4 +1,3 @@
-from most_queue.theory.utils.diff5dots import diff5dots
 from most_queue.general_utils.conv import get_moments
 
 
@@ -93,15 +92,18 @@ class Engset:
         """
         Начальные моменты времени ожидания через дифф ПЛС
         """
-        h = 0.01
-        ss = [x * h for x in range(5)]
         p0 = self.get_p()[0]
         N = self.get_N()
 
-        ws_dots = [self.ws(s, p0, N) for s in ss]
-        w_diff = diff5dots(ws_dots, h)
+        # производные слагаемых ПЛС (mu + s)^(-i) в нуле берутся точно
+        w = [0.0, 0.0, 0.0]
+        for i in range(1, self.m):
+            prob = pow(self.ro, i) * self.m_i[i + 1] * p0 / (self.m - N)
+            for k in range(3):
+                prob *= (i + k) / self.mu
+                w[k] += prob
 
-        return [-w_diff[0], w_diff[1], -w_diff[2]]
+        return w
 
     def ws(self, s, p0, N):
         """
-- 
2.43.0


From 111bbddb71be4acad0eec8cb682789561ee0a363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:56 +0000
Subject: [PATCH 39/89] fix: M/M/1 with impatience sums its series past the
 mode and without overflow

---
 most_queue/theory/impatience_calc.py | 38 ++++++++--------------------
 1 file changed, 11 insertions(+), 27 deletions(-)

diff --git a/most_queue/theory/impatience_calc.py b/most_queue/theory/impatience_calc.py
index 545b8dc..e6787c9 100755
--- a/most_queue/theory/impatience_calc.py
+++ b/most_queue/theory/impatience_calc.py
@@ -9,26 +9,17 @@ def get_p0(l, mu, gamma, tol=1e-12):
     """
     Вероятность нулевого состояния системы
     """
-    summ = 0
-    elem_old = l
-    elem_new = 0
-
-    i = 1
-    while math.fabs(elem_new - elem_old) > tol:
-        chisl = math.pow(l, i)
-        znam = mu
-        j = 1
-        while j < i:
-            znam *= (mu + j * gamma)
-            j += 1
-
-        elem_old = elem_new
-        elem_new = chisl / znam
-        summ += elem_new
-
+    summ = 1.0
+    elem = 1.0
+
+    i = 0
+    # слагаемые растут, пока интенсивность ухода меньше l, и убывают после этого
+    while mu + i * gamma <= l or elem > tol * summ:
+        elem *= l / (mu + i * gamma)
+        summ += elem
         i += 1
 
-    return 1.0 / (1.0 + summ)
+    return 1.0 / summ
 
 
 def get_p(l, mu, gamma, tol=1e-12, max_num=100000):
@@ -40,16 +31,9 @@ def get_p(l, mu, gamma, tol=1e-12, max_num=100000):
     ps.append(p0)
 
     for i in range(1, max_num):
-        chisl = math.pow(l, i)
-        znam = mu
-        j = 1
-        while j < i:
-            znam *= (mu + j * gamma)
-            j += 1
-
-        pi = p0 * chisl / znam
+        pi = ps[-1] * l / (mu + (i - 1) * gamma)
         ps.append(pi)
-        if pi < tol:
+        if pi < tol and mu + i * gamma > l:
             break
 
     return ps
-- 
2.43.0


From 7e5bf7d9d1bf4da89585d9287fe3f1f0840fc5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:56 +0000
Subject: [PATCH 40/89] fix: mean batch size of BatchMM1.calc_l

---
 most_queue/theory/batch_mm1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/theory/batch_mm1.py b/most_queue/theory/batch_mm1.py
index 816054b..b8b00c8 100755
--- a/most_queue/theory/batch_mm1.py
+++ b/most_queue/theory/batch_mm1.py
@@ -30,7 +30,7 @@ class BatchMM1:
         """
         Mean batch size
         """
-        return sum(self.ls) / len(self.ls)
+        return self.calc_l_moments()[0]
 
     def calc_l_moments(self):
         """
-- 
2.43.0


From 2aaf08b38090a6c0783d4014c81b4927d38733fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:36 +0000
Subject: [PATCH 41/89] fix: incomplete gamma function of integer negative
 order

---
 most_queue/rand_distribution.py                   | 13 +++++++++++++
 most_queue/theory/utils/q_poisson_arrival_calc.py |  2 +-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index 57b6e7c..4426b17 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -894,6 +894,19 @@ class Gamma:
     @staticmethod
     def get_gamma_incomplete(x, z, e=1e-12):
 
+        if x <= 0:
+            # recursion from an order in [0, 1), valid at and next to integer orders too
+            steps = math.ceil(-x - 1e-7)
+            order = x + steps
+            if order < 1e-7:
+                res = sp.exp1(z)
+            else:
+                res = sp.gammaincc(order, z) * sp.gamma(order)
+            for i in range(steps):
+                order -= 1.0
+                res = (res - math.pow(z, order) * math.exp(-z)) / order
+            return res
+
         return Gamma.get_gamma(x) - Gamma.get_gamma_small(x, z, e)
 
     @staticmethod
diff --git a/most_queue/theory/utils/q_poisson_arrival_calc.py b/most_queue/theory/utils/q_poisson_arrival_calc.py
index 0cace10..efac762 100755
--- a/most_queue/theory/utils/q_poisson_arrival_calc.py
+++ b/most_queue/theory/utils/q_poisson_arrival_calc.py
@@ -49,7 +49,7 @@ def get_q_Pareto(l, alpha, K, num=100):
     q = [0.0] * num
     gammas = [0.0] * num
     z = l * K
-    gammas[0] = Gamma.get_minus_gamma(alpha) - Gamma.get_gamma_small(-alpha, z)
+    gammas[0] = Gamma.get_gamma_incomplete(-alpha, z)
 
     for j in range(1, num):
         gammas[j] = (j - alpha - 1) * gammas[j - 1] + pow(z, j - alpha - 1) * math.exp(-z)
-- 
2.43.0


From a5adb080fc29f05af8411f0c546ef038bc8e2e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:36 +0000
Subject: [PATCH 42/89] fix: arrivals during a uniform service time at every
 arrival rate

---
 most_queue/theory/utils/q_poisson_arrival_calc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/theory/utils/q_poisson_arrival_calc.py b/most_queue/theory/utils/q_poisson_arrival_calc.py
index efac762..48db02e 100755
--- a/most_queue/theory/utils/q_poisson_arrival_calc.py
+++ b/most_queue/theory/utils/q_poisson_arrival_calc.py
@@ -30,10 +30,10 @@ def get_q_uniform(l, mean, half_interval, num=100):
     for j in range(num):
         summ1 = 0
         for i in range(j + 1):
-            summ1 += l * pow(mean - half_interval, i) * math.exp(-l * (mean - half_interval)) / math.factorial(i)
+            summ1 += pow(l * (mean - half_interval), i) * math.exp(-l * (mean - half_interval)) / math.factorial(i)
         summ2 = 0
         for i in range(j + 1):
-            summ2 += l * pow(mean + half_interval, i) * math.exp(-l * (mean + half_interval)) / math.factorial(i)
+            summ2 += pow(l * (mean + half_interval), i) * math.exp(-l * (mean + half_interval)) / math.factorial(i)
         q[j] = (1.0 / (2 * l * half_interval)) * (summ1 - summ2)
 
     return q
-- 
2.43.0


From b3e1f63bc1caf70375baa1d2a0fab798b058ee63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:41 +0000
Subject: [PATCH 43/89] fix: subtraction of convolution moments uses the
 moments of the result

---
 most_queue/general_utils/conv.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/most_queue/general_utils/conv.py b/most_queue/general_utils/conv.py
index 076ba21..2d05e4d 100644
--- a/most_queue/general_utils/conv.py
+++ b/most_queue/general_utils/conv.py
@@ -1,9 +1,12 @@
 def get_moments(a, b, num=3):
     num = min(num, 3)
     res = [0] * num
-    res[0] = a[0] + b[0]
-    res[1] = a[1] + b[1] + 2 * a[0] * b[0]
-    res[2] = a[2] + b[2] + 3 * a[1] * b[0] + 3 * a[0] * b[1]
+    if num > 0:
+        res[0] = a[0] + b[0]
+    if num > 1:
+        res[1] = a[1] + b[1] + 2 * a[0] * b[0]
+    if num > 2:
+        res[2] = a[2] + b[2] + 3 * a[1] * b[0] + 3 * a[0] * b[1]
     return res
 
 
@@ -18,7 +21,10 @@ def get_self_conv_moments(b, n_times, num=3):
 def get_moments_minus(a, b, num=3):
     num = min(num, 3)
     res = [0] * num
-    res[0] = a[0] - b[0]
-    res[1] = a[1] - b[1] - 2 * a[0] * b[0]
-    res[2] = a[2] - b[2] - 3 * a[1] * b[0] - 3 * a[0] * b[1]
+    if num > 0:
+        res[0] = a[0] - b[0]
+    if num > 1:
+        res[1] = a[1] - b[1] - 2 * res[0] * b[0]
+    if num > 2:
+        res[2] = a[2] - b[2] - 3 * res[1] * b[0] - 3 * res[0] * b[1]
     return res
-- 
2.43.0


From e0fb37c9a9e8a9d8a1160770e6c05c714a97dfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:41 +0000
Subject: [PATCH 44/89] fix: GI/M/n waiting moments at every time scale

---
 most_queue/theory/gi_m_n_calc.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/most_queue/theory/gi_m_n_calc.py b/most_queue/theory/gi_m_n_calc.py
index d422802..f39e123 100755
--- a/most_queue/theory/gi_m_n_calc.py
+++ b/most_queue/theory/gi_m_n_calc.py
@@ -3,7 +3,6 @@ import math
 import numpy as np
 
 from most_queue.general_utils.conv import get_moments
-from most_queue.theory.utils.diff5dots import diff5dots
 from most_queue.rand_distribution import Gamma, Pareto_dist
 
 
@@ -83,16 +82,11 @@ def get_w_pls(n, mu, pn, w, s):
 def get_w(a, mu, n, num=100, e=1e-10, approx_distr="Gamma"):
     pi = get_pi(a, mu, n, num, e, approx_distr)
     pn = pi[n]
-    pls = []
     w_param = get_w_param(a, mu, n, e, approx_distr)
-    h = 0.001
-    s = 0
-    for i in range(5):
-        pls.append(get_w_pls(n, mu, pn, w_param, s))
-        s += h
-    w = diff5dots(pls, h)
-    w[0] = - w[0]
-    w[2] = - w[2]
+    w = [0.0] * 3
+    for k in range(3):
+        # (-1)^(k+1) * (k+1)-th derivative of get_w_pls at s = 0
+        w[k] = math.factorial(k + 1) * n * mu * pn / pow(n * mu * (1.0 - w_param), k + 2)
     return w
 
 
-- 
2.43.0


From bbb1d83060027cb5b6250c840407ffcf0687cd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:41 +0000
Subject: [PATCH 45/89] fix: GI/M/n probabilities when the decay root meets a
 whole number of servers

---
 most_queue/theory/gi_m_n_calc.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/most_queue/theory/gi_m_n_calc.py b/most_queue/theory/gi_m_n_calc.py
index f39e123..521cebb 100755
--- a/most_queue/theory/gi_m_n_calc.py
+++ b/most_queue/theory/gi_m_n_calc.py
@@ -33,8 +33,8 @@ def get_pi(a, mu, n, num=100, e=1e-10, approx_distr="Gamma"):
 
         A[k, n] = 0
         for i in range(n - k + 1):
-            A[k, n] += pow(-1, i) * math.factorial(n) * (get_b0(a, k + i, mu, approx_distr) - w) / (
-                    math.factorial(k) * math.factorial(i) * math.factorial(n - k - i) * (n * (1 - w) - (k + i)))
+            A[k, n] += pow(-1, i) * math.factorial(n) * get_b0_slope(a, k + i, mu, n, w, approx_distr) / (
+                    math.factorial(k) * math.factorial(i) * math.factorial(n - k - i))
         A[k, n] = n * A[k, n]
         A[k, k] = A[k, k] - 1
     pi_to_n = np.linalg.solve(A, B)
@@ -68,6 +68,19 @@ def get_b0(a, j, mu, approx_distr="Gamma"):
     return 0
 
 
+def get_b0_slope(a, j, mu, n, w, approx_distr="Gamma"):
+    """
+    (b0(j) - w) / (n * (1 - w) - j), where b0(n * (1 - w)) = w. If j is close to n * (1 - w),
+    both parts vanish and the ratio is the derivative of b0 taken with the opposite sign
+    """
+    x = n * (1 - w)
+    if math.fabs(x - j) > 1e-4:
+        return (get_b0(a, j, mu, approx_distr) - w) / (x - j)
+    h = 1e-3
+    mid = (x + j) / 2.0
+    return (get_b0(a, mid - h, mu, approx_distr) - get_b0(a, mid + h, mu, approx_distr)) / (2 * h)
+
+
 def get_v(a, mu, n, num=100, e=1e-10, approx_distr="Gamma"):
     w = get_w(a, mu, n, num, e, approx_distr)
     b = [1 / mu, 2 / pow(mu, 2), 6 / pow(mu, 3), 24 / pow(mu, 4)]
-- 
2.43.0


From 54d5c211c25bbdea71fe67f54cb44450aebffa06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:41 +0000
Subject: [PATCH 46/89] fix: GI/M/1 probability of an empty system at arrivals
 for Pareto intervals

---
 most_queue/theory/gi_m_1_calc.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/most_queue/theory/gi_m_1_calc.py b/most_queue/theory/gi_m_1_calc.py
index f4d0566..7994236 100755
--- a/most_queue/theory/gi_m_1_calc.py
+++ b/most_queue/theory/gi_m_1_calc.py
@@ -2,7 +2,6 @@ import math
 
 from most_queue.general_utils.conv import get_moments_minus
 from most_queue.rand_distribution import Gamma, Pareto_dist
-from most_queue.theory.utils.q_poisson_arrival_calc import get_q_Gamma
 
 
 def get_pi(a, mu, num=100, e=1e-10, approx_distr="Gamma"):
@@ -14,15 +13,8 @@ def get_pi(a, mu, num=100, e=1e-10, approx_distr="Gamma"):
     """
     pi = [0.0] * num
 
-    v, alpha = Gamma.get_mu_alpha(a)
-
-    q = get_q_Gamma(mu, v, alpha)
-    summ = 0
     w = get_w_param(a, mu, e, approx_distr)
-    for i in range(len(q)):
-        summ += q[i] * pow(w, i)
-    pi[0] = 1.0 - summ
-    for k in range(1, num):
+    for k in range(num):
         pi[k] = (1.0 - w) * pow(w, k)
     return pi
 
-- 
2.43.0


From c367815e976f48ff6909acd3c4c055327d139308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:31 +0000
Subject: [PATCH 47/89] fix: M/D/n and Ek/D/n root search and linear system
 solved to the requested accuracy

---
 most_queue/theory/ek_d_n_calc.py | 4 ++--
 most_queue/theory/m_d_n_calc.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/most_queue/theory/ek_d_n_calc.py b/most_queue/theory/ek_d_n_calc.py
index 0914680..f5ffc07 100755
--- a/most_queue/theory/ek_d_n_calc.py
+++ b/most_queue/theory/ek_d_n_calc.py
@@ -93,7 +93,7 @@ class Ek_D_n:
                 A[self.n * self.k - 1, i] = coef
 
         B[self.n * self.k - 1] = self.n - self.l * self.b / self.k
-        w = np.linalg.lstsq(A, B, rcond=1e-8)
+        w = np.linalg.lstsq(A, B, rcond=1e-16)
         w_real = []
         for i in range(len(w[0])):
             w_real.append(w[0][i].real)
@@ -140,7 +140,7 @@ class Ek_D_n:
                 left = 2 * (m + 1) * cmath.pi * complex(0, 1) / (self.n * self.k)
                 right = self.l * self.b * (1.0 - z_old) / (self.n * self.k)
                 z_new = cmath.exp(left - right)
-                if math.fabs(z_new.real - z_old.real) < self.e:
+                if abs(z_new - z_old) < self.e:
                     is_close = True
                 z_old = z_new
             z[m] = z_old
diff --git a/most_queue/theory/m_d_n_calc.py b/most_queue/theory/m_d_n_calc.py
index 6400af2..d9483c0 100755
--- a/most_queue/theory/m_d_n_calc.py
+++ b/most_queue/theory/m_d_n_calc.py
@@ -45,7 +45,7 @@ class M_D_n:
             A[self.n - 1, j] = self.n - j
 
         B[self.n - 1] = self.n - self.l * self.b
-        p = np.linalg.lstsq(A, B, rcond=1e-8)
+        p = np.linalg.lstsq(A, B, rcond=1e-16)
         p_real = []
         for i in range(len(p[0])):
             p_real.append(p[0][i].real)
@@ -102,7 +102,7 @@ class M_D_n:
                 left = 2 * (m + 1) * cmath.pi * complex(0, 1) / self.n
                 right = self.l * self.b * (1.0 - z_old) / self.n
                 z_new = cmath.exp(left - right)
-                if math.fabs(z_new.real - z_old.real) < self.e:
+                if abs(z_new - z_old) < self.e:
                     is_close = True
                 z_old = z_new
             z[m] = z_old
-- 
2.43.0


From 84c6e789c297f57ac58a150d867cbfc5dfa8a189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:31 +0000
Subject: [PATCH 48/89] fix: M/D/n and Ek/D/n probabilities beyond the channels
 do not lose the tail to an unstable recursion

---
 most_queue/theory/ek_d_n_calc.py | 52 +++---------------------
 most_queue/theory/m_d_n_calc.py  | 70 +++++++++++++++++++-------------
 2 files changed, 47 insertions(+), 75 deletions(-)

diff --git a/most_queue/theory/ek_d_n_calc.py b/most_queue/theory/ek_d_n_calc.py
index f5ffc07..ab0e99c 100755
--- a/most_queue/theory/ek_d_n_calc.py
+++ b/most_queue/theory/ek_d_n_calc.py
@@ -2,6 +2,8 @@ import numpy as np
 import math
 import cmath
 
+from most_queue.theory.m_d_n_calc import get_probs
+
 
 class Ek_D_n:
     """
@@ -23,50 +25,13 @@ class Ek_D_n:
         self.e = e
         self.p = [0.0] * p_num
         self.p_num = p_num
-        self.w = [0.0] * (2 * p_num)
+        self.w = [0.0] * (k * p_num)
 
     def calc_w(self):
-        self.calc_q()
         w_up_to_nk = self.calc_w_up_to_nk()
-        self.w[:len(w_up_to_nk)] = w_up_to_nk[:]
-        for i in range(self.k):
-            summ1 = 0
-            for m in range(i + 1):
-                q = self.q_[i - m]
-                summ2 = 0
-                for j in range(self.n):
-                    summ2 += self.w[j * self.k + m]
-                summ1 += q * summ2
-            summ3 = 0
-            for m in range(i):
-                summ3 += self.q_[i - m] * self.w[self.n * self.k + m]
-            self.w[self.n * self.k + i] = (self.w[i] - summ1 - summ3) / self.q_[0]
-
-        is_negative = False
-
-        for i in range(self.k, self.p_num):
-            if is_negative:
-                break
-            summ1 = 0
-            for m in range(self.k):
-                summ1 += self.get_W(self.n, m) * self.q_[i - m]
-            summ2 = 0
-            for m in range(1, i - self.k + 1):
-                summ2 += self.q_[m] * self.w[self.n * self.k + i - m]
-            value = (self.w[i] - summ1 - summ2) / self.q_[0]
-            if value < 0:
-                is_negative = True
-            else:
-                self.w[self.n * self.k + i] = value
-
+        self.w = get_probs(w_up_to_nk, self.k, self.l * self.b, len(self.w))
         return self.w
 
-    def get_W(self, n, i):
-        summ = 0
-        for j in range(n + 1):
-            summ += self.w[j * self.k + i]
-        return summ
-
     def calc_w_up_to_nk(self):
         self.get_z()
         A = np.zeros((self.n * self.k, self.n * self.k), dtype=complex)
@@ -102,7 +67,7 @@ class Ek_D_n:
     def calc_p(self):
         w = self.calc_w()
         is_zero = False
-        for j in range(len(self.w)):
+        for j in range(self.p_num):
             if is_zero:
                 break
             summ = 0
@@ -115,13 +80,6 @@ class Ek_D_n:
 
         return self.p
 
-    def calc_q(self):
-        q0 = math.exp(-self.b * self.l)
-        self.q_ = [0.0] * self.p_num
-        self.q_[0] = q0
-        for i in range(1, self.p_num):
-            self.q_[i] = self.q_[i - 1] * (self.l * self.b) / i
-
     def get_z(self):
         """
         Нахождение корней z
diff --git a/most_queue/theory/m_d_n_calc.py b/most_queue/theory/m_d_n_calc.py
index d9483c0..6da79bb 100755
--- a/most_queue/theory/m_d_n_calc.py
+++ b/most_queue/theory/m_d_n_calc.py
@@ -3,6 +3,47 @@ import math
 import cmath
 
 
+def get_probs(up_to_n, k, lb, num):
+    """
+    Вероятности состояний по их производящей функции
+    P(z) = sum w[i] * (z^(N + i mod k) - z^i) / (z^N * exp(lb * (1 - z)) - 1), N = len(up_to_n).
+    Рекуррентный расчет через предыдущие вероятности неустойчив, поэтому P(z) обращается
+    по значениям на окружности, внутри которой она не имеет особенностей.
+    up_to_n - вероятности первых N состояний
+    k - число фаз интервала между заявками
+    lb - среднее число фаз, завершившихся за время обслуживания
+    num - число вероятностей
+    """
+    w = np.array(up_to_n)
+    N = len(w)
+
+    # ближайшая особенность - корень z > 1 уравнения N * ln(z) = lb * (z - 1)
+    left, right = 1.0, 2.0
+    while N * math.log(right) > lb * (right - 1.0):
+        left, right = right, 2.0 * right
+    if left == 1.0:
+        left = N / lb
+    for _ in range(200):
+        z = 0.5 * (left + right)
+        if N * math.log(z) > lb * (z - 1.0):
+            left = z
+        else:
+            right = z
+
+    r = 1.0 + min((left - 1.0) / 2.0, 1.0 / lb)
+    points = max(2 * num, math.ceil(-40.0 / math.log(r / left)))
+    z = r * np.exp(2j * math.pi * np.arange(points) / points)
+    p_z = np.zeros(points, dtype=complex)
+    for i in range(N):
+        p_z += w[i] * (np.power(z, N + i % k) - np.power(z, i))
+    p_z /= np.power(z, N) * np.exp(lb * (1.0 - z)) - 1.0
+
+    p = np.fft.fft(p_z).real[:num] / points / np.power(r, np.arange(num))
+    p = [max(x, 0.0) for x in p.tolist()]
+    p[:N] = w.tolist()[:num]
+    return p
+
+
 class M_D_n:
     """
     Численный расчет многоканальной системы M/D/n
@@ -53,37 +94,10 @@ class M_D_n:
 
     def calc_p(self):
         p_up_to_n = self.calc_p_up_to_n()
-        self.calc_q()
-        summ = 0
-        for i in range(len(p_up_to_n)):
-            self.p[i] = p_up_to_n[i]
-            summ += self.p[i]
-
-        self.p[self.n] = self.p[0] / self.q_[0] - summ
-        u = summ + self.p[self.n]
-
-        is_negative = False
-        for k in range(self.n + 1, self.p_num):
-            if is_negative:
-                break
-            summ = 0
-            for j in range(1, k - self.n):
-                summ += self.q_[j] * self.p[k - j]
-            value = (self.p[k - self.n] - u * self.q_[k - self.n] - summ) / self.q_[0]
-            if value < 0:
-                is_negative = True
-            else:
-                self.p[k] = value
+        self.p = get_probs(p_up_to_n, 1, self.l * self.b, self.p_num)
 
         return self.p
 
-    def calc_q(self):
-        q0 = math.exp(-self.b * self.l)
-        self.q_ = [0.0] * self.p_num
-        self.q_[0] = q0
-        for i in range(1, self.p_num):
-            self.q_[i] = self.q_[i - 1] * (self.l * self.b) / i
-
     def get_z(self):
         """
         Нахождение корней z
-- 
2.43.0


From fb8a6b6c43de75b9966f5fe0d009f8b99cb6da54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:00 +0000
Subject: [PATCH 49/89] fix: M/G/n with a limited queue: blocked arrivals in
 the last tier, zero and long queues, load one

---
 most_queue/theory/mgn_tt.py | 41 +++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/most_queue/theory/mgn_tt.py b/most_queue/theory/mgn_tt.py
index 334a872..c1fc0a2 100755
--- a/most_queue/theory/mgn_tt.py
+++ b/most_queue/theory/mgn_tt.py
@@ -22,9 +22,10 @@ class MGnCalc:
         accuracy: точность, параметр для остановки итерации
         """
         self.dt = np.dtype(dtype)
-        if buffer:
+        if buffer is not None:
             self.R = buffer + n  # максимальное число заявок в сисетеме - очередь + каналы
             self.N = self.R + 1  # число ярусов на один больше + нулевое состояние
+            N = max(N, self.N)
         else:
             self.N = N
             self.R = None  # для проверки задан ли буфер
@@ -194,12 +195,10 @@ class MGnCalc:
             znam += np.dot((self.n - j), prod1)
 
         if self.R:
-            prod2 = 1
-            for i in range(0, self.N):
-                prod2 *= self.x[i]
-            znam -= f1 * self.l * prod2
-
-        self.p[0] = (self.n - self.l * f1) / znam
+            # конечное число состояний: достаточно нормировки (загрузка может быть и не меньше 1)
+            self.p[0] = 1.0 + 0.0j
+        else:
+            self.p[0] = (self.n - self.l * f1) / znam
 
         summ_p = self.p[0]
 
@@ -241,6 +240,9 @@ class MGnCalc:
         for j in range(1, self.N):
             if j != (self.N - 1):
                 self.BG.append(np.dot(self.B[j + 1], self.G[j]))
+            elif self.R:
+                # в последний ярус с ограниченной очередью можно попасть только снизу
+                self.BG.append(None)
             else:
                 self.BG.append(np.dot(self.B[j], self.G[j]))
 
@@ -275,6 +277,12 @@ class MGnCalc:
                 # b':
                 self.b1[j] = np.dot(self.t[j - 1], self.AG[j])
 
+                if self.R and j == (self.N - 1):
+                    self.x[j] = 0.0 + 0.0j
+                    self.z[j] = (1.0 + 0.0j) / np.sum(self.b1[j])
+                    self.t[j] = self.z[j] * self.b1[j]
+                    continue
+
                 # b":
                 if j != (self.N - 1):
                     self.b2[j] = np.dot(self.t[j + 1], self.BG[j])
@@ -290,19 +298,8 @@ class MGnCalc:
 
                 self.x[j] = (1.0 + 0.0j) / self.x[j]
 
-                if self.R and j == (self.N - 1):
-                    tA = np.dot(self.t[j - 1], self.A[j - 1])
-                    tag = np.dot(tA, self.G[j])
-                    tag_sum = 0
-                    for t_i in range(tag.shape[1]):
-                        tag_sum += tag[0, t_i]
-                    self.z[j] = 1.0 / tag_sum
-                    self.t[j] = self.z[j] * tag
-
-                else:
-
-                    self.z[j] = np.dot(c, self.x[j])
-                    self.t[j] = np.dot(self.z[j], self.b1[j]) + np.dot(self.x[j], self.b2[j])
+                self.z[j] = np.dot(c, self.x[j])
+                self.t[j] = np.dot(self.z[j], self.b1[j]) + np.dot(self.x[j], self.b2[j])
 
             self.x[0] = (1.0 + 0.0j) / self.z[1]
 
@@ -432,6 +429,10 @@ class MGnCalc:
 
         output = np.zeros((row, col), dtype=self.dt)
 
+        if self.R and num == self.R:
+            # очередь заполнена, новые заявки не принимаются
+            is_v_calc = True
+
         if num > self.n:
             if is_v_calc:
                 output = self.buildD(self.n, is_v_calc=True)
-- 
2.43.0


From 80060b391752e2178a6cc65e520edb42dab98b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:47 +0000
Subject: [PATCH 50/89] fix: M/G/n waiting moments with a limited queue are
 those of accepted jobs

---
 most_queue/theory/mgn_tt.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/most_queue/theory/mgn_tt.py b/most_queue/theory/mgn_tt.py
index c1fc0a2..fa16954 100755
--- a/most_queue/theory/mgn_tt.py
+++ b/most_queue/theory/mgn_tt.py
@@ -89,6 +89,9 @@ class MGnCalc:
         """
         w = [0.0] * 3
 
+        if self.R:
+            return self.get_w_buffer()
+
         for j in range(1, len(self.p) - self.n):
             w[0] += j * self.p[self.n + j]
         for j in range(2, len(self.p) - self.n):
@@ -102,6 +105,27 @@ class MGnCalc:
 
         return w
 
+    def get_w_buffer(self):
+        """
+        Возвращает три первых начальных момента времени ожидания принятых заявок
+        в СМО с ограниченной очередью
+        """
+        w = [0.0] * 3
+        rates = self.buildD(self.n, is_v_calc=True).diagonal().reshape(-1, 1)
+        accepted = 1.0 - self.p[self.R]
+
+        # mom[k] - моменты порядка k времени ожидания заявки, стоящей в очереди перед остальными, по микросостояниям
+        mom = [np.ones((self.cols[self.n], 1), dtype=self.dt)] + [np.zeros((self.cols[self.n], 1), dtype=self.dt)] * 3
+        for j in range(self.n, self.R):
+            new_mom = [mom[0]]
+            for k in range(1, 4):
+                new_mom.append((k * new_mom[k - 1] + np.dot(self.B[self.n + 1], mom[k])) / rates)
+            mom = new_mom
+            for k in range(3):
+                w[k] += np.dot(self.Y[j], mom[k + 1])[0, 0] / accepted
+
+        return [x.real for x in w]
+
     def get_v(self):
         """
         Возвращает три первых начальных момента времени пребывания в СМО
-- 
2.43.0


From 070e00bb3f34965404ba4a81f6431c3dadd13f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:13 +0000
Subject: [PATCH 51/89] fix: M/G/n iterations stop only when the state
 probabilities stopped changing

---
 most_queue/theory/mgn_tt.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/most_queue/theory/mgn_tt.py b/most_queue/theory/mgn_tt.py
index fa16954..276f83e 100755
--- a/most_queue/theory/mgn_tt.py
+++ b/most_queue/theory/mgn_tt.py
@@ -235,6 +235,13 @@ class MGnCalc:
 
         self.norm_probs()
 
+    def calc_relative_p(self):
+        """
+        Вероятности ярусов по текущим х с точностью до нормировки
+        """
+        p = np.cumprod([1.0 + 0.0j] + [np.sum(self.x[i]) for i in range(self.N - 1)])
+        return (p / np.sum(p)).real
+
     def calculate_y(self):
         for i in range(self.N):
             self.Y.append(np.dot(self.p[i], self.t[i]))
@@ -292,8 +299,13 @@ class MGnCalc:
             if self.x[i].real > x_max1.real:
                 x_max1 = self.x[i]
 
-        while math.fabs(x_max2.real - x_max1.real) >= self.e1:
+        p_old = np.zeros(self.N)
+        p_new = self.calc_relative_p()
+
+        # итерации заканчиваются, когда не меняются ни наибольшее из х, ни вероятности ярусов
+        while math.fabs(x_max2.real - x_max1.real) >= self.e1 or np.max(np.abs(p_new - p_old)) >= self.e1:
             x_max2 = x_max1
+            p_old = p_new
             self.num_of_iter_ += 1
 
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
@@ -337,6 +349,8 @@ class MGnCalc:
                 if self.x[i].real > x_max1.real:
                     x_max1 = self.x[i]
 
+            p_new = self.calc_relative_p()
+
             if self.verbose:
                 print("End iter # {0:d}".format(self.num_of_iter_))
 
-- 
2.43.0


From a47ff4d777578e56b1895442ba8f44cb0934bc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:37 +0000
Subject: [PATCH 52/89] fix: waiting and sojourn moments of the multichannel
 models with warm-up and cooling

Numeric differentiation at a fixed step lost all accuracy at other time scales, the waiting
of jobs that start the warm-up was not counted in M/H2/n with H2 warm-up, the first job of a
busy period was not counted with its own service; iterations could stop too early.
---
 most_queue/theory/m_h2_h2warm.py              | 49 ++++++++++++++++---
 .../theory/mgn_with_h2_delay_cold_warm.py     | 47 ++++++++++++------
 .../theory/mmn_with_h2_cold_and_h2_warmup.py  | 41 ++++++++++++----
 3 files changed, 104 insertions(+), 33 deletions(-)

diff --git a/most_queue/theory/m_h2_h2warm.py b/most_queue/theory/m_h2_h2warm.py
index 366db25..21ef22f 100755
--- a/most_queue/theory/m_h2_h2warm.py
+++ b/most_queue/theory/m_h2_h2warm.py
@@ -1,7 +1,6 @@
 import math
 
 import numpy as np
-from scipy.misc import derivative
 
 from most_queue.theory.utils.passage_time import passage_time_calc
 from most_queue.rand_distribution import H2_dist
@@ -216,6 +215,22 @@ class Mh2h2Warm:
         res = self.b[mom_num + 1] / (2.0 * self.b[mom_num])
         return res
 
+    def get_w_by_queue(self):
+        """
+        Моменты времени ожидания по факториальным моментам числа ожидающих заявок (входящий поток пуассоновский,
+        дисциплина FCFS). При разогреве и охлаждении ожидают все заявки, при обслуживании - не поместившиеся в каналы
+        """
+        w = [0.0] * 3
+        for k in range(1, self.N):
+            total = np.sum(self.Y[k])
+            idle = np.sum(self.Y[k][0, :2])
+            for num, prob in ((k, idle), (max(k - self.n, 0), total - idle)):
+                w[0] += num * prob
+                w[1] += num * (num - 1) * prob
+                w[2] += num * (num - 1) * (num - 2) * prob
+
+        return [w[j].real / math.pow(self.l, j + 1) for j in range(3)]
+
     def get_w(self):
         """
         Возвращает три первых начальных момента времени ожидания в СМО
@@ -238,9 +253,7 @@ class Mh2h2Warm:
             return w
 
         else:
-            for i in range(3):
-                w[i] = derivative(self.calc_w_pls, 0, dx=1e-3 / self.b[0], n=i + 1, order=9)
-            return [-w[0], w[1].real, -w[2]]
+            return self.get_w_by_queue()
 
     def get_v(self):
         """
@@ -249,9 +262,15 @@ class Mh2h2Warm:
         v = [0.0] * 3
         w = self.get_w()
         b = self.b
-        v[0] = w[0] + b[0]
-        v[1] = w[1] + 2 * w[0] * b[0] + b[1]
-        v[2] = w[2] + 3 * w[1] * b[0] + 3 * w[0] * b[1] + b[2]
+        if self.is_only_first:
+            # заставшие СМО пустой обслуживаются с разогревом, остальные - ждут и обслуживаются обычным образом
+            p0 = self.p[0].real
+            b_mix = [p0 * self.b_warm[k] + (1.0 - p0) * b[k] for k in range(3)]
+        else:
+            b_mix = b
+        v[0] = w[0] + b_mix[0]
+        v[1] = w[1] + 2 * w[0] * b[0] + b_mix[1]
+        v[2] = w[2] + 3 * w[1] * b[0] + 3 * w[0] * b[1] + b_mix[2]
 
         return v
 
@@ -326,6 +345,13 @@ class Mh2h2Warm:
 
         self.norm_probs()
 
+    def calc_relative_p(self):
+        """
+        Вероятности ярусов по текущим х с точностью до нормировки
+        """
+        p = np.cumprod([1.0 + 0.0j] + [np.sum(self.x[i]) for i in range(self.N - 1)])
+        return (p / np.sum(p)).real
+
     def calculate_y(self):
         for i in range(self.N):
             self.Y.append(np.dot(self.p[i], self.t[i]))
@@ -385,8 +411,13 @@ class Mh2h2Warm:
             if self.x[i].real > x_max1.real:
                 x_max1 = self.x[i]
 
-        while math.fabs(x_max2.real - x_max1.real) >= self.e1:
+        p_old = np.zeros(self.N)
+        p_new = self.calc_relative_p()
+
+        # итерации заканчиваются, когда не меняются ни наибольшее из х, ни вероятности ярусов
+        while math.fabs(x_max2.real - x_max1.real) >= self.e1 or np.max(np.abs(p_new - p_old)) >= self.e1:
             x_max2 = x_max1
+            p_old = p_new
             self.num_of_iter_ += 1
 
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
@@ -447,6 +478,8 @@ class Mh2h2Warm:
                 if self.x[i].real > x_max1.real:
                     x_max1 = self.x[i]
 
+            p_new = self.calc_relative_p()
+
             if self.verbose:
                 print("End iter # {0:d}".format(self.num_of_iter_))
 
diff --git a/most_queue/theory/mgn_with_h2_delay_cold_warm.py b/most_queue/theory/mgn_with_h2_delay_cold_warm.py
index af5dc87..cce3076 100755
--- a/most_queue/theory/mgn_with_h2_delay_cold_warm.py
+++ b/most_queue/theory/mgn_with_h2_delay_cold_warm.py
@@ -1,8 +1,6 @@
 import math
-from itertools import chain
 
 import numpy as np
-from scipy.misc import derivative
 
 from most_queue.rand_distribution import H2_dist
 from most_queue.theory.utils.binom_probs import calc_binom_probs
@@ -298,24 +296,27 @@ class MGnH2ServingColdWarmDelay:
     def get_idle_prob(self):
         return self.Y[0][0, 0]
 
-    def get_w(self):
+    def get_w_by_queue(self):
         """
-        Возвращает три первых начальных момента времени ожидания в СМО
+        Моменты времени ожидания по факториальным моментам числа ожидающих заявок (входящий поток пуассоновский,
+        дисциплина FCFS). При разогреве и охлаждении ожидают все заявки, при обслуживании - не поместившиеся в каналы
         """
         w = [0.0] * 3
+        for k in range(1, self.N):
+            total = np.sum(self.Y[k])
+            idle = self.Y[k][0, 0] + self.Y[k][0, 1] + self.Y[k][0, -2] + self.Y[k][0, -1]
+            for num, prob in ((k, idle), (max(k - self.n, 0), total - idle)):
+                w[0] += num * prob
+                w[1] += num * (num - 1) * prob
+                w[2] += num * (num - 1) * (num - 2) * prob
 
-        for i in range(3):
-            if self.stable_w_pls:
-                max_mu = np.max(list(chain(np.array(self.mu_w).astype('float'), np.array(self.mu_c).astype('float'),
-                                   np.array(self.mu).astype('float'))))
+        return [w[j].real / math.pow(self.l, j + 1) for j in range(3)]
 
-                dx = self.w_pls_dt / max_mu
-            else:
-                dx = self.w_pls_dt
-            w[i] = derivative(self.calc_w_pls, 0, dx=dx, n=i + 1, order=9)
-
-        w = [w_moment.real if isinstance(w_moment, complex) else w_moment for w_moment in w]
-        return [-w[0].real, w[1].real, -w[2].real]
+    def get_w(self):
+        """
+        Возвращает три первых начальных момента времени ожидания в СМО
+        """
+        return self.get_w_by_queue()
 
     def get_v(self):
         """
@@ -413,6 +414,13 @@ class MGnH2ServingColdWarmDelay:
 
         self.norm_probs()
 
+    def calc_relative_p(self):
+        """
+        Вероятности ярусов по текущим х с точностью до нормировки
+        """
+        p = np.cumprod([1.0 + 0.0j] + [np.sum(self.x[i]) for i in range(self.N - 1)])
+        return (p / np.sum(p)).real
+
     def calculate_y(self):
         for i in range(self.N):
             self.Y.append(np.dot(self.p[i], self.t[i]))
@@ -472,8 +480,13 @@ class MGnH2ServingColdWarmDelay:
             if self.x[i].real > x_max1.real:
                 x_max1 = self.x[i]
 
-        while math.fabs(x_max2.real - x_max1.real) >= self.e1:
+        p_old = np.zeros(self.N)
+        p_new = self.calc_relative_p()
+
+        # итерации заканчиваются, когда не меняются ни наибольшее из х, ни вероятности ярусов
+        while math.fabs(x_max2.real - x_max1.real) >= self.e1 or np.max(np.abs(p_new - p_old)) >= self.e1:
             x_max2 = x_max1
+            p_old = p_new
             self.num_of_iter_ += 1
 
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
@@ -534,6 +547,8 @@ class MGnH2ServingColdWarmDelay:
                 if self.x[i].real > x_max1.real:
                     x_max1 = self.x[i]
 
+            p_new = self.calc_relative_p()
+
             if self.verbose:
                 print("End iter # {0:d}".format(self.num_of_iter_))
 
diff --git a/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py b/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py
index 758b12b..642bf35 100755
--- a/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py
+++ b/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py
@@ -1,8 +1,6 @@
 import math
-from itertools import chain
 
 import numpy as np
-from scipy.misc import derivative
 
 from most_queue.rand_distribution import H2_dist
 
@@ -169,16 +167,27 @@ class MMn_H2warm_H2cold:
 
         return w
 
-    def get_w(self):
+    def get_w_by_queue(self):
         """
-        Возвращает три первых начальных момента времени ожидания в СМО
+        Моменты времени ожидания по факториальным моментам числа ожидающих заявок (входящий поток пуассоновский,
+        дисциплина FCFS). При разогреве и охлаждении ожидают все заявки, при обслуживании - не поместившиеся в каналы
         """
         w = [0.0] * 3
+        for k in range(1, self.N):
+            total = np.sum(self.Y[k])
+            idle = self.Y[k][0, 0] + self.Y[k][0, 1] + self.Y[k][0, -2] + self.Y[k][0, -1]
+            for num, prob in ((k, idle), (max(k - self.n, 0), total - idle)):
+                w[0] += num * prob
+                w[1] += num * (num - 1) * prob
+                w[2] += num * (num - 1) * (num - 2) * prob
 
-        for i in range(3):
-            min_mu = min(chain(np.array(self.mu_w).astype('float'), np.array(self.mu_c).astype('float'), [self.mu]))
-            w[i] = derivative(self.calc_w_pls, 0, dx=1e-3 / min_mu, n=i + 1, order=9)
-        return [-w[0], w[1], -w[2]]
+        return [w[j].real / math.pow(self.l, j + 1) for j in range(3)]
+
+    def get_w(self):
+        """
+        Возвращает три первых начальных момента времени ожидания в СМО
+        """
+        return self.get_w_by_queue()
 
     def get_b(self):
         return [1.0 / self.mu, 2.0 / pow(self.mu, 2), 6.0 / pow(self.mu, 3)]
@@ -297,6 +306,13 @@ class MMn_H2warm_H2cold:
 
         self.norm_probs()
 
+    def calc_relative_p(self):
+        """
+        Вероятности ярусов по текущим х с точностью до нормировки
+        """
+        p = np.cumprod([1.0 + 0.0j] + [np.sum(self.x[i]) for i in range(self.N - 1)])
+        return (p / np.sum(p)).real
+
     def calculate_y(self):
         # sum_y = 0.0
         for i in range(self.N):
@@ -359,8 +375,13 @@ class MMn_H2warm_H2cold:
             if self.x[i].real > x_max1.real:
                 x_max1 = self.x[i]
 
-        while math.fabs(x_max2.real - x_max1.real) >= self.e1:
+        p_old = np.zeros(self.N)
+        p_new = self.calc_relative_p()
+
+        # итерации заканчиваются, когда не меняются ни наибольшее из х, ни вероятности ярусов
+        while math.fabs(x_max2.real - x_max1.real) >= self.e1 or np.max(np.abs(p_new - p_old)) >= self.e1:
             x_max2 = x_max1
+            p_old = p_new
             self.num_of_iter_ += 1
 
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
@@ -421,6 +442,8 @@ class MMn_H2warm_H2cold:
                 if self.x[i].real > x_max1.real:
                     x_max1 = self.x[i]
 
+            p_new = self.calc_relative_p()
+
             if self.verbose:
                 print(f"End iter # {self.num_of_iter_:d}, x_max: {x_max1}")
 
-- 
2.43.0


From 9e73a9feac2e92cf99aca07c9d3f26ecb4c72360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:22 +0000
Subject: [PATCH 53/89] fix: M/G/1 with warm-up sojourn moments at every time
 scale

---
 most_queue/theory/mg1_warm_calc.py    | 25 ++++++--------
 most_queue/theory/utils/pls_series.py | 48 +++++++++++++++++++++++++++
 2 files changed, 58 insertions(+), 15 deletions(-)
 create mode 100644 most_queue/theory/utils/pls_series.py

diff --git a/most_queue/theory/mg1_warm_calc.py b/most_queue/theory/mg1_warm_calc.py
index ec1ad83..582d705 100755
--- a/most_queue/theory/mg1_warm_calc.py
+++ b/most_queue/theory/mg1_warm_calc.py
@@ -1,4 +1,4 @@
-from most_queue.theory.utils.diff5dots import diff5dots
+from most_queue.theory.utils.pls_series import moments_to_series, series_div, series_to_moments
 from most_queue.rand_distribution import Gamma
 
 
@@ -9,21 +9,16 @@ def get_v(l, b, b_warm):
     b_param = Gamma.get_mu_alpha(b)
     b_warm_param = Gamma.get_mu_alpha(b_warm)
 
-    h = 0.0001
-    steps = 5
+    # ряды ПЛС времени обслуживания и разогрева
+    b_pls = moments_to_series(Gamma.calc_theory_moments(*b_param, 4))
+    b_warm_pls = moments_to_series(Gamma.calc_theory_moments(*b_warm_param, 4))
 
-    v_pls = []
+    # ПЛС времени пребывания
+    # p0_star * ((1 - s / l) * b_warm_pls - b_pls) / (1 - s / l - b_pls), общий множитель s сокращен
+    chisl = [p0_star * (b_warm_pls[k] - b_warm_pls[k - 1] / l - b_pls[k]) for k in range(1, 5)]
+    znam = [-b_pls[k] for k in range(1, 5)]
+    znam[0] -= 1 / l
 
-    for c in range(1, steps):
-        s = h * c
-        chisl = p0_star * ((1 - s / l) * Gamma.get_pls(*b_warm_param, s) - Gamma.get_pls(*b_param, s))
-        znam = 1 - s / l - Gamma.get_pls(*b_param, s)
-        v_pls.append(chisl / znam)
-
-    v = diff5dots(v_pls, h)
-    v[0] = -v[0]
-    v[2] = -v[2]
-
-    return v
+    return series_to_moments(series_div(chisl, znam))
 
 
diff --git a/most_queue/theory/utils/pls_series.py b/most_queue/theory/utils/pls_series.py
new file mode 100644
index 0000000..c707841
--- /dev/null
+++ b/most_queue/theory/utils/pls_series.py
@@ -0,0 +1,48 @@
+"""
+Преобразование Лапласа-Стилтьеса, представленное начальным отрезком степенного ряда в нуле:
+a[0] + a[1]*s + a[2]*s^2 + ...
+"""
+import math
+
+
+def moments_to_series(b):
+    """
+    Ряд ПЛС распределения по его начальным моментам b[0], b[1], ...
+    """
+    return [1.0] + [(-1) ** (k + 1) * b[k] / math.factorial(k + 1) for k in range(len(b))]
+
+
+def series_to_moments(a):
+    """
+    Начальные моменты по ряду ПЛС
+    """
+    return [(-1) ** k * math.factorial(k) * a[k] for k in range(1, len(a))]
+
+
+def series_mul(a, b):
+    """
+    Произведение рядов
+    """
+    return [sum(a[i] * b[k - i] for i in range(k + 1)) for k in range(min(len(a), len(b)))]
+
+
+def series_div(a, b):
+    """
+    Частное рядов, b[0] не равно нулю
+    """
+    res = []
+    for k in range(min(len(a), len(b))):
+        res.append((a[k] - sum(res[i] * b[k - i] for i in range(k))) / b[0])
+    return res
+
+
+def series_compose(a, inner):
+    """
+    Подстановка ряда inner без свободного члена вместо s в ряд a
+    """
+    num = min(len(a), len(inner))
+    res = [0.0] * num
+    for k in reversed(range(num)):
+        res = series_mul(res, inner)
+        res[0] += a[k]
+    return res
-- 
2.43.0


From 29d02b779a94659f0cbd5989cc1370ac04982e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:22 +0000
Subject: [PATCH 54/89] fix: fifth moments of busy periods

---
 most_queue/theory/priority_calc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index 3f9813d..4a8d964 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -89,7 +89,7 @@ def ppnz_calc(l, b, num=5):
         pnz.append(chisl / (1 - ro))
     if num > 4:
         chisl = b[4] * math.pow(z, 5) + 10 * b[3] * l * pnz[1] * math.pow(z, 3) + \
-                b[2] * (15 * math.pow(l * pnz[1], 2) * z + 10 * l * pnz[2 * z * z]) + b[1] * (
+                b[2] * (15 * math.pow(l * pnz[1], 2) * z + 10 * l * pnz[2] * z * z) + b[1] * (
                         5 * l * pnz[3] * z + 10 * l * l * pnz[1] * pnz[2])
         pnz.append(chisl / (1 - ro))
 
@@ -148,8 +148,8 @@ def ppnz_calc_warm_up(l, f, pnz, num=5):
                            + 6 * f[2] * l * pnz[1] * z * z + f[3] * math.pow(z, 4))
     if num > 4:
         pnz_warm_up.append(f[0] * l * pnz[4] + f[1] * (5 * l * pnz[3] * z + 10 * l * l * pnz[1] * pnz[2]) +
-                           f[2] * (15 * math.pow(l * pnz[1], 2) * z + 10 * f[3] * l * pnz[1] * math.pow(z, 3) + f[
-            4] * math.pow(z, 5)))
+                           f[2] * (15 * math.pow(l * pnz[1], 2) * z + 10 * l * pnz[2] * z * z)
+                           + 10 * f[3] * l * pnz[1] * math.pow(z, 3) + f[4] * math.pow(z, 5))
 
     return pnz_warm_up
 
-- 
2.43.0


From 1e867c68a3240e606f30bdc9c282d373a025cf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:22 +0000
Subject: [PATCH 55/89] fix: second moment of waiting in Klimov's formulas for
 preemptive priority

---
 most_queue/theory/priority_calc.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index 4a8d964..f3915ae 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -111,15 +111,13 @@ def climov_w_pr_calc(l, b):
         ro_k[k] = 1 - ro_k_j[k][0]
     for k in range(k_num):
         w.append([0.0] * 2)
-        if k != 0:
-            w[k][0] = ro_k_j[k][1] / (2 * ro_k[k - 1] * ro_k[k])
-            w[k][1] = ro_k_j[k][2] / (3 * ro_k[k]) + (ro_k_j[k][2]) / (
-                    2 * math.pow(ro_k[k], 2)) + \
-                      (ro_k_j[k][1]) / (2 * ro_k[k])
+        if k == 0:
+            w[k][0] = ro_k_j[k][1] / (2 * ro_k[k])
+            w[k][1] = ro_k_j[k][2] / (3 * ro_k[k]) + math.pow(ro_k_j[k][1], 2) / (2 * math.pow(ro_k[k], 2))
 
         else:
-            w[k][0] = ro_k_j[k][1] / (2 * ro_k[k])
-            w[k][1] = ro_k_j[k][2] / (3 * math.pow(ro_k[k - 1], 3) * ro_k[k]) + (ro_k_j[k][2] * ro_k_j[k - 1][1]) / (
+            w[k][0] = ro_k_j[k][1] / (2 * ro_k[k - 1] * ro_k[k])
+            w[k][1] = ro_k_j[k][2] / (3 * math.pow(ro_k[k - 1], 2) * ro_k[k]) + math.pow(ro_k_j[k][1], 2) / (
                     2 * math.pow(ro_k[k - 1], 2) * math.pow(ro_k[k], 2)) + \
                       (ro_k_j[k][1] * ro_k_j[k - 1][1]) / (2 * math.pow(ro_k[k - 1], 3) * ro_k[k])
 
-- 
2.43.0


From cc07b6c94a9d2b8a7f2d145ecbccd224f2ab1ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:22 +0000
Subject: [PATCH 56/89] fix: waiting and sojourn moments of M/G/1 with
 preemptive priority

---
 most_queue/theory/priority_calc.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index f3915ae..f512083 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -183,13 +183,7 @@ def calc_pr1(l, b, num=3):
 
     # Формула Полячека - Хинчина. Заявки первого
     # класса не прерываются
-    w.append([0.0] * num)
-
-    for i in range(num):
-        summ = b[0][i + 1] / (i + 2)
-        for s in range(1, i + 1):
-            summ += b[0][i + 1 - s] * w[0][s] * math.factorial(i + 1) / (math.factorial(s) * math.factorial(i + 2 - s))
-        w[0][i] = summ * l[0] / (1 - l[0] * b[0][0])
+    w.append(get_w(l[0], b[0], num))
 
     v.append([0.0] * num)
     v[0][0] = w[0][0] + b[0][0]
@@ -231,7 +225,7 @@ def calc_pr1(l, b, num=3):
             for m in range(i):
                 summ += w[j][m] * h[j][i - m] * math.factorial(i) / (math.factorial(m) * math.factorial(i + 1 - m))
 
-            w[j][i] = (c * L[j] * pi_j[j - 1][i] / (i + 1) + l[j] * summ) / (1.0 - l[j] * h[j][0])
+            w[j][i] = (c * L[j - 1] * pi_j[j - 1][i] / (i + 1) + l[j] * summ) / (1.0 - l[j] * h[j][0])
         w[j] = w[j][1:]
         v[j][0] = w[j][0] + h[j][0]
         v[j][1] = w[j][1] + 2 * w[j][0] * h[j][0] + h[j][1]
-- 
2.43.0


From c36646000b66df2830c3219fbdea2b0067ae15f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:22 +0000
Subject: [PATCH 57/89] fix: waiting moments of M/G/1 with non-preemptive
 priority at every time scale and service law

---
 most_queue/theory/priority_calc.py | 50 +++++++-----------------------
 1 file changed, 12 insertions(+), 38 deletions(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index f512083..a4c98c1 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -1,7 +1,6 @@
 import math
 
-from most_queue.rand_distribution import Gamma
-from most_queue.theory.utils.diff5dots import diff5dots
+from most_queue.theory.utils.pls_series import moments_to_series, series_compose, series_div, series_to_moments
 
 from most_queue.theory.mg1_calc import get_p, get_w
 from most_queue.theory.mgn_tt import MGnCalc
@@ -374,47 +373,22 @@ def get_w_np(l, b, num=3):
                     summ += l[i] * b[i][m]
                 b_b[m] = summ / lb
 
-        h = 0.0001
-        steps = 5
-
-        if j != num_of_cl - 1:
-            b_b_param = Gamma.get_mu_alpha(b_b)
-        else:
-            b_b_param = 0
-
-        b_k_param = Gamma.get_mu_alpha(b[j])
-
         nu_a_PNZ = ppnz_calc(la, b_a)
 
-        if j != 0:
-            nu_a_param = Gamma.get_mu_alpha(nu_a_PNZ)
-        else:
-            nu_a_param = 0
-
-        w_pls = []
-
-        for c in range(1, steps):
-            s = h * c
-
-            if j != 0:
-                nu_a = Gamma.get_pls(*nu_a_param, s)
-                summ = s + la - la * nu_a
-            else:
-                summ = s
-
-            chisl = (1 - ro) * summ
-
-            if j != len(l) - 1:
-                chisl += lb * (1 - Gamma.get_pls(*b_b_param, summ))
+        # ПЛС представлены рядами по степеням s, summ = s + la - la * nu_a
+        summ = [-la * a for a in moments_to_series(nu_a_PNZ)]
+        summ[0] += la
+        summ[1] += 1.0
 
-            znam = l[j] * Gamma.get_pls(*b_k_param, summ) - l[j] + s
+        b_b_pls = series_compose(moments_to_series(b_b), summ)
+        b_k_pls = series_compose(moments_to_series(b[j]), summ)
 
-            w_pls.append(chisl / znam)
+        # числитель и знаменатель, общий множитель s сокращен
+        chisl = [(1 - ro) * summ[m] - lb * b_b_pls[m] for m in range(1, len(summ))]
+        znam = [l[j] * b_k_pls[m] for m in range(1, len(summ))]
+        znam[0] += 1.0
 
-            w[j] = diff5dots(w_pls, h)
-            w[j][0] = -w[j][0]
-            if len(b[j]) > 2:
-                w[j][2] = -w[j][2]
+        w[j] = series_to_moments(series_div(chisl, znam))
 
     return w
 
-- 
2.43.0


From 2588fbe526a63bf51a5f951224326d78695c3614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:22 +0000
Subject: [PATCH 58/89] fix: mean service over classes weighted by arrival
 rates in priority calculations

---
 most_queue/theory/priority_calc.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index a4c98c1..3d98268 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -271,8 +271,8 @@ def get_w_mg1_bp(l, b):
     for i in range(num_of_moment):
         b_sr.append(0)
         for k in range(num_of_classes):
-            b_sr[i] += b[k][i]
-        b_sr[i] /= num_of_classes
+            b_sr[i] += l[k] * b[k][i]
+        b_sr[i] /= l_sum
 
     w_k = get_w(l_sum, b_sr)
 
@@ -432,13 +432,11 @@ def get_w_prty_invar(l, b, n, type='NP', N=150, num=3):
     # M/G/1 calculation:
 
     b_sr = [0.0] * j_num
-    l_sum = 0
+    l_sum = sum(l)
     for j in range(j_num):
         for k in range(k_num):
-            b_sr[j] += b1[k][j]
-        b_sr[j] /= k_num
-    for k in range(k_num):
-        l_sum += l[k]
+            b_sr[j] += l[k] * b1[k][j]
+        b_sr[j] /= l_sum
 
     p1 = get_p(l_sum, b_sr, N)
     q1 = 0
@@ -448,13 +446,10 @@ def get_w_prty_invar(l, b, n, type='NP', N=150, num=3):
     # M/G/n calculation:
 
     b_sr = [0.0] * j_num
-    l_sum = 0
     for j in range(j_num):
         for k in range(k_num):
-            b_sr[j] += b[k][j]
-        b_sr[j] /= k_num
-    for k in range(k_num):
-        l_sum += l[k]
+            b_sr[j] += l[k] * b[k][j]
+        b_sr[j] /= l_sum
 
     tt_n = MGnCalc(n, l_sum, b_sr)
     tt_n.run()
@@ -491,8 +486,8 @@ def get_w_MxGn_no_pr(l, b, n):
     for j in range(num_of_mom):
         b_sr.append(0)
         for k in range(len(b)):
-            b_sr[j] += b[k][j]
-        b_sr[j] /= num_of_mom
+            b_sr[j] += l[k] * b[k][j]
+        b_sr[j] /= l_sum
 
     tt = MGnCalc(n, l_sum, b_sr)
     tt.run()
-- 
2.43.0


From ad15db074cd0d2e8d3dabf1defec624b0c16d956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:43 +0000
Subject: [PATCH 59/89] fix: network with priorities at nodes: order of
 classes, loads, unvisited nodes and end-to-end moments

---
 most_queue/theory/network_calc.py | 108 +++++++++++-------------------
 1 file changed, 38 insertions(+), 70 deletions(-)

diff --git a/most_queue/theory/network_calc.py b/most_queue/theory/network_calc.py
index d91ab1d..2557bfb 100755
--- a/most_queue/theory/network_calc.py
+++ b/most_queue/theory/network_calc.py
@@ -2,9 +2,7 @@ import math
 
 import numpy as np
 
-from most_queue.theory.utils.diff5dots import diff5dots
 from most_queue.theory.priority_calc import get_v_prty_invar
-from most_queue.rand_distribution import Gamma
 
 
 def balance_equation(L, R):
@@ -87,6 +85,30 @@ def balance_equation(L, R):
     return l_out
 
 
+def get_route_moments(R, v):
+    """
+    Начальные моменты времени пребывания в сети при независимых временах пребывания в узлах
+    :param R - матрица передачи
+    :param v[node][j] - нач. моменты времени пребывания в узле
+    """
+    nodes = R.shape[0] - 1
+    P = np.zeros(nodes)
+    Q = np.zeros((nodes, nodes))
+    for i in range(nodes):
+        P[i] = R[0, i]
+        for j in range(nodes):
+            Q[i, j] = R[i + 1, j]
+    N = np.linalg.inv(np.eye(nodes) - Q)
+
+    # моменты времени до выхода из сети для требования, поступившего в узел
+    v = np.array(v)
+    m1 = np.dot(N, v[:, 0])
+    m2 = np.dot(N, v[:, 1] + 2 * v[:, 0] * np.dot(Q, m1))
+    m3 = np.dot(N, v[:, 2] + 3 * v[:, 1] * np.dot(Q, m1) + 3 * v[:, 0] * np.dot(Q, m2))
+
+    return [np.dot(P, m1), np.dot(P, m2), np.dot(P, m3)]
+
+
 def network_prty_calc(R, b, n, L, prty, nodes_prty):
     """
     Расчет СеМО
@@ -115,76 +137,22 @@ def network_prty_calc(R, b, n, L, prty, nodes_prty):
     for k in range(k_num):
         intensities.append(balance_equation(L[k], R[k]))
 
-    b_order = []
-    l_order = []
-
-    for m in range(nodes):
-        b_order.append([])
-        l_order.append([])
-        for k in range(k_num):
-            order = nodes_prty[m][k]
-            b_order[m].append(b[order][m])
-            l_order[m].append(intensities[order][m])
-
     res['v_node'] = []
-    for i in range(nodes):
-        l_sum = 0
-        for k in range(k_num):
-            l_sum += l_order[i][k]
-
-        b_sr = [0.0] * 4
-
-        for j in range(4):
-            for k in range(k_num):
-                b_sr[j] += b_order[i][k][j]
-            b_sr[j] /= k_num
-
-        res['loads'][i] = l_sum * b_sr[0] / n[i]
-        res['v_node'].append(get_v_prty_invar(l_order[i], b_order[i], n[i], prty[i]))
-        for k in range(k_num):
-            res['v_node'][i][nodes_prty[i][k]] = res['v_node'][i][k]
-
-    h = 0.0001
-    s = [0.0] * 4
-    for i in range(4):
-        s[i] = h * (i + 1)
+    for m in range(nodes):
+        # классы, требования которых поступают в узел, в порядке убывания приоритета
+        classes = [k for k in range(k_num) if intensities[k][m] > 0]
+        classes.sort(key=lambda k: nodes_prty[m][k])
+        v_node = [[0.0] * 3 for k in range(k_num)]
+        if classes:
+            l_order = [intensities[k][m] for k in classes]
+            b_order = [b[k][m] for k in classes]
+            res['loads'][m] = sum(l_order[i] * b_order[i][0] for i in range(len(classes))) / n[m]
+            v_order = get_v_prty_invar(l_order, b_order, n[m], prty[m])
+            for i, k in enumerate(classes):
+                v_node[k] = v_order[i]
+        res['v_node'].append(v_node)
 
     for k in range(k_num):
-        I = np.zeros((nodes, nodes))
-        for i in range(nodes):
-            for j in range(nodes):
-                if i == j:
-                    I[i, j] = 1
-        N = np.zeros((nodes, nodes))
-        P = np.zeros((1, nodes))
-        for i in range(nodes):
-            P[0, i] = R[k][0, i]
-        T = np.zeros((nodes, 1))
-        for i in range(nodes):
-            T[i, 0] = R[k][i + 1, nodes]
-        Q = np.zeros((nodes, nodes))
-
-        for i in range(nodes):
-            for j in range(nodes):
-                Q[i, j] = R[k][i + 1, j]
-
-        gamma_mu_alpha = []
-        for i in range(nodes):
-            gamma_mu_alpha.append(Gamma.get_mu_alpha([res['v_node'][i][k][0], res['v_node'][i][k][1]]))
-
-        g_PLS = []
-        for i in range(4):
-            for j in range(nodes):
-                N[j, j] = Gamma.get_pls(*gamma_mu_alpha[j], s[i])
-            G = np.dot(N, Q)
-            FF = I - G
-            F = np.linalg.inv(FF)
-            F = np.dot(P, np.dot(F, np.dot(N, T)))
-            g_PLS.append(F[0, 0])
-
-        res['v'].append([])
-        res['v'][k] = diff5dots(g_PLS, h)
-        res['v'][k][0] = -res['v'][k][0]
-        res['v'][k][2] = -res['v'][k][2]
+        res['v'].append(get_route_moments(R[k], [res['v_node'][m][k] for m in range(nodes)]))
 
     return res
-- 
2.43.0


From 72b7454ecc9d5d98755821675160ced73cfefe00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 60/89] fix: passage times between tiers converge at every time
 scale, all three moments between distant tiers

---
 most_queue/theory/utils/passage_time.py | 193 +++++-------------------
 1 file changed, 38 insertions(+), 155 deletions(-)

diff --git a/most_queue/theory/utils/passage_time.py b/most_queue/theory/utils/passage_time.py
index 4060e3b..debee7f 100755
--- a/most_queue/theory/utils/passage_time.py
+++ b/most_queue/theory/utils/passage_time.py
@@ -133,39 +133,23 @@ class passage_time_calc:
                                     dtype='complex64')  # присвоить первоначальное значение G = B не работает !!!
         else:
             self.G_l_tilda = np.eye(b_rows, b_cols)
-        max_elem = self.G_l_tilda.max()
-        max_elem_pr = 0
-
+        G_pr = np.zeros_like(self.G_l_tilda)
         n_iter = 0
-
-        while (abs(max_elem - max_elem_pr) > self.e):
+        while not self.is_close(self.G_l_tilda, G_pr):
+            G_pr = self.G_l_tilda
             self.G_l_tilda = self.B[self.l_tilda] + np.dot(self.L[self.l_tilda], self.G_l_tilda) + \
                              np.dot(self.F[self.l_tilda], np.dot(self.G_l_tilda, self.G_l_tilda))
-            max_elem_pr = max_elem
-            max_elem = self.G_l_tilda.max()
             n_iter += 1
 
         if self.is_verbose:
             print("Количество итераций вычисления матрицы G_l_tilda = {0:d}".format(n_iter))
 
-    def norm_mrx(self, mrx, is_max=True):
-        rows = mrx.shape[0]
-        cols = mrx.shape[1]
-        if is_max:
-            max_el = 0
-            for r in range(rows):
-                summ = 0
-                for j in range(cols):
-                    summ += math.fabs(mrx[r, j].real)
-                if summ > max_el:
-                    max_el = summ
-            return max_el
-        else:
-            ave = 0
-            for r in range(rows):
-                for j in range(cols):
-                    ave += math.fabs(mrx[r, j].real)
-            return ave / (rows * cols)
+    def is_close(self, mrx, mrx_pr):
+        """
+        Проверка сходимости итераций: изменения малы по сравнению с элементами матрицы
+        """
+        ee = max(self.e, 10 * np.finfo(mrx.dtype).eps)
+        return np.max(np.abs(mrx - mrx_pr)) <= ee * np.max(np.abs(mrx))
 
     def Gr_tilda_calc(self):
 
@@ -184,15 +168,12 @@ class passage_time_calc:
         #     G1 = np.array(np.eye(B1.shape[0], B1.shape[1]))
 
         # вычисляем первый момент
-        max_elem = self.norm_mrx(G1)
-        max_elem_pr = 0
+        G1_pr = np.zeros_like(G1)
         n_iter = 0
-
-        while (abs(max_elem - max_elem_pr) > self.e):
+        while not self.is_close(G1, G1_pr):
+            G1_pr = G1
             G1 = B1 + np.dot(L1, G) + np.dot(L, G1) + np.dot(F1, np.dot(G, G)) + np.dot(F, np.dot(G1, G)) \
                  + np.dot(F, np.dot(G, G1))
-            max_elem_pr = max_elem
-            max_elem = self.norm_mrx(G1)
             n_iter += 1
 
         if self.is_verbose:
@@ -214,18 +195,14 @@ class passage_time_calc:
         # else:
         #     G2 = np.array(np.eye(B2.shape[0], B2.shape[1]))
         #
-        max_elem = self.norm_mrx(G2)
-        max_elem_pr = 0
+        G2_pr = np.zeros_like(G2)
         n_iter = 0
-
-        while (abs(max_elem - max_elem_pr) > self.e):
+        while not self.is_close(G2, G2_pr):
+            G2_pr = G2
             G2 = B2 + np.dot(L2, G) + 2 * np.dot(L1, G1) + np.dot(L, G2) \
                  + np.dot(F2, np.dot(G, G)) + \
                  2 * np.dot(F1, (np.dot(G1, G) + np.dot(G, G1))) \
                  + np.dot(F, (np.dot(G2, G) + 2 * np.dot(G1, G1) + np.dot(G, G2)))
-
-            max_elem_pr = max_elem
-            max_elem = self.norm_mrx(G2)
             n_iter += 1
 
         if self.is_verbose:
@@ -242,19 +219,15 @@ class passage_time_calc:
              3.0 * np.dot(F2, (np.dot(G1, G) + np.dot(G, G1))) + \
              3.0 * np.dot(F1, (np.dot(G2, G1) + 2 * np.dot(G1, G1) + np.dot(G, G2)))
 
-        max_elem = self.norm_mrx(G3)
-        max_elem_pr = 0
+        G3_pr = np.zeros_like(G3)
         n_iter = 0
-
-        while (abs(max_elem - max_elem_pr) > self.e):
+        while not self.is_close(G3, G3_pr):
+            G3_pr = G3
             G3 = B3 + np.dot(L3, G) + 3 * np.dot(L2, G1) + 3 * np.dot(L1, G2) \
                  + np.dot(L, G3) + np.dot(F3, np.dot(G, G)) \
                  + 3 * np.dot(F2, (np.dot(G1, G) + np.dot(G, G1))) + \
                  3 * np.dot(F1, (np.dot(G2, G) + 2 * np.dot(G1, G1) + np.dot(G, G2))) \
                  + np.dot(F, (np.dot(G3, G) + 3 * np.dot(G2, G1) + 3 * np.dot(G1, G2) + np.dot(G, G3)))
-
-            max_elem_pr = max_elem
-            max_elem = self.norm_mrx(G3)
             n_iter += 1
 
         if self.is_verbose:
@@ -283,13 +256,11 @@ class passage_time_calc:
             # b_cols = B.shape[1]
             # G = (np.array(np.eye(b_rows, b_cols)) - L - F*G_plus_one).I()*B
 
-            max_elem = self.norm_mrx(G)
-            max_elem_pr = 0
+            G_pr = np.zeros_like(G)
             n_iter = 0
-            while (abs(max_elem - max_elem_pr) > self.e):
+            while not self.is_close(G, G_pr):
+                G_pr = G
                 G = B + np.dot(L, G) + np.dot(F, np.dot(G_plus_one, G))
-                max_elem_pr = max_elem
-                max_elem = self.norm_mrx(G)
                 n_iter += 1
 
             if self.is_verbose:
@@ -325,14 +296,12 @@ class passage_time_calc:
             #     else:
             #         G1 = np.array(np.eye(B1.shape[0], B1.shape[1]))
 
-            max_elem = self.norm_mrx(G1)
-            max_elem_pr = 0
+            G1_pr = np.zeros_like(G1)
             n_iter = 0
-            while (abs(max_elem - max_elem_pr) > self.e):
+            while not self.is_close(G1, G1_pr):
+                G1_pr = G1
                 G1 = B1 + np.dot(L1, G) + np.dot(L, G1) + np.dot(F1, np.dot(Gplus_one, G)) \
                      + np.dot(F, np.dot(G1plus_one, G)) + np.dot(F, np.dot(Gplus_one, G1))
-                max_elem_pr = max_elem
-                max_elem = self.norm_mrx(G1)
                 n_iter += 1
             self.Gr[self.l_tilda - i - 1].append(G1)
 
@@ -348,16 +317,14 @@ class passage_time_calc:
             G2 = B2 + np.dot(L2, G) + 2 * np.dot(L1, G1) + np.dot(F2, np.dot(Gplus_one, G)) + \
                  2 * np.dot(F1, (np.dot(G1plus_one, G) + np.dot(Gplus_one, G1)))
 
-            max_elem = self.norm_mrx(G2)
-            max_elem_pr = 0
+            G2_pr = np.zeros_like(G2)
             n_iter = 0
-            while (abs(max_elem - max_elem_pr) > self.e):
+            while not self.is_close(G2, G2_pr):
+                G2_pr = G2
                 G2 = B2 + np.dot(L2, G) + 2.0 * np.dot(L1, G1) + np.dot(L, G2) \
                      + np.dot(F2, np.dot(Gplus_one, G)) + 2.0 * np.dot(F1,
                                                                        (np.dot(G1plus_one, G) + np.dot(Gplus_one, G1))) \
                      + np.dot(F, (np.dot(G2plus_one, G) + 2.0 * np.dot(G1plus_one, G1) + np.dot(Gplus_one, G2)))
-                max_elem_pr = max_elem
-                max_elem = self.norm_mrx(G2)
                 n_iter += 1
             self.Gr[self.l_tilda - i - 1].append(G2)
             if self.is_verbose:
@@ -374,10 +341,10 @@ class passage_time_calc:
                  + 3.0 * np.dot(F2, (np.dot(G1plus_one, G) + np.dot(Gplus_one, G1))) \
                  + 3.0 * np.dot(F1, (np.dot(G2plus_one, G) + 2.0 * np.dot(G1plus_one, G1) + np.dot(Gplus_one, G2)))
 
-            max_elem = self.norm_mrx(G3)
-            max_elem_pr = 0
+            G3_pr = np.zeros_like(G3)
             n_iter = 0
-            while (abs(max_elem - max_elem_pr) > self.e):
+            while not self.is_close(G3, G3_pr):
+                G3_pr = G3
                 G3 = B3 + np.dot(L3, G) + 3.0 * np.dot(L2, G1) + 3.0 * np.dot(L1, G2) + np.dot(L, G3) \
                      + np.dot(F3, np.dot(Gplus_one, G)) \
                      + 3.0 * np.dot(F2, (np.dot(G1plus_one, G) + np.dot(Gplus_one, G1))) \
@@ -385,9 +352,6 @@ class passage_time_calc:
                      + np.dot(F, (
                             np.dot(G3plus_one, G) + 3 * np.dot(G2plus_one, G1) + 3.0 * np.dot(G1plus_one, G2) + np.dot(
                         Gplus_one, G3)))
-
-                max_elem_pr = max_elem
-                max_elem = self.norm_mrx(G3)
                 n_iter += 1
             self.Gr[self.l_tilda - i - 1].append(G3)
             if self.is_verbose:
@@ -469,97 +433,16 @@ class passage_time_calc:
         if l_start <= l_end:
             return -1
 
-        Gr_gap = []
-        for i in range(3):
-            if l_end + 1 >= self.l_tilda:
-                Gr_gap.append(copy.deepcopy(self.Gr[self.l_tilda][i]))
-            else:
-                Gr_gap.append(copy.deepcopy(self.Gr[l_end + 1][i]))
-
-        if l_start <= l_end:
-            return -1
-
-        for i in range(l_end + 2, l_start + 1):
-
-            # первый момент
-            Ggap_minus_one = self.G_gap_calc(i - 1, l_end)
-
-            # B1G-section
-
-            if i >= self.l_tilda:
-                B1G = np.dot(self.Br[self.l_tilda][0], Ggap_minus_one)
-            else:
-                B1G = np.dot(self.Br[i][0], Ggap_minus_one)
-
-            # BG1 section
-            if i >= self.l_tilda:
-                BG1 = np.dot(self.B[self.l_tilda], Gr_gap[0])
-            else:
-                BG1 = np.dot(self.B[i], Gr_gap[0])
-
-            # L1GG-section
-            if i >= self.l_tilda:
-                L1GG = np.dot(self.Lr[self.l_tilda][0], np.dot(self.G[self.l_tilda], Ggap_minus_one))
-            else:
-                L1GG = np.dot(self.Lr[i][0], np.dot(self.G[i], Ggap_minus_one))
-
-            # LG1G section
-            if i >= self.l_tilda:
-                LG1G = np.dot(self.L[self.l_tilda], np.dot(self.Gr[self.l_tilda][0], Ggap_minus_one))
-            else:
-                LG1G = np.dot(self.L[i], np.dot(self.Gr[i][0], Ggap_minus_one))
-
-            # LGG1 section
-            if i >= self.l_tilda:
-                LGG1 = np.dot(self.L[self.l_tilda], np.dot(self.G[self.l_tilda], Gr_gap[0]))
-            else:
-                LGG1 = np.dot(self.L[i], np.dot(self.G[i], Gr_gap[0]))
+        # моменты времени прохождения нескольких ярусов - свертка моментов для отдельных ярусов
+        l = min(l_start, self.l_tilda)
+        gap = [self.G[l]] + self.Gr[l]
 
-            # F1GGG-section
-            if i >= self.l_tilda:
-                F1GGG = np.dot(self.Fr[self.l_tilda][0],
-                               np.dot(self.G[self.l_tilda], np.dot(self.G[self.l_tilda], Ggap_minus_one)))
-            elif i == self.l_tilda - 1:
-                F1GGG = np.dot(self.Fr[i][0], np.dot(self.G[self.l_tilda], np.dot(self.G[i], Ggap_minus_one)))
-            else:
-                F1GGG = np.dot(self.Fr[i][0], np.dot(self.G[i + 1], np.dot(self.G[i], Ggap_minus_one)))
-
-            # FG1GG-section
-            if i >= self.l_tilda:
-                FG1GG = np.dot(self.F[self.l_tilda],
-                               np.dot(self.Gr[self.l_tilda][0], np.dot(self.G[self.l_tilda], Ggap_minus_one)))
-            elif i == self.l_tilda - 1:
-                FG1GG = np.dot(self.F[i], np.dot(self.Gr[self.l_tilda][0], np.dot(self.G[i], Ggap_minus_one)))
-            else:
-                FG1GG = np.dot(self.F[i], np.dot(self.Gr[i + 1][0], np.dot(self.G[i], Ggap_minus_one)))
-
-            # FGG1G-section
-            if i >= self.l_tilda:
-                FGG1G = np.dot(self.F[self.l_tilda],
-                               np.dot(self.G[self.l_tilda], np.dot(self.Gr[self.l_tilda][0], Ggap_minus_one)))
-            elif i == self.l_tilda - 1:
-                FGG1G = np.dot(self.F[i], np.dot(self.G[self.l_tilda], np.dot(self.Gr[i][0], Ggap_minus_one)))
-            else:
-                FGG1G = np.dot(self.F[i], np.dot(self.G[i + 1], np.dot(self.Gr[i][0], Ggap_minus_one)))
-
-            # FGGG1-section
-            if i >= self.l_tilda:
-                FGGG1 = np.dot(self.F[self.l_tilda],
-                               np.dot(self.G[self.l_tilda], np.dot(self.G[self.l_tilda], Gr_gap[0])))
-            elif i == self.l_tilda - 1:
-                FGGG1 = np.dot(self.F[i], np.dot(self.G[self.l_tilda], np.dot(self.G[i], Gr_gap[0])))
-            else:
-                FGGG1 = np.dot(self.F[i], np.dot(self.G[i + 1], np.dot(self.G[i], Gr_gap[0])))
-
-            Gr_gap[0] = B1G + BG1 + L1GG + LG1G + LGG1 + F1GGG + FG1GG + FGG1G + FGGG1
-            Gr_gap[1] = Gr_gap[0]
-            Gr_gap[2] = Gr_gap[0]
-            # while (abs(max_elem - max_elem_pr) > self.e):
-            #     Gr_gap[0] = B1G + BG1 + L1G + L*Gr_gap[0] + F1GG + FG1G + FG1*Gr_gap[0]
-            #     max_elem_pr = max_elem
-            #     max_elem = self.norm_mrx(Gr_gap[0])
+        for i in range(l_start - 1, l_end, -1):
+            l = min(i, self.l_tilda)
+            level = [self.G[l]] + self.Gr[l]
+            gap = [sum(math.comb(r, k) * np.dot(gap[k], level[r - k]) for k in range(r + 1)) for r in range(4)]
 
-        return Gr_gap
+        return gap[1:]
 
 
 if __name__ == '__main__':
-- 
2.43.0


From bb8659f193e9cf7bd0d6732719aba552377387ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:37 +0000
Subject: [PATCH 61/89] fix: complex H2 fit next to exponential and Erlang-2
 laws keeps the mean

---
 most_queue/rand_distribution.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index 4426b17..0a57faf 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -282,28 +282,20 @@ class H2_dist:
                 if verbose:
                     print("H2 is close to Exp. Multiply moments to (1+je), coev = {0:5.3f},"
                           " e = {1:5.3f}.".format(coev, e))
-                f = []
-                for i in range(len(moments)):
-                    f.append(moments[i] * complex(1, (i + 1) * e))
+                # среднее не изменяется: от него зависит коэффициент загрузки
+                f = [moments[0], moments[1] * complex(1, e), moments[2] * complex(1, 2.5 * e)]
 
-                return H2_dist.get_params_clx(f, verbose=verbose, ee=ee, e=e * (1.0 + e_percent), e_percent=e_percent,
-                                              is_fitting=is_fitting)
+                return H2_dist.get_params_clx(f, verbose=verbose, is_fitting=False)
 
             coev = cmath.sqrt(moments[1] - moments[0] ** 2) / moments[0]
 
             # проверка на близость распределения к Эрланга 2-го порядка
             if math.fabs(coev.real - 1.0 / math.sqrt(2.0)) < ee:
                 if verbose:
-                    print("H2 is close to E2. Multiply moments to (1+je), coev = {0:5.3f},"
+                    print("H2 is close to E2. Multiply third moment to (1+je), coev = {0:5.3f},"
                           " e = {1:5.3f}.".format(coev, e))
-                f = []
-                for i in range(len(moments)):
-                    # if i == 0:
-                    #     f.append(moments[0])
-                    # else:
-                    f.append(moments[i] * complex(1, (i + 1) * e))
-                return H2_dist.get_params_clx(f, verbose=verbose, ee=ee, e=e * (1.0 + e_percent), e_percent=e_percent,
-                                              is_fitting=is_fitting)
+                f = [moments[0], moments[1], moments[2] * complex(1, e)]
+                return H2_dist.get_params_clx(f, verbose=verbose, is_fitting=False)
 
         f = [0.0] * 3
         for i in range(3):
-- 
2.43.0


From fa1c8acf0d9c7d7a4baff4f811480fc32c4ed73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:58 +0000
Subject: [PATCH 62/89] fix: M/G/n with a service law whose three-moment fit
 has an unstable rate

---
 most_queue/theory/mgn_tt.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/most_queue/theory/mgn_tt.py b/most_queue/theory/mgn_tt.py
index 276f83e..de52892 100755
--- a/most_queue/theory/mgn_tt.py
+++ b/most_queue/theory/mgn_tt.py
@@ -36,6 +36,11 @@ class MGnCalc:
         self.verbose = verbose
 
         h2_params = H2_dist.get_params_clx(b)
+        if min(h2_params[1].real, h2_params[2].real) <= 0:
+            # итерации с такой интенсивностью расходятся: третий момент заменяется
+            # моментом гамма-распределения с теми же двумя первыми
+            c2 = b[1] / b[0] ** 2 - 1.0
+            h2_params = H2_dist.get_params_clx([b[0], b[1], b[0] ** 3 * (1.0 + c2) * (1.0 + 2.0 * c2)])
         # параметры H2-распределения:
         self.y = [h2_params[0], 1.0 - h2_params[0]]
         self.l = l
-- 
2.43.0


From b42d98e6eaa85dee53567d1a98056cb69b5be48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:58 +0000
Subject: [PATCH 63/89] fix: three-class priority model: service of class three
 next to a job of class one, conditional busy period moments

---
 most_queue/theory/mmn3_pnz_cox_approx.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/most_queue/theory/mmn3_pnz_cox_approx.py b/most_queue/theory/mmn3_pnz_cox_approx.py
index 4f2909b..90314bd 100755
--- a/most_queue/theory/mmn3_pnz_cox_approx.py
+++ b/most_queue/theory/mmn3_pnz_cox_approx.py
@@ -143,12 +143,12 @@ class Mmn3_pnz_cox:
         for j in range(6):
             self.busy_periods.append([0, 0, 0])
         for r in range(3):
-            self.busy_periods[0][r] = pass_time.Gr[2][r][3, 1]
-            self.busy_periods[1][r] = pass_time.Gr[2][r][3, 0]
-            self.busy_periods[2][r] = pass_time.Gr[2][r][2, 1]
-            self.busy_periods[3][r] = pass_time.Gr[2][r][2, 0]
-            self.busy_periods[4][r] = pass_time.Gr[2][r][0, 1]
-            self.busy_periods[5][r] = pass_time.Gr[2][r][0, 0]
+            self.busy_periods[0][r] = pass_time.Z[2][r][3, 1]
+            self.busy_periods[1][r] = pass_time.Z[2][r][3, 0]
+            self.busy_periods[2][r] = pass_time.Z[2][r][2, 1]
+            self.busy_periods[3][r] = pass_time.Z[2][r][2, 0]
+            self.busy_periods[4][r] = pass_time.Z[2][r][0, 1]
+            self.busy_periods[5][r] = pass_time.Z[2][r][0, 0]
 
         for j in range(6):
             coev = math.sqrt(self.busy_periods[j][1].real - pow(self.busy_periods[j][0].real, 2)) / \
@@ -156,7 +156,7 @@ class Mmn3_pnz_cox:
             self.busy_periods_coevs.append(coev.real)
 
         # pp - список из шести вероятностей p2mm, p2mh, phmm, phmh, p2hm, p2hh
-        # берем моменты Gr, поскольку моменты Z - условные, с учетом pp
+        # вероятности переходов учитываются отдельно, поэтому моменты ПНЗ - условные (Z, а не Gr)
         self.pp.append(pass_time.G[2][3, 1])
         self.pp.append(pass_time.G[2][3, 0])
         self.pp.append(pass_time.G[2][2, 1])
@@ -335,9 +335,10 @@ class Mmn3_pnz_cox:
             output = self.B[2]
             return output
 
-        # Матрица B - диагональная. Количество ненулевых элементов = 2. Остальные 13 - нулевые
+        # Матрица B - диагональная. Количество ненулевых элементов = 3. Остальные 12 - нулевые
         output[0, 0] = min(2, num) * self.mu_L
         output[1, 1] = self.mu_L
+        output[2, 2] = self.mu_L
 
         return output
 
-- 
2.43.0


From 15b47c5785f30cf5a43893859e5e55b58e2975bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:58 +0000
Subject: [PATCH 64/89] fix: complex Cox fit next to exponential and Erlang-2
 laws keeps the mean

---
 most_queue/rand_distribution.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index 0a57faf..eec64a0 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -425,7 +425,7 @@ class Cox_dist:
         return f
 
     @staticmethod
-    def get_params(moments, ee=0.001, e=0.5, e_percent=0.25, verbose=True, is_fitting=True):
+    def get_params(moments, ee=0.001, e=0.02, e_percent=0.25, verbose=True, is_fitting=True):
         """
         Метод вычисляет параметры распределения Кокса 2-го порядка по трем заданным начальным моментам [moments]
         Возвращает список с параметрами [y1, mu1, mu2]
@@ -439,12 +439,10 @@ class Cox_dist:
                 if verbose:
                     print("Cox special 1. Multiply moments to (1+je), coev = {0:5.3f},"
                           " e = {1:5.3f}.".format(coev, e))
-                f = []
-                for i in range(len(moments)):
-                    f.append(moments[i] * complex(1, (i + 1) * e))
+                # среднее не изменяется: от него зависит коэффициент загрузки
+                f = [moments[0], moments[1] * complex(1, e), moments[2] * complex(1, 2.5 * e)]
 
-                return Cox_dist.get_params(f, verbose=verbose, ee=ee, e=e * (1.0 + e_percent), e_percent=e_percent,
-                                           is_fitting=is_fitting)
+                return Cox_dist.get_params(f, verbose=verbose, is_fitting=False)
 
             coev = cmath.sqrt(moments[1] - moments[0] ** 2) / moments[0]
 
@@ -453,14 +451,8 @@ class Cox_dist:
                 if verbose:
                     print("Cox special 2. Multiply moments to (1+je), coev = {0:5.3f},"
                           " e = {1:5.3f}.".format(coev, e))
-                f = []
-                for i in range(len(moments)):
-                    # if i == 0:
-                    #     f.append(moments[0])
-                    # else:
-                    f.append(moments[i] * complex(1, (i + 1) * e))
-                return Cox_dist.get_params(f, verbose=verbose, ee=ee, e=e * (1.0 + e_percent), e_percent=e_percent,
-                                           is_fitting=is_fitting)
+                f = [moments[0], moments[1], moments[2] * complex(1, e)]
+                return Cox_dist.get_params(f, verbose=verbose, is_fitting=False)
 
         # # особые случаи:
         # if abs(moments[1] - moments[0] * moments[0]) < ee:
-- 
2.43.0


From 1051230d56ed3bc5d806b700917f54f84014eba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:58 +0000
Subject: [PATCH 65/89] fix: busy period fits with unstable rates in the M/PH/n
 priority model

---
 most_queue/theory/m_ph_n_prty.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/most_queue/theory/m_ph_n_prty.py b/most_queue/theory/m_ph_n_prty.py
index 674e1c8..f928e70 100755
--- a/most_queue/theory/m_ph_n_prty.py
+++ b/most_queue/theory/m_ph_n_prty.py
@@ -493,8 +493,7 @@ class m_ph_n_prty:
 
         for i in range(self.pnz_num_):
             if not self.is_cox:
-                h2_param = H2_dist.get_params_clx(self.busy_periods[i], ee=self.approx_ee, e=self.approx_e, is_fitting=self.is_fitting)
-                # h2_param = H2_dist.get_params(self.busy_periods[i])
+                h2_param = self.fit_busy_period(H2_dist.get_params_clx, self.busy_periods[i])
                 y1_mass.append(h2_param[0])
                 m1_mass.append(h2_param[1])
                 m2_mass.append(h2_param[2])
@@ -502,7 +501,7 @@ class m_ph_n_prty:
                     print("Параметры для B{0}: {1:3.3f}, {2:3.3f}, {3:3.3f}".format(i + 1, h2_param[0], h2_param[1],
                                                                                     h2_param[2]))
             else:
-                cox_params = Cox_dist.get_params(self.busy_periods[i], ee=self.approx_ee, e=self.approx_e, is_fitting=self.is_fitting)
+                cox_params = self.fit_busy_period(Cox_dist.get_params, self.busy_periods[i])
                 y1_mass.append(cox_params[0])
                 m1_mass.append(cox_params[1])
                 m2_mass.append(cox_params[2])
@@ -596,6 +595,19 @@ class m_ph_n_prty:
                     col += 2
         return output
 
+    def fit_busy_period(self, get_params, moments):
+        """
+        Параметры двухфазного распределения ПНЗ. Если подбор по трем моментам дает интенсивность с
+        неположительной действительной частью (итерации с ней расходятся), третий момент заменяется
+        моментом гамма-распределения с теми же двумя первыми.
+        """
+        params = get_params(moments, ee=self.approx_ee, e=self.approx_e, is_fitting=self.is_fitting)
+        if params[1].real > 0 and params[2].real > 0:
+            return params
+        c2 = moments[1] / moments[0] ** 2 - 1.0
+        gamma = [moments[0], moments[1], moments[0] ** 3 * (1.0 + c2) * (1.0 + 2.0 * c2)]
+        return get_params(gamma, ee=self.approx_ee, e=self.approx_e, is_fitting=self.is_fitting)
+
     def print_mrx(self, mrx, is_short=False):
         row = mrx.shape[0]
         col = mrx.shape[1]
-- 
2.43.0


From 9650bcb033a214aa5e6d2746bad5035b8446616e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:57 +0000
Subject: [PATCH 66/89] fix: iterations of the priority models stop only when
 the state probabilities stopped changing

---
 most_queue/theory/m_ph_n_prty.py         | 17 ++++++++++++++++-
 most_queue/theory/mmn3_pnz_cox_approx.py | 15 ++++++++++++++-
 most_queue/theory/mmn_prty_pnz_approx.py | 15 ++++++++++++++-
 3 files changed, 44 insertions(+), 3 deletions(-)

diff --git a/most_queue/theory/m_ph_n_prty.py b/most_queue/theory/m_ph_n_prty.py
index f928e70..0428585 100755
--- a/most_queue/theory/m_ph_n_prty.py
+++ b/most_queue/theory/m_ph_n_prty.py
@@ -317,6 +317,13 @@ class m_ph_n_prty:
                 p0_min = p0_
         self.p_iteration_num_ = iter
 
+    def calc_relative_p(self):
+        """
+        Вероятности ярусов по текущим х с точностью до нормировки
+        """
+        p = np.cumprod([1.0 + 0.0j] + [np.sum(self.x[i]) for i in range(self.N - 1)])
+        return (p / np.sum(p)).real
+
     def calculate_y(self):
         for i in range(self.N):
             self.Y.append(np.dot(self.p[i], self.t[i]))
@@ -358,11 +365,17 @@ class m_ph_n_prty:
                 if self.x[i].real > x_ave1 :
                     x_ave1 = self.x[i].real
 
-        while math.fabs(x_ave2.real - x_ave1.real) >= self.e1 and iter < self.max_iter:
+        p_old = np.zeros(self.N)
+        p_new = self.calc_relative_p()
+
+        # итерации заканчиваются, когда не меняются ни х, ни вероятности ярусов
+        while (math.fabs(x_ave2.real - x_ave1.real) >= self.e1 or np.max(np.abs(p_new - p_old)) >= self.e1) and \
+                iter < self.max_iter:
             if self.verbose:
                 print("Start numeric iteration {0:d}".format(iter))
             iter += 1
             x_ave2 = x_ave1
+            p_old = p_new
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
 
                 G = np.linalg.inv(self.D[j] - self.C[j])
@@ -407,6 +420,8 @@ class m_ph_n_prty:
                     if self.x[i].real > x_ave1:
                         x_ave1 = self.x[i].real
 
+            p_new = self.calc_relative_p()
+
         self.run_iterations_num_ = iter
         self.calculate_p()
         self.calculate_y()
diff --git a/most_queue/theory/mmn3_pnz_cox_approx.py b/most_queue/theory/mmn3_pnz_cox_approx.py
index 90314bd..a44bca3 100755
--- a/most_queue/theory/mmn3_pnz_cox_approx.py
+++ b/most_queue/theory/mmn3_pnz_cox_approx.py
@@ -214,6 +214,13 @@ class Mmn3_pnz_cox:
             else:
                 p0_min = p0_
 
+    def calc_relative_p(self):
+        """
+        Вероятности ярусов по текущим х с точностью до нормировки
+        """
+        p = np.cumprod([1.0 + 0.0j] + [np.sum(self.x[i]) for i in range(self.N - 1)])
+        return (p / np.sum(p)).real
+
     def calculate_y(self):
         for i in range(self.N):
             self.Y.append(np.dot(self.p[i], self.t[i]))
@@ -240,8 +247,12 @@ class Mmn3_pnz_cox:
         for i in range(self.N):
             if self.x[i] > x_max1:
                 x_max1 = self.x[i]
-        while math.fabs(x_max2.real - x_max1.real) >= self.e1:
+        p_old = np.zeros(self.N)
+        p_new = self.calc_relative_p()
+        # итерации заканчиваются, когда не меняются ни наибольшее из х, ни вероятности ярусов
+        while math.fabs(x_max2.real - x_max1.real) >= self.e1 or np.max(np.abs(p_new - p_old)) >= self.e1:
             x_max2 = x_max1
+            p_old = p_new
             self.iter_num_ += 1
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
 
@@ -281,6 +292,8 @@ class Mmn3_pnz_cox:
                 if self.x[i] > x_max1:
                     x_max1 = self.x[i]
 
+            p_new = self.calc_relative_p()
+
         self.calculate_p()
         self.calculate_y()
 
diff --git a/most_queue/theory/mmn_prty_pnz_approx.py b/most_queue/theory/mmn_prty_pnz_approx.py
index 4dece6b..6b0cd0e 100755
--- a/most_queue/theory/mmn_prty_pnz_approx.py
+++ b/most_queue/theory/mmn_prty_pnz_approx.py
@@ -139,6 +139,13 @@ class MMn_PRTY_PNZ_Cox_approx:
             else:
                 p0_min = p0_
 
+    def calc_relative_p(self):
+        """
+        Вероятности ярусов по текущим х с точностью до нормировки
+        """
+        p = np.cumprod([1.0 + 0.0j] + [np.sum(self.x[i]) for i in range(self.N - 1)])
+        return (p / np.sum(p)).real
+
     def calculate_y(self):
         for i in range(self.N):
             self.Y.append(np.dot(self.p[i], self.t[i]))
@@ -165,8 +172,12 @@ class MMn_PRTY_PNZ_Cox_approx:
         for i in range(self.N):
             if self.x[i] > x_max1:
                 x_max1 = self.x[i]
-        while math.fabs(x_max2.real - x_max1.real) >= self.e1:
+        p_old = np.zeros(self.N)
+        p_new = self.calc_relative_p()
+        # итерации заканчиваются, когда не меняются ни наибольшее из х, ни вероятности ярусов
+        while math.fabs(x_max2.real - x_max1.real) >= self.e1 or np.max(np.abs(p_new - p_old)) >= self.e1:
             x_max2 = x_max1
+            p_old = p_new
             self.n_iter_ += 1
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
 
@@ -204,6 +215,8 @@ class MMn_PRTY_PNZ_Cox_approx:
                 if self.x[i] > x_max1:
                     x_max1 = self.x[i]
 
+            p_new = self.calc_relative_p()
+
         self.calculate_p()
         self.calculate_y()
 
-- 
2.43.0


From 5911757bd3b5c10acbbe1ef1de16dc094d228643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:57 +0000
Subject: [PATCH 67/89] fix: busy period fits with unstable rates in the
 three-class priority model

---
 most_queue/theory/mmn3_pnz_cox_approx.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/most_queue/theory/mmn3_pnz_cox_approx.py b/most_queue/theory/mmn3_pnz_cox_approx.py
index a44bca3..2046d81 100755
--- a/most_queue/theory/mmn3_pnz_cox_approx.py
+++ b/most_queue/theory/mmn3_pnz_cox_approx.py
@@ -411,7 +411,7 @@ class Mmn3_pnz_cox:
         t12 = []
 
         for i in range(6):
-            cox_param = Cox_dist.get_params(self.busy_periods[i])
+            cox_param = self.fit_busy_period(self.busy_periods[i])
             y1 = cox_param[0]
             mu1 = cox_param[1]
             mu2 = cox_param[2]
@@ -439,6 +439,19 @@ class Mmn3_pnz_cox:
 
         return output
 
+    @staticmethod
+    def fit_busy_period(moments):
+        """
+        Параметры распределения Кокса для ПНЗ. Если подбор по трем моментам дает интенсивность с
+        неположительной действительной частью (итерации с ней расходятся), третий момент заменяется
+        моментом гамма-распределения с теми же двумя первыми.
+        """
+        params = Cox_dist.get_params(moments)
+        if params[1].real > 0 and params[2].real > 0:
+            return params
+        c2 = moments[1] / moments[0] ** 2 - 1.0
+        return Cox_dist.get_params([moments[0], moments[1], moments[0] ** 3 * (1.0 + c2) * (1.0 + 2.0 * c2)])
+
     def print_mrx(self, mrx):
         row = mrx.shape[0]
         col = mrx.shape[1]
-- 
2.43.0


From c823a6b3b1c0379de91d7cc63da41d97350908e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:45 +0000
Subject: [PATCH 68/89] fix: impossible busy periods (exponential service as a
 Cox law) in the M/PH/n priority model

---
 most_queue/theory/m_ph_n_prty.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/most_queue/theory/m_ph_n_prty.py b/most_queue/theory/m_ph_n_prty.py
index 0428585..d3ab4f1 100755
--- a/most_queue/theory/m_ph_n_prty.py
+++ b/most_queue/theory/m_ph_n_prty.py
@@ -616,6 +616,9 @@ class m_ph_n_prty:
         неположительной действительной частью (итерации с ней расходятся), третий момент заменяется
         моментом гамма-распределения с теми же двумя первыми.
         """
+        if moments[0] == 0:
+            # такой ПНЗ невозможен (вероятность перехода - 0), параметры могут быть любыми
+            return 0.0, self.mu1_H, self.mu1_H
         params = get_params(moments, ee=self.approx_ee, e=self.approx_e, is_fitting=self.is_fitting)
         if params[1].real > 0 and params[2].real > 0:
             return params
-- 
2.43.0


From 913599ee837bdf4790bd514ef371bab690544b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:08 +0000
Subject: [PATCH 69/89] fix: complex H2 fit of laws with two equal phase rates

---
 most_queue/rand_distribution.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index eec64a0..2085341 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -306,6 +306,11 @@ class H2_dist:
 
         d = pow(c1 / 2.0, 2.0) - c0
 
+        if is_fitting and abs(d) < 1e-4 * abs(c1 / 2.0) ** 2:
+            # интенсивности фаз почти совпадают (смесь законов Эрланга 1-го и 2-го порядка с общей интенсивностью)
+            f = [moments[0], moments[1], moments[2] * complex(1, e)]
+            return H2_dist.get_params_clx(f, verbose=verbose, is_fitting=False)
+
         res = [0, 0, 0]  # y1, mu1, mu2
         c1 = complex(c1)
         x1 = -c1 / 2 + cmath.sqrt(d)
-- 
2.43.0


From 10412ac018c99eec6410c9938a9209903ff8e5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 70/89] fix: Erlang distribution function does not overflow for
 many phases

---
 most_queue/rand_distribution.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index 2085341..09b349b 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -654,9 +654,12 @@ class Erlang_dist:
             return 0
         r = params[0]
         mu = params[1]
+        if t == 0:
+            return 0.0
         res = 0
         for i in range(r):
-            res += math.pow(mu * t, i) * math.exp(-mu * t) / math.factorial(i)
+            # через логарифмы, чтобы не было переполнения при больших r
+            res += math.exp(i * math.log(mu * t) - mu * t - math.lgamma(i + 1))
         return 1.0 - res
 
     @staticmethod
-- 
2.43.0


From 85eb54f753ea433b2c87b5a83e0e0ca1478351eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 71/89] fix: moments of the maximum at every time scale, delay
 zero

---
 most_queue/theory/fj_calc.py | 87 +++++++++++-------------------------
 1 file changed, 26 insertions(+), 61 deletions(-)

diff --git a/most_queue/theory/fj_calc.py b/most_queue/theory/fj_calc.py
index 02f97ec..ee7aa2a 100755
--- a/most_queue/theory/fj_calc.py
+++ b/most_queue/theory/fj_calc.py
@@ -1,6 +1,7 @@
 import math
 
 import numpy as np
+from scipy.integrate import quad
 
 from most_queue.general_utils.conv import get_moments, get_self_conv_moments
 from most_queue.rand_distribution import Erlang_dist, Gamma, H2_dist
@@ -39,53 +40,19 @@ def getMaxMoments(n, b, num=None):
     else:
         num = len(b)
 
-    f = [0] * num
     variance = b[1] - b[0] * b[0]
     coev = math.sqrt(variance) / b[0]
-    a_big = [1.37793470540E-1, 7.29454549503E-1, 1.808342901740E0,
-             3.401433697855E0, 5.552496140064E0, 8.330152746764E0,
-             1.1843785837900E1, 1.6279257831378E1, 2.1996585811981E1,
-             2.9920697012274E1]
-    g = [3.08441115765E-1, 4.01119929155E-1, 2.18068287612E-1,
-         6.20874560987E-2, 9.50151697518E-3, 7.53008388588E-4,
-         2.82592334960E-5, 4.24931398496E-7, 1.83956482398E-9,
-         9.91182721961E-13]
 
     if len(b) >= 3:
-
         if coev < 1:
             params = Erlang_dist.get_params(b)
+            return calc_moments_by_tail(lambda t: dfr_Erl_Mult(params, t, n), b[0], num)
 
-            for j in range(10):
-                p = g[j] * dfr_Erl_Mult(params, a_big[j],
-                                        n) * math.exp(a_big[j])
-                f[0] += p
-                for i in range(1, num):
-                    p = p * a_big[j]
-                    f[i] += p
-        else:
-            params = H2_dist.get_params(b)
-
-            for j in range(10):
-                p = g[j] * dfr_H2_Mult(params, a_big[j],
-                                       n) * math.exp(a_big[j])
-                f[0] += p
-                for i in range(1, num):
-                    p = p * a_big[j]
-                    f[i] += p
-    else:
-        params = Gamma.get_mu_alpha(b)
-
-        for j in range(10):
-            p = g[j] * dfr_Gamma_Mult(params, a_big[j], n) * math.exp(a_big[j])
-            f[0] += p
-            for i in range(1, num):
-                p = p * a_big[j]
-                f[i] += p
+        params = H2_dist.get_params(b)
+        return calc_moments_by_tail(lambda t: dfr_H2_Mult(params, t, n), b[0], num)
 
-    for i in range(num - 1):
-        f[i + 1] *= (i + 2)
-    return f
+    params = Gamma.get_mu_alpha(b)
+    return calc_moments_by_tail(lambda t: dfr_Gamma_Mult(params, t, n), b[0], num)
 
 
 def getMaxMomentsDelta(n, b, num=3, delta=0):
@@ -96,34 +63,32 @@ def getMaxMomentsDelta(n, b, num=3, delta=0):
         :param num: число нач. моментов СВ
         :return: начальные моменты максимума СВ.
         """
-    f = [0] * num
-    a_big = [1.37793470540E-1, 7.29454549503E-1, 1.808342901740E0,
-             3.401433697855E0, 5.552496140064E0, 8.330152746764E0,
-             1.1843785837900E1, 1.6279257831378E1, 2.1996585811981E1,
-             2.9920697012274E1]
-    g = [3.08441115765E-1, 4.01119929155E-1, 2.18068287612E-1,
-         6.20874560987E-2, 9.50151697518E-3, 7.53008388588E-4,
-         2.82592334960E-5, 4.24931398496E-7, 1.83956482398E-9,
-         9.91182721961E-13]
-
+    params = Gamma.get_mu_alpha(b)
+    scale = b[0]
     if delta:
-        params = Gamma.get_mu_alpha(b)
+        scale += (n - 1) * (delta[0] if isinstance(delta, list) else delta)
 
-        for j in range(10):
-            p = g[j] * dfr_Gamma_Mult(params, a_big[j],
-                                      n, delta) * math.exp(a_big[j])
-            f[0] += p
-            for i in range(1, num):
-                p = p * a_big[j]
-                f[i] += p
+    return calc_moments_by_tail(lambda t: dfr_Gamma_Mult(params, t, n, delta), scale, num)
 
-        for i in range(num - 1):
-            f[i + 1] *= (i + 2)
 
-    return f
+# вспомогательные функции:
 
+def calc_moments_by_tail(tail, scale, num):
+    """
+    Расчет начальных моментов неотрицательной СВ по ее ДФР численным интегрированием
+    :param tail: ДФР
+    :param scale: масштаб времени (порядок среднего значения СВ)
+    :param num: число начальных моментов
+    """
+    f = [0] * num
+    left, right = 0.0, scale
+    while True:
+        for i in range(num):
+            f[i] += (i + 1) * quad(lambda t: t ** i * tail(t), left, right, epsrel=1e-10, epsabs=1e-14 * right ** (i + 1))[0]
+        if not tail(right) > 1e-14:
+            return f
+        left, right = right, 2 * right
 
-# вспомогательные функции:
 
 def dfr_H2_Mult(params, t, n, delta=None):
     res = 1.0
-- 
2.43.0


From d04eeba33ade87981497eab990da727983dd12b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 72/89] fix: response time of (n, k) fork-join by interpolation

---
 most_queue/theory/fj_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/theory/fj_calc.py b/most_queue/theory/fj_calc.py
index ee7aa2a..40cc88f 100755
--- a/most_queue/theory/fj_calc.py
+++ b/most_queue/theory/fj_calc.py
@@ -208,7 +208,7 @@ def get_v1_varma_nk(l, mu, n, k):
 
     for i in range(k, n + 1):
         summ += get_W(n, k, i) * (get_Hn(i) +
-                                  (get_V(i) - get_Hn(i) * ro)) / (l - mu)
+                                  (get_V(i) - get_Hn(i)) * ro) / (mu - l)
 
     return summ
 
-- 
2.43.0


From 4405e6a078ac9866f6206483be0df31a5815ae15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 73/89] fix: fork-join by the invariant with M/G/n compares n
 channels with two, sojourn times

---
 most_queue/theory/fj_calc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/most_queue/theory/fj_calc.py b/most_queue/theory/fj_calc.py
index 40cc88f..fdd6e1a 100755
--- a/most_queue/theory/fj_calc.py
+++ b/most_queue/theory/fj_calc.py
@@ -316,9 +316,9 @@ def get_v_fj_invar_tt(l, b, n):
 
     v1_fj2 = get_v1_fj2(l, 1.0 / b[0])
 
-    tt2 = MGnCalc(n, l, b2)
+    tt2 = MGnCalc(2, l, b2)
     tt2.run()
-    w_tt2 = tt2.get_w()
+    v_tt2 = tt2.get_v()
 
     bn1 = b[0] * n
     bn = [0.0] * 3
@@ -329,9 +329,9 @@ def get_v_fj_invar_tt(l, b, n):
 
     ttn = MGnCalc(n, l, bn)
     ttn.run()
-    w_ttn = tt2.get_w()
+    v_ttn = ttn.get_v()
 
     for i in range(3):
-        v.append(v1_fj2 * w_ttn[i] / w_tt2[i])
+        v.append(v1_fj2 * v_ttn[i] / v_tt2[i])
 
     return v
-- 
2.43.0


From 4418e60d78babb1b5c13a26642a5e461099c896e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 74/89] fix: Student table: rows of sample sizes from 20 to 65,
 misprints

---
 most_queue/theory/utils/student_stat.py | 32 ++++++++++++-------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/most_queue/theory/utils/student_stat.py b/most_queue/theory/utils/student_stat.py
index d9ec551..561f5b6 100755
--- a/most_queue/theory/utils/student_stat.py
+++ b/most_queue/theory/utils/student_stat.py
@@ -22,12 +22,12 @@ def get_ty(gamma, n):
                  2.26, 2.23, 2.20, 2.18, 2.16,
                  2.15, 2.13, 2.12, 2.11, 2.10,
                  2.093, 2.064, 2.045, 2.032, 2.023,
-                 2.016, 2.009, 2.001, 1.996, 1.001,
+                 2.016, 2.009, 2.001, 1.996, 1.991,
                  1.987, 1.984, 1.980, 1.960]
     gamma_099 = [4.60, 4.03, 3.71, 3.50, 3.36,
                  3.25, 3.17, 3.11, 3.06, 3.01,
                  2.98, 2.95, 2.92, 2.90, 2.88,
-                 2.861, 2.797, 2.756, 2.720, 2.708,
+                 2.861, 2.797, 2.756, 2.728, 2.708,
                  2.692, 2.679, 2.662, 2.649, 2.640,
                  2.633, 2.627, 2.617, 2.576]
     gamma_0999 = [8.61, 6.86, 5.96, 5.41, 5.04,
@@ -46,6 +46,14 @@ def get_ty(gamma, n):
             return gamma_0999[n - 5]
 
     elif n >= 20 and n < 23:
+        if gamma == 0.95:
+            return gamma_095[15]
+        if gamma == 0.99:
+            return gamma_099[15]
+        if gamma == 0.999:
+            return gamma_0999[15]
+
+    elif n >= 23 and n < 28:
         if gamma == 0.95:
             return gamma_095[16]
         if gamma == 0.99:
@@ -53,7 +61,7 @@ def get_ty(gamma, n):
         if gamma == 0.999:
             return gamma_0999[16]
 
-    elif n >= 23 and n < 28:
+    elif n >= 28 and n < 33:
         if gamma == 0.95:
             return gamma_095[17]
         if gamma == 0.99:
@@ -61,7 +69,7 @@ def get_ty(gamma, n):
         if gamma == 0.999:
             return gamma_0999[17]
 
-    elif n >= 28 and n < 33:
+    elif n >= 33 and n < 38:
         if gamma == 0.95:
             return gamma_095[18]
         if gamma == 0.99:
@@ -69,7 +77,7 @@ def get_ty(gamma, n):
         if gamma == 0.999:
             return gamma_0999[18]
 
-    elif n >= 33 and n < 38:
+    elif n >= 38 and n < 43:
         if gamma == 0.95:
             return gamma_095[19]
         if gamma == 0.99:
@@ -77,7 +85,7 @@ def get_ty(gamma, n):
         if gamma == 0.999:
             return gamma_0999[19]
 
-    elif n >= 38 and n < 43:
+    elif n >= 43 and n < 48:
         if gamma == 0.95:
             return gamma_095[20]
         if gamma == 0.99:
@@ -85,7 +93,7 @@ def get_ty(gamma, n):
         if gamma == 0.999:
             return gamma_0999[20]
 
-    elif n >= 43 and n < 48:
+    elif n >= 48 and n < 56:
         if gamma == 0.95:
             return gamma_095[21]
         if gamma == 0.99:
@@ -93,7 +101,7 @@ def get_ty(gamma, n):
         if gamma == 0.999:
             return gamma_0999[21]
 
-    elif n >= 48 and n < 56:
+    elif n >= 56 and n < 66:
         if gamma == 0.95:
             return gamma_095[22]
         if gamma == 0.99:
@@ -101,14 +109,6 @@ def get_ty(gamma, n):
         if gamma == 0.999:
             return gamma_0999[22]
 
-    elif n >= 56 and n < 66:
-        if gamma == 0.95:
-            return gamma_095[23]
-        if gamma == 0.99:
-            return gamma_099[23]
-        if gamma == 0.999:
-            return gamma_0999[23]
-
     elif n >= 66 and n < 76:
         if gamma == 0.95:
             return gamma_095[23]
-- 
2.43.0


From 430c8d24c11c33810970152184c1375b0f05e0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 75/89] fix: fourth semi-invariant of the sum of flows

---
 most_queue/theory/utils/flow_sum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/theory/utils/flow_sum.py b/most_queue/theory/utils/flow_sum.py
index d1c9d3a..534e46d 100755
--- a/most_queue/theory/utils/flow_sum.py
+++ b/most_queue/theory/utils/flow_sum.py
@@ -112,7 +112,7 @@ class SummatorNumeric:
         if len(v) > 2:
             k.append((3 * pow(v[1], 2) - v[0] * v[2]) / pow(v[0], 5))
         if len(v) > 3:
-            k4 = v[3] / pow(v[0], 2) + 5 * v[1] * \
+            k4 = v[3] * pow(v[0], 2) + 5 * v[1] * \
                 (3 * pow(v[1], 2) - 2 * v[0] * v[2])
             k4 = k4 / pow(v[0], 7)
             k.append(k4)
-- 
2.43.0


From 5c6176adf9c63436a121d18a9ba95ac7a44d18b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:53 +0000
Subject: [PATCH 76/89] fix: the sum of flows can be imported without a display

---
 most_queue/theory/utils/flow_sum.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/most_queue/theory/utils/flow_sum.py b/most_queue/theory/utils/flow_sum.py
index 534e46d..c638afc 100755
--- a/most_queue/theory/utils/flow_sum.py
+++ b/most_queue/theory/utils/flow_sum.py
@@ -1,13 +1,8 @@
 import copy
 import math
 
-import matplotlib
-import matplotlib.pyplot as plt
-
 from most_queue.rand_distribution import H2_dist
 
-matplotlib.use('TkAgg')
-
 
 class SummatorNumeric:
 
-- 
2.43.0


From 003bba053272048ec90c3184022bddf79bf04c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 77/89] fix: a finite-source simulation with few sources can be
 printed

---
 most_queue/sim/queue_finite_source_sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/sim/queue_finite_source_sim.py b/most_queue/sim/queue_finite_source_sim.py
index 15e1251..664b4c2 100755
--- a/most_queue/sim/queue_finite_source_sim.py
+++ b/most_queue/sim/queue_finite_source_sim.py
@@ -229,7 +229,7 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
         if not is_short:
             res += "Stationary prob:\n"
             res += "\t"
-            for i in range(10):
+            for i in range(min(10, len(self.p))):
                 res += "{0:6.5f}".format(self.p[i] / self.ttek) + "   "
             res += "\n"
             res += "Arrived: " + str(self.arrived) + "\n"
-- 
2.43.0


From d92725d017575cd5eb113cc1a4f606ca08c0a5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 78/89] fix: an impatient-queue simulation prints its
 statistics

---
 most_queue/sim/impatient_queue_sim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/sim/impatient_queue_sim.py b/most_queue/sim/impatient_queue_sim.py
index 5c15307..e74b1fe 100755
--- a/most_queue/sim/impatient_queue_sim.py
+++ b/most_queue/sim/impatient_queue_sim.py
@@ -152,11 +152,11 @@ class ImpatientQueueSim(QueueingSystemSimulator):
                 self.drop_task(num_of_task_earlier, moment_to_leave_earlier)
 
     def __str__(self, is_short=False):
-        super().__str__(is_short)
+        res = super().__str__(is_short)
         num_of_task_earlier = -1
         moment_to_leave_earlier = 1e10
         for i, tsk in enumerate(self.queue.queue):
             if tsk.moment_to_leave < moment_to_leave_earlier:
                 moment_to_leave_earlier = tsk.moment_to_leave
                 num_of_task_earlier = i
-        return f'Task {num_of_task_earlier} is earlier to leave at {moment_to_leave_earlier:8.3f}'
+        return res + f'Task {num_of_task_earlier} is earlier to leave at {moment_to_leave_earlier:8.3f}\n'
-- 
2.43.0


From d711a46c0805fef335ae91fa8243edb5a1733574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:48 +0000
Subject: [PATCH 79/89] fix: the utilities of the vacation experiments can be
 used without a display

---
 most_queue/general_utils/vacations_paper_utils.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/most_queue/general_utils/vacations_paper_utils.py b/most_queue/general_utils/vacations_paper_utils.py
index 456ec79..3c101ec 100644
--- a/most_queue/general_utils/vacations_paper_utils.py
+++ b/most_queue/general_utils/vacations_paper_utils.py
@@ -1,11 +1,8 @@
 import json
 import math
 
-import matplotlib
 import matplotlib.pyplot as plt
 
-matplotlib.use('TkAgg')
-
 
 def print_table(experiments_stat):
     for stat in experiments_stat:
-- 
2.43.0


From 779b0dac3e02df0db6454ac4593ff7becd8609ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:29 +0000
Subject: [PATCH 80/89] fix: preemptive priority formulas take longer and
 shorter lists of service moments

---
 most_queue/theory/priority_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index 3d98268..49ea1c3 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -131,7 +131,7 @@ def ppnz_calc_warm_up(l, f, pnz, num=5):
     b: [j], j=1..num, начальные моменты времени обслуживания
     f: [j], нач. моменты распределения времени разогрева
     """
-    num = min(num, len(f))
+    num = min(num, len(f), len(pnz))
 
     pnz_warm_up = []
     z = 1 + l * pnz[0]
-- 
2.43.0


From 71471eb972ea289c91894a29d17c80e8fbb1f2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:27 +0000
Subject: [PATCH 81/89] fix: the flow summation script imports its module and
 prints variations in their own rows

---
 most_queue/misc/flow_sum.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/most_queue/misc/flow_sum.py b/most_queue/misc/flow_sum.py
index 353edd0..f41d6cd 100755
--- a/most_queue/misc/flow_sum.py
+++ b/most_queue/misc/flow_sum.py
@@ -2,7 +2,7 @@ import matplotlib
 import matplotlib.pyplot as plt
 from most_queue.rand_distribution import Gamma
 from most_queue.sim.flow_sum_sim import FlowSumSim
-from most_queue.theory.flow_sum import SummatorNumeric
+from most_queue.theory.utils.flow_sum import SummatorNumeric
 
 matplotlib.use('TkAgg')
 
@@ -55,10 +55,10 @@ def test():
         print("{0:^80s}".format("Сумма " + str(i + 2) + " потоков"))
         print("-" * 80)
         print(str_f.format("ИМ", s_sim.flows_[i][0], s_sim.flows_[i][1], s_sim.flows_[i][2], s_sim.flows_[i][3],
-                           coevs_num[i]))
+                           coevs_sim[i]))
         print("-" * 80)
         print(str_f.format("Числ", s.flows_[i][0].real, s.flows_[i][1].real, s.flows_[i][2].real, s.flows_[i][3].real,
-                           coevs_sim[i]))
+                           coevs_num[i]))
         print("-" * 80)
         errors1.append(SummatorNumeric.get_error(s.flows_[i][0].real, s_sim.flows_[i][0]))
         errors2.append(SummatorNumeric.get_error(s.flows_[i][1].real, s_sim.flows_[i][1]))
-- 
2.43.0


From 48355ab9d8d096202aec123b412f20bb23389fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:27 +0000
Subject: [PATCH 82/89] fix: the third moment of a law given by its skewness

---
 most_queue/general_utils/approx_cdf_make.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/general_utils/approx_cdf_make.py b/most_queue/general_utils/approx_cdf_make.py
index 5ca1a3e..401f4e5 100755
--- a/most_queue/general_utils/approx_cdf_make.py
+++ b/most_queue/general_utils/approx_cdf_make.py
@@ -24,7 +24,7 @@ D = b[1] - pow(b[0], 2)
 sigma = math.sqrt(D)
 
 # 3 начальный момент
-b[2] = a_s*pow(sigma, 3) + 3*b[1]*b[0] - 2*pow(b[0], 2)
+b[2] = a_s*pow(sigma, 3) + 3*b[1]*b[0] - 2*pow(b[0], 3)
 
 
 # Гамма-аппроксимация
-- 
2.43.0


From 40495c1ff7f31de85a79d7ff92bdfce4d052e729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:34 +0000
Subject: [PATCH 83/89] fix: simulations no longer break when the clock passes
 1e10

Idle channels, waiting sources and phases that are not running were marked by a
finite moment, so a simulation in small units of time (or with a heavy tail)
treated them as the next event and failed.
---
 most_queue/sim/fj_delta_sim.py            |  4 ++--
 most_queue/sim/fj_sim.py                  |  2 +-
 most_queue/sim/impatient_queue_sim.py     |  6 +++---
 most_queue/sim/priority_network.py        |  4 ++--
 most_queue/sim/priority_queue_sim.py      | 12 ++++++------
 most_queue/sim/qs_sim.py                  |  4 ++--
 most_queue/sim/queue_finite_source_sim.py | 12 ++++++------
 most_queue/sim/utils/phase.py             |  4 ++--
 most_queue/sim/utils/servers.py           |  4 ++--
 9 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/most_queue/sim/fj_delta_sim.py b/most_queue/sim/fj_delta_sim.py
index d43f45a..cee1f11 100755
--- a/most_queue/sim/fj_delta_sim.py
+++ b/most_queue/sim/fj_delta_sim.py
@@ -179,14 +179,14 @@ class ForkJoinSimDelta(ForkJoinSim):
     def run_one_step(self):
 
         num_of_server_earlier = -1
-        serv_earl = 1e10
+        serv_earl = float('inf')
 
         for c in range(self.n):
             if self.servers[c].time_to_end_service < serv_earl:
                 serv_earl = self.servers[c].time_to_end_service
                 num_of_server_earlier = c
 
-        subtask_arr_time_earl = 1e10
+        subtask_arr_time_earl = float('inf')
         num_of_subtask_earl = -1
 
         for c in range(len(self.subtask_arr_queue)):
diff --git a/most_queue/sim/fj_sim.py b/most_queue/sim/fj_sim.py
index d83c3a0..ba7a84b 100755
--- a/most_queue/sim/fj_sim.py
+++ b/most_queue/sim/fj_sim.py
@@ -157,7 +157,7 @@ class ForkJoinSim(QueueingSystemSimulator):
     def run_one_step(self):
 
         num_of_server_earlier = -1
-        serv_earl = 1e10
+        serv_earl = float('inf')
 
         for c in range(self.n):
             if self.servers[c].time_to_end_service < serv_earl:
diff --git a/most_queue/sim/impatient_queue_sim.py b/most_queue/sim/impatient_queue_sim.py
index e74b1fe..465843f 100755
--- a/most_queue/sim/impatient_queue_sim.py
+++ b/most_queue/sim/impatient_queue_sim.py
@@ -124,7 +124,7 @@ class ImpatientQueueSim(QueueingSystemSimulator):
     def run_one_step(self):
 
         num_of_server_earlier = -1
-        serv_earl = 1e10
+        serv_earl = float('inf')
 
         for c in range(self.n):
             if self.servers[c].time_to_end_service < serv_earl:
@@ -132,7 +132,7 @@ class ImpatientQueueSim(QueueingSystemSimulator):
                 num_of_server_earlier = c
 
         num_of_task_earlier = -1
-        moment_to_leave_earlier = 1e10
+        moment_to_leave_earlier = float('inf')
         for i, tsk in enumerate(self.queue.queue):
             if tsk.moment_to_leave < moment_to_leave_earlier:
                 moment_to_leave_earlier = tsk.moment_to_leave
@@ -154,7 +154,7 @@ class ImpatientQueueSim(QueueingSystemSimulator):
     def __str__(self, is_short=False):
         res = super().__str__(is_short)
         num_of_task_earlier = -1
-        moment_to_leave_earlier = 1e10
+        moment_to_leave_earlier = float('inf')
         for i, tsk in enumerate(self.queue.queue):
             if tsk.moment_to_leave < moment_to_leave_earlier:
                 moment_to_leave_earlier = tsk.moment_to_leave
diff --git a/most_queue/sim/priority_network.py b/most_queue/sim/priority_network.py
index 572bd3b..d766ac6 100755
--- a/most_queue/sim/priority_network.py
+++ b/most_queue/sim/priority_network.py
@@ -85,8 +85,8 @@ class PriorityNetwork:
         num_of_serv_ch_earlier = -1  # номер канала узла, мин время до окончания обслуживания
         num_of_k_earlier = -1  # номер класса, прибывающего через мин время
         num_of_node_earlier = -1  # номер узла, в котором раньше всех закончится обслуживание
-        arrival_earlier = 1e10  # момент прибытия ближайшего
-        serving_earlier = 1e10  # момент ближайшего обслуживания
+        arrival_earlier = float('inf')  # момент прибытия ближайшего
+        serving_earlier = float('inf')  # момент ближайшего обслуживания
 
         for k in range(self.k_num):
             if self.arrival_time[k] < arrival_earlier:
diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index 83260f7..637ca1d 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -425,8 +425,8 @@ class PriorityQueueSimulator:
         self.queue[new_class] = buf
 
     def calc_time_to_next_event(self):
-        serv_earl = 1e10
-        arrival_earlier = 1e10
+        serv_earl = float('inf')
+        arrival_earlier = float('inf')
 
         for kk in range(self.k):
             if self.arrival_time[kk] < arrival_earlier:
@@ -447,10 +447,10 @@ class PriorityQueueSimulator:
     def run_one_step(self):
 
         num_of_server_earlier = -1
-        serv_earl = 1e10
+        serv_earl = float('inf')
 
         k_earlier = -1
-        arrival_earlier = 1e10
+        arrival_earlier = float('inf')
 
         for kk in range(self.k):
             if self.arrival_time[kk] < arrival_earlier:
@@ -661,7 +661,7 @@ class Server:
             self.dist.append(create_distribution(
                 params, dist_type, self.generator))
 
-        self.time_to_end_service = 1e10
+        self.time_to_end_service = float('inf')
         self.total_time_to_serve = 0
         # Сохранение типа дисциплины обслуживания необходимо для
         # корректного назначения времени обслуживания после прерывания
@@ -696,7 +696,7 @@ class Server:
         self.is_free = False
 
     def end_service(self):
-        self.time_to_end_service = 1e10
+        self.time_to_end_service = float('inf')
         self.is_free = True
         ts = self.tsk_on_service
         self.tsk_on_service = None
diff --git a/most_queue/sim/qs_sim.py b/most_queue/sim/qs_sim.py
index 9b30329..62d2f4d 100755
--- a/most_queue/sim/qs_sim.py
+++ b/most_queue/sim/qs_sim.py
@@ -256,7 +256,7 @@ class QueueingSystemSimulator:
                 if self.cold_delay_phase.is_start:
                     # The job was received before the end of the cooling start delay time
                     self.cold_delay_phase.is_start = False
-                    self.cold_delay_phase.end_time = 1e16
+                    self.cold_delay_phase.end_time = float('inf')
                     self.cold_delay_phase.prob += self.ttek - self.cold_delay_phase.start_mom
                     self.send_task_to_channel()
                     return
@@ -407,7 +407,7 @@ class QueueingSystemSimulator:
         """
 
         num_of_server_earlier = -1
-        serv_earl = 1e16
+        serv_earl = float('inf')
 
         for c in range(self.n):
             if self.servers[c].time_to_end_service < serv_earl:
diff --git a/most_queue/sim/queue_finite_source_sim.py b/most_queue/sim/queue_finite_source_sim.py
index 664b4c2..eef70ac 100755
--- a/most_queue/sim/queue_finite_source_sim.py
+++ b/most_queue/sim/queue_finite_source_sim.py
@@ -69,7 +69,7 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
         self.in_sys += 1
         self.ttek = self.arrival_times[self.arrived_num]
         self.t_old = self.ttek
-        self.arrival_times[self.arrived_num] = 1e10
+        self.arrival_times[self.arrived_num] = float('inf')
 
         if self.free_channels == 0:
             if self.buffer == None:  # не задана длина очереди, т.е бесконечная очередь
@@ -124,7 +124,7 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
         self.ttek = time_to_end
 
         for i, a in enumerate(self.arrival_times):
-            if a > 9.9e9:
+            if a == float('inf'):
                 self.arrival_times[i] = self.ttek + self.source.generate()
                 break
 
@@ -153,8 +153,8 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
 
     def calc_next_event_time(self):
 
-        serv_earl = 1e10
-        arr_earl = 1e10
+        serv_earl = float('inf')
+        arr_earl = float('inf')
 
         for c in range(self.n):
             if self.servers[c].time_to_end_service < serv_earl:
@@ -172,8 +172,8 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
     def run_one_step(self):
 
         num_of_server_earlier = -1
-        serv_earl = 1e10
-        arr_earl = 1e10
+        serv_earl = float('inf')
+        arr_earl = float('inf')
         self.arrived_num = -1
 
         if self.sources_left != 0:
diff --git a/most_queue/sim/utils/phase.py b/most_queue/sim/utils/phase.py
index b5e4cf4..3d539f0 100644
--- a/most_queue/sim/utils/phase.py
+++ b/most_queue/sim/utils/phase.py
@@ -18,7 +18,7 @@ class QsPhase:
         self.name = name
         self.is_set = False
         self.is_start = False
-        self.end_time = 1e16
+        self.end_time = float('inf')
         self.prob = 0
         self.start_mom = 0
         self.starts_times = 0
@@ -53,7 +53,7 @@ class QsPhase:
         self.prob += ttek - self.start_mom
 
         self.is_start = False
-        self.end_time = 1e16
+        self.end_time = float('inf')
 
     def get_prob(self, ttek):
         """
diff --git a/most_queue/sim/utils/servers.py b/most_queue/sim/utils/servers.py
index 848a8d4..ee5d179 100644
--- a/most_queue/sim/utils/servers.py
+++ b/most_queue/sim/utils/servers.py
@@ -20,7 +20,7 @@ class Server:
         types -  тип распределения
         """
         self.dist = create_distribution(params, types, generator)
-        self.time_to_end_service = 1e10
+        self.time_to_end_service = float('inf')
         self.is_free = True
         self.tsk_on_service = None
         Server.id += 1
@@ -55,7 +55,7 @@ class Server:
         """
         End service
         """
-        self.time_to_end_service = 1e10
+        self.time_to_end_service = float('inf')
         self.is_free = True
         ts = self.tsk_on_service
         self.tsk_on_service = None
-- 
2.43.0


From d4a4cec5d3d24b794bde083d88399004c7562db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:00 +0000
Subject: [PATCH 84/89] fix: Erlang random values of a high order no longer
 come out infinite

---
 most_queue/rand_distribution.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index 09b349b..df39544 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -636,14 +636,15 @@ class Erlang_dist:
         """
         Генератор псевдо-случайных чисел. Статический метод
         """
-        prod = 1
+        # сумма логарифмов: произведение многих случайных чисел обращается в ноль
+        log_sum = 0
         for i in range(r):
             if generator:
-                prod *= generator.random()
+                log_sum += np.log(generator.random())
             else:
-                prod *= np.random.rand()
+                log_sum += np.log(np.random.rand())
 
-        return -(1.0 / mu) * np.log(prod)
+        return -(1.0 / mu) * log_sum
 
     @staticmethod
     def get_cdf(params, t):
-- 
2.43.0


From 25faaa9f2e34f7c3187a407c05179ee3fe4af1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:58 +0000
Subject: [PATCH 85/89] fix: gamma laws with a large shape parameter no longer
 overflow in fits and GI/M/n

---
 most_queue/rand_distribution.py  | 21 ++++++++++++---------
 most_queue/theory/gi_m_1_calc.py |  2 +-
 most_queue/theory/gi_m_n_calc.py |  4 ++--
 3 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index df39544..ace175b 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -785,7 +785,7 @@ class Gamma:
                 else:
                     B.append(b[i - 1])
                 for j in range(len(b) + 1):
-                    A[i].append(Gamma.get_gamma(alpha + i + j) / (pow(mu, i + j) * Gamma.get_gamma(alpha)))
+                    A[i].append(Gamma.get_gamma_ratio(alpha, i + j) / pow(mu, i + j))
             g = np.linalg.solve(A, B)
             return mu, alpha, g
         else:
@@ -852,14 +852,7 @@ class Gamma:
         g - массив поправочных коэффициентов
         t: время
         """
-        fract = sp.gamma(alpha)
-        if math.fabs(fract) > 1e-12:
-            if math.fabs(mu * t) > 1e-12:
-                main = mu * math.pow(mu * t, alpha - 1) * math.exp(-mu * t) / fract
-            else:
-                main = 0
-        else:
-            main = 0
+        main = Gamma.get_f(mu, alpha, t)
         summ = 0
         for i in range(len(g)):
             summ += g[i] * pow(t, i)
@@ -934,6 +927,16 @@ class Gamma:
             return math.pi / (math.sin(math.pi * x) * Gamma.get_gamma(1 - x))
         return Gamma.gamma_approx(x)
 
+    @staticmethod
+    def get_gamma_ratio(x, k):
+        """
+        Отношение Г(x + k) / Г(x) при целом k >= 0. Сами Гамма-функции переполняются при x > 171
+        """
+        res = 1.0
+        for i in range(k):
+            res *= x + i
+        return res
+
     @staticmethod
     def gamma_approx(x):
         """
diff --git a/most_queue/theory/gi_m_1_calc.py b/most_queue/theory/gi_m_1_calc.py
index 7994236..8aaf3ea 100755
--- a/most_queue/theory/gi_m_1_calc.py
+++ b/most_queue/theory/gi_m_1_calc.py
@@ -56,7 +56,7 @@ def get_w_param(a, mu, e=1e-10, approx_distr="Gamma"):
             summ = 0
             for i in range(len(g)):
                 summ += (g[i] / pow(mu * (1.0 - w_old) + v, i)) * (
-                            Gamma.get_gamma(alpha + i) / Gamma.get_gamma(alpha))
+                            Gamma.get_gamma_ratio(alpha, i))
             left = pow(v / (mu * (1.0 - w_old) + v), alpha)
             w_new = left * summ
             if math.fabs(w_new - w_old) < e:
diff --git a/most_queue/theory/gi_m_n_calc.py b/most_queue/theory/gi_m_n_calc.py
index 521cebb..1958ad2 100755
--- a/most_queue/theory/gi_m_n_calc.py
+++ b/most_queue/theory/gi_m_n_calc.py
@@ -51,7 +51,7 @@ def get_b0(a, j, mu, approx_distr="Gamma"):
         summ = 0
         for i in range(len(g)):
             summ += (g[i] / pow(mu * j + v, i)) * (
-                    Gamma.get_gamma(alpha + i) / Gamma.get_gamma(alpha))
+                    Gamma.get_gamma_ratio(alpha, i))
         left = pow(v / (mu * j + v), alpha)
         b0 = left * summ
         return b0
@@ -129,7 +129,7 @@ def get_w_param(a, mu, n, e=1e-10, approx_distr="Gamma"):
             summ = 0
             for i in range(len(g)):
                 summ += (g[i] / pow(mu * n * (1.0 - w_old) + v, i)) * (
-                        Gamma.get_gamma(alpha + i) / Gamma.get_gamma(alpha))
+                        Gamma.get_gamma_ratio(alpha, i))
             left = pow(v / (mu * n * (1.0 - w_old) + v), alpha)
             w_new = left * summ
             if math.fabs(w_new - w_old) < e:
-- 
2.43.0


From a8426230d895647f6ff2a390e5a0e4391e488ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:24 +0000
Subject: [PATCH 86/89] fix: M/M/n/r and finite-source results no longer
 overflow with many channels, places or sources

---
 most_queue/theory/engset_model.py | 42 +++++++++++--------------------
 most_queue/theory/mmnr_calc.py    | 38 +++++++++-------------------
 2 files changed, 26 insertions(+), 54 deletions(-)

diff --git a/most_queue/theory/engset_model.py b/most_queue/theory/engset_model.py
index 3e90780..a997b7f 100755
--- a/most_queue/theory/engset_model.py
+++ b/most_queue/theory/engset_model.py
@@ -16,42 +16,28 @@ class Engset:
         self.mu = mu
         self.ro = lam / mu
         self.m = m
-        self.calc_m_i()
-
-    def calc_m_i(self):
-        m_i = []
-        m_i.append(1)
-        prod = 1
-        for i in range(self.m):
-            prod *= (self.m - i)
-            m_i.append(prod)
-        self.m_i = m_i
 
     def get_p(self):
         """
         Вероятности состояний системы
         """
-        summ = 0
-        for i, mm in enumerate(self.m_i):
-            summ += mm * pow(self.ro, i)
-
-        ps = []
-        ps.append(1.0 / summ)
-
+        # каждая вероятность - через предыдущую: произведения m(m-1)... переполняются при большом m
+        ps = [1.0]
         for i in range(1, self.m + 1):
-            ps.append(ps[0] * self.m_i[i] * pow(self.ro, i))
+            ps.append(ps[-1] * (self.m - i + 1) * self.ro)
+            if ps[-1] > 1e100:
+                ps = [x / ps[-1] for x in ps]
 
-        return ps
+        summ = sum(ps)
+        return [x / summ for x in ps]
 
     def get_N(self):
         """
         Средние число заявок в системе
         """
-        p0 = self.get_p()[0]
         N = 0
-        for i, mm in enumerate(self.m_i):
-            N += i * mm * pow(self.ro, i)
-        N *= p0
+        for i, prob in enumerate(self.get_p()):
+            N += i * prob
 
         return N
 
@@ -92,13 +78,13 @@ class Engset:
         """
         Начальные моменты времени ожидания через дифф ПЛС
         """
-        p0 = self.get_p()[0]
+        p = self.get_p()
         N = self.get_N()
 
         # производные слагаемых ПЛС (mu + s)^(-i) в нуле берутся точно
         w = [0.0, 0.0, 0.0]
         for i in range(1, self.m):
-            prob = pow(self.ro, i) * self.m_i[i + 1] * p0 / (self.m - N)
+            prob = (self.m - i) * p[i] / (self.m - N)
             for k in range(3):
                 prob *= (i + k) / self.mu
                 w[k] += prob
@@ -110,10 +96,10 @@ class Engset:
         ПЛС времени ожидания
         """
         summ = 0
-        for i in range(self.m):
-            summ += pow(self.lam, i) * self.m_i[i + 1] / pow(self.mu + s, i)
+        for i, prob in enumerate(self.get_p()):
+            summ += (self.m - i) * prob * pow(self.mu / (self.mu + s), i)
 
-        return summ * p0 / (self.m - N)
+        return summ / (self.m - N)
 
     def get_v(self):
         """
diff --git a/most_queue/theory/mmnr_calc.py b/most_queue/theory/mmnr_calc.py
index 58a3bb1..4c0ae0c 100755
--- a/most_queue/theory/mmnr_calc.py
+++ b/most_queue/theory/mmnr_calc.py
@@ -9,21 +9,15 @@ class MMnr_calc:
     @staticmethod
     def getPI(l, mu, n, r):
 
-        ro = l / mu
-        p = MMnr_calc.get_p(l, mu, n, r)
-
-        chisl = math.pow(ro, n + r) * p[0]
-        znam = math.factorial(n) * math.pow(n, r)
-        return chisl / znam
+        return MMnr_calc.get_p(l, mu, n, r)[n + r]
 
     @staticmethod
     def getQ(l, mu, n, r):
-        ro = l / mu
         p = MMnr_calc.get_p(l, mu, n, r)
         sum = 0
         for i in range(1, r + 1):
-            sum += i * math.pow(ro / n, i)
-        return p[n] * sum
+            sum += i * p[n + i]
+        return sum
 
     @staticmethod
     def get_qs(l, mu, n, r, q_num=3):
@@ -44,7 +38,7 @@ class MMnr_calc:
         w = [0] * num
         for k in range(num):
             for i in range(r):
-                w[k] += p[n + i] * math.factorial(i + 1 + k) / (math.factorial(i) * pow(n * mu, k + 1))
+                w[k] += p[n + i] * (math.factorial(i + 1 + k) // math.factorial(i)) / pow(n * mu, k + 1)
             w[k] /= accepted
         return w
 
@@ -58,22 +52,14 @@ class MMnr_calc:
     @staticmethod
     def get_p(l, mu, n, r):
 
-        p = [0] * (n + r + 1)
         ro = l / mu
 
-        summ1 = 0
-        for i in range(n):
-            summ1 += pow(ro, i) / math.factorial(i)
-
-        coef = pow(ro, n) / math.factorial(n)
-        summ2 = sum(pow(ro / n, i) for i in range(r + 1))
-
-        p[0] = 1.0 / (summ1 + coef * summ2)
-
-        for i in range(n):
-            p[i] = pow(ro, i) * p[0] / math.factorial(i)
-
-        for i in range(n, n + r + 1):
-            p[i] = pow(ro, i) * p[0] / (math.factorial(n) * pow(n, i - n))
+        # each probability comes from the one before: powers and factorials overflow if n + r is large
+        p = [1.0]
+        for i in range(1, n + r + 1):
+            p.append(p[-1] * ro / min(i, n))
+            if p[-1] > 1e100:
+                p = [x / p[-1] for x in p]
 
-        return p
+        summ = math.fsum(p)
+        return [x / summ for x in p]
-- 
2.43.0


From d7bad3d89b9e9e2cb29009f44f1509d9663cc0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:41 +0000
Subject: [PATCH 87/89] fix: M/D/n and Ek/D/n probabilities with many channels
 or phases

---
 most_queue/theory/ek_d_n_calc.py | 44 ++--------------------------
 most_queue/theory/m_d_n_calc.py  | 49 ++++++++++++++++----------------
 2 files changed, 27 insertions(+), 66 deletions(-)

diff --git a/most_queue/theory/ek_d_n_calc.py b/most_queue/theory/ek_d_n_calc.py
index ab0e99c..b46c0a3 100755
--- a/most_queue/theory/ek_d_n_calc.py
+++ b/most_queue/theory/ek_d_n_calc.py
@@ -1,8 +1,7 @@
-import numpy as np
 import math
 import cmath
 
-from most_queue.theory.m_d_n_calc import get_probs
+from most_queue.theory.m_d_n_calc import get_first_probs, get_probs
 
 
 class Ek_D_n:
@@ -34,49 +33,12 @@ class Ek_D_n:
 
     def calc_w_up_to_nk(self):
         self.get_z()
-        A = np.zeros((self.n * self.k, self.n * self.k), dtype=complex)
-        B = np.zeros(self.n * self.k, dtype=complex)
-        row_num = 0
-        for m in range(len(self.z_)):
-            for j in range(self.n):
-                for i in range(self.k):
-                    right_z = np.power(self.z_[m], self.n * self.k + i).real
-                    delta_z = np.power(self.z_[m], j * self.k + i).real - right_z
-                    A[row_num, j * self.k + i] = delta_z
-            row_num += 1
-        for m in range(len(self.z_)):
-            for j in range(self.n):
-                for i in range(self.k):
-                    right_z = np.power(self.z_[m], self.n * self.k + i).imag
-                    delta_z = np.power(self.z_[m], j * self.k + i).imag - right_z
-                    A[row_num, j * self.k + i] = delta_z
-            row_num += 1
-
-        for j in range(self.n):
-            coef = self.n - j
-            for i in range(j * self.k, (j + 1) * (self.k)):
-                A[self.n * self.k - 1, i] = coef
-
-        B[self.n * self.k - 1] = self.n - self.l * self.b / self.k
-        w = np.linalg.lstsq(A, B, rcond=1e-16)
-        w_real = []
-        for i in range(len(w[0])):
-            w_real.append(w[0][i].real)
-        return w_real
+        return get_first_probs(self.z_, self.n, self.k, self.l * self.b)
 
     def calc_p(self):
         w = self.calc_w()
-        is_zero = False
         for j in range(self.p_num):
-            if is_zero:
-                break
-            summ = 0
-            for m in range(j * self.k, (j + 1) * self.k):
-                summ += w[m]
-            if math.fabs(summ) < 1e-12 or summ > 1:
-                is_zero = True
-            else:
-                self.p[j] = summ
+            self.p[j] = sum(w[j * self.k:(j + 1) * self.k])
 
         return self.p
 
diff --git a/most_queue/theory/m_d_n_calc.py b/most_queue/theory/m_d_n_calc.py
index 6da79bb..4f721a1 100755
--- a/most_queue/theory/m_d_n_calc.py
+++ b/most_queue/theory/m_d_n_calc.py
@@ -3,6 +3,29 @@ import math
 import cmath
 
 
+def get_first_probs(roots, n, k, lb):
+    """
+    Вероятности первых N = n * k состояний
+    sum w[i] * (z^(N + i mod k) - z^i) = C * (z^k - 1) * prod (z - roots[m]), производная в 1 равна n * k - lb.
+    Коэффициенты находятся по значениям на единичной окружности: решение системы уравнений,
+    составленной по корням, неустойчиво при большом N.
+    roots - корни с неотрицательной мнимой частью
+    n - число каналов
+    k - число фаз интервала между заявками
+    lb - среднее число фаз, завершившихся за время обслуживания
+    """
+    N = n * k
+    z = np.exp(2j * math.pi * np.arange(N + k) / (N + k))
+    values = (n - lb / k) * (np.power(z, k) - 1.0)
+    for m, root in enumerate(roots):
+        values *= (z - root) / (1.0 - root)
+        if 2 * (m + 1) != N:
+            values *= (z - root.conjugate()) / (1.0 - root.conjugate())
+
+    w = -np.fft.fft(values).real / (N + k)
+    return [max(x, 0.0) for x in w[:N].tolist()]
+
+
 def get_probs(up_to_n, k, lb, num):
     """
     Вероятности состояний по их производящей функции
@@ -66,31 +89,7 @@ class M_D_n:
 
     def calc_p_up_to_n(self):
         self.get_z()
-        A = np.zeros((self.n, self.n), dtype=complex)
-        B = np.zeros(self.n, dtype=complex)
-        row_num = 0
-        for m in range(len(self.z_)):
-            for j in range(self.n):
-                right_z = np.power(self.z_[m], self.n).real
-                delta_z = np.power(self.z_[m], j).real - right_z
-                A[row_num, j] = delta_z
-            row_num += 1
-        for m in range(len(self.z_)):
-            for j in range(self.n):
-                right_z = np.power(self.z_[m], self.n).imag
-                delta_z = np.power(self.z_[m], j).imag - right_z
-                A[row_num, j] = delta_z
-            row_num += 1
-
-        for j in range(self.n):
-            A[self.n - 1, j] = self.n - j
-
-        B[self.n - 1] = self.n - self.l * self.b
-        p = np.linalg.lstsq(A, B, rcond=1e-16)
-        p_real = []
-        for i in range(len(p[0])):
-            p_real.append(p[0][i].real)
-        return p_real
+        return get_first_probs(self.z_, self.n, 1, self.l * self.b)
 
     def calc_p(self):
         p_up_to_n = self.calc_p_up_to_n()
-- 
2.43.0


From f945bf2459aca2a2497357a1f7c88533bea03fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:50 +0000
Subject: [PATCH 88/89] fix: M/M/1 with impatience no longer returns zeros
 under overload with long patience

---
 most_queue/theory/impatience_calc.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/most_queue/theory/impatience_calc.py b/most_queue/theory/impatience_calc.py
index e6787c9..0a5162f 100755
--- a/most_queue/theory/impatience_calc.py
+++ b/most_queue/theory/impatience_calc.py
@@ -26,17 +26,25 @@ def get_p(l, mu, gamma, tol=1e-12, max_num=100000):
     """
     Вероятности состояний системы
     """
-    p0 = get_p0(l, mu, gamma, tol)
-    ps = []
-    ps.append(p0)
+    # вероятности с точностью до общего множителя: в перегруженной системе с большим
+    # терпением p0 меньше наименьшего представимого числа
+    ps = [1.0]
+    summ = 1.0
 
-    for i in range(1, max_num):
+    i = 0
+    while True:
+        i += 1
         pi = ps[-1] * l / (mu + (i - 1) * gamma)
+        if pi > 1e200:
+            ps = [p / pi for p in ps]
+            summ /= pi
+            pi = 1.0
         ps.append(pi)
-        if pi < tol and mu + i * gamma > l:
+        summ += pi
+        if pi < tol * summ and mu + i * gamma > l:
             break
 
-    return ps
+    return [p / summ for p in ps[:max_num]]
 
 
 def get_N(l, mu, gamma, tol=1e-12):
-- 
2.43.0


From 647c2a3766819e9c3df620c7efbd47997c7e472b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:50 +0000
Subject: [PATCH 89/89] fix: M/G/1 probabilities past the 171st with uniform
 and Pareto service

---
 .../theory/utils/q_poisson_arrival_calc.py    | 23 ++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/most_queue/theory/utils/q_poisson_arrival_calc.py b/most_queue/theory/utils/q_poisson_arrival_calc.py
index 48db02e..42c70ec 100755
--- a/most_queue/theory/utils/q_poisson_arrival_calc.py
+++ b/most_queue/theory/utils/q_poisson_arrival_calc.py
@@ -27,14 +27,18 @@ def get_q_uniform(l, mean, half_interval, num=100):
     num - число возвращаемых q[j]
     """
     q = [0.0] * num
+    x1 = l * (mean - half_interval)
+    x2 = l * (mean + half_interval)
+    elem1 = math.exp(-x1)
+    elem2 = math.exp(-x2)
+    summ1 = 0
+    summ2 = 0
     for j in range(num):
-        summ1 = 0
-        for i in range(j + 1):
-            summ1 += pow(l * (mean - half_interval), i) * math.exp(-l * (mean - half_interval)) / math.factorial(i)
-        summ2 = 0
-        for i in range(j + 1):
-            summ2 += pow(l * (mean + half_interval), i) * math.exp(-l * (mean + half_interval)) / math.factorial(i)
+        summ1 += elem1
+        summ2 += elem2
         q[j] = (1.0 / (2 * l * half_interval)) * (summ1 - summ2)
+        elem1 *= x1 / (j + 1)
+        elem2 *= x2 / (j + 1)
 
     return q
 
@@ -47,14 +51,17 @@ def get_q_Pareto(l, alpha, K, num=100):
     num - число возвращаемых q[j]
     """
     q = [0.0] * num
+    # gammas[j] - неполная гамма-функция, деленная на j!
     gammas = [0.0] * num
     z = l * K
     gammas[0] = Gamma.get_gamma_incomplete(-alpha, z)
 
+    elem = pow(z, -alpha) * math.exp(-z)
     for j in range(1, num):
-        gammas[j] = (j - alpha - 1) * gammas[j - 1] + pow(z, j - alpha - 1) * math.exp(-z)
+        gammas[j] = ((j - alpha - 1) * gammas[j - 1] + elem) / j
+        elem *= z / j
     forw = alpha * pow(z, alpha)
     for j in range(num):
-        q[j] = forw * gammas[j] / math.factorial(j)
+        q[j] = forw * gammas[j]
 
     return q
-- 
2.43.0

