From c7fbc280731a527abb3fb846eb252b1ef71911a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:10 +0000
Subject: [PATCH 01/40] fix: discard gauge and meter messages with a bad value
 instead of raising

---
 txstatsd/server/processor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 425a0b9..7655c03 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -194,7 +194,7 @@ class MessageProcessor(BaseMessageProcessor):
         try:
             value = float(values[0])
         except (TypeError, ValueError):
-            self.fail(message)
+            return self.fail(message)
 
         self.compose_gauge_metric(key, value)
 
@@ -210,7 +210,7 @@ class MessageProcessor(BaseMessageProcessor):
         try:
             value = float(values[0])
         except (TypeError, ValueError):
-            self.fail(message)
+            return self.fail(message)
 
         self.compose_meter_metric(key, value)
 
-- 
2.43.0


From df60b68834d4eb75ac6f907b95d5464413656bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:10 +0000
Subject: [PATCH 02/40] fix: discard counters with an unusable sample rate
 instead of raising

---
 txstatsd/server/processor.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 7655c03..1ae90eb 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -177,7 +177,12 @@ class MessageProcessor(BaseMessageProcessor):
             match = RATE.match(composite[2])
             if match is None:
                 return self.fail(message)
-            rate = match.group(1)
+            try:
+                rate = float(match.group(1))
+            except ValueError:
+                return self.fail(message)
+            if rate <= 0:
+                return self.fail(message)
 
         self.compose_counter_metric(key, value, rate)
 
-- 
2.43.0


From ff774568e589b7c755c08b655987a731d28062e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:10 +0000
Subject: [PATCH 03/40] fix: discard messages a metric plugin cannot parse
 instead of raising

---
 txstatsd/server/processor.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 1ae90eb..89e187c 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -146,13 +146,17 @@ class MessageProcessor(BaseMessageProcessor):
         return "stats." + kind
 
     def process_plugin_metric(self, metric_type, key, items, message):
-        if not key in self.plugin_metrics:
+        metric = self.plugin_metrics.get(key)
+        if metric is None:
             factory = self.plugins[metric_type]
             metric = factory.build_metric(
                 self.get_message_prefix(factory.name),
                 name=key, wall_time_func=self.time_function)
-            self.plugin_metrics[key] = metric
-        self.plugin_metrics[key].process(items)
+        try:
+            metric.process(items)
+        except (TypeError, ValueError):
+            return self.fail(message)
+        self.plugin_metrics[key] = metric
 
     def process_timer_metric(self, key, duration, message):
         try:
-- 
2.43.0


From 8ccfb561af739c7975c0116e6b3cddaeeec20359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:31 +0000
Subject: [PATCH 04/40] fix: discard NaN and infinite values, which broke every
 later flush

---
 txstatsd/server/configurableprocessor.py |  4 ++--
 txstatsd/server/processor.py             | 21 ++++++++++++++++-----
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/txstatsd/server/configurableprocessor.py b/txstatsd/server/configurableprocessor.py
index 85f8bb1..2621980 100644
--- a/txstatsd/server/configurableprocessor.py
+++ b/txstatsd/server/configurableprocessor.py
@@ -25,7 +25,7 @@ from txstatsd.metrics.countermetric import CounterMetricReporter
 from txstatsd.metrics.gaugemetric import GaugeMetricReporter
 from txstatsd.metrics.metermetric import MeterMetricReporter
 from txstatsd.metrics.timermetric import TimerMetricReporter
-from txstatsd.server.processor import MessageProcessor
+from txstatsd.server.processor import MessageProcessor, parse_number
 
 
 class ConfigurableMessageProcessor(MessageProcessor):
@@ -68,7 +68,7 @@ class ConfigurableMessageProcessor(MessageProcessor):
 
     def process_counter_metric(self, key, composite, message):
         try:
-            value = float(composite[0])
+            value = parse_number(composite[0])
         except (TypeError, ValueError):
             return self.fail(message)
 
diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 89e187c..0781699 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -46,6 +46,17 @@ def normalize_key(key):
     return key
 
 
+def parse_number(text):
+    """
+    Parse the number in a message. NaN and the infinities are refused: they
+    can not be aggregated, and would stick to every later report.
+    """
+    number = float(text)
+    if number - number != 0:
+        raise ValueError("not a finite number: %r" % (text,))
+    return number
+
+
 class BaseMessageProcessor(object):
 
     def process(self, message):
@@ -160,7 +171,7 @@ class MessageProcessor(BaseMessageProcessor):
 
     def process_timer_metric(self, key, duration, message):
         try:
-            duration = float(duration)
+            duration = parse_number(duration)
         except (TypeError, ValueError):
             return self.fail(message)
 
@@ -173,7 +184,7 @@ class MessageProcessor(BaseMessageProcessor):
 
     def process_counter_metric(self, key, composite, message):
         try:
-            value = float(composite[0])
+            value = parse_number(composite[0])
         except (TypeError, ValueError):
             return self.fail(message)
         rate = 1
@@ -182,7 +193,7 @@ class MessageProcessor(BaseMessageProcessor):
             if match is None:
                 return self.fail(message)
             try:
-                rate = float(match.group(1))
+                rate = parse_number(match.group(1))
             except ValueError:
                 return self.fail(message)
             if rate <= 0:
@@ -201,7 +212,7 @@ class MessageProcessor(BaseMessageProcessor):
             return self.fail(message)
 
         try:
-            value = float(values[0])
+            value = parse_number(values[0])
         except (TypeError, ValueError):
             return self.fail(message)
 
@@ -217,7 +228,7 @@ class MessageProcessor(BaseMessageProcessor):
             return self.fail(message)
 
         try:
-            value = float(values[0])
+            value = parse_number(values[0])
         except (TypeError, ValueError):
             return self.fail(message)
 
-- 
2.43.0


From 66661ffbb77bd472c59ab05efdb1fbaa4ac94200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:31 +0000
Subject: [PATCH 05/40] fix: list the gauges in get_metric_names when not
 StatsD-compliant

---
 txstatsd/server/configurableprocessor.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/txstatsd/server/configurableprocessor.py b/txstatsd/server/configurableprocessor.py
index 2621980..6be64f6 100644
--- a/txstatsd/server/configurableprocessor.py
+++ b/txstatsd/server/configurableprocessor.py
@@ -55,6 +55,16 @@ class ConfigurableMessageProcessor(MessageProcessor):
         self.message_prefix = message_prefix
         self.gauge_metrics = {}
 
+    def get_metric_names(self):
+        """Return the names of all seen metrics."""
+        metrics = set()
+        metrics.update(self.timer_metrics.keys())
+        metrics.update(self.counter_metrics.keys())
+        metrics.update(self.gauge_metrics.keys())
+        metrics.update(self.meter_metrics.keys())
+        metrics.update(self.plugin_metrics.keys())
+        return list(metrics)
+
     def get_message_prefix(self, kind):
         return self.message_prefix
 
-- 
2.43.0


From 0d746543d74385c58e960972e3f4481ce10ef2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:50 +0000
Subject: [PATCH 06/40] fix: resume a paused TCP redirect instead of raising

---
 txstatsd/server/router.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/txstatsd/server/router.py b/txstatsd/server/router.py
index 3cd7afb..880cc27 100644
--- a/txstatsd/server/router.py
+++ b/txstatsd/server/router.py
@@ -140,9 +140,9 @@ class TCPRedirectProtocol(Protocol):
     def resumeProducing(self):
         """We can write to the transport again. Yay!."""
         time_now = int(time.time())
-        log("Resumed TCP redirect. "
-            "Dropped %s messages during %s seconds ",
-                self.dropped, time_now - self.last_paused)
+        log.msg("Resumed TCP redirect. "
+                "Dropped %s messages during %s seconds " %
+                (self.dropped, time_now - self.last_paused))
         self.paused = False
         self.dropped = 0
         self.last_paused = None
-- 
2.43.0


From 4a76cd3a8087551f228768c239572ed03de2e793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:50 +0000
Subject: [PATCH 07/40] fix: build a histogram of equal values instead of
 dividing by zero

---
 txstatsd/metrics/histogrammetric.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/txstatsd/metrics/histogrammetric.py b/txstatsd/metrics/histogrammetric.py
index 11cd1b1..5bef145 100644
--- a/txstatsd/metrics/histogrammetric.py
+++ b/txstatsd/metrics/histogrammetric.py
@@ -183,7 +183,9 @@ class HistogramMetricReporter(object):
         value_range = max_value - min_value
 
         for value in values:
-            pos = int(((value - min_value) / value_range) * n_bins)
+            pos = 0
+            if value_range > 0:
+                pos = int(((value - min_value) / value_range) * n_bins)
             if pos == n_bins:
                 pos -= 1
 
-- 
2.43.0


From bc316f5317521eca1f5ccd6c6c07f0daa9f41ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:50 +0000
Subject: [PATCH 08/40] fix: keep only the last value of each gauge, and allow
 new ones during a flush

---
 txstatsd/server/processor.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 0781699..1789d78 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -111,6 +111,7 @@ class MessageProcessor(BaseMessageProcessor):
         self.timer_metrics = {}
         self.counter_metrics = {}
         self.gauge_metrics = deque()
+        self.gauge_index = {}
         self.meter_metrics = {}
 
         self.plugins = {}
@@ -219,7 +220,12 @@ class MessageProcessor(BaseMessageProcessor):
         self.compose_gauge_metric(key, value)
 
     def compose_gauge_metric(self, key, value):
+        metric = self.gauge_index.get(key)
+        if metric is not None:
+            metric[0] = value
+            return
         metric = [value, key]
+        self.gauge_index[key] = metric
         self.gauge_metrics.append(metric)
 
     def process_meter_metric(self, key, composite, message):
@@ -344,7 +350,7 @@ class MessageProcessor(BaseMessageProcessor):
                              for item, value in items.iteritems())
 
     def flush_gauge_metrics(self, timestamp):
-        for metric in self.gauge_metrics:
+        for metric in list(self.gauge_metrics):
             value = metric[0]
             key = metric[1]
 
-- 
2.43.0


From cde9cb093b56296a714b210230c250cf9e631994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:50 +0000
Subject: [PATCH 09/40] fix: keep the receive counts of messages that arrive
 during the flush summary

---
 txstatsd/server/processor.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 1789d78..b91dbc5 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -382,17 +382,17 @@ class MessageProcessor(BaseMessageProcessor):
                     (value, name, duration))
             self.last_flush_duration += duration
 
+        # Messages received while we report belong to the next flush.
+        process_timings, self.process_timings = self.process_timings, {}
+        by_type, self.by_type = self.by_type, {}
         self.last_process_duration = 0
-        for metric_type, duration in self.process_timings.iteritems():
+        for metric_type, duration in process_timings.iteritems():
             yield ((self.internal_metrics_prefix +
                     "receive.%s.count" %
-                    metric_type, self.by_type[metric_type], timestamp),
+                    metric_type, by_type[metric_type], timestamp),
                    (self.internal_metrics_prefix +
                     "receive.%s.duration" %
                     metric_type, duration * 1000, timestamp))
             log.msg("Processing %d %s metrics took %.6f" %
-                    (self.by_type[metric_type], metric_type, duration))
+                    (by_type[metric_type], metric_type, duration))
             self.last_process_duration += duration
-
-        self.process_timings.clear()
-        self.by_type.clear()
-- 
2.43.0


From ddc254835313414ccd17e1681be1082dd58b21b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:16 +0000
Subject: [PATCH 10/40] fix: allow new metrics during a flush (dictionary
 changed size during iteration)

---
 txstatsd/server/configurableprocessor.py |  6 +++---
 txstatsd/server/processor.py             | 10 ++++++----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/txstatsd/server/configurableprocessor.py b/txstatsd/server/configurableprocessor.py
index 6be64f6..ea88047 100644
--- a/txstatsd/server/configurableprocessor.py
+++ b/txstatsd/server/configurableprocessor.py
@@ -104,16 +104,16 @@ class ConfigurableMessageProcessor(MessageProcessor):
         self.meter_metrics[key].mark(value)
 
     def flush_counter_metrics(self, interval, timestamp):
-        for metric in self.counter_metrics.itervalues():
+        for metric in self.counter_metrics.values():
             messages = metric.report(timestamp)
             yield messages
 
     def flush_gauge_metrics(self, timestamp):
-        for metric in self.gauge_metrics.itervalues():
+        for metric in self.gauge_metrics.values():
             messages = metric.report(timestamp)
             yield messages
 
     def flush_timer_metrics(self, percent, timestamp):
-        for metric in self.timer_metrics.itervalues():
+        for metric in self.timer_metrics.values():
             messages = metric.report(timestamp)
             yield messages
diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index b91dbc5..875512e 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -313,7 +313,8 @@ class MessageProcessor(BaseMessageProcessor):
                 yield metric
 
     def flush_counter_metrics(self, interval, timestamp):
-        for key, count in self.counter_metrics.iteritems():
+        for key in self.counter_metrics.keys():
+            count = self.counter_metrics[key]
             self.counter_metrics[key] = 0
 
             value = count / interval
@@ -322,7 +323,8 @@ class MessageProcessor(BaseMessageProcessor):
 
     def flush_timer_metrics(self, percent, timestamp):
         threshold_value = ((100 - percent) / 100.0)
-        for key, timers in self.timer_metrics.iteritems():
+        for key in self.timer_metrics.keys():
+            timers = self.timer_metrics[key]
             count = len(timers)
             if count > 0:
                 self.timer_metrics[key] = []
@@ -357,12 +359,12 @@ class MessageProcessor(BaseMessageProcessor):
             yield ((self.gauge_prefix + key + ".value", value, timestamp),)
 
     def flush_meter_metrics(self, timestamp):
-        for metric in self.meter_metrics.itervalues():
+        for metric in self.meter_metrics.values():
             messages = metric.report(timestamp)
             yield messages
 
     def flush_plugin_metrics(self, interval, timestamp):
-        for metric in self.plugin_metrics.itervalues():
+        for metric in self.plugin_metrics.values():
             messages = metric.flush(interval, timestamp)
             yield messages
 
-- 
2.43.0


From 7ac7d2a5a704fa5ea28be2dde0a29ca4357dd2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:16 +0000
Subject: [PATCH 11/40] fix: no negative rates from a meter or timer flushed
 within its first second

---
 txstatsd/metrics/metermetric.py | 2 +-
 txstatsd/metrics/timermetric.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/txstatsd/metrics/metermetric.py b/txstatsd/metrics/metermetric.py
index 990943e..35f04da 100644
--- a/txstatsd/metrics/metermetric.py
+++ b/txstatsd/metrics/metermetric.py
@@ -87,7 +87,7 @@ class MeterMetricReporter(object):
         """
         poll_prev, self.poll_time = self.poll_time, timestamp
 
-        if self.poll_time == poll_prev:
+        if self.poll_time <= poll_prev:
             return list()
 
         rate = float(self.value) / (self.poll_time - poll_prev)
diff --git a/txstatsd/metrics/timermetric.py b/txstatsd/metrics/timermetric.py
index cfad2f0..6d2e950 100644
--- a/txstatsd/metrics/timermetric.py
+++ b/txstatsd/metrics/timermetric.py
@@ -86,7 +86,7 @@ class TimerMetricReporter(object):
     def rate(self, timestamp):
         """The number of values seen since last clear."""
         dt = (timestamp - self.last_time)
-        if dt == 0:
+        if dt <= 0:
             return 0
         return self.histogram.count / dt
 
-- 
2.43.0


From 4ef4ba055f8adb6569565db7465948bf1f63e931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:16 +0000
Subject: [PATCH 12/40] fix: send and hash names with non-ASCII bytes as they
 are

---
 txstatsd/hashing.py        | 4 +++-
 txstatsd/metrics/metric.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/txstatsd/hashing.py b/txstatsd/hashing.py
index c823914..57eaafb 100644
--- a/txstatsd/hashing.py
+++ b/txstatsd/hashing.py
@@ -33,7 +33,9 @@ class ConsistentHashRing:
             self.add_node(node)
 
     def compute_ring_position(self, key):
-        big_hash = md5(key.encode('utf-8')).hexdigest()
+        if not isinstance(key, bytes):
+            key = key.encode('utf-8')
+        big_hash = md5(key).hexdigest()
         small_hash = int(big_hash[:8], 16)
         return small_hash
 
diff --git a/txstatsd/metrics/metric.py b/txstatsd/metrics/metric.py
index 937a09c..0c5ef3d 100644
--- a/txstatsd/metrics/metric.py
+++ b/txstatsd/metrics/metric.py
@@ -64,4 +64,6 @@ class Metric(object):
     def write(self, data):
         """Message the C{data} to the C{StatsD} server."""
         if self.connection is not None:
-            self.connection.write(data.encode('utf-8'))
+            if not isinstance(data, bytes):
+                data = data.encode('utf-8')
+            self.connection.write(data)
-- 
2.43.0


From 3becc31182633dcc8ee9e54142281f7a5bc3384e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:16 +0000
Subject: [PATCH 13/40] fix: keep reporting counters after one appears or a
 reading fails

---
 txstatsd/process.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/txstatsd/process.py b/txstatsd/process.py
index f51e4f0..07a408f 100644
--- a/txstatsd/process.py
+++ b/txstatsd/process.py
@@ -160,21 +160,18 @@ def report_counters(report_function, *args, **kwargs):
     Report difference between last value and current value for wrapped
     function.
     """
-    def generate():
-        last_value = None
-        while True:
-            result = {}
-            new_value = report_function(*args, **kwargs)
-            if last_value is None:
-                last_value = new_value
-            else:
-                for key, value in new_value.iteritems():
-                    result[key] = value - last_value[key]
-                last_value = new_value
-            yield result
-    generator = generate()
+    last_values = []
     def report():
-        return generator.next()
+        result = {}
+        new_value = report_function(*args, **kwargs)
+        if last_values:
+            last_value = last_values.pop()
+            for key, value in new_value.iteritems():
+                # Nothing to compare a counter that just appeared with.
+                if key in last_value:
+                    result[key] = value - last_value[key]
+        last_values.append(new_value)
+        return result
     update_wrapper(report, report_function)
     return report
 
-- 
2.43.0


From 2cc70221e7c7b13bd685840fe9aaef7ee98f864f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:38 +0000
Subject: [PATCH 14/40] fix: short command line options take precedence over
 the config file too

---
 txstatsd/service.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txstatsd/service.py b/txstatsd/service.py
index db2e237..bca2a61 100644
--- a/txstatsd/service.py
+++ b/txstatsd/service.py
@@ -99,7 +99,7 @@ class OptionsGlue(usage.Options):
             if opt[1] == '-':
                 opt = opt[2:]
             else:
-                opt = opt[1:]
+                opt = self.synonyms.get(opt[1:], opt[1:])
             self.overridden_options.append(opt)
 
         super(OptionsGlue, self).parseOptions(options=options)
-- 
2.43.0


From 4ff480ca0ba2ace0edde2334e9a1924b42a5eb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:38 +0000
Subject: [PATCH 15/40] fix: do not truncate the flush interval to whole
 seconds

---
 txstatsd/server/processor.py | 6 +++++-
 txstatsd/service.py          | 4 ++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 875512e..765a457 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -254,7 +254,11 @@ class MessageProcessor(BaseMessageProcessor):
         """
         per_metric = {}
         num_stats = 0
-        interval = interval / 1000
+        # In seconds, without losing the fraction of an odd interval.
+        if interval % 1000:
+            interval = interval / 1000.0
+        else:
+            interval = interval / 1000
         timestamp = int(self.time_function())
 
         start = self.time_function()
diff --git a/txstatsd/service.py b/txstatsd/service.py
index bca2a61..f0eda6b 100644
--- a/txstatsd/service.py
+++ b/txstatsd/service.py
@@ -233,7 +233,7 @@ class StatsDService(Service):
         self.coop.coiterate(doWork())
 
     def startService(self):
-        self.flush_task.start(self.flush_interval / 1000, False)
+        self.flush_task.start(self.flush_interval / 1000.0, False)
 
     def stopService(self):
         if self.flush_task.running:
@@ -311,7 +311,7 @@ def createService(options, reactor=None):
     reporting.setServiceParent(root_service)
 
     reporting.schedule(report_client_manager_stats,
-                       options["flush-interval"] / 1000,
+                       options["flush-interval"] / 1000.0,
                        metrics.gauge)
 
     if options["report"] is not None:
-- 
2.43.0


From a5c628d29969544c36237ba73248689f664daab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:38 +0000
Subject: [PATCH 16/40] fix: compare the flush duration with the flush interval
 in the same unit

---
 txstatsd/server/processor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 765a457..eb1c17a 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -105,6 +105,7 @@ class MessageProcessor(BaseMessageProcessor):
 
         self.process_timings = {}
         self.by_type = {}
+        # In milliseconds, like the flush interval.
         self.last_flush_duration = 0
         self.last_process_duration = 0
 
@@ -386,7 +387,7 @@ class MessageProcessor(BaseMessageProcessor):
                     duration * 1000, timestamp))
             log.msg("Flushed %d %s metrics in %.6f" %
                     (value, name, duration))
-            self.last_flush_duration += duration
+            self.last_flush_duration += duration * 1000
 
         # Messages received while we report belong to the next flush.
         process_timings, self.process_timings = self.process_timings, {}
@@ -401,4 +402,4 @@ class MessageProcessor(BaseMessageProcessor):
                     metric_type, duration * 1000, timestamp))
             log.msg("Processing %d %s metrics took %.6f" %
                     (by_type[metric_type], metric_type, duration))
-            self.last_process_duration += duration
+            self.last_process_duration += duration * 1000
-- 
2.43.0


From 491d214ad7d5ca91a0e46f55e9d8ebad3870be1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:38 +0000
Subject: [PATCH 17/40] fix: rebuild routed messages with their new type, and
 pass redirects on without a service

---
 txstatsd/server/processor.py | 1 +
 txstatsd/server/router.py    | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index eb1c17a..35afe32 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -78,6 +78,7 @@ class BaseMessageProcessor(object):
         return self.process_message(message, metric_type, key, fields)
 
     def rebuild_message(self, metric_type, key, fields):
+        fields = [fields[0], metric_type] + fields[2:]
         return key + ":" + "|".join(fields)
 
     def fail(self, message):
diff --git a/txstatsd/server/router.py b/txstatsd/server/router.py
index 880cc27..4bff19c 100644
--- a/txstatsd/server/router.py
+++ b/txstatsd/server/router.py
@@ -260,7 +260,7 @@ class Router(BaseMessageProcessor):
 
     def build_target_redirect_udp(self, host, port):
         if self.service is None:
-            return lambda *args: True
+            return lambda *args: [args]
 
         port = int(port)
         d = defer.Deferred()
@@ -281,7 +281,7 @@ class Router(BaseMessageProcessor):
 
     def build_target_redirect_tcp(self, host, port):
         if self.service is None:
-            return lambda *args: True
+            return lambda *args: [args]
 
         port = int(port)
         d = defer.Deferred()
-- 
2.43.0


From e5140afc6bc25bb25671bed0c857505ff8486efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:43 +0000
Subject: [PATCH 18/40] fix: do not mix up client metrics of different types
 with the same name

---
 txstatsd/metrics/extendedmetrics.py | 21 ++++++-----
 txstatsd/metrics/metrics.py         | 54 ++++++++++++++++-------------
 2 files changed, 42 insertions(+), 33 deletions(-)

diff --git a/txstatsd/metrics/extendedmetrics.py b/txstatsd/metrics/extendedmetrics.py
index 3d4d430..e2eb630 100644
--- a/txstatsd/metrics/extendedmetrics.py
+++ b/txstatsd/metrics/extendedmetrics.py
@@ -43,32 +43,35 @@ class ExtendedMetrics(Metrics):
     def increment(self, name, value=1, sample_rate=1):
         """Report and increase in name by count."""
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
+        key = (CounterMetric, name)
+        if not key in self._metrics:
             metric = CounterMetric(self.connection,
                                    name,
                                    sample_rate)
-            self._metrics[name] = metric
-        self._metrics[name].increment(value)
+            self._metrics[key] = metric
+        self._metrics[key].increment(value)
 
     def decrement(self, name, value=1, sample_rate=1):
         """Report and decrease in name by count."""
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
+        key = (CounterMetric, name)
+        if not key in self._metrics:
             metric = CounterMetric(self.connection,
                                    name,
                                    sample_rate)
-            self._metrics[name] = metric
-        self._metrics[name].decrement(value)
+            self._metrics[key] = metric
+        self._metrics[key].decrement(value)
 
     def timing(self, name, duration=None, sample_rate=1):
         """Report this sample performed in duration seconds."""
         if duration is None:
             duration = self.calculate_duration()
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
+        key = (TimerMetric, name)
+        if not key in self._metrics:
             metric = TimerMetric(self.connection,
                                  name,
                                  sample_rate)
-            self._metrics[name] = metric
-        self._metrics[name].mark(duration)
+            self._metrics[key] = metric
+        self._metrics[key].mark(duration)
 
diff --git a/txstatsd/metrics/metrics.py b/txstatsd/metrics/metrics.py
index 66740e4..4a93388 100644
--- a/txstatsd/metrics/metrics.py
+++ b/txstatsd/metrics/metrics.py
@@ -60,12 +60,13 @@ class Metrics(object):
         Used for server side plugins without client support.
         """
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
+        key = (metric_type, name)
+        if not key in self._metrics:
             metric = GenericMetric(self.connection,
                                         metric_type,
                                         name)
-            self._metrics[name] = metric
-        self._metrics[name].mark(value, extra)
+            self._metrics[key] = metric
+        self._metrics[key].mark(value, extra)
 
     def sli(self, name, duration, size=None):
         """Report a service level metric.
@@ -87,42 +88,46 @@ class Metrics(object):
     def gauge(self, name, value, sample_rate=1):
         """Report an instantaneous reading of a particular value."""
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
+        key = (GaugeMetric, name)
+        if not key in self._metrics:
             gauge_metric = GaugeMetric(self.connection,
                                        name,
                                        sample_rate)
-            self._metrics[name] = gauge_metric
-        self._metrics[name].mark(value)
+            self._metrics[key] = gauge_metric
+        self._metrics[key].mark(value)
 
     def meter(self, name, value=1, sample_rate=1):
         """Mark the occurrence of a given number of events."""
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
+        key = (MeterMetric, name)
+        if not key in self._metrics:
             meter_metric = MeterMetric(self.connection,
                                        name,
                                        sample_rate)
-            self._metrics[name] = meter_metric
-        self._metrics[name].mark(value)
+            self._metrics[key] = meter_metric
+        self._metrics[key].mark(value)
 
     def increment(self, name, value=1, sample_rate=1):
         """Report and increase in name by count."""
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
+        key = (Metric, name)
+        if not key in self._metrics:
             metric = Metric(self.connection,
                             name,
                             sample_rate)
-            self._metrics[name] = metric
-        self._metrics[name].send("%s|c" % value)
+            self._metrics[key] = metric
+        self._metrics[key].send("%s|c" % value)
 
     def decrement(self, name, value=1, sample_rate=1):
         """Report and decrease in name by count."""
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
+        key = (Metric, name)
+        if not key in self._metrics:
             metric = Metric(self.connection,
                             name,
                             sample_rate)
-            self._metrics[name] = metric
-        self._metrics[name].send("%s|c" % -value)
+            self._metrics[key] = metric
+        self._metrics[key].send("%s|c" % -value)
 
     def reset_timing(self):
         """Resets the duration timer for the next call to timing()"""
@@ -142,26 +147,27 @@ class Metrics(object):
         if duration is None:
             duration = self.calculate_duration()
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
+        key = (Metric, name)
+        if not key in self._metrics:
             metric = Metric(self.connection,
                             name,
                             sample_rate)
-            self._metrics[name] = metric
-        self._metrics[name].send("%s|ms" % (duration * 1000))
+            self._metrics[key] = metric
+        self._metrics[key].send("%s|ms" % (duration * 1000))
 
     def distinct(self, name, item):
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
+        key = (DistinctMetric, name)
+        if not key in self._metrics:
             metric = DistinctMetric(self.connection, name)
-            self._metrics[name] = metric
-        self._metrics[name].mark(item)
+            self._metrics[key] = metric
+        self._metrics[key].mark(item)
 
     def clear(self, name):
         """Allow the metric to re-initialize its internal state."""
         name = self.fully_qualify_name(name)
-        if name in self._metrics:
-            metric = self._metrics[name]
-            if getattr(metric, 'clear', None) is not None:
+        for key, metric in self._metrics.items():
+            if key[1] == name and getattr(metric, 'clear', None) is not None:
                 metric.clear()
 
     def fully_qualify_name(self, name):
-- 
2.43.0


From 7ea7b22a381705e88cdaba969b52a3e90b39bd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:43 +0000
Subject: [PATCH 19/40] fix: keep the variance of a histogram whose mean
 happens to be -1

---
 txstatsd/metrics/histogrammetric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txstatsd/metrics/histogrammetric.py b/txstatsd/metrics/histogrammetric.py
index 5bef145..f3d6861 100644
--- a/txstatsd/metrics/histogrammetric.py
+++ b/txstatsd/metrics/histogrammetric.py
@@ -216,7 +216,7 @@ class HistogramMetricReporter(object):
     def update_variance(self, value):
         old_values = self.variance
         new_values = [0.0, 0.0]
-        if old_values[0] == -1:
+        if self.count == 1:
             new_values[0] = value
             new_values[1] = 0.0
         else:
-- 
2.43.0


From bee520d228a257b34e4305327cc43968f01b7664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:43 +0000
Subject: [PATCH 20/40] fix: do not lose messages that another thread sends
 while the queue is flushed

---
 txstatsd/protocol.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/txstatsd/protocol.py b/txstatsd/protocol.py
index dfe1be2..74c2c7e 100644
--- a/txstatsd/protocol.py
+++ b/txstatsd/protocol.py
@@ -20,6 +20,7 @@
 # SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 
 import socket
+import threading
 
 from twisted.internet import abstract
 from twisted.internet.protocol import DatagramProtocol
@@ -136,6 +137,9 @@ class TwistedStatsDClient(object):
         self.connect_callback = connect_callback
         self.disconnect_callback = disconnect_callback
         self.data_queue = DataQueue()
+        # Metrics can be sent from any thread: a message must not be queued
+        # once the queue was flushed for good.
+        self.queue_lock = threading.RLock()
 
         self.transport = None
         self.transport_gateway = None
@@ -200,9 +204,11 @@ class TwistedStatsDClient(object):
             B{Note}: The C{callback} will be called in the C{reactor}
             thread, and not in the thread of the original caller.
         """
-        if self.transport_gateway is not None and self.transport is not None:
-            return self.transport_gateway.write(data, callback)
-        return self.data_queue.write(data, callback)
+        with self.queue_lock:
+            gateway = self.transport_gateway
+            if gateway is None or self.transport is None:
+                return self.data_queue.write(data, callback)
+        return gateway.write(data, callback)
 
     def host_resolved(self, ip):
         """Callback used when the host is resolved to an IP address."""
@@ -218,6 +224,8 @@ class TwistedStatsDClient(object):
     def _flush_items(self):
         """Flush all items (data, callback) from the DataQueue to the
         TransportGateway."""
-        for item in self.data_queue.flush():
+        with self.queue_lock:
+            items = self.data_queue.flush()
+        for item in items:
             data, callback = item
             self.write(data, callback)
-- 
2.43.0


From 64bbb8e2c747e883687aa2c157e2821366c05857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:43 +0000
Subject: [PATCH 21/40] fix: keep at least one duration below the threshold of
 a timer

---
 txstatsd/server/processor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 35afe32..85d87cf 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -344,7 +344,8 @@ class MessageProcessor(BaseMessageProcessor):
                 threshold_upper = upper
 
                 if count > 1:
-                    index = count - int(round(threshold_value * count))
+                    index = max(
+                        1, count - int(round(threshold_value * count)))
                     timers = timers[:index]
                     threshold_upper = timers[-1]
                     mean = sum(timers) / index
-- 
2.43.0


From 30fd7c3d895077db970a37670c7e49617854719d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:43 +0000
Subject: [PATCH 22/40] fix: start a client for every carbon-cache host, named
 or not

---
 txstatsd/service.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/txstatsd/service.py b/txstatsd/service.py
index f0eda6b..e3cecc8 100644
--- a/txstatsd/service.py
+++ b/txstatsd/service.py
@@ -302,9 +302,11 @@ def createService(options, reactor=None):
 
     if not options["carbon-cache-host"]:
         options["carbon-cache-host"].append("127.0.0.1")
-    if not options["carbon-cache-port"]:
+    while len(options["carbon-cache-port"]) < len(
+            options["carbon-cache-host"]):
         options["carbon-cache-port"].append(2004)
-    if not options["carbon-cache-name"]:
+    while len(options["carbon-cache-name"]) < len(
+            options["carbon-cache-host"]):
         options["carbon-cache-name"].append(None)
 
     reporting = ReportingService(instance_name)
-- 
2.43.0


From f58759a84fa3525420e1b334320572c6b3034a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:43 +0000
Subject: [PATCH 23/40] fix: stop the reporting service even if one of its
 tasks is dead

---
 txstatsd/report.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/txstatsd/report.py b/txstatsd/report.py
index 6447108..9acb276 100644
--- a/txstatsd/report.py
+++ b/txstatsd/report.py
@@ -88,7 +88,8 @@ class ReportingService(Service):
 
     def stopService(self):
         for task, interval in self.tasks:
-            task.stop()
+            if task.running:
+                task.stop()
         Service.stopService(self)
 
 
-- 
2.43.0


From e565f0b649457f0ef805f204a46c02f7d08ef5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:58 +0000
Subject: [PATCH 24/40] fix: call the connect callback once when the host is an
 IP address

---
 txstatsd/protocol.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/txstatsd/protocol.py b/txstatsd/protocol.py
index 74c2c7e..37ef9eb 100644
--- a/txstatsd/protocol.py
+++ b/txstatsd/protocol.py
@@ -177,8 +177,10 @@ class TwistedStatsDClient(object):
             resolver_errback = log.err
 
         instance.resolve_later = reactor.resolve(host)
-        instance.resolve_later.addCallbacks(instance.host_resolved,
-                                            resolver_errback)
+        if instance.transport_gateway is None:
+            # Not an IP address, those are resolved from the start.
+            instance.resolve_later.addCallbacks(instance.host_resolved,
+                                                resolver_errback)
 
         return instance
 
-- 
2.43.0


From eaec31441ab935a1651a51367471711eaa0da7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:00 +0000
Subject: [PATCH 25/40] fix: keep a TCP connection open after its first message

---
 txstatsd/server/protocol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/txstatsd/server/protocol.py b/txstatsd/server/protocol.py
index f76bf21..145fa10 100644
--- a/txstatsd/server/protocol.py
+++ b/txstatsd/server/protocol.py
@@ -67,8 +67,8 @@ class StatsDTCPServerProtocol(LineReceiver):
             # Send the expected response to the
             # monitoring agent.
             return self.transport.write(self.monitor_response)
-        return self.transport.reactor.callLater(
-            0, self.processor.process, data)
+        # Returning anything would end the connection.
+        self.transport.reactor.callLater(0, self.processor.process, data)
 
 
 class StatsDTCPServerFactory(Factory):
-- 
2.43.0


From 72dcfc122f749fe6e85bd035f6d22a23e95f8969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:23 +0000
Subject: [PATCH 26/40] fix: send distinct items with the metric type the
 daemon knows

---
 txstatsd/metrics/distinctmetric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txstatsd/metrics/distinctmetric.py b/txstatsd/metrics/distinctmetric.py
index 7bad3ec..eafde3c 100644
--- a/txstatsd/metrics/distinctmetric.py
+++ b/txstatsd/metrics/distinctmetric.py
@@ -114,7 +114,7 @@ class DistinctMetric(Metric):
 
     def mark(self, item):
         """Report this item was seen."""
-        self.send("%s|d" % item)
+        self.send("%s|pd" % item)
 
 
 class DistinctMetricReporter(object):
-- 
2.43.0


From c9315863156b912e3cafde1aa3d82cfd6dcc0cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:21 +0000
Subject: [PATCH 27/40] fix: a sample rate written with an exponent (1e-05) was
 read as 1

---
 txstatsd/server/processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 85d87cf..f02ebef 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -32,7 +32,7 @@ from txstatsd.metrics.metermetric import MeterMetricReporter
 SPACES = re.compile("\s+")
 SLASHES = re.compile("\/+")
 NON_ALNUM = re.compile("[^a-zA-Z_\-0-9\.]")
-RATE = re.compile("^@([\d\.]+)")
+RATE = re.compile("^@([\d\.]+(?:[eE][+-]?\d+)?)")
 
 
 def normalize_key(key):
-- 
2.43.0


From 04bd96f99c883eea087aaa7fa5fc79723a1d6e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:24 +0000
Subject: [PATCH 28/40] fix: a flush under way at the stop broke off when its
 carbon clients were gone

---
 txstatsd/service.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/txstatsd/service.py b/txstatsd/service.py
index e3cecc8..e672b05 100644
--- a/txstatsd/service.py
+++ b/txstatsd/service.py
@@ -212,6 +212,7 @@ class StatsDService(Service):
         self.flush_interval = flush_interval
         self.flush_task = task.LoopingCall(self.flushProcessor)
         self.coop = task.Cooperator()
+        self.flushing = []
         if clock is not None:
             self.flush_task.clock = clock
 
@@ -230,7 +231,14 @@ class StatsDService(Service):
             log.msg("Flushed total %d metrics in %.6f" %
                     (flushed, time.time() - start))
 
-        self.coop.coiterate(doWork())
+        work = doWork()
+        self.flushing.append(work)
+
+        def done(result):
+            self.flushing.remove(work)
+            return result
+
+        self.coop.coiterate(work).addBoth(done)
 
     def startService(self):
         self.flush_task.start(self.flush_interval / 1000.0, False)
@@ -238,6 +246,13 @@ class StatsDService(Service):
     def stopService(self):
         if self.flush_task.running:
             self.flush_task.stop()
+        # Hand over what is being flushed while there are clients to take it.
+        for work in self.flushing:
+            try:
+                for answer in work:
+                    pass
+            except Exception:
+                log.err()
 
 
 def report_client_manager_stats():
-- 
2.43.0


From f2e1c62a7852675a18b00af06957c9a50b60c78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:03 +0000
Subject: [PATCH 29/40] fix: with an empty prefix the daemon's own datapoints
 began with a dot

---
 txstatsd/service.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/txstatsd/service.py b/txstatsd/service.py
index e672b05..3dc3b82 100644
--- a/txstatsd/service.py
+++ b/txstatsd/service.py
@@ -309,7 +309,8 @@ def createService(options, reactor=None):
     else:
         processor = (processor or ConfigurableMessageProcessor)(
             message_prefix=prefix,
-            internal_metrics_prefix=prefix + "." + instance_name + ".",
+            internal_metrics_prefix=(
+                (prefix + "." if prefix else "") + instance_name + "."),
             plugins=plugin_metrics)
         input_router = Router(processor, options['routing'], root_service)
         connection = InternalClient(input_router)
-- 
2.43.0


From cf3d2833045b57c7d7738ca797f23bb6197c0ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:41 +0000
Subject: [PATCH 30/40] fix: a service level rule could name build_metric as
 its condition

---
 twisted/plugins/sli_plugin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/twisted/plugins/sli_plugin.py b/twisted/plugins/sli_plugin.py
index 0691545..44f9ba8 100644
--- a/twisted/plugins/sli_plugin.py
+++ b/twisted/plugins/sli_plugin.py
@@ -77,7 +77,8 @@ class SLIMetricFactory(object):
             self.config.setdefault(head, {})
 
             method = getattr(self, "build_" + cname, None)
-            if method is None:
+            # build_metric is there too, and builds no condition.
+            if method is None or cname == "metric":
                 raise TypeError("cannot build condition: %s %s" % (
                     cname, cparams))
 
-- 
2.43.0


From 1d6d577d20072894685b3af0d47af48e33d04d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:02 +0000
Subject: [PATCH 31/40] fix: a TCP redirect stopped during its first connection
 attempt went on connecting

---
 txstatsd/server/router.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/txstatsd/server/router.py b/txstatsd/server/router.py
index 4bff19c..adf4509 100644
--- a/txstatsd/server/router.py
+++ b/txstatsd/server/router.py
@@ -79,7 +79,10 @@ class TCPRedirectService(Service):
         self.reactor = reactor
 
     def startService(self):
-        self.reactor.connectTCP(self.host, self.port, self.factory)
+        # Known to the factory from the first attempt, so that stopTrying
+        # ends that one too.
+        self.factory.connector = self.reactor.connectTCP(
+            self.host, self.port, self.factory)
         return Service.startService(self)
 
     def stopService(self):
-- 
2.43.0


From d0cd278f12568989dd3f626c6b3d0a4d3ca445ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:44 +0000
Subject: [PATCH 32/40] fix: get_nodes left out a node that owns only the last
 ring position

---
 txstatsd/hashing.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/txstatsd/hashing.py b/txstatsd/hashing.py
index 57eaafb..9cd5304 100644
--- a/txstatsd/hashing.py
+++ b/txstatsd/hashing.py
@@ -64,8 +64,7 @@ class ConsistentHashRing:
         position = self.compute_ring_position(key)
         search_entry = (position, None)
         index = bisect.bisect_left(self.ring, search_entry) % len(self.ring)
-        last_index = (index - 1) % len(self.ring)
-        while len(nodes) < len(self.nodes) and index != last_index:
+        while len(nodes) < len(self.nodes):
             next_entry = self.ring[index]
             (position, next_node) = next_entry
             if next_node not in nodes:
-- 
2.43.0


From 63ee6fcc79370192f7841f2f8363225f952a8573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:04 +0000
Subject: [PATCH 33/40] fix: a function without a report function was not
 called again once it failed

---
 txstatsd/report.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/txstatsd/report.py b/txstatsd/report.py
index 9acb276..15b1d45 100644
--- a/txstatsd/report.py
+++ b/txstatsd/report.py
@@ -54,7 +54,9 @@ class ReportingService(Service):
         if report_function is not None:
             call = self.wrapped(function, report_function)
         else:
-            call = function
+            # A failure must not end the calls.
+            call = lambda: maybeDeferred(function).addErrback(
+                log.err, "Error while processing %s" % (function,))
         task = LoopingCall(call)
         if self.clock is not None:
             task.clock = self.clock
-- 
2.43.0


From d3b15dc302811687755b8ca6323ecb998e5dc5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:20 +0000
Subject: [PATCH 34/40] fix: the reactor inspector used the processor from its
 own thread

---
 txstatsd/client.py  | 16 ++++++++++++++++
 txstatsd/service.py |  8 +++++---
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/txstatsd/client.py b/txstatsd/client.py
index 15944b8..2e6c4e6 100644
--- a/txstatsd/client.py
+++ b/txstatsd/client.py
@@ -104,6 +104,22 @@ class InternalClient(object):
         self._processor.process(data)
 
 
+class InternalThreadClient(InternalClient):
+    """A connection for threads of the C{StatsD} daemon."""
+
+    def __init__(self, processor, reactor):
+        """
+        A connection that writes to the C{MessageProcessor} in the thread of
+        the C{reactor}, the only one it may be used in.
+        """
+        InternalClient.__init__(self, processor)
+        self._reactor = reactor
+
+    def write(self, data):
+        """Have it written to the C{MessageProcessor}."""
+        self._reactor.callFromThread(self._processor.process, data)
+
+
 class ConsistentHashingClient(object):
 
     def __init__(self, clients):
diff --git a/txstatsd/service.py b/txstatsd/service.py
index 3dc3b82..c9a5e6a 100644
--- a/txstatsd/service.py
+++ b/txstatsd/service.py
@@ -31,7 +31,7 @@ from twisted.application.service import MultiService
 from twisted.python import usage, log
 from twisted.plugin import getPlugins
 
-from txstatsd.client import InternalClient
+from txstatsd.client import InternalClient, InternalThreadClient
 from txstatsd.metrics.metrics import Metrics
 from txstatsd.metrics.extendedmetrics import ExtendedMetrics
 from txstatsd.server.processor import MessageProcessor
@@ -342,8 +342,10 @@ def createService(options, reactor=None):
         reports = [name.strip() for name in options["report"].split(",")]
         for report_name in reports:
             if report_name == "reactor":
-                inspector = ReactorInspectorService(reactor, metrics,
-                                                    loop_time=0.05)
+                inspector = ReactorInspectorService(
+                    reactor,
+                    Metrics(InternalThreadClient(input_router, reactor)),
+                    loop_time=0.05)
                 inspector.setServiceParent(root_service)
 
             for reporter in getattr(process, "%s_STATS" %
-- 
2.43.0


From ca4e2d6f102eeab9bfde2a0bcce3db0ebc837901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:56 +0000
Subject: [PATCH 35/40] fix: find the page of a plugin metric whose key timers
 have, too

In StatsD compliance mode the durations of a timer are kept in a list, which
has no page and hid that of the plugin metric.
---
 txstatsd/server/httpinfo.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/txstatsd/server/httpinfo.py b/txstatsd/server/httpinfo.py
index 1067b6b..2f36f39 100644
--- a/txstatsd/server/httpinfo.py
+++ b/txstatsd/server/httpinfo.py
@@ -66,17 +66,13 @@ class Metrics(resource.Resource):
         self.processor = processor
 
     def getChild(self, name, request):
-        metric = self.processor.timer_metrics.get(name, None) or \
-                self.processor.plugin_metrics.get(name, None)
-        if metric is None:
-            return resource.NoResource()
+        for metrics in (self.processor.timer_metrics,
+                        getattr(self.processor, "plugin_metrics", {})):
+            meth = getattr(metrics.get(name, None), "getResource", None)
+            if meth is not None:
+                return meth()
 
-        meth = getattr(metric, "getResource", None)
-
-        if meth is None:
-            return resource.NoResource()
-
-        return meth()
+        return resource.NoResource()
 
 
 class TimerResource(resource.Resource):
-- 
2.43.0


From f969b97323543b3c2ba4f4015c97ca337ad2c87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:56 +0000
Subject: [PATCH 36/40] fix: sample every client call at the rate it was given

The rate of a name's first call was used for all later ones, and that of an
increment for the timing of the same name.
---
 txstatsd/metrics/extendedmetrics.py | 3 +++
 txstatsd/metrics/metrics.py         | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/txstatsd/metrics/extendedmetrics.py b/txstatsd/metrics/extendedmetrics.py
index e2eb630..696df5a 100644
--- a/txstatsd/metrics/extendedmetrics.py
+++ b/txstatsd/metrics/extendedmetrics.py
@@ -49,6 +49,7 @@ class ExtendedMetrics(Metrics):
                                    name,
                                    sample_rate)
             self._metrics[key] = metric
+        self._metrics[key].sample_rate = sample_rate
         self._metrics[key].increment(value)
 
     def decrement(self, name, value=1, sample_rate=1):
@@ -60,6 +61,7 @@ class ExtendedMetrics(Metrics):
                                    name,
                                    sample_rate)
             self._metrics[key] = metric
+        self._metrics[key].sample_rate = sample_rate
         self._metrics[key].decrement(value)
 
     def timing(self, name, duration=None, sample_rate=1):
@@ -73,5 +75,6 @@ class ExtendedMetrics(Metrics):
                                  name,
                                  sample_rate)
             self._metrics[key] = metric
+        self._metrics[key].sample_rate = sample_rate
         self._metrics[key].mark(duration)
 
diff --git a/txstatsd/metrics/metrics.py b/txstatsd/metrics/metrics.py
index 4a93388..4d3f7b4 100644
--- a/txstatsd/metrics/metrics.py
+++ b/txstatsd/metrics/metrics.py
@@ -94,6 +94,7 @@ class Metrics(object):
                                        name,
                                        sample_rate)
             self._metrics[key] = gauge_metric
+        self._metrics[key].sample_rate = sample_rate
         self._metrics[key].mark(value)
 
     def meter(self, name, value=1, sample_rate=1):
@@ -105,6 +106,7 @@ class Metrics(object):
                                        name,
                                        sample_rate)
             self._metrics[key] = meter_metric
+        self._metrics[key].sample_rate = sample_rate
         self._metrics[key].mark(value)
 
     def increment(self, name, value=1, sample_rate=1):
@@ -116,6 +118,7 @@ class Metrics(object):
                             name,
                             sample_rate)
             self._metrics[key] = metric
+        self._metrics[key].sample_rate = sample_rate
         self._metrics[key].send("%s|c" % value)
 
     def decrement(self, name, value=1, sample_rate=1):
@@ -127,6 +130,7 @@ class Metrics(object):
                             name,
                             sample_rate)
             self._metrics[key] = metric
+        self._metrics[key].sample_rate = sample_rate
         self._metrics[key].send("%s|c" % -value)
 
     def reset_timing(self):
@@ -153,6 +157,7 @@ class Metrics(object):
                             name,
                             sample_rate)
             self._metrics[key] = metric
+        self._metrics[key].sample_rate = sample_rate
         self._metrics[key].send("%s|ms" % (duration * 1000))
 
     def distinct(self, name, item):
-- 
2.43.0


From d91271da29ff8e8e08a9409f0465b21ab40f7df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:30 +0000
Subject: [PATCH 37/40] fix: place a key between nodes of one ring position by
 their names

---
 txstatsd/hashing.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/txstatsd/hashing.py b/txstatsd/hashing.py
index 9cd5304..8ba96e0 100644
--- a/txstatsd/hashing.py
+++ b/txstatsd/hashing.py
@@ -44,7 +44,9 @@ class ConsistentHashRing:
         for i in range(self.replica_count):
             replica_key = "%s:%d" % (node, i)
             position = self.compute_ring_position(replica_key)
-            entry = (position, node)
+            # Where two nodes share a position their names decide, and not
+            # what else the nodes are compared by.
+            entry = ((position, "%s" % (node,)), node)
             bisect.insort(self.ring, entry)
 
     def remove_node(self, node):
@@ -54,7 +56,7 @@ class ConsistentHashRing:
     def get_node(self, key):
         assert self.ring
         position = self.compute_ring_position(key)
-        search_entry = (position, None)
+        search_entry = ((position, ""), None)
         index = bisect.bisect_left(self.ring, search_entry) % len(self.ring)
         entry = self.ring[index]
         return entry[1]
@@ -62,7 +64,7 @@ class ConsistentHashRing:
     def get_nodes(self, key):
         nodes = []
         position = self.compute_ring_position(key)
-        search_entry = (position, None)
+        search_entry = ((position, ""), None)
         index = bisect.bisect_left(self.ring, search_entry) % len(self.ring)
         while len(nodes) < len(self.nodes):
             next_entry = self.ring[index]
-- 
2.43.0


From f7114de39bb040e03cbcfd292e5ce77cc09437f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:42 +0000
Subject: [PATCH 38/40] fix: the status page told parts of a flush while it was
 handed out

---
 txstatsd/server/processor.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index f02ebef..3efea65 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -379,7 +379,6 @@ class MessageProcessor(BaseMessageProcessor):
         yield ((self.internal_metrics_prefix + "numStats",
                 num_stats, timestamp),)
 
-        self.last_flush_duration = 0
         for name, (value, duration) in per_metric.iteritems():
             yield ((self.internal_metrics_prefix +
                     "flush.%s.count" % name,
@@ -389,12 +388,14 @@ class MessageProcessor(BaseMessageProcessor):
                     duration * 1000, timestamp))
             log.msg("Flushed %d %s metrics in %.6f" %
                     (value, name, duration))
-            self.last_flush_duration += duration * 1000
 
         # Messages received while we report belong to the next flush.
         process_timings, self.process_timings = self.process_timings, {}
         by_type, self.by_type = self.by_type, {}
-        self.last_process_duration = 0
+        # Not bit by bit: the status page may be asked for at any time.
+        self.last_flush_duration = sum(
+            duration for events, duration in per_metric.itervalues()) * 1000
+        self.last_process_duration = sum(process_timings.itervalues()) * 1000
         for metric_type, duration in process_timings.iteritems():
             yield ((self.internal_metrics_prefix +
                     "receive.%s.count" %
@@ -404,4 +405,3 @@ class MessageProcessor(BaseMessageProcessor):
                     metric_type, duration * 1000, timestamp))
             log.msg("Processing %d %s metrics took %.6f" %
                     (by_type[metric_type], metric_type, duration))
-            self.last_process_duration += duration * 1000
-- 
2.43.0


From 6803a45183ee0787d7b6eda4b002dc9320afaece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:15:53 +0000
Subject: [PATCH 39/40] fix: call a message's callback once, also when it
 raises

---
 txstatsd/protocol.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/txstatsd/protocol.py b/txstatsd/protocol.py
index 37ef9eb..917fb47 100644
--- a/txstatsd/protocol.py
+++ b/txstatsd/protocol.py
@@ -105,11 +105,13 @@ class TransportGateway(object):
         """
         try:
             bytes_sent = self.transport.write(data, (self.host, self.port))
-            if callback is not None:
-                callback(bytes_sent)
         except (OverflowError, TypeError, socket.error, socket.gaierror):
             if callback is not None:
                 callback(None)
+        else:
+            # A failure of the callback is its own.
+            if callback is not None:
+                callback(bytes_sent)
 
 
 class TwistedStatsDClient(object):
-- 
2.43.0


From 869640b760cdc7ce3be1b4c895696d21efe5a523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:15:53 +0000
Subject: [PATCH 40/40] fix: refuse sample rates that make a count too large
 for a float

---
 txstatsd/server/processor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 3efea65..8e439c8 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -201,6 +201,10 @@ class MessageProcessor(BaseMessageProcessor):
                 return self.fail(message)
             if rate <= 0:
                 return self.fail(message)
+            # Nor can a count be added up that is too large for a float.
+            count = value * (1 / rate)
+            if count - count != 0:
+                return self.fail(message)
 
         self.compose_counter_metric(key, value, rate)
 
-- 
2.43.0

