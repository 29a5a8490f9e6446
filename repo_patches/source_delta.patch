From e93e0433d6c78bf102af12d97d967d0ae07920df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:11 +0000
Subject: [PATCH 01/63] fix: series hash and tag comparison no longer depend on
 tag map order

---
 src/metric/mod.rs       | 17 +++++++++++++----
 src/metric/telemetry.rs | 27 +++++++++++++++++++--------
 2 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/metric/mod.rs b/src/metric/mod.rs
index b918448..35900bb 100644
--- a/src/metric/mod.rs
+++ b/src/metric/mod.rs
@@ -21,8 +21,9 @@ pub type TagMap = util::HashMap<String, String>;
 
 /// Compare two tagmaps
 ///
-/// K/Vs are compared lexographically unless the maps are of different length,
-/// in which case length is the comparator.
+/// K/Vs are compared lexographically, in key order, unless the maps are of
+/// different length, in which case length is the comparator. A missing map is
+/// an empty map.
 pub fn cmp_tagmap(
     lhs: &Option<TagMap>,
     rhs: &Option<TagMap>,
@@ -31,11 +32,19 @@ pub fn cmp_tagmap(
         (&Some(ref l), &Some(ref r)) => {
             if l.len() != r.len() {
                 l.len().partial_cmp(&r.len())
+            } else if l == r {
+                Some(cmp::Ordering::Equal)
             } else {
-                l.iter().partial_cmp(r)
+                let mut l: Vec<_> = l.iter().collect();
+                let mut r: Vec<_> = r.iter().collect();
+                l.sort();
+                r.sort();
+                l.partial_cmp(&r)
             }
         }
-        _ => Some(cmp::Ordering::Equal),
+        (&Some(ref l), &None) => l.len().partial_cmp(&0),
+        (&None, &Some(ref r)) => 0.partial_cmp(&r.len()),
+        (&None, &None) => Some(cmp::Ordering::Equal),
     }
 }
 
diff --git a/src/metric/telemetry.rs b/src/metric/telemetry.rs
index 94629a2..91c0eb0 100644
--- a/src/metric/telemetry.rs
+++ b/src/metric/telemetry.rs
@@ -509,6 +509,23 @@ pub enum Error {
     SummarizeErrorTooLarge,
 }
 
+/// Hash a tagmap. The iteration order of equal maps may differ, depending on how
+/// they were built, and has no influence on the result. An empty map hashes like
+/// a missing one.
+fn hash_tags<H: Hasher>(tags: &TagMap, hasher: &mut H) {
+    if tags.is_empty() {
+        return;
+    }
+    let mut acc: u64 = 0;
+    for (k, v) in tags.iter() {
+        let mut pair = hash_map::DefaultHasher::new();
+        k.hash(&mut pair);
+        v.hash(&mut pair);
+        acc = acc.wrapping_add(pair.finish());
+    }
+    acc.hash(hasher);
+}
+
 impl Telemetry {
     /// Make a builder for metrics
     ///
@@ -845,10 +862,7 @@ impl Telemetry {
         let mut hasher = hash_map::DefaultHasher::new();
         self.name.hash(&mut hasher);
         if let Some(ref tags) = self.tags {
-            for (k, v) in tags.iter() {
-                k.hash(&mut hasher);
-                v.hash(&mut hasher);
-            }
+            hash_tags(tags, &mut hasher);
         }
         self.kind().hash(&mut hasher);
         hasher.finish()
@@ -864,10 +878,7 @@ impl Telemetry {
         let mut hasher = hash_map::DefaultHasher::new();
         self.name.hash(&mut hasher);
         if let Some(ref tags) = self.tags {
-            for (k, v) in tags.iter() {
-                k.hash(&mut hasher);
-                v.hash(&mut hasher);
-            }
+            hash_tags(tags, &mut hasher);
         }
         hasher.finish()
     }
-- 
2.43.0


From 4a57b6beeeaacaa00661483f8c51f4c589cb5a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:52 +0000
Subject: [PATCH 02/63] fix: a refused statsd packet leaves nothing behind for
 the next one

---
 src/source/statsd.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/source/statsd.rs b/src/source/statsd.rs
index aa8030f..e389fd4 100644
--- a/src/source/statsd.rs
+++ b/src/source/statsd.rs
@@ -110,6 +110,9 @@ impl Statsd {
                             }
                             STATSD_GOOD_PACKET.fetch_add(1, Ordering::Relaxed);
                         } else {
+                            // What was read before the malformed line must not
+                            // be mixed up with the next packet.
+                            metrics.clear();
                             STATSD_BAD_PACKET.fetch_add(1, Ordering::Relaxed);
                             error!("BAD PACKET: {:?}", val);
                         }
-- 
2.43.0


From fa1e954616d6772c264208a17d52f8f6624bdaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:29 +0000
Subject: [PATCH 03/63] fix: read statsd datagrams of any size whole

---
 src/source/statsd.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/source/statsd.rs b/src/source/statsd.rs
index e389fd4..f23d5f0 100644
--- a/src/source/statsd.rs
+++ b/src/source/statsd.rs
@@ -175,7 +175,8 @@ impl source::Source<StatsdConfig> for Statsd {
             }
         }
 
-        let mut buf = vec![0; 16_250];
+        // Large enough for any UDP datagram, a longer one would be cut short.
+        let mut buf = vec![0; 65_536];
         loop {
             let mut events = mio::Events::with_capacity(1024);
             match poller.poll(&mut events, None) {
-- 
2.43.0


From 2853ae0b82bce3099fa956466d462c4364c5f80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:10 +0000
Subject: [PATCH 04/63] fix: the delay filter copes with timestamps at the ends
 of the range

---
 src/filter/delay_filter.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/filter/delay_filter.rs b/src/filter/delay_filter.rs
index 2756070..cf51078 100644
--- a/src/filter/delay_filter.rs
+++ b/src/filter/delay_filter.rs
@@ -47,6 +47,15 @@ impl DelayFilter {
             tolerance: config.tolerance,
         }
     }
+
+    /// Determine if a timestamp is close enough to the current time. One whose
+    /// distance does not even fit the type is not.
+    fn timely(&self, timestamp: i64) -> bool {
+        timestamp
+            .checked_sub(time::now())
+            .and_then(i64::checked_abs)
+            .map_or(false, |distance| distance < self.tolerance)
+    }
 }
 
 impl filter::Filter for DelayFilter {
@@ -57,7 +66,7 @@ impl filter::Filter for DelayFilter {
     ) -> Result<(), filter::FilterError> {
         match event {
             metric::Event::Telemetry(telem) => {
-                if (telem.timestamp - time::now()).abs() < self.tolerance {
+                if self.timely(telem.timestamp) {
                     DELAY_TELEM_ACCEPT.fetch_add(1, Ordering::Relaxed);
                     res.push(metric::Event::Telemetry(telem));
                 } else {
@@ -65,7 +74,7 @@ impl filter::Filter for DelayFilter {
                 }
             }
             metric::Event::Log(log) => {
-                if (log.time - time::now()).abs() < self.tolerance {
+                if self.timely(log.time) {
                     DELAY_LOG_ACCEPT.fetch_add(1, Ordering::Relaxed);
                     res.push(metric::Event::Log(log));
                 } else {
-- 
2.43.0


From 63deca6a8d4e066df427f3d765a1fd09078d2b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:10 +0000
Subject: [PATCH 05/63] fix: the flush boundary filter passes raw events on
 instead of dropping them

---
 src/filter/flush_boundary_filter.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/filter/flush_boundary_filter.rs b/src/filter/flush_boundary_filter.rs
index 8e3b634..d99d2c1 100644
--- a/src/filter/flush_boundary_filter.rs
+++ b/src/filter/flush_boundary_filter.rs
@@ -84,6 +84,9 @@ impl filter::Filter for FlushBoundaryFilter {
                         self.holds.insert(idx, hold)
                     }
                 }
+            } else {
+                // There is nothing to wait for without a timestamp.
+                res.push(event);
             }
         }
         Ok(())
-- 
2.43.0


From 8f642f39b5533facd3c15beb18069d123d843ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:27 +0000
Subject: [PATCH 06/63] fix: a filter announces its shutdown once, when all its
 upstreams are done

---
 src/filter/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/filter/mod.rs b/src/filter/mod.rs
index e6ae4ac..9834b03 100644
--- a/src/filter/mod.rs
+++ b/src/filter/mod.rs
@@ -81,9 +81,11 @@ pub trait Filter {
             match recv.next() {
                 None => attempts += 1,
                 Some(metric::Event::Shutdown) => {
-                    util::send(&mut chans, metric::Event::Shutdown);
                     total_shutdowns += 1;
                     if total_shutdowns >= sources.len() {
+                        // Downstream counts one shutdown per upstream, hence
+                        // this must not be sent any earlier or more often.
+                        util::send(&mut chans, metric::Event::Shutdown);
                         trace!(
                             "Received shutdown from every configured source: {:?}",
                             sources
-- 
2.43.0


From 501ad1e4a928a7888e5fbcb6c00dd4b6decf5a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:27 +0000
Subject: [PATCH 07/63] fix: events still held by a filter are sent on at
 shutdown

---
 src/filter/flush_boundary_filter.rs |  6 ++++++
 src/filter/mod.rs                   | 11 +++++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/filter/flush_boundary_filter.rs b/src/filter/flush_boundary_filter.rs
index d99d2c1..387ee96 100644
--- a/src/filter/flush_boundary_filter.rs
+++ b/src/filter/flush_boundary_filter.rs
@@ -91,4 +91,10 @@ impl filter::Filter for FlushBoundaryFilter {
         }
         Ok(())
     }
+
+    fn drain(&mut self, res: &mut Vec<metric::Event>) {
+        for mut hold in self.holds.drain(..) {
+            res.append(&mut hold.events);
+        }
+    }
 }
diff --git a/src/filter/mod.rs b/src/filter/mod.rs
index 9834b03..32286ec 100644
--- a/src/filter/mod.rs
+++ b/src/filter/mod.rs
@@ -61,6 +61,13 @@ pub trait Filter {
         res: &mut Vec<metric::Event>,
     ) -> Result<(), FilterError>;
 
+    /// Hand over what the Filter still holds back
+    ///
+    /// This function is called once, when every upstream has shut down and no
+    /// further event will be processed. Filters which delay events must push
+    /// those they still hold.
+    fn drain(&mut self, _res: &mut Vec<metric::Event>) {}
+
     /// Run the Filter
     ///
     /// It is not expected that most Filters will re-implement this. If this is
@@ -83,6 +90,10 @@ pub trait Filter {
                 Some(metric::Event::Shutdown) => {
                     total_shutdowns += 1;
                     if total_shutdowns >= sources.len() {
+                        self.drain(&mut events);
+                        for ev in events.drain(..) {
+                            util::send(&mut chans, ev)
+                        }
                         // Downstream counts one shutdown per upstream, hence
                         // this must not be sent any earlier or more often.
                         util::send(&mut chans, metric::Event::Shutdown);
-- 
2.43.0


From 42abd1de081006ae31f7a1c9d4a1cde19e1addcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:34 +0000
Subject: [PATCH 08/63] fix: log lines dated beyond the calendar no longer kill
 filters and sinks

---
 src/filter/json_encode_filter.rs |  7 ++-----
 src/sink/console.rs              |  6 ++----
 src/sink/elasticsearch.rs        | 10 +++-------
 src/time.rs                      | 18 ++++++++++++++++++
 4 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/filter/json_encode_filter.rs b/src/filter/json_encode_filter.rs
index 4fdf7ed..d662257 100644
--- a/src/filter/json_encode_filter.rs
+++ b/src/filter/json_encode_filter.rs
@@ -10,9 +10,7 @@
 
 use crate::filter;
 use crate::metric;
-use chrono::naive::NaiveDateTime;
-use chrono::offset::Utc;
-use chrono::DateTime;
+use crate::time;
 use rand::random;
 use serde_json;
 use serde_json::map::Map;
@@ -72,8 +70,7 @@ impl filter::Filter for JSONEncodeFilter {
     ) -> Result<(), filter::FilterError> {
         match event {
             metric::Event::Log(log) => {
-                let naive_time = NaiveDateTime::from_timestamp(log.time, 0);
-                let utc_time: DateTime<Utc> = DateTime::from_utc(naive_time, Utc);
+                let utc_time = time::to_utc(log.time);
                 let metadata = json_to_object(json!({
                     "time": utc_time.to_rfc3339(),
                     "path": log.path.clone(),
diff --git a/src/sink/console.rs b/src/sink/console.rs
index 917427f..54b935e 100644
--- a/src/sink/console.rs
+++ b/src/sink/console.rs
@@ -4,9 +4,8 @@ use crate::buckets::Buckets;
 use crate::metric::{AggregationMethod, LogLine, TagMap, Telemetry};
 use crate::sink::{Sink, Valve};
 use crate::source::flushes_per_second;
-use chrono::naive::NaiveDateTime;
+use crate::time;
 use chrono::offset::Utc;
-use chrono::DateTime;
 
 /// The 'console' sink exists for development convenience. The sink will
 /// aggregate according to [buckets](../buckets/struct.Buckets.html) method and
@@ -202,7 +201,6 @@ impl Sink<ConsoleConfig> for Console {
 
 #[inline]
 fn format_time(time: i64) -> String {
-    let naive_time = NaiveDateTime::from_timestamp(time, 0);
-    let utc_time: DateTime<Utc> = DateTime::from_utc(naive_time, Utc);
+    let utc_time = time::to_utc(time);
     format!("{}", utc_time.format("%Y-%m-%dT%H:%M:%S%.3fZ"))
 }
diff --git a/src/sink/elasticsearch.rs b/src/sink/elasticsearch.rs
index a3d962a..1ca76c2 100644
--- a/src/sink/elasticsearch.rs
+++ b/src/sink/elasticsearch.rs
@@ -3,9 +3,7 @@
 use crate::metric::{LogLine, TagMap};
 use crate::sink::{Sink, Valve};
 use crate::source::flushes_per_second;
-use chrono::naive::NaiveDateTime;
-use chrono::offset::Utc;
-use chrono::DateTime;
+use crate::time;
 use elastic::client::responses::bulk;
 use elastic::error;
 use elastic::error::Result;
@@ -358,15 +356,13 @@ impl Sink<ElasticsearchConfig> for Elasticsearch {
 
 #[inline]
 fn format_time(time: i64) -> String {
-    let naive_time = NaiveDateTime::from_timestamp(time, 0);
-    let utc_time: DateTime<Utc> = DateTime::from_utc(naive_time, Utc);
+    let utc_time = time::to_utc(time);
     format!("{}", utc_time.format("%+"))
 }
 
 #[inline]
 fn idx(prefix: &Option<String>, time: i64) -> String {
-    let naive_time = NaiveDateTime::from_timestamp(time, 0);
-    let utc_time: DateTime<Utc> = DateTime::from_utc(naive_time, Utc);
+    let utc_time = time::to_utc(time);
     match *prefix {
         Some(ref p) => format!("{}-{}", p, utc_time.format("%Y-%m-%d")),
         None => format!("{}", utc_time.format("%Y-%m-%d")),
diff --git a/src/time.rs b/src/time.rs
index 19ec2a8..1828081 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -4,7 +4,9 @@
 //! for cernan and update it ourselves periodically. See `update_time` in this
 //! module for more details.
 
+use chrono::naive::{self, NaiveDateTime};
 use chrono::offset::Utc;
+use chrono::DateTime;
 use std::sync::atomic::{AtomicUsize, Ordering};
 use std::{thread, time};
 
@@ -17,6 +19,22 @@ pub fn now() -> i64 {
     NOW.load(Ordering::Relaxed) as i64
 }
 
+/// Return the UTC date and time of an epoch second
+///
+/// Timestamps arrive from anywhere and may lie outside of what the calendar is
+/// able to express. These are moved to the nearest end of the calendar.
+pub fn to_utc(seconds: i64) -> DateTime<Utc> {
+    let naive_time =
+        NaiveDateTime::from_timestamp_opt(seconds, 0).unwrap_or_else(|| {
+            if seconds < 0 {
+                naive::MIN_DATE.and_hms(0, 0, 0)
+            } else {
+                naive::MAX_DATE.and_hms(23, 59, 59)
+            }
+        });
+    DateTime::from_utc(naive_time, Utc)
+}
+
 /// Update cernan's view of time every 500ms. Time is in UTC.
 pub fn update_time() {
     let dur = time::Duration::from_millis(500);
-- 
2.43.0


From f2c9ef1c6f463f8cd18306ff28a0739f91444cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:28 +0000
Subject: [PATCH 09/63] fix: a sink with several upstreams waits for the
 shutdown of each

The Shutdown arm of the run loop did not leave the inner loop, so one
Shutdown was counted until it stood for every upstream and the events of
the others were lost.
---
 src/sink/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sink/mod.rs b/src/sink/mod.rs
index 1252e0d..3714833 100644
--- a/src/sink/mod.rs
+++ b/src/sink/mod.rs
@@ -184,6 +184,7 @@ where
                                 self.state.shutdown();
                                 return;
                             }
+                            break;
                         }
                     },
                     Valve::Closed => {
-- 
2.43.0


From 3fbbed7ffb12706ead04334a3074aed1472a0572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:28 +0000
Subject: [PATCH 10/63] fix: a Shutdown buffered to disk is announced to the
 receiver

hopper announces what it spilled to disk with the next send; none follows a
Shutdown, so the last events and the Shutdown itself stayed unread when the
in-memory queue was full.
---
 src/util.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index c12d585..a813d63 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1,6 +1,7 @@
 //! Utility module, a grab-bag of functionality
 use crate::constants;
 use crate::metric;
+use crate::time;
 use hopper;
 use mio;
 use seahash::SeaHasher;
@@ -31,6 +32,7 @@ pub fn send(chans: &mut Channel, mut event: metric::Event) {
         return;
     }
 
+    let last = event == metric::Event::Shutdown;
     let max: usize = chans.len().saturating_sub(1);
     if max != 0 {
         for chan in &mut chans[1..] {
@@ -65,6 +67,15 @@ pub fn send(chans: &mut Channel, mut event: metric::Event) {
             }
         }
     }
+    if last {
+        // Hopper announces what it has buffered to disk with the next send. No
+        // send follows a Shutdown, so wait until all of it is announced.
+        let mut attempts = 0;
+        while chans.iter_mut().filter_map(|c| c.flush().err()).count() > 0 {
+            attempts += 1;
+            time::delay(attempts);
+        }
+    }
 }
 
 /// Determine the state of a buffering queue, whether open or closed.
-- 
2.43.0


From 1fc7d24e2f1d317bee925fd0b42019aaa2860445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:37 +0000
Subject: [PATCH 11/63] fix: a graphite stream is read by lines however TCP
 segments it

Bytes of a multi-byte character cut by a segment boundary were lost, a line
that is not UTF-8 stalled the connection, the start of a malformed line was
emitted with the next good one, and a closed connection was never let go.
---
 src/source/graphite.rs | 81 ++++++++++++++++++++++++++----------------
 1 file changed, 51 insertions(+), 30 deletions(-)

diff --git a/src/source/graphite.rs b/src/source/graphite.rs
index 9ec883c..5d0fece 100644
--- a/src/source/graphite.rs
+++ b/src/source/graphite.rs
@@ -6,7 +6,7 @@ use crate::util;
 use crate::util::send;
 use mio;
 use std::io::prelude::*;
-use std::io::BufReader;
+use std::io::{BufReader, ErrorKind};
 use std::str;
 use std::sync;
 use std::sync::atomic::{AtomicUsize, Ordering};
@@ -62,8 +62,7 @@ impl TCPStreamHandler for GraphiteStreamHandler {
         poller: &mio::Poll,
         stream: mio::net::TcpStream,
     ) {
-        let mut line = String::new();
-        let mut res = Vec::new();
+        let mut line = Vec::new();
         let mut line_reader = BufReader::new(stream);
         let basic_metric = sync::Arc::new(Some(metric::Telemetry::default()));
 
@@ -75,37 +74,36 @@ impl TCPStreamHandler for GraphiteStreamHandler {
                     for event in events {
                         match event.token() {
                             constants::SYSTEM => return,
-                            _stream_token => {
-                                while let Ok(len) = line_reader.read_line(&mut line) {
-                                    if len > 0 {
-                                        if parse_graphite(
-                                            &line,
-                                            &mut res,
-                                            &basic_metric,
-                                        ) {
-                                            assert!(!res.is_empty());
-                                            GRAPHITE_GOOD_PACKET
-                                                .fetch_add(1, Ordering::Relaxed);
-                                            GRAPHITE_TELEM
-                                                .fetch_add(1, Ordering::Relaxed);
-                                            for m in res.drain(..) {
-                                                send(
-                                                    &mut chans,
-                                                    metric::Event::Telemetry(m),
-                                                );
-                                            }
-                                            line.clear();
-                                        } else {
-                                            GRAPHITE_BAD_PACKET
-                                                .fetch_add(1, Ordering::Relaxed);
-                                            error!("bad packet: {:?}", line);
+                            _stream_token => loop {
+                                // What was read of a line stays in `line` when
+                                // the rest of it is yet to arrive.
+                                match line_reader.read_until(b'\n', &mut line) {
+                                    Ok(_) => {
+                                        let closed = line.last() != Some(&b'\n');
+                                        if !line.is_empty() {
+                                            handle_line(
+                                                &mut chans,
+                                                &line,
+                                                &basic_metric,
+                                            );
                                             line.clear();
                                         }
-                                    } else {
-                                        break;
+                                        if closed {
+                                            // Client went away.
+                                            return;
+                                        }
+                                    }
+                                    Err(ref e)
+                                        if e.kind() == ErrorKind::WouldBlock =>
+                                    {
+                                        break
+                                    }
+                                    Err(e) => {
+                                        error!("failed to read: {:?}", e);
+                                        return;
                                     }
                                 }
-                            }
+                            },
                         }
                     }
                 }
@@ -114,6 +112,29 @@ impl TCPStreamHandler for GraphiteStreamHandler {
     }
 }
 
+fn handle_line(
+    chans: &mut util::Channel,
+    line: &[u8],
+    basic_metric: &sync::Arc<Option<metric::Telemetry>>,
+) {
+    let mut res = Vec::new();
+    let good = match str::from_utf8(line) {
+        Ok(line) => parse_graphite(line, &mut res, basic_metric),
+        Err(_) => false,
+    };
+    if good {
+        assert!(!res.is_empty());
+        GRAPHITE_GOOD_PACKET.fetch_add(1, Ordering::Relaxed);
+        GRAPHITE_TELEM.fetch_add(1, Ordering::Relaxed);
+        for m in res.drain(..) {
+            send(chans, metric::Event::Telemetry(m));
+        }
+    } else {
+        GRAPHITE_BAD_PACKET.fetch_add(1, Ordering::Relaxed);
+        error!("bad packet: {:?}", String::from_utf8_lossy(line));
+    }
+}
+
 /// Graphite protocol source
 ///
 /// This source produces `metric::Telemetry` from the graphite protocol.
-- 
2.43.0


From eb45373fd5b339d6def3b10020227c72f5e82a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:37 +0000
Subject: [PATCH 12/63] fix: a length prefix that arrives in pieces is put
 together

The bytes read before the stream would block were dropped, and the rest of
the connection was misread.
---
 src/source/nonblocking.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/source/nonblocking.rs b/src/source/nonblocking.rs
index 6257d96..e4ca089 100644
--- a/src/source/nonblocking.rs
+++ b/src/source/nonblocking.rs
@@ -1,6 +1,6 @@
 //! Handy interfaces for nonblocking streams.
 
-use byteorder::{BigEndian, ReadBytesExt};
+use byteorder::{BigEndian, ByteOrder, ReadBytesExt};
 use mio;
 use std::io::{Read, Write};
 use std::{io, mem};
@@ -75,6 +75,9 @@ pub struct BufferedPayload {
     /// off the underlying stream as a big-endian u32.
     payload_size: Option<usize>,
 
+    /// The bytes of the length prefix read so far.
+    prefix: Vec<u8>,
+
     /// The maximum allowable payload size. If a payload_size comes in over the
     /// wire that is greater than this limit we close the connection.
     max_payload_size: usize,
@@ -94,6 +97,7 @@ impl BufferedPayload {
     pub fn new(stream: mio::net::TcpStream, max_payload_size: usize) -> Self {
         BufferedPayload {
             payload_size: None,
+            prefix: Vec::with_capacity(4),
             max_payload_size: max_payload_size,
             payload_pos: 0,
             payload: Vec::new(),
@@ -131,7 +135,13 @@ impl BufferedPayload {
     /// If a cached value already exists, this function noops.
     fn read_length(&mut self) -> Result<(), PayloadErr> {
         if self.payload_size.is_none() {
-            self.payload_size = Some(self.buffer.read_u32::<BigEndian>()? as usize);
+            // The prefix may come in pieces, keep those we have.
+            while self.prefix.len() < 4 {
+                let byte = self.buffer.read_u8()?;
+                self.prefix.push(byte);
+            }
+            self.payload_size = Some(BigEndian::read_u32(&self.prefix) as usize);
+            self.prefix.clear();
         };
         Ok(())
     }
-- 
2.43.0


From 08f671878621ff89e903a13318c7dc1838fc03ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:37 +0000
Subject: [PATCH 13/63] fix: an empty payload does not end the connection

---
 src/source/nonblocking.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/source/nonblocking.rs b/src/source/nonblocking.rs
index e4ca089..69c8b36 100644
--- a/src/source/nonblocking.rs
+++ b/src/source/nonblocking.rs
@@ -159,6 +159,12 @@ impl BufferedPayload {
             self.payload.resize(payload_size, 0);
         }
 
+        if payload_size == 0 {
+            // Nothing to wait for, and a read of nothing looks like the end.
+            self.payload_size = None;
+            return Ok(());
+        }
+
         loop {
             match self
                 .buffer
-- 
2.43.0


From cd5f812fee01da79c2e8abeff3ce424583d8d18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:08 +0000
Subject: [PATCH 14/63] fix: a truncated avro header or metadata is refused,
 not a panic

---
 src/source/avro.rs | 65 +++++++++++++++++++++++++++++-----------------
 1 file changed, 41 insertions(+), 24 deletions(-)

diff --git a/src/source/avro.rs b/src/source/avro.rs
index f84591a..f1a5581 100644
--- a/src/source/avro.rs
+++ b/src/source/avro.rs
@@ -7,7 +7,7 @@ use crate::util;
 use byteorder::{BigEndian, ReadBytesExt, WriteBytesExt};
 use mio;
 use serde_avro;
-use std::io::{Cursor, Read};
+use std::io::{self, Cursor, Read};
 use std::net;
 use std::sync::atomic::{AtomicUsize, Ordering};
 use uuid::Uuid;
@@ -31,7 +31,7 @@ pub struct Header {
     pub order_by: u64,
 }
 
-impl<'a> From<&'a mut Cursor<Vec<u8>>> for Header {
+impl Header {
     // Parses payload headers from raw bytes.
     // All values assumed to be big endian.
     // Diagram below describes packet layout.
@@ -77,17 +77,17 @@ impl<'a> From<&'a mut Cursor<Vec<u8>>> for Header {
     //    * Value Length - Length of Value data (max 65535)
     //    * Value - N Bytes of Value data, no encoding enforced (max 65535 bytes)
 
-    fn from(cursor: &'a mut Cursor<Vec<u8>>) -> Self {
-        let version = cursor.read_u32::<BigEndian>().unwrap();
-        let control = cursor.read_u32::<BigEndian>().unwrap();
-        let id = cursor.read_u64::<BigEndian>().unwrap();
-        let order_by = cursor.read_u64::<BigEndian>().unwrap();
-        Header {
+    fn read(cursor: &mut Cursor<Vec<u8>>) -> io::Result<Header> {
+        let version = cursor.read_u32::<BigEndian>()?;
+        let control = cursor.read_u32::<BigEndian>()?;
+        let id = cursor.read_u64::<BigEndian>()?;
+        let order_by = cursor.read_u64::<BigEndian>()?;
+        Ok(Header {
             version: version,
             control: control,
             id: id,
             order_by: order_by,
-        }
+        })
     }
 }
 
@@ -111,30 +111,47 @@ enum Payload {
     },
 }
 
+/// Reads the key value pairs that follow the header.
+fn read_metadata(cursor: &mut Cursor<Vec<u8>>) -> io::Result<Option<Metadata>> {
+    let num_kv = cursor.read_u8()?;
+    if num_kv < 1 {
+        return Ok(None);
+    }
+    let mut m: Metadata = Metadata::default();
+    for _ in 0..num_kv {
+        let key_len = cursor.read_u8()?;
+        let mut key = vec![0; key_len as usize];
+        cursor.read_exact(&mut key)?;
+        let val_len = cursor.read_u16::<BigEndian>()?;
+        let mut val = vec![0; val_len as usize];
+        cursor.read_exact(&mut val)?;
+        m.insert(key, val);
+    }
+    Ok(Some(m))
+}
+
 impl From<Vec<u8>> for Payload {
     /// Transforms cursors of payloads into Payload objects.
     fn from(vec: Vec<u8>) -> Payload {
         let mut cursor = Cursor::new(vec);
-        let header: Header = (&mut cursor).into();
+        let header = match Header::read(&mut cursor) {
+            Ok(header) => header,
+            Err(e) => {
+                return Payload::Invalid(format!("Failed to read header - {:?}.", e))
+            }
+        };
 
         let metadata = if header.version < 2 {
             None
         } else {
-            let num_kv = cursor.read_u8().unwrap();
-            if num_kv < 1 {
-                None
-            } else {
-                let mut m: Metadata = Metadata::default();
-                for _ in 0..num_kv {
-                    let key_len = cursor.read_u8().unwrap();
-                    let mut key = vec![0; key_len as usize];
-                    cursor.read_exact(&mut key).unwrap();
-                    let val_len = cursor.read_u16::<BigEndian>().unwrap();
-                    let mut val = vec![0; val_len as usize];
-                    cursor.read_exact(&mut val).unwrap();
-                    m.insert(key, val);
+            match read_metadata(&mut cursor) {
+                Ok(metadata) => metadata,
+                Err(e) => {
+                    return Payload::Invalid(format!(
+                        "Failed to read metadata - {:?}.",
+                        e
+                    ))
                 }
-                Some(m)
             }
         };
 
-- 
2.43.0


From 36ef8ba2b133a5a785b3cb3a099dac8ab4ddad61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:08 +0000
Subject: [PATCH 15/63] fix: a crashed connection handler does not take its
 source down

Joining the handler panicked in the source, which then never announced its
shutdown downstream.
---
 src/thread.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/thread.rs b/src/thread.rs
index f3ace3a..4cc6636 100644
--- a/src/thread.rs
+++ b/src/thread.rs
@@ -125,9 +125,17 @@ impl ThreadPool {
         thread_id
     }
 
+    /// Join a thread of the pool. Threads are allowed to crash without
+    /// compromising the rest of the pool or its owner.
+    fn join_thread(handle: ThreadHandle) {
+        if handle.handle.join().is_err() {
+            error!("a thread of the pool crashed");
+        }
+    }
+
     /// Block on completion of all executing threads.
     pub fn join(mut self) -> Vec<usize> {
-        self.threads.drain().for_each(|(_, h)| h.join());
+        self.threads.drain().for_each(|(_, h)| Self::join_thread(h));
         self.join_ready()
     }
 
@@ -137,7 +145,7 @@ impl ThreadPool {
         let mut joined = Vec::new();
         while let Some(id) = joinable.pop() {
             if let Some(handle) = self.threads.remove(&id) {
-                handle.join();
+                Self::join_thread(handle);
             }
             joined.push(id);
         }
@@ -146,7 +154,10 @@ impl ThreadPool {
 
     /// Serially signal shutdown and block for completion of all threads.
     pub fn shutdown(mut self) -> Vec<usize> {
-        self.threads.drain().for_each(|(_, h)| h.shutdown());
+        self.threads.drain().for_each(|(_, h)| {
+            let _ = h.shutdown_event.set_readiness(mio::Ready::readable());
+            Self::join_thread(h)
+        });
         self.join_ready()
     }
 }
-- 
2.43.0


From 869e17bad63fd56a93d2d5334162fd8a00fd172a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:38 +0000
Subject: [PATCH 16/63] fix: the native sink sends all of a payload

The protobuf stream was not flushed, so the end of a payload (all of a short
one) never left the sink, and write errors went unnoticed.
---
 Cargo.lock         |  2 ++
 src/sink/native.rs | 16 +++++++---------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/Cargo.lock b/Cargo.lock
index 25701a6..dcf22e8 100644
--- a/Cargo.lock
+++ b/Cargo.lock
@@ -1,3 +1,5 @@
+# This file is automatically @generated by Cargo.
+# It is not intended for manual editing.
 [[package]]
 name = "adler32"
 version = "1.0.2"
diff --git a/src/sink/native.rs b/src/sink/native.rs
index 2cd6203..eba465e 100644
--- a/src/sink/native.rs
+++ b/src/sink/native.rs
@@ -7,10 +7,9 @@ use crate::source::flushes_per_second;
 use crate::time;
 use byteorder::{BigEndian, ByteOrder};
 use protobuf::repeated::RepeatedField;
-use protobuf::stream::CodedOutputStream;
 use protobuf::Message;
 use std::collections::HashMap;
-use std::io::BufWriter;
+use std::io::Write;
 use std::mem::replace;
 use std::net::{TcpStream, ToSocketAddrs};
 
@@ -174,17 +173,16 @@ impl Sink<NativeConfig> for Native {
         let mut pyld = Payload::new();
         pyld.set_points(RepeatedField::from_vec(points));
         pyld.set_lines(RepeatedField::from_vec(lines));
+        let pyld = pyld
+            .write_to_bytes()
+            .expect("could not serialize native payload");
+        let mut sz_buf = [0; 4];
+        BigEndian::write_u32(&mut sz_buf, pyld.len() as u32);
 
         loop {
             let mut delivery_failure = false;
             if let Some(ref mut stream) = self.stream {
-                let mut bufwrite = BufWriter::new(stream);
-                let mut stream = CodedOutputStream::new(&mut bufwrite);
-                let mut sz_buf = [0; 4];
-                let pyld_len = pyld.compute_size();
-                BigEndian::write_u32(&mut sz_buf, pyld_len);
-                stream.write_raw_bytes(&sz_buf).unwrap();
-                let res = pyld.write_to_with_cached_sizes(&mut stream);
+                let res = stream.write_all(&sz_buf).and_then(|_| stream.write_all(&pyld));
                 if res.is_ok() {
                     self.buffer.clear();
                     return;
-- 
2.43.0


From 99c8e2720389417f7535dfc51a1a68010f801152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:38 +0000
Subject: [PATCH 17/63] fix: the native sink sends nothing when it has nothing
 to send

An empty payload was sent, and with the peer away the sink did not return.
---
 src/sink/native.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sink/native.rs b/src/sink/native.rs
index eba465e..f567eb7 100644
--- a/src/sink/native.rs
+++ b/src/sink/native.rs
@@ -114,6 +114,9 @@ impl Sink<NativeConfig> for Native {
     }
 
     fn flush(&mut self) {
+        if self.buffer.is_empty() {
+            return;
+        }
         let mut points = Vec::with_capacity(1024);
         let mut lines = Vec::with_capacity(1024);
 
-- 
2.43.0


From afb312198d90369f0b2b9781ac27277642d0a3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:39 +0000
Subject: [PATCH 18/63] fix: far timestamps do not overflow in the native sink

---
 src/sink/native.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sink/native.rs b/src/sink/native.rs
index f567eb7..a1b4db2 100644
--- a/src/sink/native.rs
+++ b/src/sink/native.rs
@@ -145,7 +145,7 @@ impl Sink<NativeConfig> for Native {
                         meta.insert(k.to_string(), v.to_string());
                     }
                     telem.set_metadata(meta);
-                    telem.set_timestamp_ms(m.timestamp * 1000); // FIXME #166
+                    telem.set_timestamp_ms(m.timestamp.saturating_mul(1000)); // FIXME #166
                     telem.set_samples(m.samples());
                     // TODO set bin_bounds. What we do is set the counts for the
                     // bins as set_samples above, then bin_bounds comes from
@@ -165,7 +165,7 @@ impl Sink<NativeConfig> for Native {
                     ll.set_path(l.path);
                     ll.set_value(l.value);
                     ll.set_metadata(meta);
-                    ll.set_timestamp_ms(l.time * 1000); // FIXME #166
+                    ll.set_timestamp_ms(l.time.saturating_mul(1000)); // FIXME #166
 
                     lines.push(ll);
                 }
-- 
2.43.0


From 3f2d599ed37df9d2ab8b3cfb33de8278c5bb09f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:39 +0000
Subject: [PATCH 19/63] fix: the native sink reconnects when its peer has
 closed the connection

The first payload after a restart of the peer was written to the closed
connection and lost.
---
 src/sink/native.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/sink/native.rs b/src/sink/native.rs
index a1b4db2..9ade0fd 100644
--- a/src/sink/native.rs
+++ b/src/sink/native.rs
@@ -9,7 +9,7 @@ use byteorder::{BigEndian, ByteOrder};
 use protobuf::repeated::RepeatedField;
 use protobuf::Message;
 use std::collections::HashMap;
-use std::io::Write;
+use std::io::{ErrorKind, Write};
 use std::mem::replace;
 use std::net::{TcpStream, ToSocketAddrs};
 
@@ -87,6 +87,18 @@ fn connect(host: &str, port: u16) -> Option<TcpStream> {
     }
 }
 
+/// Whether the peer has closed the connection, as far as can be seen.
+fn is_closed(stream: &TcpStream) -> bool {
+    if stream.set_nonblocking(true).is_err() {
+        return true;
+    }
+    let open = match stream.peek(&mut [0; 1]) {
+        Ok(n) => n > 0,
+        Err(e) => e.kind() == ErrorKind::WouldBlock,
+    };
+    stream.set_nonblocking(false).is_err() || !open
+}
+
 impl Sink<NativeConfig> for Native {
     fn init(config: NativeConfig) -> Self {
         let stream = connect(&config.host, config.port);
@@ -182,6 +194,9 @@ impl Sink<NativeConfig> for Native {
         let mut sz_buf = [0; 4];
         BigEndian::write_u32(&mut sz_buf, pyld.len() as u32);
 
+        if self.stream.as_ref().map_or(false, is_closed) {
+            self.stream = None;
+        }
         loop {
             let mut delivery_failure = false;
             if let Some(ref mut stream) = self.stream {
-- 
2.43.0


From ea4ad396033c17a3c2c14a8460166c89c0275202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:32 +0000
Subject: [PATCH 20/63] fix: the native sink splits what does not fit in one
 payload

The native source refuses payloads over one mebibyte and closes the
connection; the whole flush was lost.
---
 src/sink/native.rs | 89 ++++++++++++++++++++++++++++++----------------
 1 file changed, 58 insertions(+), 31 deletions(-)

diff --git a/src/sink/native.rs b/src/sink/native.rs
index 9ade0fd..0717e80 100644
--- a/src/sink/native.rs
+++ b/src/sink/native.rs
@@ -13,6 +13,9 @@ use std::io::{ErrorKind, Write};
 use std::mem::replace;
 use std::net::{TcpStream, ToSocketAddrs};
 
+/// The largest payload the native source accepts.
+const MAX_PAYLOAD: u32 = 1_048_576;
+
 /// The native sink
 ///
 /// This sink is the pair to the native source. The native source/sink use or
@@ -99,6 +102,60 @@ fn is_closed(stream: &TcpStream) -> bool {
     stream.set_nonblocking(false).is_err() || !open
 }
 
+impl Native {
+    /// Send points and lines, in several payloads if the native source would
+    /// refuse one of that size.
+    fn send(&mut self, points: Vec<Telemetry>, lines: Vec<LogLine>) {
+        let mut pyld = Payload::new();
+        pyld.set_points(RepeatedField::from_vec(points));
+        pyld.set_lines(RepeatedField::from_vec(lines));
+        if pyld.compute_size() > MAX_PAYLOAD {
+            let mut points = pyld.take_points().into_vec();
+            let mut lines = pyld.take_lines().into_vec();
+            if points.len() + lines.len() == 1 {
+                error!("event is too large for the native protocol, dropped");
+                return;
+            }
+            let later_points = points.split_off((points.len() + 1) / 2);
+            let keep = if points.is_empty() {
+                (lines.len() + 1) / 2
+            } else {
+                0
+            };
+            let later_lines = lines.split_off(keep);
+            self.send(points, lines);
+            return self.send(later_points, later_lines);
+        }
+        let pyld = pyld
+            .write_to_bytes()
+            .expect("could not serialize native payload");
+        let mut sz_buf = [0; 4];
+        BigEndian::write_u32(&mut sz_buf, pyld.len() as u32);
+
+        if self.stream.as_ref().map_or(false, is_closed) {
+            self.stream = None;
+        }
+        loop {
+            let mut delivery_failure = false;
+            if let Some(ref mut stream) = self.stream {
+                let res = stream.write_all(&sz_buf).and_then(|_| stream.write_all(&pyld));
+                if res.is_ok() {
+                    return;
+                } else {
+                    self.delivery_attempts = self.delivery_attempts.saturating_add(1);
+                    delivery_failure = true;
+                }
+            } else {
+                time::delay(self.delivery_attempts);
+                self.stream = connect(&self.host, self.port);
+            }
+            if delivery_failure {
+                self.stream = None
+            }
+        }
+    }
+}
+
 impl Sink<NativeConfig> for Native {
     fn init(config: NativeConfig) -> Self {
         let stream = connect(&config.host, config.port);
@@ -185,37 +242,7 @@ impl Sink<NativeConfig> for Native {
             }
         }
 
-        let mut pyld = Payload::new();
-        pyld.set_points(RepeatedField::from_vec(points));
-        pyld.set_lines(RepeatedField::from_vec(lines));
-        let pyld = pyld
-            .write_to_bytes()
-            .expect("could not serialize native payload");
-        let mut sz_buf = [0; 4];
-        BigEndian::write_u32(&mut sz_buf, pyld.len() as u32);
-
-        if self.stream.as_ref().map_or(false, is_closed) {
-            self.stream = None;
-        }
-        loop {
-            let mut delivery_failure = false;
-            if let Some(ref mut stream) = self.stream {
-                let res = stream.write_all(&sz_buf).and_then(|_| stream.write_all(&pyld));
-                if res.is_ok() {
-                    self.buffer.clear();
-                    return;
-                } else {
-                    self.delivery_attempts = self.delivery_attempts.saturating_add(1);
-                    delivery_failure = true;
-                }
-            } else {
-                time::delay(self.delivery_attempts);
-                self.stream = connect(&self.host, self.port);
-            }
-            if delivery_failure {
-                self.stream = None
-            }
-        }
+        self.send(points, lines);
     }
 
     fn shutdown(mut self) {
-- 
2.43.0


From e6b4457f714dda9968829464ff18954b125f831a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:04 +0000
Subject: [PATCH 21/63] fix: the size of a native point with 16 to 127 samples
 is right

The generated code took the number of samples for the number of bytes they
take, so such a point (or its whole payload) could not be read back.
---
 src/protocols/native.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocols/native.rs b/src/protocols/native.rs
index 002f250..31ddaf6 100644
--- a/src/protocols/native.rs
+++ b/src/protocols/native.rs
@@ -915,7 +915,7 @@ impl ::protobuf::Message for Telemetry {
             my_size += ::protobuf::rt::string_size(1, &v);
         }
         if !self.samples.is_empty() {
-            my_size += 1 + ::protobuf::rt::compute_raw_varint32_size(self.samples.len() as u32) + (self.samples.len() * 8) as u32;
+            my_size += 1 + ::protobuf::rt::compute_raw_varint32_size((self.samples.len() * 8) as u32) + (self.samples.len() * 8) as u32;
         }
         if let Some(v) = self.persisted {
             my_size += 2;
-- 
2.43.0


From 2fad37af25099ecafdd4182fe94214610bd1fc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:48 +0000
Subject: [PATCH 22/63] fix: a NaN value does not kill the wavefront and
 influxdb sinks

---
 src/sink/influxdb.rs  | 14 ++++++++++++--
 src/sink/wavefront.rs | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/sink/influxdb.rs b/src/sink/influxdb.rs
index b694b35..f9b645a 100644
--- a/src/sink/influxdb.rs
+++ b/src/sink/influxdb.rs
@@ -89,12 +89,22 @@ fn get_from_cache<T>(cache: &mut Vec<(T, String)>, val: T) -> &str
 where
     T: cmp::PartialOrd + string::ToString + Copy,
 {
-    match cache.binary_search_by(|probe| probe.0.partial_cmp(&val).unwrap()) {
+    // NaN has no place in the order of numbers, it is kept behind them.
+    let search = cache.binary_search_by(|probe| {
+        probe.0.partial_cmp(&val).unwrap_or_else(|| {
+            if probe.0.partial_cmp(&probe.0).is_none() {
+                cmp::Ordering::Greater
+            } else {
+                cmp::Ordering::Less
+            }
+        })
+    });
+    match search {
         Ok(idx) => &cache[idx].1,
         Err(idx) => {
             let str_val = val.to_string();
             cache.insert(idx, (val, str_val));
-            get_from_cache(cache, val)
+            &cache[idx].1
         }
     }
 }
diff --git a/src/sink/wavefront.rs b/src/sink/wavefront.rs
index 4e5e5c1..98a9e80 100644
--- a/src/sink/wavefront.rs
+++ b/src/sink/wavefront.rs
@@ -346,12 +346,22 @@ fn get_from_cache<T>(cache: &mut Vec<(T, String)>, val: T) -> &str
 where
     T: cmp::PartialOrd + string::ToString + Copy,
 {
-    match cache.binary_search_by(|probe| probe.0.partial_cmp(&val).unwrap()) {
+    // NaN has no place in the order of numbers, it is kept behind them.
+    let search = cache.binary_search_by(|probe| {
+        probe.0.partial_cmp(&val).unwrap_or_else(|| {
+            if probe.0.partial_cmp(&probe.0).is_none() {
+                cmp::Ordering::Greater
+            } else {
+                cmp::Ordering::Less
+            }
+        })
+    });
+    match search {
         Ok(idx) => &cache[idx].1,
         Err(idx) => {
             let str_val = val.to_string();
             cache.insert(idx, (val, str_val));
-            get_from_cache(cache, val)
+            &cache[idx].1
         }
     }
 }
-- 
2.43.0


From 6bee6b7b9ac52a69a259cf18791d8162b5c6d461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:48 +0000
Subject: [PATCH 23/63] fix: far timestamps do not overflow in the wavefront
 sink

---
 src/sink/wavefront.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/sink/wavefront.rs b/src/sink/wavefront.rs
index 98a9e80..19910d2 100644
--- a/src/sink/wavefront.rs
+++ b/src/sink/wavefront.rs
@@ -261,7 +261,7 @@ impl<'a> Iterator for Padding<'a> {
                         if let Some(ts) = self.last_seen.get(&x.hash()) {
                             if x.timestamp() > *ts {
                                 self.flush_padded.insert(x.hash());
-                                if (x.timestamp() - ts) / self.span > 1 {
+                                if x.timestamp().saturating_sub(*ts) / self.span > 1 {
                                     let sub_x = x
                                         .clone()
                                         .zero_at(x.timestamp().saturating_sub(1));
@@ -278,7 +278,8 @@ impl<'a> Iterator for Padding<'a> {
                             }
                         }
                     }
-                    match (x.timestamp() - y.timestamp()).abs() / self.span {
+                    // points of a series come in the order of time
+                    match y.timestamp().saturating_sub(x.timestamp()) / self.span {
                         0 | 1 => {
                             // In this case the next point, y, is within the
                             // span configured by the user. We stash it into
@@ -323,7 +324,7 @@ impl<'a> Iterator for Padding<'a> {
                     if let Some(ts) = self.last_seen.get(&x.hash()) {
                         if x.timestamp() > *ts {
                             self.flush_padded.insert(x.hash());
-                            if (x.timestamp() - ts) / self.span > 1 {
+                            if x.timestamp().saturating_sub(*ts) / self.span > 1 {
                                 let sub_x =
                                     x.clone().zero_at(x.timestamp().saturating_sub(1));
                                 let post_x = x.clone().zero_at(ts.saturating_add(1));
@@ -432,7 +433,7 @@ impl Wavefront {
                 Pad::Telem(value) => {
                     if value.persist {
                         let new_val = value.clone();
-                        self.aggrs.add(new_val.timestamp(value.timestamp + 1));
+                        self.aggrs.add(new_val.timestamp(value.timestamp.saturating_add(1)));
                     }
 
                     match value.kind() {
@@ -652,7 +653,10 @@ impl Sink<WavefrontConfig> for Wavefront {
 
     fn deliver(&mut self, telem: Telemetry) {
         if let Some(age_threshold) = self.age_threshold {
-            if (telem.timestamp - time::now()).abs() <= (age_threshold as i64) {
+            let now = time::now();
+            let age = cmp::max(telem.timestamp, now)
+                .saturating_sub(cmp::min(telem.timestamp, now));
+            if age <= (age_threshold as i64) {
                 self.aggrs.add(telem);
             }
         } else {
-- 
2.43.0


From 07c09c363ffe71fd6175abaca52228191c8b6dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:48 +0000
Subject: [PATCH 24/63] fix: a late point does not make the wavefront sink pad
 over earlier reports

---
 src/sink/wavefront.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sink/wavefront.rs b/src/sink/wavefront.rs
index 19910d2..559c7f1 100644
--- a/src/sink/wavefront.rs
+++ b/src/sink/wavefront.rs
@@ -412,7 +412,8 @@ impl Wavefront {
             // When we update the last_seen map we have to be sure that if the new
             // telem has a point with a timestamp greater than the one we have
             // stored we replace the timestamp. Else, we ignore.
-            tmp_last_seen.insert(pad.hash(), pad.timestamp());
+            let seen = tmp_last_seen.entry(pad.hash()).or_insert_with(|| pad.timestamp());
+            *seen = cmp::max(*seen, pad.timestamp());
 
             match pad {
                 Pad::Zero(value, ts) => {
@@ -460,7 +461,8 @@ impl Wavefront {
             }
         }
         for (k, v) in tmp_last_seen {
-            last_seen.insert(k, v);
+            let seen = last_seen.entry(k).or_insert(v);
+            *seen = cmp::max(*seen, v);
         }
         self.aggrs = aggrs;
         self.aggrs.reset();
-- 
2.43.0


From ee682635f0a87817be5087b2abcc95937bdc71d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:10 +0000
Subject: [PATCH 25/63] fix: the wavefront sink pads the gap since the last
 flush for every series

---
 src/sink/wavefront.rs | 49 ++++++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/src/sink/wavefront.rs b/src/sink/wavefront.rs
index 559c7f1..9811a60 100644
--- a/src/sink/wavefront.rs
+++ b/src/sink/wavefront.rs
@@ -227,6 +227,32 @@ struct Padding<'a> {
     pad_control: PadControl,
 }
 
+impl<'a> Padding<'a> {
+    /// Emit x, the last point of its series, padding the gap to the last flush
+    /// if there is one.
+    fn end_of_series(&mut self, x: Pad<'a>) -> Pad<'a> {
+        if x.skip_pad(self.pad_control) {
+            return x;
+        }
+        let flush_padded = self.flush_padded.contains(&x.hash());
+        if !flush_padded {
+            if let Some(ts) = self.last_seen.get(&x.hash()) {
+                if x.timestamp() > *ts {
+                    self.flush_padded.insert(x.hash());
+                    if x.timestamp().saturating_sub(*ts) / self.span > 1 {
+                        let sub_x = x.clone().zero_at(x.timestamp().saturating_sub(1));
+                        let post_x = x.clone().zero_at(ts.saturating_add(1));
+                        self.emit_q.push(x);
+                        self.emit_q.push(sub_x);
+                        return post_x;
+                    }
+                }
+            }
+        }
+        x
+    }
+}
+
 impl<'a> Iterator for Padding<'a> {
     type Item = Pad<'a>;
 
@@ -310,32 +336,13 @@ impl<'a> Iterator for Padding<'a> {
                     }
                 } else {
                     self.emit_q.push(y);
-                    Some(x)
+                    Some(self.end_of_series(x))
                 }
             }
             (Some(x), None) => {
                 self.last_hash = x.hash();
                 // end of sequence
-                if x.skip_pad(self.pad_control) {
-                    return Some(x);
-                }
-                let flush_padded = self.flush_padded.contains(&x.hash());
-                if !flush_padded {
-                    if let Some(ts) = self.last_seen.get(&x.hash()) {
-                        if x.timestamp() > *ts {
-                            self.flush_padded.insert(x.hash());
-                            if x.timestamp().saturating_sub(*ts) / self.span > 1 {
-                                let sub_x =
-                                    x.clone().zero_at(x.timestamp().saturating_sub(1));
-                                let post_x = x.clone().zero_at(ts.saturating_add(1));
-                                self.emit_q.push(x);
-                                self.emit_q.push(sub_x);
-                                return Some(post_x);
-                            }
-                        }
-                    }
-                }
-                Some(x)
+                Some(self.end_of_series(x))
             }
             (None, _) => None,
         }
-- 
2.43.0


From b5c64616632f480863e661d50dba91a2cd265386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:51 +0000
Subject: [PATCH 26/63] fix: wavefront pads of histograms and summaries are
 zero

---
 src/sink/wavefront.rs | 48 ++++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/src/sink/wavefront.rs b/src/sink/wavefront.rs
index 9811a60..604b883 100644
--- a/src/sink/wavefront.rs
+++ b/src/sink/wavefront.rs
@@ -424,15 +424,9 @@ impl Wavefront {
 
             match pad {
                 Pad::Zero(value, ts) => {
-                    let zero = value
-                        .clone()
-                        .thaw()
-                        .value(0.0)
-                        .harden()
-                        .unwrap()
-                        .timestamp(ts);
                     self.fmt_val(
-                        &zero,
+                        value,
+                        Some(ts),
                         &mut time_cache,
                         &mut count_cache,
                         &mut value_cache,
@@ -460,6 +454,7 @@ impl Wavefront {
 
                     self.fmt_val(
                         value,
+                        None,
                         &mut time_cache,
                         &mut count_cache,
                         &mut value_cache,
@@ -476,20 +471,26 @@ impl Wavefront {
         self.last_seen = last_seen;
     }
 
+    /// Write the lines of a point or, if `zero_at` is given, the same lines
+    /// with all values zero and the given time.
     fn fmt_val(
         &mut self,
         value: &Telemetry,
+        zero_at: Option<i64>,
         mut time_cache: &mut Vec<(i64, String)>,
         mut count_cache: &mut Vec<(usize, String)>,
         mut value_cache: &mut Vec<(f64, String)>,
     ) {
         let mut tag_buf = String::with_capacity(1_024);
+        let timestamp = zero_at.unwrap_or(value.timestamp);
+        let is_zero = zero_at.is_some();
         match value.kind() {
             AggregationMethod::Histogram => {
                 if let Some(bins) = value.bins() {
                     use quantiles::histogram::Bound;
                     fmt_tags(value.tags(&self.tags), &mut tag_buf);
                     for &(bound, count) in bins {
+                        let count = if is_zero { 0 } else { count };
                         self.stats.push_str(&value.name);
                         self.stats.push_str("_");
                         match bound {
@@ -504,10 +505,7 @@ impl Wavefront {
                         self.stats.push_str(" ");
                         self.stats.push_str(get_from_cache(&mut count_cache, count));
                         self.stats.push_str(" ");
-                        self.stats.push_str(get_from_cache(
-                            &mut time_cache,
-                            value.timestamp,
-                        ));
+                        self.stats.push_str(get_from_cache(&mut time_cache, timestamp));
                         self.stats.push_str(" ");
                         self.stats.push_str(&tag_buf);
                         self.stats.push_str("\n");
@@ -518,12 +516,13 @@ impl Wavefront {
             }
             AggregationMethod::Sum => {
                 if let Some(v) = value.sum() {
+                    let v = if is_zero { 0.0 } else { v };
                     self.stats.push_str(&value.name);
                     self.stats.push_str(" ");
                     self.stats.push_str(get_from_cache(&mut value_cache, v));
                     self.stats.push_str(" ");
                     self.stats
-                        .push_str(get_from_cache(&mut time_cache, value.timestamp));
+                        .push_str(get_from_cache(&mut time_cache, timestamp));
                     self.stats.push_str(" ");
                     fmt_tags(value.tags(&self.tags), &mut tag_buf);
                     self.stats.push_str(&tag_buf);
@@ -534,12 +533,13 @@ impl Wavefront {
             }
             AggregationMethod::Set => {
                 if let Some(v) = value.set() {
+                    let v = if is_zero { 0.0 } else { v };
                     self.stats.push_str(&value.name);
                     self.stats.push_str(" ");
                     self.stats.push_str(get_from_cache(&mut value_cache, v));
                     self.stats.push_str(" ");
                     self.stats
-                        .push_str(get_from_cache(&mut time_cache, value.timestamp));
+                        .push_str(get_from_cache(&mut time_cache, timestamp));
                     self.stats.push_str(" ");
                     fmt_tags(value.tags(&self.tags), &mut tag_buf);
                     self.stats.push_str(&tag_buf);
@@ -553,41 +553,43 @@ impl Wavefront {
                 for tup in &self.percentiles {
                     let stat: &String = &tup.0;
                     let quant: f64 = tup.1;
+                    let v = if is_zero {
+                        0.0
+                    } else {
+                        value.query(quant).unwrap()
+                    };
                     self.stats.push_str(&value.name);
                     self.stats.push_str(".");
                     self.stats.push_str(stat);
                     self.stats.push_str(" ");
-                    self.stats.push_str(get_from_cache(
-                        &mut value_cache,
-                        value.query(quant).unwrap(),
-                    ));
+                    self.stats.push_str(get_from_cache(&mut value_cache, v));
                     self.stats.push_str(" ");
                     self.stats
-                        .push_str(get_from_cache(&mut time_cache, value.timestamp));
+                        .push_str(get_from_cache(&mut time_cache, timestamp));
                     self.stats.push_str(" ");
                     self.stats.push_str(&tag_buf);
                     self.stats.push_str("\n");
                 }
-                let count = value.count();
+                let count = if is_zero { 0 } else { value.count() };
                 self.stats.push_str(&value.name);
                 self.stats.push_str(".count");
                 self.stats.push_str(" ");
                 self.stats.push_str(get_from_cache(&mut count_cache, count));
                 self.stats.push_str(" ");
                 self.stats
-                    .push_str(get_from_cache(&mut time_cache, value.timestamp));
+                    .push_str(get_from_cache(&mut time_cache, timestamp));
                 self.stats.push_str(" ");
                 self.stats.push_str(&tag_buf);
                 self.stats.push_str("\n");
 
-                let mean = value.mean();
+                let mean = if is_zero { 0.0 } else { value.mean() };
                 self.stats.push_str(&value.name);
                 self.stats.push_str(".mean");
                 self.stats.push_str(" ");
                 self.stats.push_str(get_from_cache(&mut value_cache, mean));
                 self.stats.push_str(" ");
                 self.stats
-                    .push_str(get_from_cache(&mut time_cache, value.timestamp));
+                    .push_str(get_from_cache(&mut time_cache, timestamp));
                 self.stats.push_str(" ");
                 self.stats.push_str(&tag_buf);
                 self.stats.push_str("\n");
-- 
2.43.0


From 79d4c00dfc51a87a04849288d19253129d33ee4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:25 +0000
Subject: [PATCH 27/63] fix: the wavefront sink reconnects when its endpoint
 has closed the connection

---
 src/sink/native.rs    | 2 +-
 src/sink/wavefront.rs | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sink/native.rs b/src/sink/native.rs
index 0717e80..2ceee2d 100644
--- a/src/sink/native.rs
+++ b/src/sink/native.rs
@@ -91,7 +91,7 @@ fn connect(host: &str, port: u16) -> Option<TcpStream> {
 }
 
 /// Whether the peer has closed the connection, as far as can be seen.
-fn is_closed(stream: &TcpStream) -> bool {
+pub(crate) fn is_closed(stream: &TcpStream) -> bool {
     if stream.set_nonblocking(true).is_err() {
         return true;
     }
diff --git a/src/sink/wavefront.rs b/src/sink/wavefront.rs
index 604b883..994b4b8 100644
--- a/src/sink/wavefront.rs
+++ b/src/sink/wavefront.rs
@@ -2,6 +2,7 @@
 
 use crate::buckets;
 use crate::metric::{AggregationMethod, TagIter, TagMap, Telemetry};
+use crate::sink::native::is_closed;
 use crate::sink::{Sink, Valve};
 use crate::source::flushes_per_second;
 use crate::time;
@@ -629,6 +630,9 @@ impl Sink<WavefrontConfig> for Wavefront {
 
     fn flush(&mut self) {
         self.format_stats();
+        if self.stream.as_ref().map_or(false, is_closed) {
+            self.stream = None;
+        }
         loop {
             if self.delivery_attempts > 0 {
                 debug!("delivery attempts: {}", self.delivery_attempts);
-- 
2.43.0


From 54ee8f7b7127ab407ee635c2c53c5505fb490283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:35 +0000
Subject: [PATCH 28/63] fix: wavefront names and tags that are not one word are
 quoted

---
 src/sink/wavefront.rs | 58 +++++++++++++++++++++++++++----------------
 1 file changed, 37 insertions(+), 21 deletions(-)

diff --git a/src/sink/wavefront.rs b/src/sink/wavefront.rs
index 994b4b8..ed2c822 100644
--- a/src/sink/wavefront.rs
+++ b/src/sink/wavefront.rs
@@ -139,17 +139,41 @@ impl Default for WavefrontConfig {
     }
 }
 
+/// Write one field of a line, made of the given parts. It is quoted if it
+/// could not be told from its neighbours otherwise.
+#[inline]
+fn fmt_field(parts: &[&str], s: &mut String) {
+    let is_special =
+        |c: char| c.is_whitespace() || c.is_control() || c == '"' || c == '=';
+    if !parts.iter().any(|p| p.chars().any(is_special)) {
+        for part in parts {
+            s.push_str(part);
+        }
+        return;
+    }
+    s.push_str("\"");
+    for c in parts.iter().flat_map(|p| p.chars()) {
+        match c {
+            '"' => s.push_str("\\\""),
+            '\\' => s.push_str("\\\\"),
+            '\n' => s.push_str("\\n"),
+            c => s.push(c),
+        }
+    }
+    s.push_str("\"");
+}
+
 #[inline]
 fn fmt_tags(mut iter: TagIter, s: &mut String) {
     if let Some((fk, fv)) = iter.next() {
-        s.push_str(fk);
+        fmt_field(&[fk], s);
         s.push_str("=");
-        s.push_str(fv);
+        fmt_field(&[fv], s);
         for (k, v) in iter {
             s.push_str(" ");
-            s.push_str(k);
+            fmt_field(&[k], s);
             s.push_str("=");
-            s.push_str(v);
+            fmt_field(&[v], s);
         }
     }
 }
@@ -492,17 +516,13 @@ impl Wavefront {
                     fmt_tags(value.tags(&self.tags), &mut tag_buf);
                     for &(bound, count) in bins {
                         let count = if is_zero { 0 } else { count };
-                        self.stats.push_str(&value.name);
-                        self.stats.push_str("_");
-                        match bound {
+                        let bound = match bound {
                             Bound::Finite(bnd) => {
-                                self.stats
-                                    .push_str(get_from_cache(&mut value_cache, bnd));
-                            }
-                            Bound::PosInf => {
-                                self.stats.push_str("pos_inf");
+                                get_from_cache(&mut value_cache, bnd)
                             }
+                            Bound::PosInf => "pos_inf",
                         };
+                        fmt_field(&[&value.name, "_", bound], &mut self.stats);
                         self.stats.push_str(" ");
                         self.stats.push_str(get_from_cache(&mut count_cache, count));
                         self.stats.push_str(" ");
@@ -518,7 +538,7 @@ impl Wavefront {
             AggregationMethod::Sum => {
                 if let Some(v) = value.sum() {
                     let v = if is_zero { 0.0 } else { v };
-                    self.stats.push_str(&value.name);
+                    fmt_field(&[&value.name], &mut self.stats);
                     self.stats.push_str(" ");
                     self.stats.push_str(get_from_cache(&mut value_cache, v));
                     self.stats.push_str(" ");
@@ -535,7 +555,7 @@ impl Wavefront {
             AggregationMethod::Set => {
                 if let Some(v) = value.set() {
                     let v = if is_zero { 0.0 } else { v };
-                    self.stats.push_str(&value.name);
+                    fmt_field(&[&value.name], &mut self.stats);
                     self.stats.push_str(" ");
                     self.stats.push_str(get_from_cache(&mut value_cache, v));
                     self.stats.push_str(" ");
@@ -559,9 +579,7 @@ impl Wavefront {
                     } else {
                         value.query(quant).unwrap()
                     };
-                    self.stats.push_str(&value.name);
-                    self.stats.push_str(".");
-                    self.stats.push_str(stat);
+                    fmt_field(&[&value.name, ".", stat], &mut self.stats);
                     self.stats.push_str(" ");
                     self.stats.push_str(get_from_cache(&mut value_cache, v));
                     self.stats.push_str(" ");
@@ -572,8 +590,7 @@ impl Wavefront {
                     self.stats.push_str("\n");
                 }
                 let count = if is_zero { 0 } else { value.count() };
-                self.stats.push_str(&value.name);
-                self.stats.push_str(".count");
+                fmt_field(&[&value.name, ".count"], &mut self.stats);
                 self.stats.push_str(" ");
                 self.stats.push_str(get_from_cache(&mut count_cache, count));
                 self.stats.push_str(" ");
@@ -584,8 +601,7 @@ impl Wavefront {
                 self.stats.push_str("\n");
 
                 let mean = if is_zero { 0.0 } else { value.mean() };
-                self.stats.push_str(&value.name);
-                self.stats.push_str(".mean");
+                fmt_field(&[&value.name, ".mean"], &mut self.stats);
                 self.stats.push_str(" ");
                 self.stats.push_str(get_from_cache(&mut value_cache, mean));
                 self.stats.push_str(" ");
-- 
2.43.0


From b361a472ff16c5b92f2cc4d025144b53405bc838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:53 +0000
Subject: [PATCH 29/63] fix: far timestamps do not overflow in the prometheus
 sink

---
 src/sink/prometheus.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/sink/prometheus.rs b/src/sink/prometheus.rs
index 023b8d9..285fb58 100644
--- a/src/sink/prometheus.rs
+++ b/src/sink/prometheus.rs
@@ -17,6 +17,7 @@ use crate::time;
 use flate2::write::GzEncoder;
 use flate2::Compression;
 use quantiles::histogram::Bound;
+use std::cmp;
 use std::collections::hash_map::{Entry, HashMap, Values};
 use std::collections::HashSet;
 use std::f64;
@@ -92,6 +93,12 @@ impl Default for PrometheusConfig {
     }
 }
 
+/// The distance in seconds between the time of a Telemetry and now.
+fn age(telem: &Telemetry) -> i64 {
+    let now = time::now();
+    cmp::max(telem.timestamp, now).saturating_sub(cmp::min(telem.timestamp, now))
+}
+
 #[derive(Clone, Debug)]
 enum Accumulator {
     Perpetual(Telemetry),
@@ -135,7 +142,7 @@ impl Accumulator {
                 let mut purged = 0;
                 let mut i = 0;
                 while i != samples.len() {
-                    if (samples[i].timestamp - time::now()).abs() > (cap as i64) {
+                    if age(&samples[i]) > (cap as i64) {
                         samples.remove(i);
                         purged += 1;
                     } else {
@@ -660,7 +667,7 @@ impl Sink<PrometheusConfig> for Prometheus {
 
     fn deliver(&mut self, telem: Telemetry) {
         if let Some(age_threshold) = self.age_threshold {
-            if (telem.timestamp - time::now()).abs() <= (age_threshold as i64) {
+            if age(&telem) <= (age_threshold as i64) {
                 self.aggrs.lock().unwrap().insert(telem);
             }
         } else {
-- 
2.43.0


From af940dba07adca4d559e5c286d33d3ea963a2c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:53 +0000
Subject: [PATCH 30/63] fix: prometheus summaries count every sample of a point

---
 src/sink/prometheus.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/sink/prometheus.rs b/src/sink/prometheus.rs
index 285fb58..1bdfd63 100644
--- a/src/sink/prometheus.rs
+++ b/src/sink/prometheus.rs
@@ -163,16 +163,9 @@ impl Accumulator {
                 ref mut count,
                 ref mut samples,
             } => {
-                use std::u64;
                 assert_eq!(telem.kind(), AggregationMethod::Summarize);
-                // u64::wrapping_add makes a new u64. We need this to be
-                // in-place. Oops!
-                if (u64::MAX - *count) <= 1 {
-                    *count = 1;
-                } else {
-                    *count += 1;
-                }
-                let val = telem.query(1.0).unwrap();
+                *count = count.wrapping_add(telem.count() as u64);
+                let val = telem.samples_sum().unwrap_or(0.0);
                 // There's no wrapping_add for f64. Since it's rude to crash
                 // cernan because we've been summing for too long we knock
                 // together our own wrap.
@@ -301,11 +294,12 @@ impl PrometheusAggr {
                     | AggregationMethod::Histogram => Accumulator::Perpetual(telem),
                     AggregationMethod::Summarize => {
                         let mut samples = Vec::new();
-                        let sum = telem.query(1.0).unwrap();
+                        let sum = telem.samples_sum().unwrap_or(0.0);
+                        let count = telem.count() as u64;
                         samples.push(telem);
                         Accumulator::Windowed {
                             cap: self.capacity_in_seconds,
-                            count: 1,
+                            count,
                             sum,
                             samples,
                         }
-- 
2.43.0


From 998361cc313b010e1586faf855f171b2be30ebbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:54 +0000
Subject: [PATCH 31/63] fix: label values in the prometheus exposition are
 escaped

---
 src/sink/prometheus.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/sink/prometheus.rs b/src/sink/prometheus.rs
index 1bdfd63..88c389e 100644
--- a/src/sink/prometheus.rs
+++ b/src/sink/prometheus.rs
@@ -451,7 +451,14 @@ where
 {
     s.write_all(k.as_bytes())?;
     s.write_all(b"=\"")?;
-    s.write_all(v.as_bytes())?;
+    for c in v.as_bytes() {
+        match *c {
+            b'"' => s.write_all(b"\\\"")?,
+            b'\\' => s.write_all(b"\\\\")?,
+            b'\n' => s.write_all(b"\\n")?,
+            c => s.write_all(&[c])?,
+        }
+    }
     s.write_all(b"\"")
 }
 
-- 
2.43.0


From 7d16303f6370d7dc77e6a901ae14e14d81c8786d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:54 +0000
Subject: [PATCH 32/63] fix: prometheus names do not start with a digit

---
 src/sink/prometheus.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sink/prometheus.rs b/src/sink/prometheus.rs
index 88c389e..65e4dcc 100644
--- a/src/sink/prometheus.rs
+++ b/src/sink/prometheus.rs
@@ -626,6 +626,10 @@ where
 fn sanitize(name: &str) -> String {
     let name: String = name.to_string();
     let mut new_name: Vec<u8> = Vec::with_capacity(128);
+    // a name may not start with a digit
+    if name.as_bytes().first().map_or(true, |c| c.is_ascii_digit()) {
+        new_name.push(b'_');
+    }
     for c in name.as_bytes() {
         match *c {
             b'a'...b'z' | b'A'...b'Z' | b'0'...b'9' | b':' | b'_' => new_name.push(*c),
-- 
2.43.0


From da0ad250c6deace068423bb71e0ad891d8d5a7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:09 +0000
Subject: [PATCH 33/63] fix: a prometheus scrape is answered also while points
 arrive or when there are none

---
 src/sink/prometheus.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sink/prometheus.rs b/src/sink/prometheus.rs
index 65e4dcc..92d4f6e 100644
--- a/src/sink/prometheus.rs
+++ b/src/sink/prometheus.rs
@@ -394,7 +394,9 @@ struct PrometheusHandler {
 impl Handler for PrometheusHandler {
     fn handle(&self, request: Request) {
         let mut buffer = Vec::with_capacity(2048);
-        if let Ok(ref aggr) = self.aggr.try_lock() {
+        let aggr = self.aggr.lock();
+        let is_available = aggr.is_ok();
+        if let Ok(aggr) = aggr {
             PROMETHEUS_AGGR_REPORTABLE.store(aggr.count(), Ordering::Relaxed);
             let reportable = aggr.reportable();
             let now = Instant::now();
@@ -411,7 +413,7 @@ impl Handler for PrometheusHandler {
                 + (f64::from(elapsed.subsec_nanos()) / 100_000.0);
             PROMETHEUS_RESPONSE_DELAY_SUM.fetch_add(us as usize, Ordering::Relaxed);
         }
-        if !buffer.is_empty() {
+        if is_available {
             let content_type = "text/plain; version=0.0.4";
             let mut headers =
                 vec![Header::from_bytes(&b"Content-Type"[..], content_type).unwrap()];
-- 
2.43.0


From a7c2d26b0f3ca0a6043eb4967a3e58b51d1e3bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:04 +0000
Subject: [PATCH 34/63] fix: prometheus series that differ in their tags are
 kept apart

---
 src/sink/prometheus.rs | 53 +++++++++++++++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 13 deletions(-)

diff --git a/src/sink/prometheus.rs b/src/sink/prometheus.rs
index 92d4f6e..71d5cda 100644
--- a/src/sink/prometheus.rs
+++ b/src/sink/prometheus.rs
@@ -54,6 +54,8 @@ pub struct Prometheus {
     age_threshold: Option<u64>,
     http_srv: Server,
     tags: TagMap,
+    // the kind of each metric, which all its series share
+    kinds: HashMap<String, AggregationMethod>,
 }
 
 /// The configuration for Prometheus sink
@@ -93,6 +95,19 @@ impl Default for PrometheusConfig {
     }
 }
 
+/// What a Telemetry's series is known by: its name, as prometheus gets to see
+/// it, and its tags.
+fn series(telem: &Telemetry) -> String {
+    let no_defaults = TagMap::default();
+    let mut tags: Vec<_> = telem.tags(&no_defaults).collect();
+    tags.sort();
+    let mut key = sanitize(&telem.name);
+    for (k, v) in tags {
+        key.push_str(&format!(",{}:{}={}:{}", k.len(), k, v.len(), v));
+    }
+    key
+}
+
 /// The distance in seconds between the time of a Telemetry and now.
 fn age(telem: &Telemetry) -> i64 {
     let now = time::now();
@@ -236,7 +251,7 @@ impl PrometheusAggr {
     /// Telemetry
     #[cfg(test)]
     fn find_match(&self, telem: &Telemetry) -> Option<Telemetry> {
-        if let Some(accum) = self.data.get(&telem.name) {
+        if let Some(accum) = self.data.get(&series(telem)) {
             match *accum {
                 Accumulator::Perpetual(ref t) => Some(t.clone()),
                 Accumulator::Windowed {
@@ -277,7 +292,7 @@ impl PrometheusAggr {
     /// end, this function returns False if a Telemetry is inserted that differs
     /// only in its aggregation method from a Telemetry stored previously.
     fn insert(&mut self, telem: Telemetry) -> bool {
-        let entry: Entry<String, Accumulator> = self.data.entry(telem.name.clone());
+        let entry: Entry<String, Accumulator> = self.data.entry(series(&telem));
         match entry {
             Entry::Occupied(mut oe) => {
                 let prev = oe.get_mut();
@@ -511,12 +526,15 @@ where
     W: Write,
 {
     let mut seen: HashSet<String> = HashSet::new();
-    for value in aggrs {
-        let sanitized_name: String = sanitize(&value.name);
+    // the series of a metric have to come as one group
+    let mut aggrs: Vec<(String, Telemetry)> =
+        aggrs.map(|value| (sanitize(&value.name), value)).collect();
+    aggrs.sort_by(|l, r| l.0.cmp(&r.0));
+    for (sanitized_name, value) in aggrs {
         match value.kind() {
             AggregationMethod::Sum => {
                 if let Some(v) = value.sum() {
-                    if seen.insert(value.name.clone()) {
+                    if seen.insert(sanitized_name.clone()) {
                         write_type(&sanitized_name, "counter", &mut w)?;
                     }
                     write_metric(&sanitized_name, value.tags(default), v, &mut w)?;
@@ -524,7 +542,7 @@ where
             }
             AggregationMethod::Set => {
                 if let Some(v) = value.set() {
-                    if seen.insert(value.name.clone()) {
+                    if seen.insert(sanitized_name.clone()) {
                         write_type(&sanitized_name, "gauge", &mut w)?;
                     }
                     write_metric(&sanitized_name, value.tags(default), v, &mut w)?;
@@ -532,7 +550,7 @@ where
             }
             AggregationMethod::Histogram => {
                 if let Some(bin_iter) = value.bins() {
-                    if seen.insert(value.name.clone()) {
+                    if seen.insert(sanitized_name.clone()) {
                         write_type(&sanitized_name, "histogram", &mut w)?;
                     }
                     let mut running_sum = 0;
@@ -573,7 +591,7 @@ where
                 }
             }
             AggregationMethod::Summarize => {
-                if seen.insert(value.name.clone()) {
+                if seen.insert(sanitized_name.clone()) {
                     write_type(&sanitized_name, "summary", &mut w)?;
                 }
                 for q in &[0.0, 1.0, 0.25, 0.5, 0.75, 0.90, 0.95, 0.99, 0.999] {
@@ -660,6 +678,7 @@ impl Sink<PrometheusConfig> for Prometheus {
                 },
             ),
             tags: config.tags,
+            kinds: HashMap::default(),
         }
     }
 
@@ -672,14 +691,22 @@ impl Sink<PrometheusConfig> for Prometheus {
         PROMETHEUS_AGGR_WINDOWED_PURGED.store(total_purged, Ordering::Relaxed);
     }
 
-    fn deliver(&mut self, telem: Telemetry) {
+    fn deliver(&mut self, mut telem: Telemetry) {
         if let Some(age_threshold) = self.age_threshold {
-            if age(&telem) <= (age_threshold as i64) {
-                self.aggrs.lock().unwrap().insert(telem);
+            if age(&telem) > (age_threshold as i64) {
+                return;
+            }
+        }
+        let kind = telem.kind();
+        if *self.kinds.entry(sanitize(&telem.name)).or_insert(kind) != kind {
+            return;
+        }
+        for (k, v) in self.tags.iter() {
+            if telem.get_from_tags(k, &self.tags) == Some(v) {
+                telem.insert_tag(k.clone(), v.clone());
             }
-        } else {
-            self.aggrs.lock().unwrap().insert(telem);
         }
+        self.aggrs.lock().unwrap().insert(telem);
     }
 
     fn shutdown(mut self) {
-- 
2.43.0


From d36c4df5c19274cb8a5130d0cf025021fddb4167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 35/63] fix: special characters of names and tags are escaped
 for influxdb

---
 src/sink/influxdb.rs | 47 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/src/sink/influxdb.rs b/src/sink/influxdb.rs
index f9b645a..5b34ffa 100644
--- a/src/sink/influxdb.rs
+++ b/src/sink/influxdb.rs
@@ -74,13 +74,40 @@ impl Default for InfluxDBConfig {
     }
 }
 
+/// Write a name or a part of a tag, escaped as line protocol demands
+///
+/// Line protocol knows no escape for a newline, which ends the line. It is
+/// written out as a backslash followed by the letter n.
+#[inline]
+fn fmt_escaped(part: &str, special: &[char], s: &mut String) {
+    for c in part.chars() {
+        if c == '\n' {
+            s.push_str("\\n");
+        } else {
+            if special.contains(&c) {
+                s.push('\\');
+            }
+            s.push(c);
+        }
+    }
+}
+
+#[inline]
+fn fmt_name(name: &str, s: &mut String) {
+    fmt_escaped(name, &[',', ' '], s)
+}
+
 #[inline]
 fn fmt_tags(tags: TagIter, s: &mut String) {
     for (k, v) in tags {
+        // line protocol has no place for an empty tag
+        if k.is_empty() || v.is_empty() {
+            continue;
+        }
         s.push_str(",");
-        s.push_str(k);
+        fmt_escaped(k, &[',', ' ', '='], s);
         s.push_str("=");
-        s.push_str(v);
+        fmt_escaped(v, &[',', ' ', '='], s);
     }
 }
 
@@ -121,7 +148,7 @@ impl InfluxDB {
             match telem.kind() {
                 AggregationMethod::Sum => {
                     if let Some(val) = telem.sum() {
-                        buffer.push_str(&telem.name);
+                        fmt_name(&telem.name, buffer);
                         fmt_tags(telem.tags(&self.tags), &mut tag_buf);
                         buffer.push_str(&tag_buf);
                         buffer.push_str(" ");
@@ -138,7 +165,7 @@ impl InfluxDB {
                 }
                 AggregationMethod::Set => {
                     if let Some(val) = telem.set() {
-                        buffer.push_str(&telem.name);
+                        fmt_name(&telem.name, buffer);
                         fmt_tags(telem.tags(&self.tags), &mut tag_buf);
                         buffer.push_str(&tag_buf);
                         buffer.push_str(" ");
@@ -160,8 +187,10 @@ impl InfluxDB {
                                 Bound::Finite(x) => format!("le_{}", x),
                                 Bound::PosInf => "le_inf".to_string(),
                             };
-                            buffer
-                                .push_str(&format!("{}.{}", &telem.name, bound_name));
+                            fmt_name(
+                                &format!("{}.{}", &telem.name, bound_name),
+                                buffer,
+                            );
                             fmt_tags(telem.tags(&self.tags), &mut tag_buf);
                             buffer.push_str(&tag_buf);
                             buffer.push_str(" ");
@@ -183,8 +212,10 @@ impl InfluxDB {
                 AggregationMethod::Summarize => {
                     for percentile in &[0.25, 0.50, 0.75, 0.90, 0.99, 1.0] {
                         if let Some(val) = telem.query(*percentile) {
-                            buffer
-                                .push_str(&format!("{}.{}", &telem.name, percentile));
+                            fmt_name(
+                                &format!("{}.{}", &telem.name, percentile),
+                                buffer,
+                            );
                             fmt_tags(telem.tags(&self.tags), &mut tag_buf);
                             buffer.push_str(&tag_buf);
                             buffer.push_str(" ");
-- 
2.43.0


From 0da061f7eac1be15b4d2a5fbc3c58ce73d513242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 36/63] fix: timestamps before 1970 are written as they are for
 influxdb

---
 src/sink/influxdb.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sink/influxdb.rs b/src/sink/influxdb.rs
index 5b34ffa..3ad017b 100644
--- a/src/sink/influxdb.rs
+++ b/src/sink/influxdb.rs
@@ -140,7 +140,7 @@ impl InfluxDB {
     /// Convert the slice into a payload that can be sent to InfluxDB
     fn format_stats(&self, buffer: &mut String, telems: &[Telemetry]) {
         use crate::metric::AggregationMethod;
-        let mut time_cache: Vec<(u64, String)> = Vec::with_capacity(128);
+        let mut time_cache: Vec<(i64, String)> = Vec::with_capacity(128);
         let mut value_cache: Vec<(f64, String)> = Vec::with_capacity(128);
 
         let mut tag_buf = String::with_capacity(1_024);
@@ -157,7 +157,7 @@ impl InfluxDB {
                         buffer.push_str(" ");
                         buffer.push_str(get_from_cache(
                             &mut time_cache,
-                            telem.timestamp.saturating_mul(1_000_000_000) as u64,
+                            telem.timestamp.saturating_mul(1_000_000_000),
                         ));
                         buffer.push_str("\n");
                         tag_buf.clear();
@@ -174,7 +174,7 @@ impl InfluxDB {
                         buffer.push_str(" ");
                         buffer.push_str(get_from_cache(
                             &mut time_cache,
-                            telem.timestamp.saturating_mul(1_000_000_000) as u64,
+                            telem.timestamp.saturating_mul(1_000_000_000),
                         ));
                         buffer.push_str("\n");
                         tag_buf.clear();
@@ -202,7 +202,7 @@ impl InfluxDB {
                             buffer.push_str(" ");
                             buffer.push_str(get_from_cache(
                                 &mut time_cache,
-                                telem.timestamp.saturating_mul(1_000_000_000) as u64,
+                                telem.timestamp.saturating_mul(1_000_000_000),
                             ));
                             buffer.push_str("\n");
                             tag_buf.clear();
@@ -224,7 +224,7 @@ impl InfluxDB {
                             buffer.push_str(" ");
                             buffer.push_str(get_from_cache(
                                 &mut time_cache,
-                                telem.timestamp.saturating_mul(1_000_000_000) as u64,
+                                telem.timestamp.saturating_mul(1_000_000_000),
                             ));
                             buffer.push_str("\n");
                             tag_buf.clear();
-- 
2.43.0


From c13bfe083595aa8e7c8f9fbf8598321af9069440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 37/63] fix: values influxdb does not know do not make a body
 it refuses forever

---
 src/sink/influxdb.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sink/influxdb.rs b/src/sink/influxdb.rs
index 3ad017b..4e35535 100644
--- a/src/sink/influxdb.rs
+++ b/src/sink/influxdb.rs
@@ -147,7 +147,7 @@ impl InfluxDB {
         for telem in telems.iter() {
             match telem.kind() {
                 AggregationMethod::Sum => {
-                    if let Some(val) = telem.sum() {
+                    if let Some(val) = telem.sum().filter(|x| x.is_finite()) {
                         fmt_name(&telem.name, buffer);
                         fmt_tags(telem.tags(&self.tags), &mut tag_buf);
                         buffer.push_str(&tag_buf);
@@ -164,7 +164,7 @@ impl InfluxDB {
                     }
                 }
                 AggregationMethod::Set => {
-                    if let Some(val) = telem.set() {
+                    if let Some(val) = telem.set().filter(|x| x.is_finite()) {
                         fmt_name(&telem.name, buffer);
                         fmt_tags(telem.tags(&self.tags), &mut tag_buf);
                         buffer.push_str(&tag_buf);
@@ -211,7 +211,9 @@ impl InfluxDB {
                 }
                 AggregationMethod::Summarize => {
                     for percentile in &[0.25, 0.50, 0.75, 0.90, 0.99, 1.0] {
-                        if let Some(val) = telem.query(*percentile) {
+                        if let Some(val) =
+                            telem.query(*percentile).filter(|x| x.is_finite())
+                        {
                             fmt_name(
                                 &format!("{}.{}", &telem.name, percentile),
                                 buffer,
-- 
2.43.0


From 8d79fbb3c82600329f62bd1931f9d7ad882bca10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 38/63] fix: an answer about an unknown document does not kill
 the elasticsearch sink

---
 src/sink/elasticsearch.rs | 44 +++++++++++++++------------------------
 1 file changed, 17 insertions(+), 27 deletions(-)

diff --git a/src/sink/elasticsearch.rs b/src/sink/elasticsearch.rs
index 1ca76c2..335fe61 100644
--- a/src/sink/elasticsearch.rs
+++ b/src/sink/elasticsearch.rs
@@ -8,7 +8,6 @@ use elastic::client::responses::bulk;
 use elastic::error;
 use elastic::error::Result;
 use elastic::prelude::*;
-use std::cmp;
 use std::error::Error;
 use std::sync::atomic::{AtomicUsize, Ordering};
 use uuid;
@@ -121,6 +120,15 @@ pub struct Elasticsearch {
 }
 
 impl Elasticsearch {
+    /// Find the buffered line of a document identifier
+    ///
+    /// The server may well answer with an identifier that is not, or is no
+    /// longer, one of ours.
+    fn position(&self, id: &str) -> Option<usize> {
+        let uuid = uuid::Uuid::parse_str(id).ok()?;
+        self.buffer.iter().position(|line| line.uuid == uuid)
+    }
+
     fn bulk_body(&self, buffer: &mut String) {
         assert!(!self.buffer.is_empty());
         use serde_json::{to_string, Value};
@@ -196,39 +204,21 @@ impl Sink<ElasticsearchConfig> for Elasticsearch {
                     for item in bulk.iter() {
                         match item {
                             Ok(item) => {
-                                let uuid = uuid::Uuid::parse_str(item.id())
-                                    .expect("catastrophic error, TID not a UUID");
-                                let mut idx = 0;
-                                for i in 0..self.buffer.len() {
-                                    match self.buffer[i].uuid.cmp(&uuid) {
-                                        cmp::Ordering::Equal => {
-                                            break;
-                                        }
-                                        _ => idx += 1,
-                                    }
+                                if let Some(idx) = self.position(item.id()) {
+                                    self.buffer.remove(idx);
                                 }
-                                self.buffer.remove(idx);
                                 ELASTIC_RECORDS_TOTAL_DELIVERED
                                     .fetch_add(1, Ordering::Relaxed);
                             }
                             Err(item) => {
-                                let uuid = uuid::Uuid::parse_str(item.id())
-                                    .expect("catastrophic error, TID not a UUID");
-                                let mut idx = 0;
-                                for i in 0..self.buffer.len() {
-                                    match self.buffer[i].uuid.cmp(&uuid) {
-                                        cmp::Ordering::Equal => {
-                                            break;
-                                        }
-                                        _ => idx += 1,
+                                if let Some(idx) = self.position(item.id()) {
+                                    self.buffer[idx].attempts += 1;
+                                    if self.buffer[idx].attempts
+                                        > self.delivery_attempt_limit
+                                    {
+                                        self.buffer.remove(idx);
                                     }
                                 }
-                                self.buffer[idx].attempts += 1;
-                                if self.buffer[idx].attempts
-                                    > self.delivery_attempt_limit
-                                {
-                                    self.buffer.remove(idx);
-                                }
                                 ELASTIC_RECORDS_TOTAL_FAILED
                                     .fetch_add(1, Ordering::Relaxed);
                                 if let Some(source) = item.source() {
-- 
2.43.0


From e0e59f7d47bdbae43734960e02e6de4866c0030c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 39/63] fix: metadata keys that are not text do not kill the
 kafka sink

---
 src/sink/kafka.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sink/kafka.rs b/src/sink/kafka.rs
index 453fbe8..28a0f98 100644
--- a/src/sink/kafka.rs
+++ b/src/sink/kafka.rs
@@ -12,6 +12,7 @@ use rdkafka::producer::future_producer::DeliveryFuture;
 use rdkafka::producer::{FutureProducer, FutureRecord};
 use rdkafka::util::current_time_millis;
 use std::collections::HashMap;
+#[cfg(test)]
 use std::str;
 use std::sync::atomic::{AtomicUsize, Ordering};
 use uuid::Uuid;
@@ -157,7 +158,8 @@ impl KafkaMessageSender for FutureProducer<STFUContext> {
         let mut headers = OwnedHeaders::new();
         if let Some(m) = metadata {
             for (k, v) in m {
-                headers = headers.clone().add(str::from_utf8(&k).unwrap(), &v);
+                // names of headers are text, keys of metadata need not be
+                headers = headers.clone().add(&String::from_utf8_lossy(&k), &v);
             }
         };
         Box::new(KafkaPublishResult {
-- 
2.43.0


From f2db05b5f9edff43544d8f5b9672336fa3c19cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 40/63] fix: a line is emitted whole, once its terminator is
 written

---
 src/source/file/file_watcher.rs | 35 ++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/source/file/file_watcher.rs b/src/source/file/file_watcher.rs
index a486c0a..f130b20 100644
--- a/src/source/file/file_watcher.rs
+++ b/src/source/file/file_watcher.rs
@@ -5,6 +5,7 @@ use std::io::BufRead;
 use std::io::Seek;
 use std::os::unix::fs::MetadataExt;
 use std::path::PathBuf;
+use std::str;
 
 /// The `FileWatcher` struct defines the polling based state machine which reads
 /// from a file path, transparently updating the underlying file descriptor when
@@ -19,6 +20,8 @@ pub struct FileWatcher {
     file_id: Option<(u64, u64)>,
     previous_size: u64,
     reopen: bool,
+    /// the bytes of a line whose terminator has not been written yet
+    partial: Vec<u8>,
 }
 
 type Devno = u64;
@@ -56,6 +59,7 @@ impl FileWatcher {
                     file_id: Some((dev, ino)),
                     previous_size: 0,
                     reopen: false,
+                    partial: Vec::new(),
                 })
             }
             Err(e) => match e.kind() {
@@ -67,6 +71,7 @@ impl FileWatcher {
                             file_id: None,
                             previous_size: 0,
                             reopen: false,
+                            partial: Vec::new(),
                         }
                     };
                     Ok(fw)
@@ -77,6 +82,7 @@ impl FileWatcher {
     }
 
     fn open_at_start(&mut self) {
+        self.partial.clear();
         if let Ok(f) = fs::File::open(&self.path) {
             let metadata = f.metadata().unwrap(); // we _must_ be able to read the metadata
             let dev = metadata.dev();
@@ -114,8 +120,9 @@ impl FileWatcher {
     ///
     /// This function will attempt to read a new line from its file, blocking,
     /// up to some maximum but unspecified amount of time. `read_line` will open
-    /// a new file handler at need, transparently to the caller.
-    pub fn read_line(&mut self, mut buffer: &mut String) -> io::Result<usize> {
+    /// a new file handler at need, transparently to the caller. A line is
+    /// returned only once its terminator has been written.
+    pub fn read_line(&mut self, buffer: &mut String) -> io::Result<usize> {
         if self.reopen {
             self.open_at_start();
         }
@@ -146,6 +153,7 @@ impl FileWatcher {
             let current_size = reader.get_ref().metadata().unwrap().size();
             if self.previous_size > current_size {
                 assert!(reader.seek(io::SeekFrom::Start(0)).is_ok());
+                self.partial.clear();
                 report_full_telemetry(
                     "cernan.sources.file.truncation",
                     (self.previous_size - current_size) as f64,
@@ -158,17 +166,30 @@ impl FileWatcher {
             self.previous_size = current_size;
             // match here on error, if metadata doesn't match up open_at_start
             // new reader and let it catch on the next looparound
-            match reader.read_line(&mut buffer) {
+            match reader.read_until(b'\n', &mut self.partial) {
                 Ok(0) => {
                     if file_id(&self.path) != self.file_id {
                         self.reopen = true;
                     }
                     Ok(0)
                 }
-                Ok(sz) => {
-                    assert_eq!(sz, buffer.len());
-                    buffer.pop();
-                    Ok(buffer.len())
+                Ok(_) => {
+                    if self.partial.last() != Some(&b'\n') {
+                        return Ok(0);
+                    }
+                    self.partial.pop();
+                    let line = str::from_utf8(&self.partial).map_err(|_| {
+                        io::Error::new(
+                            io::ErrorKind::InvalidData,
+                            "line is not valid UTF-8",
+                        )
+                    });
+                    let res = line.map(|line| {
+                        buffer.push_str(line);
+                        buffer.len()
+                    });
+                    self.partial.clear();
+                    res
                 }
                 Err(e) => {
                     if let io::ErrorKind::NotFound = e.kind() {
-- 
2.43.0


From ec04b22f78c8b523c7b0780e85251df47eae8d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:08 +0000
Subject: [PATCH 41/63] fix: a line that is not UTF-8 is not lost

---
 src/source/file/file_watcher.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/source/file/file_watcher.rs b/src/source/file/file_watcher.rs
index f130b20..0078362 100644
--- a/src/source/file/file_watcher.rs
+++ b/src/source/file/file_watcher.rs
@@ -5,7 +5,6 @@ use std::io::BufRead;
 use std::io::Seek;
 use std::os::unix::fs::MetadataExt;
 use std::path::PathBuf;
-use std::str;
 
 /// The `FileWatcher` struct defines the polling based state machine which reads
 /// from a file path, transparently updating the underlying file descriptor when
@@ -178,18 +177,9 @@ impl FileWatcher {
                         return Ok(0);
                     }
                     self.partial.pop();
-                    let line = str::from_utf8(&self.partial).map_err(|_| {
-                        io::Error::new(
-                            io::ErrorKind::InvalidData,
-                            "line is not valid UTF-8",
-                        )
-                    });
-                    let res = line.map(|line| {
-                        buffer.push_str(line);
-                        buffer.len()
-                    });
+                    buffer.push_str(&String::from_utf8_lossy(&self.partial));
                     self.partial.clear();
-                    res
+                    Ok(buffer.len())
                 }
                 Err(e) => {
                     if let io::ErrorKind::NotFound = e.kind() {
-- 
2.43.0


From e1f5a7f1771881d97143125da21d2a71859d6903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:58 +0000
Subject: [PATCH 42/63] fix: the gzip option of the prometheus sink can be
 configured

---
 src/config.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/config.rs b/src/config.rs
index 235a549..65d1959 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -628,6 +628,13 @@ fn parse_config_file(buffer: &str) -> Args {
                     })
                     .unwrap_or(res.capacity_in_seconds);
 
+                res.gzip = snk
+                    .get("gzip")
+                    .map(|p| {
+                        p.as_bool().expect("could not parse sinks.prometheus.gzip")
+                    })
+                    .unwrap_or(res.gzip);
+
                 res.tags = global_tags.clone();
 
                 res
-- 
2.43.0


From d3bda45ef59f357814e7242f877132923f4d254a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:23 +0000
Subject: [PATCH 43/63] fix: two file sources of the same path are two
 components

---
 src/config.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 65d1959..f6f400e 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -827,12 +827,12 @@ fn parse_config_file(buffer: &str) -> Args {
 
         args.files = sources.get("files").map(|src| {
             let mut files = Vec::new();
-            for tbl in src.as_table().unwrap().values() {
+            for (name, tbl) in src.as_table().unwrap().iter() {
                 match tbl.get("path") {
                     Some(pth) => {
                         let mut fl = FileServerConfig::default();
                         fl.path = Some(Path::new(pth.as_str().unwrap()).to_path_buf());
-                        fl.config_path = Some(format!("sources.files.{}", pth));
+                        fl.config_path = Some(format!("sources.files.{}", name));
 
                         fl.forwards = tbl
                             .get("forwards")
-- 
2.43.0


From 3f44b523ab48e746fff8c740a7fac41b703c7bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:41 +0000
Subject: [PATCH 44/63] fix: wavefront sets are counted as sets

---
 src/sink/wavefront.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sink/wavefront.rs b/src/sink/wavefront.rs
index ed2c822..9ee3afe 100644
--- a/src/sink/wavefront.rs
+++ b/src/sink/wavefront.rs
@@ -467,9 +467,12 @@ impl Wavefront {
                         AggregationMethod::Histogram => {
                             WAVEFRONT_AGGR_HISTO.fetch_add(1, Ordering::Relaxed)
                         }
-                        AggregationMethod::Sum | AggregationMethod::Set => {
+                        AggregationMethod::Sum => {
                             WAVEFRONT_AGGR_SUM.fetch_add(1, Ordering::Relaxed)
                         }
+                        AggregationMethod::Set => {
+                            WAVEFRONT_AGGR_SET.fetch_add(1, Ordering::Relaxed)
+                        }
                         AggregationMethod::Summarize => {
                             WAVEFRONT_AGGR_SUMMARIZE.fetch_add(1, Ordering::Relaxed);
                             WAVEFRONT_AGGR_TOT_PERCENT
-- 
2.43.0


From f81dd5f8a158d68c68390b3e386fad46c70ebd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:41 +0000
Subject: [PATCH 45/63] fix: a statsd packet that is not UTF-8 is counted as a
 bad one

---
 src/source/statsd.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/source/statsd.rs b/src/source/statsd.rs
index f23d5f0..18137e7 100644
--- a/src/source/statsd.rs
+++ b/src/source/statsd.rs
@@ -118,6 +118,7 @@ impl Statsd {
                         }
                     }
                     Err(e) => {
+                        STATSD_BAD_PACKET.fetch_add(1, Ordering::Relaxed);
                         error!("Payload not valid UTF-8: {:?}", e);
                     }
                 },
-- 
2.43.0


From 230cf92b487f34c42ef49dc31ebf41c9de73be6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:41 +0000
Subject: [PATCH 46/63] fix: purges between two reports are all counted

---
 src/sink/prometheus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sink/prometheus.rs b/src/sink/prometheus.rs
index 71d5cda..15e7cc4 100644
--- a/src/sink/prometheus.rs
+++ b/src/sink/prometheus.rs
@@ -688,7 +688,7 @@ impl Sink<PrometheusConfig> for Prometheus {
 
     fn flush(&mut self) {
         let total_purged = self.aggrs.lock().unwrap().purge();
-        PROMETHEUS_AGGR_WINDOWED_PURGED.store(total_purged, Ordering::Relaxed);
+        PROMETHEUS_AGGR_WINDOWED_PURGED.fetch_add(total_purged, Ordering::Relaxed);
     }
 
     fn deliver(&mut self, mut telem: Telemetry) {
-- 
2.43.0


From 4e6d5fe086d218e11855b0d33f784b0a957e1914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:41 +0000
Subject: [PATCH 47/63] fix: the length of the elasticsearch buffer is no sum

---
 src/source/internal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/source/internal.rs b/src/source/internal.rs
index 9a8ed7c..3743dca 100644
--- a/src/source/internal.rs
+++ b/src/source/internal.rs
@@ -194,7 +194,7 @@ impl source::Source<InternalConfig> for Internal {
                             sink::elasticsearch::ELASTIC_RECORDS_DELIVERY,
                             chans
                         );
-                        atom_telem!(
+                        atom_set_telem!(
                             "cernan.sinks.elasticsearch.internal.buffer_len",
                             sink::elasticsearch::ELASTIC_INTERNAL_BUFFER_LEN,
                             chans
-- 
2.43.0


From f29dc1d5a893f370e61f844f4df2eb6f061169f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:48 +0000
Subject: [PATCH 48/63] fix: new graphite peers are counted

---
 src/source/graphite.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/source/graphite.rs b/src/source/graphite.rs
index 5d0fece..9f2b4bc 100644
--- a/src/source/graphite.rs
+++ b/src/source/graphite.rs
@@ -62,6 +62,7 @@ impl TCPStreamHandler for GraphiteStreamHandler {
         poller: &mio::Poll,
         stream: mio::net::TcpStream,
     ) {
+        GRAPHITE_NEW_PEER.fetch_add(1, Ordering::Relaxed);
         let mut line = Vec::new();
         let mut line_reader = BufReader::new(stream);
         let basic_metric = sync::Arc::new(Some(metric::Telemetry::default()));
-- 
2.43.0


From 13451d28f7aff482776d5b532c1e99a59b1b27e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:47 +0000
Subject: [PATCH 49/63] fix: a full queue swallowed the Shutdown, so that its
 receiver never stopped

---
 src/util.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index a813d63..875872e 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -33,16 +33,22 @@ pub fn send(chans: &mut Channel, mut event: metric::Event) {
     }
 
     let last = event == metric::Event::Shutdown;
+    let mut unaware = Vec::new();
     let max: usize = chans.len().saturating_sub(1);
     if max != 0 {
-        for chan in &mut chans[1..] {
+        for (idx, chan) in chans.iter_mut().enumerate().skip(1) {
             let mut snd_event = event.clone();
             while let Err(res) = chan.send(snd_event) {
                 // The are a variety of errors that hopper will signal back up
                 // when we do a send. The only one we care about is
                 // `Error::Full`, meaning that all disk and memory buffer space
                 // is consumed. We drop the event on the floor in that case.
+                // Not so a Shutdown: without it the receiver never stops.
                 match res.1 {
+                    hopper::Error::Full if last => {
+                        unaware.push(idx);
+                        break;
+                    }
                     hopper::Error::Full => {
                         UTIL_SEND_HOPPER_ERROR_FULL.fetch_add(1, Ordering::Relaxed);
                         break;
@@ -57,6 +63,10 @@ pub fn send(chans: &mut Channel, mut event: metric::Event) {
     }
     while let Err(res) = chans[0].send(event) {
         match res.1 {
+            hopper::Error::Full if last => {
+                unaware.push(0);
+                break;
+            }
             hopper::Error::Full => {
                 UTIL_SEND_HOPPER_ERROR_FULL.fetch_add(1, Ordering::Relaxed);
                 break;
@@ -69,9 +79,18 @@ pub fn send(chans: &mut Channel, mut event: metric::Event) {
     }
     if last {
         // Hopper announces what it has buffered to disk with the next send. No
-        // send follows a Shutdown, so wait until all of it is announced.
+        // send follows a Shutdown, so wait until all of it is announced, and
+        // until there is room for the Shutdown where there was none.
         let mut attempts = 0;
-        while chans.iter_mut().filter_map(|c| c.flush().err()).count() > 0 {
+        loop {
+            unaware.retain(|idx| {
+                let chan = &mut chans[*idx];
+                chan.flush().is_err() || chan.send(metric::Event::Shutdown).is_err()
+            });
+            let unannounced = chans.iter_mut().filter_map(|c| c.flush().err()).count();
+            if unaware.is_empty() && unannounced == 0 {
+                break;
+            }
             attempts += 1;
             time::delay(attempts);
         }
-- 
2.43.0


From ef6d580afd23d1e449bcef586fc2c38e3db29be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:49 +0000
Subject: [PATCH 50/63] fix: a bad index, payload or name given by a script
 killed the programmable filter

---
 src/filter/programmable_filter.rs | 103 ++++++++++++++++++------------
 1 file changed, 62 insertions(+), 41 deletions(-)

diff --git a/src/filter/programmable_filter.rs b/src/filter/programmable_filter.rs
index cb1a120..b5c666a 100644
--- a/src/filter/programmable_filter.rs
+++ b/src/filter/programmable_filter.rs
@@ -5,6 +5,7 @@ use mond;
 use mond::ffi::lua_State;
 use mond::{Function, State, ThreadStatus};
 use std::path::PathBuf;
+use std::str;
 
 struct Payload<'a> {
     metrics: Vec<Box<metric::Telemetry>>,
@@ -13,14 +14,31 @@ struct Payload<'a> {
     path: &'a str,
 }
 
-fn idx(n: i64, top: usize) -> usize {
-    if n < 0 {
-        (top - (n.abs() as usize))
+/// The position which the script gave as second argument, counted from 1 or, if
+/// negative, from behind. A position that does not exist is an error of the
+/// script.
+fn idx(state: &mut State, top: usize) -> usize {
+    let n = state.to_integer(2);
+    let pos = if n < 0 {
+        n.checked_add(top as i64)
     } else {
-        (n - 1) as usize
+        n.checked_sub(1)
+    };
+    match pos {
+        Some(pos) if pos >= 0 && (pos as usize) < top => pos as usize,
+        _ => state.arg_error(2, "index out of range"),
     }
 }
 
+/// The payload which the script gave as first argument.
+fn payload<'a>(state: &mut State) -> *mut Payload<'a> {
+    let pyld = state.to_userdata(1) as *mut Payload;
+    if pyld.is_null() {
+        state.arg_error(1, "payload expected");
+    }
+    pyld
+}
+
 impl<'a> Payload<'a> {
     fn from_metric(
         m: metric::Telemetry,
@@ -60,8 +78,8 @@ impl<'a> Payload<'a> {
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_metric_name(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).metrics.len());
+        let pyld = payload(&mut state);
+        let idx = idx(&mut state, (*pyld).metrics.len());
         state.push_string(&(*pyld).metrics[idx].name);
         1
     }
@@ -69,8 +87,8 @@ impl<'a> Payload<'a> {
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_log_value(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let pyld = payload(&mut state);
+        let idx = idx(&mut state, (*pyld).logs.len());
         state.push_string(&(*pyld).logs[idx].value);
         1
     }
@@ -78,8 +96,8 @@ impl<'a> Payload<'a> {
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_log_path(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let pyld = payload(&mut state);
+        let idx = idx(&mut state, (*pyld).logs.len());
         state.push_string(&(*pyld).logs[idx].path);
         1
     }
@@ -87,16 +105,19 @@ impl<'a> Payload<'a> {
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_set_metric_name(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).metrics.len());
-        (*pyld).metrics[idx].name = state.check_string(3).into();
+        let pyld = payload(&mut state);
+        let idx = idx(&mut state, (*pyld).metrics.len());
+        match state.to_bytes_in_place(3).map(str::from_utf8) {
+            Some(Ok(name)) => (*pyld).metrics[idx].name = name.into(),
+            _ => state.arg_error(3, "name expected"),
+        }
         0
     }
 
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_push_metric(L: *mut lua_State) -> c_int {
-        let state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
+        let mut state = State::from_ptr(L);
+        let pyld = payload(&mut state);
         let val = state.to_number(3);
         match state.to_str(2) {
             Some(name) => {
@@ -117,16 +138,16 @@ impl<'a> Payload<'a> {
 
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_clear_metrics(L: *mut lua_State) -> c_int {
-        let state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
+        let mut state = State::from_ptr(L);
+        let pyld = payload(&mut state);
         (*pyld).metrics.clear();
         0
     }
 
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_push_log(L: *mut lua_State) -> c_int {
-        let state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
+        let mut state = State::from_ptr(L);
+        let pyld = payload(&mut state);
         match state.to_str(2) {
             Some(line) => {
                 let l = metric::LogLine::new((*pyld).path, line)
@@ -142,8 +163,8 @@ impl<'a> Payload<'a> {
 
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_clear_logs(L: *mut lua_State) -> c_int {
-        let state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
+        let mut state = State::from_ptr(L);
+        let pyld = payload(&mut state);
         (*pyld).logs.clear();
         0
     }
@@ -167,8 +188,8 @@ impl<'a> Payload<'a> {
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_log_tag_value(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let pyld = payload(&mut state);
+        let idx = idx(&mut state, (*pyld).logs.len());
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => {
                 match (*pyld).logs[idx].get_from_tags(&key, (*pyld).global_tags) {
@@ -191,8 +212,8 @@ impl<'a> Payload<'a> {
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_log_field_value(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let pyld = payload(&mut state);
+        let idx = idx(&mut state, (*pyld).logs.len());
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => match (*pyld).logs[idx].fields.get(&key) {
                 Some(v) => {
@@ -213,8 +234,8 @@ impl<'a> Payload<'a> {
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_metric_tag_value(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).metrics.len());
+        let pyld = payload(&mut state);
+        let idx = idx(&mut state, (*pyld).metrics.len());
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => {
                 match (*pyld).metrics[idx].get_from_tags(&key, (*pyld).global_tags) {
@@ -237,8 +258,8 @@ impl<'a> Payload<'a> {
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_metric_set_tag(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).metrics.len());
+        let pyld = payload(&mut state);
+        let idx = idx(&mut state, (*pyld).metrics.len());
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => match state.to_str(4).map(|v| v.to_owned()) {
                 Some(val) => match (*pyld).metrics[idx].insert_tag(key, val) {
@@ -265,8 +286,8 @@ impl<'a> Payload<'a> {
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_log_set_tag(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let pyld = payload(&mut state);
+        let idx = idx(&mut state, (*pyld).logs.len());
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => match state.to_str(4).map(|v| v.to_owned()) {
                 Some(val) => match (*pyld).logs[idx].insert_tag(key, val) {
@@ -293,8 +314,8 @@ impl<'a> Payload<'a> {
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_log_set_field(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let pyld = payload(&mut state);
+        let idx = idx(&mut state, (*pyld).logs.len());
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => match state.to_str(4).map(|v| v.to_owned()) {
                 Some(val) => match (*pyld).logs[idx].fields.insert(key, val) {
@@ -321,8 +342,8 @@ impl<'a> Payload<'a> {
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_log_set_value(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let pyld = payload(&mut state);
+        let idx = idx(&mut state, (*pyld).logs.len());
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => {
                 (*pyld).logs[idx].value = key;
@@ -338,8 +359,8 @@ impl<'a> Payload<'a> {
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_metric_remove_tag(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).metrics.len());
+        let pyld = payload(&mut state);
+        let idx = idx(&mut state, (*pyld).metrics.len());
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => match (*pyld).metrics[idx].remove_tag(&key) {
                 Some(old_v) => {
@@ -360,8 +381,8 @@ impl<'a> Payload<'a> {
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_log_remove_tag(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let pyld = payload(&mut state);
+        let idx = idx(&mut state, (*pyld).logs.len());
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => match (*pyld).logs[idx].remove_tag(&key) {
                 Some(old_v) => {
@@ -382,9 +403,9 @@ impl<'a> Payload<'a> {
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_metric_query(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
+        let pyld = payload(&mut state);
         let prcnt = state.to_number(2);
-        let idx = idx(state.to_integer(2), (*pyld).metrics.len());
+        let idx = idx(&mut state, (*pyld).metrics.len());
         match (*pyld).metrics[idx].query(prcnt) {
             Some(v) => {
                 state.push_number(v);
-- 
2.43.0


From d22b66021545d09c7294f41bd80c1fef3667deb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:23 +0000
Subject: [PATCH 51/63] fix: the Lua API took a missing argument from elsewhere
 on the stack

---
 src/filter/programmable_filter.rs | 41 ++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/filter/programmable_filter.rs b/src/filter/programmable_filter.rs
index b5c666a..ddcd201 100644
--- a/src/filter/programmable_filter.rs
+++ b/src/filter/programmable_filter.rs
@@ -30,6 +30,17 @@ fn idx(state: &mut State, top: usize) -> usize {
     }
 }
 
+/// The text which the script gave as the `n`th argument, if any. Nothing is left
+/// on the stack, where it could be taken for a later argument.
+fn text(state: &mut State, n: c_int) -> Option<String> {
+    if state.is_none_or_nil(n) {
+        return None;
+    }
+    let text = state.to_str(n).map(|t| t.to_owned());
+    state.pop(1);
+    text
+}
+
 /// The payload which the script gave as first argument.
 fn payload<'a>(state: &mut State) -> *mut Payload<'a> {
     let pyld = state.to_userdata(1) as *mut Payload;
@@ -119,7 +130,7 @@ impl<'a> Payload<'a> {
         let mut state = State::from_ptr(L);
         let pyld = payload(&mut state);
         let val = state.to_number(3);
-        match state.to_str(2) {
+        match text(&mut state, 2) {
             Some(name) => {
                 let m = metric::Telemetry::new()
                     .name(name)
@@ -148,9 +159,9 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_push_log(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = payload(&mut state);
-        match state.to_str(2) {
+        match text(&mut state, 2) {
             Some(line) => {
-                let l = metric::LogLine::new((*pyld).path, line)
+                let l = metric::LogLine::new((*pyld).path, &line)
                     .overlay_tags_from_map((*pyld).global_tags);
                 (*pyld).logs.push(Box::new(l));
             }
@@ -190,7 +201,7 @@ impl<'a> Payload<'a> {
         let mut state = State::from_ptr(L);
         let pyld = payload(&mut state);
         let idx = idx(&mut state, (*pyld).logs.len());
-        match state.to_str(3).map(|k| k.to_owned()) {
+        match text(&mut state, 3) {
             Some(key) => {
                 match (*pyld).logs[idx].get_from_tags(&key, (*pyld).global_tags) {
                     Some(v) => {
@@ -214,7 +225,7 @@ impl<'a> Payload<'a> {
         let mut state = State::from_ptr(L);
         let pyld = payload(&mut state);
         let idx = idx(&mut state, (*pyld).logs.len());
-        match state.to_str(3).map(|k| k.to_owned()) {
+        match text(&mut state, 3) {
             Some(key) => match (*pyld).logs[idx].fields.get(&key) {
                 Some(v) => {
                     state.push_string(v);
@@ -236,7 +247,7 @@ impl<'a> Payload<'a> {
         let mut state = State::from_ptr(L);
         let pyld = payload(&mut state);
         let idx = idx(&mut state, (*pyld).metrics.len());
-        match state.to_str(3).map(|k| k.to_owned()) {
+        match text(&mut state, 3) {
             Some(key) => {
                 match (*pyld).metrics[idx].get_from_tags(&key, (*pyld).global_tags) {
                     Some(v) => {
@@ -260,8 +271,8 @@ impl<'a> Payload<'a> {
         let mut state = State::from_ptr(L);
         let pyld = payload(&mut state);
         let idx = idx(&mut state, (*pyld).metrics.len());
-        match state.to_str(3).map(|k| k.to_owned()) {
-            Some(key) => match state.to_str(4).map(|v| v.to_owned()) {
+        match text(&mut state, 3) {
+            Some(key) => match text(&mut state, 4) {
                 Some(val) => match (*pyld).metrics[idx].insert_tag(key, val) {
                     Some(old_v) => {
                         state.push_string(&old_v);
@@ -288,8 +299,8 @@ impl<'a> Payload<'a> {
         let mut state = State::from_ptr(L);
         let pyld = payload(&mut state);
         let idx = idx(&mut state, (*pyld).logs.len());
-        match state.to_str(3).map(|k| k.to_owned()) {
-            Some(key) => match state.to_str(4).map(|v| v.to_owned()) {
+        match text(&mut state, 3) {
+            Some(key) => match text(&mut state, 4) {
                 Some(val) => match (*pyld).logs[idx].insert_tag(key, val) {
                     Some(old_v) => {
                         state.push_string(&old_v);
@@ -316,8 +327,8 @@ impl<'a> Payload<'a> {
         let mut state = State::from_ptr(L);
         let pyld = payload(&mut state);
         let idx = idx(&mut state, (*pyld).logs.len());
-        match state.to_str(3).map(|k| k.to_owned()) {
-            Some(key) => match state.to_str(4).map(|v| v.to_owned()) {
+        match text(&mut state, 3) {
+            Some(key) => match text(&mut state, 4) {
                 Some(val) => match (*pyld).logs[idx].fields.insert(key, val) {
                     Some(old_v) => {
                         state.push_string(&old_v);
@@ -344,7 +355,7 @@ impl<'a> Payload<'a> {
         let mut state = State::from_ptr(L);
         let pyld = payload(&mut state);
         let idx = idx(&mut state, (*pyld).logs.len());
-        match state.to_str(3).map(|k| k.to_owned()) {
+        match text(&mut state, 3) {
             Some(key) => {
                 (*pyld).logs[idx].value = key;
             }
@@ -361,7 +372,7 @@ impl<'a> Payload<'a> {
         let mut state = State::from_ptr(L);
         let pyld = payload(&mut state);
         let idx = idx(&mut state, (*pyld).metrics.len());
-        match state.to_str(3).map(|k| k.to_owned()) {
+        match text(&mut state, 3) {
             Some(key) => match (*pyld).metrics[idx].remove_tag(&key) {
                 Some(old_v) => {
                     state.push_string(&old_v);
@@ -383,7 +394,7 @@ impl<'a> Payload<'a> {
         let mut state = State::from_ptr(L);
         let pyld = payload(&mut state);
         let idx = idx(&mut state, (*pyld).logs.len());
-        match state.to_str(3).map(|k| k.to_owned()) {
+        match text(&mut state, 3) {
             Some(key) => match (*pyld).logs[idx].remove_tag(&key) {
                 Some(old_v) => {
                     state.push_string(&old_v);
-- 
2.43.0


From 5ef3a8182f7f213ff32bf832a07c767ebf122558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:23 +0000
Subject: [PATCH 52/63] fix: metric_query of the Lua API took the index for the
 percentile

---
 src/filter/programmable_filter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter/programmable_filter.rs b/src/filter/programmable_filter.rs
index ddcd201..279fa7e 100644
--- a/src/filter/programmable_filter.rs
+++ b/src/filter/programmable_filter.rs
@@ -415,7 +415,7 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_metric_query(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = payload(&mut state);
-        let prcnt = state.to_number(2);
+        let prcnt = state.to_number(3);
         let idx = idx(&mut state, (*pyld).metrics.len());
         match (*pyld).metrics[idx].query(prcnt) {
             Some(v) => {
-- 
2.43.0


From b1d32da4fd89ce7d42e2ad1535332187c71448ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:47 +0000
Subject: [PATCH 53/63] fix: every failed call of a script function left a
 value on the Lua stack, until it overflowed

---
 src/filter/programmable_filter.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/filter/programmable_filter.rs b/src/filter/programmable_filter.rs
index 279fa7e..6970458 100644
--- a/src/filter/programmable_filter.rs
+++ b/src/filter/programmable_filter.rs
@@ -621,6 +621,7 @@ fn run_lua_func(
 
     state.get_global(func_name);
     if !state.is_fn(-1) {
+        state.pop(1);
         return Err(filter::FilterError::NoSuchFunction(func_name, fail));
     }
 
@@ -640,11 +641,12 @@ fn run_lua_func(
         }
         Ok(())
     } else {
-        let error = if let Some(error) = state.to_str(-1) {
-            error
+        let error = if let Some(error) = state.to_str_in_place(-1) {
+            error.to_owned()
         } else {
-            "While handling a lua error, lua error message was not a string"
+            "While handling a lua error, lua error message was not a string".to_owned()
         };
-        Err(filter::FilterError::LuaError(error.to_owned(), fail))
+        state.pop(1);
+        Err(filter::FilterError::LuaError(error, fail))
     }
 }
-- 
2.43.0


From e6bbf044207f2d63e92ddc330aee84c63c8cc01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:03 +0000
Subject: [PATCH 54/63] fix: a flush pulse was held up by a filter that failed
 to process it

---
 src/filter/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/filter/mod.rs b/src/filter/mod.rs
index 32286ec..bd6cc8b 100644
--- a/src/filter/mod.rs
+++ b/src/filter/mod.rs
@@ -119,6 +119,11 @@ pub trait Filter {
                             );
                             let event = event_in_fe(fe);
                             util::send(&mut chans, event);
+                            // What was to come out regardless, flush pulses
+                            // for one, must not wait for the next event.
+                            for ev in events.drain(..) {
+                                util::send(&mut chans, ev)
+                            }
                         }
                     }
                 }
-- 
2.43.0


From c7c6239109099a7b792ec5d372210cd99ede0d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:11 +0000
Subject: [PATCH 55/63] fix: a forward of a native source that does not exist
 ended cernan with success

---
 src/bin/cernan.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin/cernan.rs b/src/bin/cernan.rs
index fea9357..4567ec1 100644
--- a/src/bin/cernan.rs
+++ b/src/bin/cernan.rs
@@ -344,6 +344,7 @@ fn main() {
     //
     if let Some(ref configs) = args.native_server_config {
         for (config_path, config) in configs {
+            config_topology.insert(config_path.clone(), config.forwards.clone());
             adjacency_matrix.add_edges(
                 &config_path.clone(),
                 config.forwards.clone(),
-- 
2.43.0


From ff77bff8ac8460edf671bb0c2a389d786f751b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:50 +0000
Subject: [PATCH 56/63] fix: a sink or filter which nothing forwards to kept
 cernan from terminating

---
 src/bin/cernan.rs |  9 +++++++++
 src/matrix.rs     | 10 +++++-----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/bin/cernan.rs b/src/bin/cernan.rs
index 4567ec1..7cf214e 100644
--- a/src/bin/cernan.rs
+++ b/src/bin/cernan.rs
@@ -780,6 +780,14 @@ fn main() {
         }
     }
 
+    // Filters and sinks which nothing forwards to have no upstream to announce
+    // the shutdown to them.
+    let mut orphans: cernan::util::Channel = senders
+        .iter()
+        .filter(|&(id, _)| !config_topology.values().any(|fwds| fwds.contains(id)))
+        .map(|(_, snd)| snd.clone())
+        .collect();
+
     drop(flush_sends);
     drop(senders);
     cernan::source::FlushTimer::new(flush_channels, cernan::source::FlushTimerConfig)
@@ -802,6 +810,7 @@ fn main() {
         info!("Signaling shutdown to {:?}", id);
         source_worker.shutdown();
     }
+    cernan::util::send(&mut orphans, metric::Event::Shutdown);
 
     join_all(sinks);
     join_all(filters);
diff --git a/src/matrix.rs b/src/matrix.rs
index 79b081b..1d93e7f 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -81,11 +81,11 @@ impl<M: Clone + Debug> Adjacency<M> {
     where
         for<'r> F: FnMut(&'r (&String, &Option<M>)) -> bool,
     {
-        self.edges[id]
-            .iter()
-            .filter(f)
-            .map(|(k, _v)| k.clone())
-            .collect()
+        match self.edges.get(id) {
+            Some(map) => map.iter().filter(f).map(|(k, _v)| k.clone()).collect(),
+
+            None => Vec::new(),
+        }
     }
 
     /// Iterates over edge relations in the matrix.
-- 
2.43.0


From 0883c4b1d9ebcdcf4c176728650d412784684f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:50 +0000
Subject: [PATCH 57/63] fix: a forward that cannot be fulfilled ended cernan
 with success

---
 src/bin/cernan.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/cernan.rs b/src/bin/cernan.rs
index 7cf214e..e102fd3 100644
--- a/src/bin/cernan.rs
+++ b/src/bin/cernan.rs
@@ -52,7 +52,7 @@ fn populate_forwards(
                     "Unable to fulfill configured forward: {} => {}",
                     config_path, fwd
                 );
-                process::exit(0);
+                process::exit(1);
             }
         }
     }
@@ -775,7 +775,7 @@ fn main() {
                     "Unable to fulfill configured top-level flush to {}",
                     destination
                 );
-                process::exit(0);
+                process::exit(1);
             }
         }
     }
-- 
2.43.0


From f5098ae7969e406b7f148fbbef0d3f00e98dfba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:27 +0000
Subject: [PATCH 58/63] fix: a metadata key with a NUL byte no longer ends the
 Kafka sink

CString::new refused such a key and the sink thread panicked. The byte
travels as U+FFFD instead, as librdkafka's header names are C strings.
---
 src/sink/kafka.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sink/kafka.rs b/src/sink/kafka.rs
index 28a0f98..2028a60 100644
--- a/src/sink/kafka.rs
+++ b/src/sink/kafka.rs
@@ -158,8 +158,10 @@ impl KafkaMessageSender for FutureProducer<STFUContext> {
         let mut headers = OwnedHeaders::new();
         if let Some(m) = metadata {
             for (k, v) in m {
-                // names of headers are text, keys of metadata need not be
-                headers = headers.clone().add(&String::from_utf8_lossy(&k), &v);
+                // names of headers are text without NUL, keys of metadata need
+                // not be
+                let name = String::from_utf8_lossy(&k).replace('\0', "\u{fffd}");
+                headers = headers.clone().add(&name, &v);
             }
         };
         Box::new(KafkaPublishResult {
-- 
2.43.0


From 57a1a086111984f93dac6965127adaa4d19444a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:01 +0000
Subject: [PATCH 59/63] fix: a client that keeps sending no longer keeps a
 source from shutting down

The graphite, native and statsd sources read for as long as there was
something to read and did not look at their poller meanwhile. They now do
so every so often, and read what is left for a few seconds at most.
---
 src/source/graphite.rs |  8 +++++-
 src/source/native.rs   |  8 +++++-
 src/source/statsd.rs   | 19 ++++++++++----
 src/thread.rs          | 58 ++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 86 insertions(+), 7 deletions(-)

diff --git a/src/source/graphite.rs b/src/source/graphite.rs
index 9f2b4bc..9ac6706 100644
--- a/src/source/graphite.rs
+++ b/src/source/graphite.rs
@@ -2,6 +2,7 @@ use crate::constants;
 use crate::metric;
 use crate::protocols::graphite::parse_graphite;
 use crate::source::{TCPConfig, TCPStreamHandler, TCP};
+use crate::thread;
 use crate::util;
 use crate::util::send;
 use mio;
@@ -67,11 +68,13 @@ impl TCPStreamHandler for GraphiteStreamHandler {
         let mut line_reader = BufReader::new(stream);
         let basic_metric = sync::Arc::new(Some(metric::Telemetry::default()));
 
-        loop {
+        let mut busy = thread::BusyReader::default();
+        while !busy.is_stopping() {
             let mut events = mio::Events::with_capacity(1024);
             match poller.poll(&mut events, None) {
                 Err(e) => panic!("Failed during poll {:?}", e),
                 Ok(_num_events) => {
+                    busy.look_at(&events);
                     for event in events {
                         match event.token() {
                             constants::SYSTEM => return,
@@ -93,6 +96,9 @@ impl TCPStreamHandler for GraphiteStreamHandler {
                                             // Client went away.
                                             return;
                                         }
+                                        if busy.must_stop(poller) {
+                                            return;
+                                        }
                                     }
                                     Err(ref e)
                                         if e.kind() == ErrorKind::WouldBlock =>
diff --git a/src/source/native.rs b/src/source/native.rs
index 6dcec1e..ad76f77 100644
--- a/src/source/native.rs
+++ b/src/source/native.rs
@@ -2,6 +2,7 @@ use crate::constants;
 use crate::metric;
 use crate::protocols::native::{AggregationMethod, Payload};
 use crate::source::{BufferedPayload, PayloadErr, TCPConfig, TCPStreamHandler, TCP};
+use crate::thread;
 use crate::util;
 use mio;
 use protobuf;
@@ -69,11 +70,13 @@ impl TCPStreamHandler for NativeStreamHandler {
     ) {
         let mut streaming = true;
         let mut reader = BufferedPayload::new(stream.try_clone().unwrap(), 1_048_576);
-        while streaming {
+        let mut busy = thread::BusyReader::default();
+        while streaming && !busy.is_stopping() {
             let mut events = mio::Events::with_capacity(1024);
             match poller.poll(&mut events, None) {
                 Err(e) => panic!("Failed during poll {:?}", e),
                 Ok(_num_events) => {
+                    busy.look_at(&events);
                     for event in events {
                         match event.token() {
                             constants::SYSTEM => {
@@ -97,6 +100,9 @@ impl TCPStreamHandler for NativeStreamHandler {
                                             }
                                             NATIVE_PAYLOAD_SUCCESS_SUM
                                                 .fetch_add(1, Ordering::Relaxed);
+                                            if busy.must_stop(poller) {
+                                                streaming = false;
+                                            }
                                         }
                                         Err(PayloadErr::WouldBlock) => {
                                             // Not enough data yet.  Try again.
diff --git a/src/source/statsd.rs b/src/source/statsd.rs
index 18137e7..31bf35a 100644
--- a/src/source/statsd.rs
+++ b/src/source/statsd.rs
@@ -2,6 +2,7 @@ use crate::constants;
 use crate::metric;
 use crate::protocols::statsd::parse_statsd;
 use crate::source;
+use crate::thread;
 use crate::util;
 use crate::util::send;
 use mio;
@@ -92,6 +93,8 @@ impl Statsd {
         mut chans: &mut util::Channel,
         socket: &mio::net::UdpSocket,
         mut buf: &mut Vec<u8>,
+        poller: &mio::Poll,
+        busy: &mut thread::BusyReader,
     ) -> Result<(), StatsdHandlerErr> {
         let mut metrics = Vec::new();
         let basic_metric = sync::Arc::new(Some(metric::Telemetry::default()));
@@ -132,6 +135,9 @@ impl Statsd {
                     }
                 },
             }
+            if busy.must_stop(poller) {
+                break;
+            }
         }
         Ok(())
     }
@@ -170,7 +176,7 @@ impl source::Source<StatsdConfig> for Statsd {
                 socket,
                 mio::Token::from(idx),
                 mio::Ready::readable(),
-                mio::PollOpt::edge(),
+                mio::PollOpt::level(),
             ) {
                 error!("Failed to register {:?} - {:?}!", socket, e);
             }
@@ -178,10 +184,12 @@ impl source::Source<StatsdConfig> for Statsd {
 
         // Large enough for any UDP datagram, a longer one would be cut short.
         let mut buf = vec![0; 65_536];
-        loop {
+        let mut busy = thread::BusyReader::default();
+        while !busy.is_stopping() {
             let mut events = mio::Events::with_capacity(1024);
             match poller.poll(&mut events, None) {
                 Ok(_num_events) => {
+                    busy.look_at(&events);
                     for event in events {
                         match event.token() {
                             constants::SYSTEM => {
@@ -191,9 +199,9 @@ impl source::Source<StatsdConfig> for Statsd {
 
                             token => {
                                 let socket = &self.conns[token];
-                                if let Err(_e) =
-                                    self.handle_datagrams(&mut chans, socket, &mut buf)
-                                {
+                                if let Err(_e) = self.handle_datagrams(
+                                    &mut chans, socket, &mut buf, &poller, &mut busy,
+                                ) {
                                     error!(
                                         "Deregistering {:?} due to unrecoverable error!",
                                         *socket
@@ -206,5 +214,6 @@ impl source::Source<StatsdConfig> for Statsd {
                 Err(e) => panic!(format!("Failed during poll {:?}", e)),
             }
         } // loop
+        send(&mut chans, metric::Event::Shutdown);
     } // run
 }
diff --git a/src/thread.rs b/src/thread.rs
index 4cc6636..e6af4f0 100644
--- a/src/thread.rs
+++ b/src/thread.rs
@@ -5,6 +5,7 @@ use mio;
 use std::option;
 use std::sync;
 use std::thread;
+use std::time;
 
 /// Event polling structure. Alias of `mio::Poll`.
 pub type Poll = mio::Poll;
@@ -72,6 +73,63 @@ where
     }
 }
 
+/// The number of reads after which a busy thread looks whether to shut down.
+const READS_PER_POLL: usize = 128;
+/// How long, in seconds, a busy thread goes on reading once told to shut down.
+const GRACE_PERIOD: u64 = 5;
+
+/// Lets a thread which reads for as long as there is something to read notice
+/// that it is told to shut down.
+///
+/// What has arrived by then is still read, unless that takes too long: a client
+/// which does not stop sending must not keep the thread from ending.
+#[derive(Default)]
+pub struct BusyReader {
+    reads: usize,
+    deadline: Option<time::Instant>,
+}
+
+impl BusyReader {
+    /// To be called after every read. True if the thread has to end now.
+    ///
+    /// Events other than those of the SYSTEM token are discarded, the caller
+    /// has to read until it would block.
+    pub fn must_stop(&mut self, poller: &mio::Poll) -> bool {
+        self.reads = self.reads.wrapping_add(1);
+        (self.is_stopping() || self.reads % READS_PER_POLL == 0)
+            && self.out_of_time(poller)
+    }
+
+    /// Like `must_stop`, for threads which wait: looks every time.
+    pub fn out_of_time(&mut self, poller: &mio::Poll) -> bool {
+        if self.deadline.is_none() {
+            let mut events = mio::Events::with_capacity(1024);
+            poller
+                .poll(&mut events, Some(time::Duration::from_millis(0)))
+                .expect("Failed during poll");
+            self.look_at(&events);
+        }
+        self.deadline.map_or(false, |d| time::Instant::now() >= d)
+    }
+
+    /// To be called with the events about to be handled, the one of the SYSTEM
+    /// token may not be the first of them.
+    pub fn look_at(&mut self, events: &mio::Events) {
+        if self.deadline.is_none() && events.iter().any(|e| e.token() == constants::SYSTEM)
+        {
+            self.deadline = Some(
+                time::Instant::now() + time::Duration::from_secs(GRACE_PERIOD),
+            );
+        }
+    }
+
+    /// True if the thread has been told to shut down, and has to end once there
+    /// is nothing left to read.
+    pub fn is_stopping(&self) -> bool {
+        self.deadline.is_some()
+    }
+}
+
 /// mio Eventable ThreadPool.
 pub struct ThreadPool {
     /// thread_id counter.
-- 
2.43.0


From 2d3f251a9274b9f7d411d93dc3cdb87266038128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:01 +0000
Subject: [PATCH 60/63] fix: a publisher waiting for an acknowledgement no
 longer keeps the avro source from shutting down

If no sink acknowledges the publication the wait had no end. It now ends
when the source is told to shut down, without an acknowledgement. Neither
does a publisher which keeps sending keep the source from shutting down.
---
 src/source/avro.rs | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/source/avro.rs b/src/source/avro.rs
index f1a5581..f8c41ba 100644
--- a/src/source/avro.rs
+++ b/src/source/avro.rs
@@ -3,13 +3,16 @@ use crate::metric;
 use crate::metric::Metadata;
 use crate::source::nonblocking::{write_all, BufferedPayload, PayloadErr};
 use crate::source::{TCPStreamHandler, TCP};
+use crate::thread;
 use crate::util;
 use byteorder::{BigEndian, ReadBytesExt, WriteBytesExt};
 use mio;
 use serde_avro;
+use std::cell;
 use std::io::{self, Cursor, Read};
 use std::net;
 use std::sync::atomic::{AtomicUsize, Ordering};
+use std::thread::sleep;
 use uuid::Uuid;
 
 /// Total payloads processed.
@@ -192,11 +195,13 @@ impl TCPStreamHandler for AvroStreamHandler {
         let connection_id = Uuid::new_v4();
         let mut streaming = true;
         let mut reader = BufferedPayload::new(stream.try_clone().unwrap(), 1_048_576);
-        while streaming {
+        let mut busy = thread::BusyReader::default();
+        while streaming && !busy.is_stopping() {
             let mut events = mio::Events::with_capacity(1024);
             match poller.poll(&mut events, None) {
                 Err(e) => panic!(format!("Failed during poll {:?}", e)),
                 Ok(_num_events) => {
+                    busy.look_at(&events);
                     for event in events {
                         match event.token() {
                             constants::SYSTEM => {
@@ -211,6 +216,8 @@ impl TCPStreamHandler for AvroStreamHandler {
                                                 chans.clone(),
                                                 payload,
                                                 connection_id,
+                                                poller,
+                                                &mut busy,
                                             );
                                             if handle_res.is_err() {
                                                 AVRO_PAYLOAD_PARSE_FAILURE_SUM
@@ -236,6 +243,9 @@ impl TCPStreamHandler for AvroStreamHandler {
                                                     );
                                                 trace!("Acked {:?}", id);
                                             }
+                                            if busy.must_stop(poller) {
+                                                streaming = false;
+                                            }
                                         }
 
                                         Err(PayloadErr::WouldBlock) => {
@@ -321,6 +331,8 @@ impl AvroStreamHandler {
         mut chans: util::Channel,
         payload: Vec<u8>,
         connection_id: Uuid,
+        poller: &mio::Poll,
+        busy: &mut thread::BusyReader,
     ) -> Result<Option<u64>, PayloadErr> {
         match payload.into() {
             Payload::Valid {
@@ -345,9 +357,23 @@ impl AvroStreamHandler {
                 );
 
                 if header.sync() {
-                    ackbag.wait_for(connection_id);
+                    // There is no acknowledgement if nobody gives one until we
+                    // have to shut down.
+                    let busy = cell::RefCell::new(busy);
+                    let given_up = cell::Cell::new(false);
+                    ackbag.wait_for_callback(connection_id, |nap| {
+                        sleep(nap);
+                        if busy.borrow_mut().out_of_time(poller) {
+                            given_up.set(true);
+                            ackbag.remove(connection_id);
+                        }
+                    });
                     ackbag.remove(connection_id);
-                    Ok(Some(header.id))
+                    if given_up.get() {
+                        Ok(None)
+                    } else {
+                        Ok(Some(header.id))
+                    }
                 } else {
                     Ok(None)
                 }
-- 
2.43.0


From 3cffb395d0e5dd2999f0be9f6fa6de700400c46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:28 +0000
Subject: [PATCH 61/63] fix: histograms with different bins no longer panic
 when added

---
 src/metric/telemetry.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/metric/telemetry.rs b/src/metric/telemetry.rs
index 91c0eb0..ff51d9b 100644
--- a/src/metric/telemetry.rs
+++ b/src/metric/telemetry.rs
@@ -110,8 +110,14 @@ impl Add for Value {
                 Value::Set(y) => Value::Set(y),
                 Value::Sum(y) => Value::Sum(x.sum().unwrap_or(0.0) + y),
                 Value::Histogram(y) => {
-                    x += y;
-                    Value::Histogram(x)
+                    // Bins add up only if they are the same. If they are not
+                    // the right hand side wins, as it does for its kind.
+                    if x.iter().map(|bin| bin.0).eq(y.iter().map(|bin| bin.0)) {
+                        x += y;
+                        Value::Histogram(x)
+                    } else {
+                        Value::Histogram(y)
+                    }
                 }
                 Value::Quantiles { ckms, sum } => Value::Quantiles { ckms, sum },
             },
-- 
2.43.0


From ff4c24550dbda52703c3da76e5edd1dee052d541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:28 +0000
Subject: [PATCH 62/63] fix: a watched file's path need not be UTF-8

---
 src/source/file/file_server.rs  | 4 ++--
 src/source/file/file_watcher.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/source/file/file_server.rs b/src/source/file/file_server.rs
index 52ddc13..8ee5423 100644
--- a/src/source/file/file_server.rs
+++ b/src/source/file/file_server.rs
@@ -109,7 +109,7 @@ impl source::Source<FileServerConfig> for FileServer {
                     if sz > 0 {
                         bytes_read += sz;
                         lines.push(metric::LogLine::new(
-                            path.to_str().expect("not a valid path"),
+                            path.to_string_lossy().as_ref(),
                             &buffer,
                         ));
                         buffer.clear();
@@ -125,7 +125,7 @@ impl source::Source<FileServerConfig> for FileServer {
                     bytes_read as f64,
                     Some(vec![(
                         "file_path",
-                        path.to_str().expect("not a valid path"),
+                        &path.to_string_lossy(),
                     )]),
                 );
                 // A FileWatcher is dead when the underlying file has
diff --git a/src/source/file/file_watcher.rs b/src/source/file/file_watcher.rs
index 0078362..219c34b 100644
--- a/src/source/file/file_watcher.rs
+++ b/src/source/file/file_watcher.rs
@@ -100,7 +100,7 @@ impl FileWatcher {
                     1.0,
                     Some(vec![(
                         "file_path",
-                        self.path.to_str().expect("could not make path"),
+                        &self.path.to_string_lossy(),
                     )]),
                 );
             }
@@ -158,7 +158,7 @@ impl FileWatcher {
                     (self.previous_size - current_size) as f64,
                     Some(vec![(
                         "file_path",
-                        self.path.to_str().expect("could not make path"),
+                        &self.path.to_string_lossy(),
                     )]),
                 );
             }
-- 
2.43.0


From 756f26a5352b8add3b09bbacbc93e98a96c35fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:28 +0000
Subject: [PATCH 63/63] fix: a stalled HTTP client keeps neither other scrapes
 nor the shutdown waiting

---
 src/http.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/http.rs b/src/http.rs
index 8e1c2de..5d2980c 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -4,6 +4,7 @@ extern crate tiny_http;
 
 use crate::thread;
 use std;
+use std::sync::Arc;
 
 /// HTTP request. Alias of `tiny_http::Request`.
 pub type Request = tiny_http::Request;
@@ -16,13 +17,15 @@ pub type HeaderField = tiny_http::HeaderField;
 /// HTTP status code. Alias of `tiny_http::StatusCode`.
 pub type StatusCode = tiny_http::StatusCode;
 
-/// Simple single threaded HTTP request handler.
+/// Simple HTTP request handler.
 pub trait Handler: Sync + Send {
-    /// Handler for a single HTTP request.
+    /// Handler for a single HTTP request. Called on a thread of its own, as it
+    /// takes as long as the client takes to send its request and to read the
+    /// response.
     fn handle(&self, request: Request) -> ();
 }
 
-/// Single threaded HTTP server.
+/// HTTP server.
 pub struct Server {
     /// Thread handle for the operating HTTP server.
     thread: thread::ThreadHandle,
@@ -31,9 +34,9 @@ pub struct Server {
 fn http_server<H>(
     poller: &thread::Poll,
     tiny_http_server: &tiny_http::Server,
-    handler: &H,
+    handler: &Arc<H>,
 ) where
-    H: Handler,
+    H: Handler + 'static,
 {
     loop {
         let mut events = thread::Events::with_capacity(1024);
@@ -47,7 +50,12 @@ fn http_server<H>(
             {
                 Ok(maybe_a_request) => {
                     if let Some(request) = maybe_a_request {
-                        handler.handle(request);
+                        let handler = Arc::clone(handler);
+                        if let Err(e) = std::thread::Builder::new()
+                            .spawn(move || handler.handle(request))
+                        {
+                            warn!("Failed to handle an HTTP request: {}", e);
+                        }
                     }
                 }
 
@@ -63,10 +71,11 @@ fn http_server<H>(
     }
 }
 
-/// Single threaded HTTP server implementation.
+/// HTTP server implementation.
 impl Server {
     /// Create and start an HTTP server on the given host and port.
     pub fn new<H: Handler + 'static>(host_port: String, handler: H) -> Self {
+        let handler = Arc::new(handler);
         Server {
             thread: thread::spawn(move |poller| {
                 let tiny_http_server = tiny_http::Server::http(host_port).unwrap();
-- 
2.43.0

