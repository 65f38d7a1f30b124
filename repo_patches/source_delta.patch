From 9052ec0c1ad81cc251c61f72d715055c399262bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:27 +0000
Subject: [PATCH 01/10] fix: do not print the names of the drains to stdout
 while processing

---
 src/config_manip.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/config_manip.rs b/src/config_manip.rs
index fcce13a..f19835a 100644
--- a/src/config_manip.rs
+++ b/src/config_manip.rs
@@ -651,7 +651,6 @@ fn add_launch_exit_spies(config: &mut Config, to_add: Vec<String>) {
 
     let mut existing_connection_keys = config.connection.keys().map(|x| x.clone()).collect();
     let mut existing_drains = config.drain.keys().map(|x| x.clone()).collect();
-    println!("{:?}", existing_drains);
 
     for launch_name in to_add {
         let new_drain_key = generate_new_key("dyn_drain", &existing_drains);
-- 
2.43.0


From 0aa8692394ebf41ff87991d3bea9f3fdc6e207e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:48 +0000
Subject: [PATCH 02/10] fix: wait for launched programs that only have an input
 before exiting

---
 src/config_manip.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/config_manip.rs b/src/config_manip.rs
index f19835a..d3ef703 100644
--- a/src/config_manip.rs
+++ b/src/config_manip.rs
@@ -568,15 +568,18 @@ fn identify_required_spies_for_launch_exits(connections: &BTreeMap<String, Deser
         }
     }).collect();
 
-    let all_launch = connection_pairs.into_iter().fold(HashSet::new(), |mut acc, (first, _last)| {
-        match first {
-            Connection::StartConnection { component_type, component_name, .. }
-                if component_type == ComponentType::Launch => {
-                    acc.insert(component_name.clone());
-                    acc
-                },
-            _ => acc,
+    let all_launch = connection_pairs.into_iter().fold(HashSet::new(), |mut acc, (first, last)| {
+        for connection in [&first, &last] {
+            match connection {
+                Connection::StartConnection { component_type, component_name, .. } |
+                Connection::EndConnection { component_type, component_name, .. }
+                    if component_type == &ComponentType::Launch => {
+                        acc.insert(component_name.clone());
+                    },
+                _ => {},
+            }
         }
+        acc
     });
 
     all_launch.into_iter().filter_map(|name| {
-- 
2.43.0


From 0f54ccfa14c64c80ecdff4f3b12b7debd39990dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:59 +0000
Subject: [PATCH 03/10] fix: let the others see the end of a junction that
 failed

---
 src/junction.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/junction.rs b/src/junction.rs
index 6ffd1ed..6ed76d0 100644
--- a/src/junction.rs
+++ b/src/junction.rs
@@ -176,6 +176,7 @@ impl StartableControl for Junction {
                 Ok((false, n)) => { read_count += n }
                 Err(e) => {
                     self.stdin.clear();
+                    self.stdout.clear();
                     return MotionResult::Err(e);
                 }
             }
-- 
2.43.0


From 64a69389341cd3b964de38711835231e6f5d1b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:59 +0000
Subject: [PATCH 04/10] fix: let the others see the end of a faucet that could
 not be opened

---
 src/faucet.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/faucet.rs b/src/faucet.rs
index ef5142d..5216a72 100644
--- a/src/faucet.rs
+++ b/src/faucet.rs
@@ -92,7 +92,10 @@ impl StartableControl for Faucet {
             (Some(journey), Some(f)) if f == "-" => Pull::Stdin(journey, async_std::io::stdin(), ReadSplitControl::new()),
             (Some(journey), Some(filename)) => {
                 let file = async_std::fs::File::open(filename).await
-                    .map_err(|e| MotionError::OpenIOError(journey, Instant::now(), e))?;
+                    .map_err(|e| {
+                        self.stdout = None;
+                        MotionError::OpenIOError(journey, Instant::now(), e)
+                    })?;
                 Pull::File(journey, file, ReadSplitControl::new())
             },
             _ => Pull::None,
-- 
2.43.0


From 153b842c8e65213fa582d4d643d072f45d1a11d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:48 +0000
Subject: [PATCH 05/10] fix: name the destination when it cannot be opened

---
 src/bin_support.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bin_support.rs b/src/bin_support.rs
index 97440c5..02fd8cf 100644
--- a/src/bin_support.rs
+++ b/src/bin_support.rs
@@ -1,5 +1,5 @@
 use std::collections::HashMap;
-use crate::{waiter::WaiterError, config::ComponentType, motion::Journey};
+use crate::{waiter::WaiterError, config::ComponentType, motion::{Journey, PullJourney}};
 
 pub fn waiter_error_to_string(waiter_err: WaiterError, id_to_component_type_name: &HashMap<usize, (ComponentType, String)>) -> String {
 
@@ -12,8 +12,9 @@ pub fn waiter_error_to_string(waiter_err: WaiterError, id_to_component_type_name
         Some(journey_source) => id_to_component_type_name.get(journey_source),
         _ => None
     };
-    let motion_dst: Option<&(ComponentType, String)> = match waiter_err.caused_by_error().map(|err| err.journey()).flatten() {
-        Some(Journey { dst, .. }) => id_to_component_type_name.get(&dst),
+    let motion_dst: Option<&(ComponentType, String)> = match waiter_err.caused_by_error().map(|err| (err.journey(), err.pull_journey())) {
+        Some((Some(Journey { dst, .. }), _)) => id_to_component_type_name.get(&dst),
+        Some((None, Some(PullJourney { dst, .. }))) => id_to_component_type_name.get(&dst),
         _ => None
     };
 
-- 
2.43.0


From 8a512046be8b8c2cf79775d4d3b0e941235d72a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:06 +0000
Subject: [PATCH 06/10] fix: never let pausing or resuming a regulator block

---
 src/regulator.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/regulator.rs b/src/regulator.rs
index 512f0c1..c455f1a 100644
--- a/src/regulator.rs
+++ b/src/regulator.rs
@@ -7,7 +7,7 @@ use crate::connectable::ConnectableAddOutputError;
 use crate::connectable::ConnectableAddInputError;
 use crate::motion::SpyMessage;
 use async_std::channel::Sender;
-use async_std::channel::{SendError, Receiver, bounded};
+use async_std::channel::{SendError, Receiver, bounded, unbounded};
 use super::motion::{ MotionResult, MotionNotifications, Pull, Push, motion_close, motion_worker };
 use crate::startable_control::StartableControl;
 use async_trait::async_trait;
@@ -40,7 +40,8 @@ impl Regulator {
 
     pub fn get_control(&mut self) -> RegulatorControl {
         assert!(self.control.is_none(), "Each regulator can only have one control");
-        let (send, recv) = bounded(1);
+        // Whoever pauses / resumes must not have to wait until the regulator looks at it
+        let (send, recv) = unbounded();
         self.control = Some(recv);
         RegulatorControl {
             paused: false,
@@ -108,7 +109,7 @@ impl Regulator {
         let mut notifications = MotionNotifications::empty();
         async fn control(opt_rec: &mut Option<Receiver<()>>) {
             if let Some(rec) = opt_rec {
-                if rec.try_recv().is_ok() {
+                while rec.try_recv().is_ok() {
                     let _x = rec.recv().await;
                 }
             }
-- 
2.43.0


From 85c7242ae863dac83328c88bef1f0c432434bf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:06 +0000
Subject: [PATCH 07/10] fix: keep junction inputs which have the same priority
 together

---
 src/junction.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/junction.rs b/src/junction.rs
index 6ed76d0..5e83d92 100644
--- a/src/junction.rs
+++ b/src/junction.rs
@@ -88,6 +88,7 @@ impl Junction {
                 self.stdin.push(vec![])
             }
             if priority > old_priority {
+                old_priority = priority;
                 self.stdin.push(vec![])
             }
             if let Some(v) = self.stdin.last_mut() {
-- 
2.43.0


From 798894bc86bae9e6db3ce7baee7d1b346e9fefbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:46 +0000
Subject: [PATCH 08/10] fix: a buffer which lost its output does not keep its
 regulator paused

---
 src/buffer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 9dbb728..23dfc94 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -131,7 +131,10 @@ impl StartableControl for Buffer {
                 match m_out.try_recv() {
                     Err(async_std::channel::TryRecvError::Empty) => {
                     },
-                    Err(async_std::channel::TryRecvError::Closed) => (),
+                    Err(async_std::channel::TryRecvError::Closed) => {
+                        // The output has gone, what is left will never leave (so must not keep a regulator paused)
+                        size = 0;
+                    },
                     Ok(MonitorMessage::Read(_)) => {
                         // println!("-BUF");
                         buffer_movement = true;
-- 
2.43.0


From 582f0236067b8af4ec42f7b2739fc9e26ca451f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:16 +0000
Subject: [PATCH 09/10] fix: a connected drain without configuration must not
 take over the one made for an exit status

---
 src/config_manip.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/config_manip.rs b/src/config_manip.rs
index d3ef703..0bbe458 100644
--- a/src/config_manip.rs
+++ b/src/config_manip.rs
@@ -653,7 +653,18 @@ fn test_identify_required_spies_for_launch_exits() {
 fn add_launch_exit_spies(config: &mut Config, to_add: Vec<String>) {
 
     let mut existing_connection_keys = config.connection.keys().map(|x| x.clone()).collect();
-    let mut existing_drains = config.drain.keys().map(|x| x.clone()).collect();
+    let mut existing_drains: HashSet<String> = config.drain.keys().map(|x| x.clone()).collect();
+
+    // A drain which is connected, but was not configured, must not be given the configuration of one of ours.
+    for deserialized_connection in config.connection.values() {
+        if let DeserializedConnection::Connections(connections) = deserialized_connection {
+            for connection in connections {
+                if let Connection::EndConnection { component_type: ComponentType::Drain, component_name, .. } = connection {
+                    existing_drains.insert(component_name.to_owned());
+                }
+            }
+        }
+    }
 
     for launch_name in to_add {
         let new_drain_key = generate_new_key("dyn_drain", &existing_drains);
-- 
2.43.0


From 21e13c0909bd4e1c703b548eff1e9d3eb812cb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:16 +0000
Subject: [PATCH 10/10] fix: order of errors without a time is a total order

With more than 20 errors, some of them from buffers, sorting panicked instead of
the errors being reported.
---
 src/waiter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waiter.rs b/src/waiter.rs
index 5a22ba4..bf97a49 100644
--- a/src/waiter.rs
+++ b/src/waiter.rs
@@ -413,7 +413,7 @@ impl Waiter {
                     if let (Some(i1), Some(i2)) = (e1.instant(), e2.instant()) {
                         return i1.duration_since(start_instant).cmp(&i2.duration_since(start_instant));
                     }
-                    std::cmp::Ordering::Equal
+                    e1.instant().is_none().cmp(&e2.instant().is_none())
                 });
                 v
             })
-- 
2.43.0

