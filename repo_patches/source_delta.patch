From 3941e5b692427211364961753df7f53f21cf0660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:30 +0000
Subject: [PATCH 01/25] fix: buffer reports why its output failed instead of an
 anonymous error

---
 src/buffer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 9dbb728..9a96aef 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -169,7 +169,9 @@ impl StartableControl for Buffer {
         fn structure_motion_result(input: ((MotionResult<usize>, MotionResult<usize>), Result<usize, SendError<BufferSizeMessage>>)) -> MotionResult<usize> {
             match input {
                 ((MotionResult::Ok(stdin_count), MotionResult::Ok(_)), _x) => Ok(stdin_count),
-                _ => Err(MotionError::NoneError),
+                // A failure of the output also ends the input side, so it is the one to report
+                ((_, MotionResult::Err(e)), _x) => Err(e),
+                ((MotionResult::Err(e), _), _x) => Err(e),
             }
         }
 
-- 
2.43.0


From de121807ec31fb98336634b5d09502421e0f76f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:54 +0000
Subject: [PATCH 02/25] fix: junction inputs of equal priority share one level
 whatever the priority

---
 src/junction.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/junction.rs b/src/junction.rs
index 6ffd1ed..36b6ece 100644
--- a/src/junction.rs
+++ b/src/junction.rs
@@ -88,6 +88,7 @@ impl Junction {
                 self.stdin.push(vec![])
             }
             if priority > old_priority {
+                old_priority = priority;
                 self.stdin.push(vec![])
             }
             if let Some(v) = self.stdin.last_mut() {
-- 
2.43.0


From 517f89df6f0f25486b846639ca592860d89f054c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:09 +0000
Subject: [PATCH 03/25] fix: controlling an idle regulator neither blocks nor
 is overtaken by its messages

---
 src/regulator.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/regulator.rs b/src/regulator.rs
index 512f0c1..b960012 100644
--- a/src/regulator.rs
+++ b/src/regulator.rs
@@ -7,7 +7,7 @@ use crate::connectable::ConnectableAddOutputError;
 use crate::connectable::ConnectableAddInputError;
 use crate::motion::SpyMessage;
 use async_std::channel::Sender;
-use async_std::channel::{SendError, Receiver, bounded};
+use async_std::channel::{SendError, Receiver, bounded, unbounded};
 use super::motion::{ MotionResult, MotionNotifications, Pull, Push, motion_close, motion_worker };
 use crate::startable_control::StartableControl;
 use async_trait::async_trait;
@@ -40,7 +40,8 @@ impl Regulator {
 
     pub fn get_control(&mut self) -> RegulatorControl {
         assert!(self.control.is_none(), "Each regulator can only have one control");
-        let (send, recv) = bounded(1);
+        // Unbounded, so that whoever controls an idle regulator does not have to wait for its next message
+        let (send, recv) = unbounded();
         self.control = Some(recv);
         RegulatorControl {
             paused: false,
@@ -108,7 +109,7 @@ impl Regulator {
         let mut notifications = MotionNotifications::empty();
         async fn control(opt_rec: &mut Option<Receiver<()>>) {
             if let Some(rec) = opt_rec {
-                if rec.try_recv().is_ok() {
+                while rec.try_recv().is_ok() {
                     let _x = rec.recv().await;
                 }
             }
-- 
2.43.0


From 2498e5a3086cdefde86191b197e7eb886d5e7fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:04 +0000
Subject: [PATCH 04/25] fix: a program that cannot be started is reported, not
 a panic

---
 src/launch.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/launch.rs b/src/launch.rs
index bc254fb..9bce06c 100644
--- a/src/launch.rs
+++ b/src/launch.rs
@@ -180,11 +180,16 @@ impl <E: IntoIterator<Item = (K, V)>,
             false => { child_builder.stderr(async_std::process::Stdio::null()); }
         }
 
-        let mut child = child_builder.spawn().map_err(
-            |_c| {
-                MotionError::LaunchSpawnError(self.command.as_ref().to_str().map(|s| s.to_owned()))
+        let mut child = match child_builder.spawn() {
+            Ok(child) => child,
+            Err(_) => {
+                // Nothing will ever be written to these, so whoever reads them must see them end
+                self.stdout = None;
+                self.stderr = None;
+                self.exit_status = None;
+                return Err(MotionError::LaunchSpawnError(self.command.as_ref().to_str().map(|s| s.to_owned())));
             }
-        ).unwrap();
+        };
 
         let child_stdin_push = match std::mem::take(&mut child.stdin) {
             Some(stdin) => {
-- 
2.43.0


From 8e7366e81c0c6b7a70eed35c68e962726548841e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:39 +0000
Subject: [PATCH 05/25] fix: a faucet whose source cannot be opened closes its
 output

---
 src/faucet.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/faucet.rs b/src/faucet.rs
index ef5142d..8e12ac9 100644
--- a/src/faucet.rs
+++ b/src/faucet.rs
@@ -91,9 +91,14 @@ impl StartableControl for Faucet {
         self.stdin = Some(match (self.pull_journey, read_location) {
             (Some(journey), Some(f)) if f == "-" => Pull::Stdin(journey, async_std::io::stdin(), ReadSplitControl::new()),
             (Some(journey), Some(filename)) => {
-                let file = async_std::fs::File::open(filename).await
-                    .map_err(|e| MotionError::OpenIOError(journey, Instant::now(), e))?;
-                Pull::File(journey, file, ReadSplitControl::new())
+                match async_std::fs::File::open(filename).await {
+                    Ok(file) => Pull::File(journey, file, ReadSplitControl::new()),
+                    Err(e) => {
+                        // Nothing will ever be written to it, so whoever reads it must see it end
+                        self.stdout = None;
+                        return Err(MotionError::OpenIOError(journey, Instant::now(), e));
+                    }
+                }
             },
             _ => Pull::None,
         });
-- 
2.43.0


From 0af7c7a8944d697ed64e2fe123bd7ea10b1dc981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:09 +0000
Subject: [PATCH 06/25] fix: errors of a run are ordered by time also when some
 carry no time

---
 src/waiter.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/waiter.rs b/src/waiter.rs
index 5a22ba4..b00c4f9 100644
--- a/src/waiter.rs
+++ b/src/waiter.rs
@@ -355,8 +355,6 @@ impl Waiter {
     pub async fn start(&mut self, spy: Option<Sender<SpyMessage>>) -> Result<usize, Vec<WaiterError>> {
         use futures::future::join_all;
 
-        let start_instant = Instant::now();
-
         fn folder(acc: Result<usize, Vec<WaiterError>>, cur: Result<usize, WaiterError>) -> Result<usize, Vec<WaiterError>> {
             match (acc, cur) {
                 (Ok(i), Ok(j)) => Ok(i + j),
@@ -409,12 +407,8 @@ impl Waiter {
 
         l.into_iter().fold(Ok(0), folder)
             .map_err(|mut v| {
-                v.sort_by(|e1, e2| {
-                    if let (Some(i1), Some(i2)) = (e1.instant(), e2.instant()) {
-                        return i1.duration_since(start_instant).cmp(&i2.duration_since(start_instant));
-                    }
-                    std::cmp::Ordering::Equal
-                });
+                // Errors without an Instant come from components which could not even be started
+                v.sort_by_key(|e| e.instant().copied());
                 v
             })
 
-- 
2.43.0


From 8cd3b7b8bac36a8f7352d929284ad49802239dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:37 +0000
Subject: [PATCH 07/25] fix: a failed junction closes its outputs

---
 src/junction.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/junction.rs b/src/junction.rs
index 36b6ece..5e83d92 100644
--- a/src/junction.rs
+++ b/src/junction.rs
@@ -177,6 +177,7 @@ impl StartableControl for Junction {
                 Ok((false, n)) => { read_count += n }
                 Err(e) => {
                     self.stdin.clear();
+                    self.stdout.clear();
                     return MotionResult::Err(e);
                 }
             }
-- 
2.43.0


From 1235cf45c7c267d37b9eccaaa5851aaaa4beebcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:59 +0000
Subject: [PATCH 08/25] fix: a buffer that cannot run closes its output and its
 monitor

---
 src/buffer.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 9a96aef..8a9c668 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -84,8 +84,11 @@ impl StartableControl for Buffer {
         let (monitor_i_snd, monitor_i_rcv): (Sender<MonitorMessage>, Receiver<MonitorMessage>) = bounded(8);
         let (monitor_o_snd, monitor_o_rcv): (Sender<MonitorMessage>, Receiver<MonitorMessage>) = bounded(8);
 
-        let stdin = std::mem::take(&mut self.stdin).ok_or(MotionError::NoneError)?;
-        let stdout = std::mem::take(&mut self.stdout).ok_or(MotionError::NoneError)?;
+        // All of these end when this function does, even if one is missing, so that nobody waits for them
+        let (stdin, stdout) = (std::mem::take(&mut self.stdin), std::mem::take(&mut self.stdout));
+        let buffer_size_monitor = std::mem::take(&mut self.buffer_size_monitor);
+        let stdin = stdin.ok_or(MotionError::NoneError)?;
+        let stdout = stdout.ok_or(MotionError::NoneError)?;
 
         let push_a = Push::Sender(
             Journey { src: 0, dst: 0, src_port: None, breakable: stdout.journey().ok_or(MotionError::NoneError)?.breakable },
@@ -163,7 +166,7 @@ impl StartableControl for Buffer {
         }
 
         let r_out_prep = r_a.join(r_b).join(
-            total_in_buffer(std::mem::take(&mut self.buffer_size_monitor), monitor_i_rcv, monitor_o_rcv)
+            total_in_buffer(buffer_size_monitor, monitor_i_rcv, monitor_o_rcv)
         ).await;
 
         fn structure_motion_result(input: ((MotionResult<usize>, MotionResult<usize>), Result<usize, SendError<BufferSizeMessage>>)) -> MotionResult<usize> {
-- 
2.43.0


From eade023c885dcae7a286f72b41e16a40da31a253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:26 +0000
Subject: [PATCH 09/25] fix: a priority that cannot be represented is refused,
 not read as 0

---
 src/config.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/config.rs b/src/config.rs
index 21c3203..c6e438c 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -733,7 +733,12 @@ pub fn load_connection_from_string(s: &str) -> Result<Vec<Connection>, ParseErro
                 = s:$(['a'..='z' | 'A'..='Z' | '0'..='9' | '_' ]+) { s.to_string() }
 
             rule port_preference() -> isize
-                = n:$("-"?['0'..='9']*) { n.parse().unwrap_or(0) }
+                = n:$("-"?['0'..='9']*) {?
+                    match n {
+                        "" | "-" => Ok(0),
+                        n => n.parse().or(Err("priority within range")),
+                    }
+                }
 
             rule in_port() -> InputPort
                 = "[" p:port_preference() "]" { InputPort { breakable: Breakable::Terminate, priority: p } }
-- 
2.43.0


From 948d6387b9e6499c901f45d4cae7a93b465b901a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:10 +0000
Subject: [PATCH 10/25] fix: preparing a configuration prints nothing on
 standard output

---
 src/config_manip.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/config_manip.rs b/src/config_manip.rs
index fcce13a..f19835a 100644
--- a/src/config_manip.rs
+++ b/src/config_manip.rs
@@ -651,7 +651,6 @@ fn add_launch_exit_spies(config: &mut Config, to_add: Vec<String>) {
 
     let mut existing_connection_keys = config.connection.keys().map(|x| x.clone()).collect();
     let mut existing_drains = config.drain.keys().map(|x| x.clone()).collect();
-    println!("{:?}", existing_drains);
 
     for launch_name in to_add {
         let new_drain_key = generate_new_key("dyn_drain", &existing_drains);
-- 
2.43.0


From 99d5d8c09dc25a74c092ab65d1b9c11e1ff13d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:26 +0000
Subject: [PATCH 11/25] fix: draw every link when two ports of a component lead
 to the same place

---
 src/graph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph.rs b/src/graph.rs
index a48f415..9e9fe45 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -80,7 +80,7 @@ pub fn get_graph(subgraph: Vec<Subgraph>) -> String {
 
     let graph = Graph::DiGraph {
         id: Id::Plain("g_get_graph".to_string()),
-        strict: true,
+        strict: false,
         stmts
     };
 
-- 
2.43.0


From 1e19b4e6de81d07e3f1ae143f653880a8525967d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:22 +0000
Subject: [PATCH 12/25] fix: quote names in drawings, so that every name gives
 valid DOT

---
 src/graph.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index 9e9fe45..cc0e373 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -22,6 +22,10 @@ pub struct GraphConnection<'a> {
     dst: (&'a ComponentType, &'a str, &'a Option<String>),
 }
 
+fn quote(s: &str) -> String {
+    format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""))
+}
+
 pub fn convert_connection_to_graph_connection<'a>(mut acc: Vec<GraphConnection<'a>>, connections: Vec<&'a Connection>) -> Vec<GraphConnection<'a>> {
 
     let mut src: Option<(&ComponentType, &str, Option<&OutputPort>, &Option<String>)> = None;
@@ -125,7 +129,7 @@ pub fn get_diagram(components: HashMap<&ComponentType, Vec<&str>>, connections:
     }
 
     fn node_id(component_type: &ComponentType, name: &str) -> NodeId {
-        NodeId(Id::Plain(format!("{}_{}", component_type_to_letter(component_type), name)), None)
+        NodeId(Id::Escaped(quote(&format!("{}_{}", component_type_to_letter(component_type), name))), None)
     }
 
     fn get_connection_set_name(possible_graph_connection_for_connection_set: Option<&GraphConnection>, component_type: &ComponentType, component_name: &str) -> String {
@@ -169,7 +173,7 @@ pub fn get_diagram(components: HashMap<&ComponentType, Vec<&str>>, connections:
         BTreeMap::new(),
         |mut acc, (component_type, component_names)| {
             for component_name in component_names {
-                let label = component_name;
+                let label = quote(component_name);
                 let connection_set_graph_connection: Option<&GraphConnection> = connections.iter().find(|connection| {
                     (
                         (connection.src.1 == *component_name) && (connection.src.0 == *component_type)
@@ -221,7 +225,7 @@ pub fn get_diagram(components: HashMap<&ComponentType, Vec<&str>>, connections:
     }
 
     let mut stmts: Vec<Stmt> = graph_components.into_iter().fold(FrontAndBack::new(), |mut acc, (connection_set, nodes)| {
-        let title = format!("\"{}:\"", connection_set);
+        let title = quote(&format!("{}:", connection_set));
         let rank = if connection_set_with_faucet.contains(&connection_set) { "min" }
             else if connection_set_with_drain.contains(&connection_set) { "max" }
             else { "same" };
@@ -233,7 +237,7 @@ pub fn get_diagram(components: HashMap<&ComponentType, Vec<&str>>, connections:
         }
         stmts.append(&mut stmts_to_add.into_iter().collect::<Vec<Stmt>>());
         let subgraph = Stmt::Subgraph(Subgraph {
-            id: id!(format!("cluster_nodes_{}", connection_set)),
+            id: Id::Escaped(quote(&format!("cluster_nodes_{}", connection_set))),
             stmts
         });
         if connection_set_with_faucet.contains(&connection_set) {
-- 
2.43.0


From 4a1a4fdc94ce74c1328ab2dd6eb8f2e5fc340043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:44 +0000
Subject: [PATCH 13/25] fix: an error opening or reading a link names its
 destination

---
 src/bin_support.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bin_support.rs b/src/bin_support.rs
index 97440c5..a8ee048 100644
--- a/src/bin_support.rs
+++ b/src/bin_support.rs
@@ -1,5 +1,5 @@
 use std::collections::HashMap;
-use crate::{waiter::WaiterError, config::ComponentType, motion::Journey};
+use crate::{waiter::WaiterError, config::ComponentType, motion::PullJourney};
 
 pub fn waiter_error_to_string(waiter_err: WaiterError, id_to_component_type_name: &HashMap<usize, (ComponentType, String)>) -> String {
 
@@ -12,8 +12,9 @@ pub fn waiter_error_to_string(waiter_err: WaiterError, id_to_component_type_name
         Some(journey_source) => id_to_component_type_name.get(journey_source),
         _ => None
     };
-    let motion_dst: Option<&(ComponentType, String)> = match waiter_err.caused_by_error().map(|err| err.journey()).flatten() {
-        Some(Journey { dst, .. }) => id_to_component_type_name.get(&dst),
+    // Failures to open or to read only know the link as the reader sees it
+    let motion_dst: Option<&(ComponentType, String)> = match waiter_err.caused_by_error().map(|err| err.journey().map(|j| j.as_pull_journey()).or_else(|| err.pull_journey())).flatten() {
+        Some(PullJourney { dst, .. }) => id_to_component_type_name.get(&dst),
         _ => None
     };
 
-- 
2.43.0


From 2c24cdbf6199e4712c5583c3bb4a82fa0ca75195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:07 +0000
Subject: [PATCH 14/25] fix: failures inside a buffer name that buffer, not the
 first component

---
 src/buffer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 8a9c668..6821dcb 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -90,12 +90,14 @@ impl StartableControl for Buffer {
         let stdin = stdin.ok_or(MotionError::NoneError)?;
         let stdout = stdout.ok_or(MotionError::NoneError)?;
 
+        // Inside, messages travel from this buffer to itself
+        let Journey { src: id, breakable, .. } = *stdout.journey().ok_or(MotionError::NoneError)?;
         let push_a = Push::Sender(
-            Journey { src: 0, dst: 0, src_port: None, breakable: stdout.journey().ok_or(MotionError::NoneError)?.breakable },
+            Journey { src: id, dst: id, src_port: None, breakable },
             unbounded_snd
         );
         let pull_b = Pull::Receiver(
-            PullJourney { src: 0, dst: 0 },
+            PullJourney { src: id, dst: id },
             unbounded_rcv
         );
 
-- 
2.43.0


From 7bb1d61960778f8f63603a2f7e04c75889b7121e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:57 +0000
Subject: [PATCH 15/25] fix: unreadable connections are reported by process and
 manipulate, not a panic

---
 src/bin/pa2.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/bin/pa2.rs b/src/bin/pa2.rs
index 33ce179..d925777 100644
--- a/src/bin/pa2.rs
+++ b/src/bin/pa2.rs
@@ -463,6 +463,17 @@ enum UserResponse {
 }
 
 
+/// Reads a configuration which is only of use if all its connections can be understood.
+fn read_connected_config(config_format: &ConfigFormat, config_in: &str) -> Result<Config, String> {
+    let mut config = read_config(config_format, config_in)?;
+    let errs = Config::convert_connections(&mut config.connection).into_iter().map(|c| c.to_string()).collect::<Vec<String>>();
+    if errs.is_empty() {
+        return Ok(config);
+    }
+    Err(format!("Process {}", errs.join("\n * ")))
+}
+
+
 fn process_user_config_action(result_config: Result<UserRequest, String>) -> Result<UserResponse, String> {
 
     match result_config {
@@ -510,11 +521,11 @@ fn process_user_config_action(result_config: Result<UserRequest, String>) -> Res
             return Err(format!("We found the following warnings / errors: \n\n * {}\n", errs.join("\n * ")));
         },
         Ok(UserRequest::Manipulate { config_in, config_format }) => {
-            let config = read_config(&config_format, &config_in)?;
+            let config = read_connected_config(&config_format, &config_in)?;
             Ok(connection_manipulation_light(config)).map(UserResponse::Config)
         },
         Ok(UserRequest::Process { config_in, config_format }) => {
-            let mut config = connection_manipulation(read_config(&config_format, &config_in)?);
+            let mut config = connection_manipulation(read_connected_config(&config_format, &config_in)?);
 
             let errs = Config::lint(&mut config).into_iter()
                 .filter(|lint_err| !matches!(lint_err, ConfigLintWarning::InConfigButMissingFlowConnection { .. }))
-- 
2.43.0


From 6d1763f1675a7ae4564b71ebda15475ee8fd824c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:16 +0000
Subject: [PATCH 16/25] fix: messages about regulators say regulator, and
 resume

---
 src/waiter.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/waiter.rs b/src/waiter.rs
index b00c4f9..05de3aa 100644
--- a/src/waiter.rs
+++ b/src/waiter.rs
@@ -128,10 +128,10 @@ impl WaiterError {
     pub fn description(&self) -> String {
         match self {
             WaiterError::CausedByError(_, _, m) => format!("{}", m),
-            WaiterError::SettingsForMissingRegulator(s) => format!("There are no settings for Faucet:{}", s),
-            WaiterError::SettingsRefersMissingBuffer(f, b) => format!("Faucet {} refers to buffer {} which does not exist", f, b),
+            WaiterError::SettingsForMissingRegulator(s) => format!("There are no settings for Regulator:{}", s),
+            WaiterError::SettingsRefersMissingBuffer(f, b) => format!("Regulator {} refers to buffer {} which does not exist", f, b),
             WaiterError::CouldNotPause => "CouldNotPause".to_string(),
-            WaiterError::CouldNotResume => "CouldNotPause".to_string(),
+            WaiterError::CouldNotResume => "CouldNotResume".to_string(),
         }
     }
 
-- 
2.43.0


From 5b3796d7d0751bf5511419e192ad832741bf460a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:03 +0000
Subject: [PATCH 17/25] fix: the exit port of a launch breaks and ends like its
 other ports

---
 src/launch.rs | 46 ++++++++++++++++++----------------------------
 1 file changed, 18 insertions(+), 28 deletions(-)

diff --git a/src/launch.rs b/src/launch.rs
index 9bce06c..b26e3d2 100644
--- a/src/launch.rs
+++ b/src/launch.rs
@@ -1,8 +1,6 @@
-use crate::motion::IODataWrapper;
 // use pipeawesome2::motion::{Pull, MotionResult, IOData};
 use crate::motion::PullJourney;
 use crate::motion::SpyMessage;
-use std::time::Instant;
 use crate::motion::Journey;
 use crate::connectable::ConnectableAddInputError;
 use crate::connectable::ConnectableAddOutputError;
@@ -11,6 +9,7 @@ use crate::connectable::Connectable;
 use crate::connectable::Breakable;
 use std::ffi::OsStr;
 use async_std::{channel::Sender, prelude::*};
+use std::collections::VecDeque;
 use std::path::Path;
 use crate::motion::{IOData, MotionError, MotionNotifications, ReadSplitControl};
 
@@ -235,33 +234,24 @@ impl <E: IntoIterator<Item = (K, V)>,
 
         let r_out_prep: ((MotionResult<usize>, MotionResult<usize>), MotionResult<usize>) = r_input.join(r2).join(r3).await;
 
-        if let Some((journey, exit_status_tx)) = &mut self.exit_status {
-            loop {
-                let msg = match child.status().await.ok().map(|es| es.code()) {
-                    Some(Some(exit_status)) => {
-                        let str = format!("{:?}", exit_status);
-                        let bytes = str.as_bytes();
-                        Some(IOData(bytes.split_at(bytes.len()).0.iter().copied().collect()))
-                    },
-                    Some(None) => {
-                        Some(IOData("_".as_bytes().to_vec())) // If killed, then no exit status available without using std::os::unix
+        let r_exit = match std::mem::take(&mut self.exit_status) {
+            Some((journey, exit_status_tx)) => {
+                let exit_status = loop {
+                    match child.status().await {
+                        Ok(exit_status) => { break exit_status; },
+                        Err(_) => { async_std::task::sleep(std::time::Duration::from_millis(100)).await; }
                     }
-                    None => None
                 };
-                match msg {
-                    Some(m) => {
-                        exit_status_tx.send(m.clone()).await.map_err(|e| MotionError::SendError(*journey, Instant::now(), e))?;
-                        if let (Some(spy), src, dst, Some(src_port)) = (spy, journey.src, journey.dst, journey.src_port) {
-                            let spy_msg = SpyMessage { src, msg: IODataWrapper::IOData(m), dst, src_port };
-                            spy.send(spy_msg).await.map_err(|e| MotionError::SpyWriteError(Instant::now(), e))?;
-                        }
-                        exit_status_tx.close();
-                        break;
-                    },
-                    None => { async_std::task::sleep(std::time::Duration::from_millis(100)).await; }
-                }
-            }
-        }
+                let msg = match exit_status.code() {
+                    Some(code) => format!("{:?}", code),
+                    None => "_".to_string(), // If killed, then no exit status available without using std::os::unix
+                };
+                // The exit status is a stream of one message, so it ends (and breaks) like any other output
+                let exit_pull = Pull::Mock(journey.as_pull_journey(), VecDeque::from(vec![IOData(msg.into_bytes())]));
+                motion(exit_pull, MotionNotifications::empty(), spy, Push::IoSender(journey, exit_status_tx)).await
+            },
+            None => Ok(0),
+        };
 
         fn structure_motion_result(input: ((MotionResult<usize>, MotionResult<usize>), MotionResult<usize>)) -> MotionResult<usize> {
             match input {
@@ -272,7 +262,7 @@ impl <E: IntoIterator<Item = (K, V)>,
             }
         }
 
-        structure_motion_result(r_out_prep)
+        structure_motion_result(r_out_prep).and_then(|stdin_count| r_exit.map(|_| stdin_count))
 
     }
 
-- 
2.43.0


From 84c085a66256e7d8621348c055468ca4c9f86a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:19 +0000
Subject: [PATCH 18/25] fix: a buffer can be watched by several regulators

---
 src/buffer.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 6821dcb..3820f00 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -24,7 +24,7 @@ pub struct Buffer {
     stdout_size: usize,
     stdout: Option<Push>,
     stdin: Option<Pull>,
-    buffer_size_monitor: Option<Sender<BufferSizeMessage>>,
+    buffer_size_monitors: Vec<Sender<BufferSizeMessage>>,
 }
 
 
@@ -58,14 +58,13 @@ impl Buffer {
             stdout_size: 8,
             stdin: None,
             stdout: None,
-            buffer_size_monitor: None,
+            buffer_size_monitors: vec![],
         }
     }
 
     pub fn add_buffer_size_monitor(&mut self) -> Receiver<BufferSizeMessage> {
-        assert!(self.buffer_size_monitor.is_none(), "Each buffer can only be monitored once");
         let (tx, rx) = bounded(self.stdout_size);
-        self.buffer_size_monitor = Some(tx);
+        self.buffer_size_monitors.push(tx);
         rx
     }
 
@@ -86,7 +85,7 @@ impl StartableControl for Buffer {
 
         // All of these end when this function does, even if one is missing, so that nobody waits for them
         let (stdin, stdout) = (std::mem::take(&mut self.stdin), std::mem::take(&mut self.stdout));
-        let buffer_size_monitor = std::mem::take(&mut self.buffer_size_monitor);
+        let buffer_size_monitors = std::mem::take(&mut self.buffer_size_monitors);
         let stdin = stdin.ok_or(MotionError::NoneError)?;
         let stdout = stdout.ok_or(MotionError::NoneError)?;
 
@@ -114,7 +113,7 @@ impl StartableControl for Buffer {
             stdout,
         );
 
-        async fn total_in_buffer(sender: Option<Sender<BufferSizeMessage>>, m_in: Receiver<MonitorMessage>, m_out: Receiver<MonitorMessage>) -> Result<usize, SendError<BufferSizeMessage>> {
+        async fn total_in_buffer(senders: Vec<Sender<BufferSizeMessage>>, m_in: Receiver<MonitorMessage>, m_out: Receiver<MonitorMessage>) -> Result<usize, SendError<BufferSizeMessage>> {
             let mut size: usize = 0;
             let mut back_off = BackOff::new();
             let mut last = 0;
@@ -146,13 +145,12 @@ impl StartableControl for Buffer {
                         panic!("SHOULD NOT BE HERE");
                     }
                 }
-                match (last != size, &sender) {
-                    (true, Some(s)) => {
-                        last = size;
-                        s.send(BufferSizeMessage(size)).await
-                    },
-                    _ => Ok(()),
-                }?;
+                if last != size {
+                    last = size;
+                    for s in &senders {
+                        s.send(BufferSizeMessage(size)).await?;
+                    }
+                }
                 if m_in.is_empty() && m_in.is_closed() && m_out.is_empty() && m_out.is_closed() {
                     return Ok(size as usize);
                 }
@@ -168,7 +166,7 @@ impl StartableControl for Buffer {
         }
 
         let r_out_prep = r_a.join(r_b).join(
-            total_in_buffer(buffer_size_monitor, monitor_i_rcv, monitor_o_rcv)
+            total_in_buffer(buffer_size_monitors, monitor_i_rcv, monitor_o_rcv)
         ).await;
 
         fn structure_motion_result(input: ((MotionResult<usize>, MotionResult<usize>), Result<usize, SendError<BufferSizeMessage>>)) -> MotionResult<usize> {
-- 
2.43.0


From 9cb2148463079769b6566df8d445de8c59cc412a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:19 +0000
Subject: [PATCH 19/25] fix: a junction without outputs reads its inputs to
 their end

---
 src/motion.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/motion.rs b/src/motion.rs
index 37b1bd8..df34684 100644
--- a/src/motion.rs
+++ b/src/motion.rs
@@ -511,6 +511,7 @@ pub async fn motion_worker(pull: &mut Pull, monitor: &mut MotionNotifications, p
 
     let was_finished = data == IODataWrapper::Finished;
 
+    let has_pushs = !pushs.is_empty();
     let mut unfinished_push_count = pushs.len();
 
     for push in pushs {
@@ -553,7 +554,7 @@ pub async fn motion_worker(pull: &mut Pull, monitor: &mut MotionNotifications, p
             ) })?;
     }
 
-    if unfinished_push_count == 0 {
+    if has_pushs && unfinished_push_count == 0 {
         return MotionResult::Ok(MotionWorkerResult { finished: true, read: true })
     }
 
-- 
2.43.0


From bd0314c66fd4ea17e3ebfde070a90e264a875308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:42 +0000
Subject: [PATCH 20/25] fix: a junction's outputs are recorded as ended once,
 with its last input

---
 src/junction.rs | 19 ++++++++++++++++---
 src/motion.rs   |  8 ++++++++
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/junction.rs b/src/junction.rs
index 5e83d92..3d805c4 100644
--- a/src/junction.rs
+++ b/src/junction.rs
@@ -12,7 +12,7 @@ use async_std::channel::bounded;
 use crate::motion;
 use crate::utils::{ remove_vec_vec, remove_vec_vec_index };
 
-use super::motion::{ motion_worker, MotionResult, Pull, Push, };
+use super::motion::{ motion_deliver, motion_read, IODataWrapper, MotionResult, Pull, Push, };
 use crate::startable_control::StartableControl;
 use async_trait::async_trait;
 use crate::back_off::BackOff;
@@ -34,18 +34,27 @@ pub struct MotionOneResult {
     pub skipped: Vec<usize>,
 }
 
-async fn junction_motion_worker(pulls: &mut Vec<Pull>, pushs: &mut Vec<Push>, spy: &mut Option<Sender<SpyMessage>>) -> MotionResult<MotionOneResult> {
+async fn junction_motion_worker(pulls: &mut Vec<Pull>, other_pulls: usize, pushs: &mut Vec<Push>, spy: &mut Option<Sender<SpyMessage>>) -> MotionResult<MotionOneResult> {
 
     let mut finished_pulls = vec![];
     let mut read_from = vec![];
     let mut skipped: Vec<usize> = vec![];
     let mut notifications = MotionNotifications::empty();
+    let pull_count = pulls.len();
     for (pull_index, pull) in pulls.iter_mut().enumerate() {
 
         // If we have finished reading that particular pull
         if finished_pulls.contains(&pull_index) { continue; }
 
-        let r = motion_worker(pull, &mut notifications, pushs, spy, true).await?;
+        let data = motion_read(pull, true).await?;
+
+        // The outputs only end with the last of the inputs
+        let is_last = other_pulls + pull_count - finished_pulls.len() == 1;
+        let r = if data == IODataWrapper::Finished && !is_last {
+            motion_deliver(data, pull, &mut notifications, pushs, &mut None).await?
+        } else {
+            motion_deliver(data, pull, &mut notifications, pushs, spy).await?
+        };
         if !r.read {
             skipped.push(pull_index);
         } else {
@@ -103,9 +112,13 @@ impl Junction {
         let mut any_read = false;
         let mut read_count = 0;
 
+        let all_pulls: usize = self.stdin.iter().map(|si| si.len()).sum();
+
         for (si_index, si) in self.stdin.iter_mut().enumerate() {
+            let other_pulls = all_pulls - si.len();
             let motion_one_results = junction_motion_worker(
                 si,
+                other_pulls,
                 &mut self.stdout,
                 spy,
             ).await?;
diff --git a/src/motion.rs b/src/motion.rs
index df34684..c3ca97c 100644
--- a/src/motion.rs
+++ b/src/motion.rs
@@ -490,6 +490,14 @@ pub struct MotionWorkerResult {
 pub async fn motion_worker(pull: &mut Pull, monitor: &mut MotionNotifications, pushs: &mut Vec<Push>, spy: &mut Option<Sender<SpyMessage>>, do_try_read: bool) -> MotionResult<MotionWorkerResult> {
 
     let data = motion_read(pull, do_try_read).await?;
+    motion_deliver(data, pull, monitor, pushs, spy).await
+
+}
+
+
+/// Hands what was just read from `pull` to all of `pushs`
+pub async fn motion_deliver(data: IODataWrapper, pull: &Pull, monitor: &mut MotionNotifications, pushs: &mut Vec<Push>, spy: &mut Option<Sender<SpyMessage>>) -> MotionResult<MotionWorkerResult> {
+
     if data == IODataWrapper::Skipped {
         return MotionResult::Ok(MotionWorkerResult { finished: false, read: false })
     }
-- 
2.43.0


From 22aace3906e53fbcb90172d21af92b45d18e589f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:58 +0000
Subject: [PATCH 21/25] fix: written-out connections that join nothing are
 reported, not a panic

---
 src/config.rs | 21 ++++++++++++++++++++-
 src/waiter.rs |  2 +-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index c6e438c..2f9eb0e 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -438,6 +438,19 @@ impl Config {
 
     }
 
+    /// Whether everything but the last leads somewhere, and everything but the first can be led to
+    fn is_joinable(connections: &[Connection]) -> bool {
+        match connections {
+            [] => true,
+            [first, middle @ .., last] => {
+                !matches!(first, Connection::EndConnection { .. })
+                    && middle.iter().all(|c| matches!(c, Connection::MiddleConnection { .. }))
+                    && !matches!(last, Connection::StartConnection { .. })
+            },
+            [_] => false
+        }
+    }
+
     /// Goes through and converts DeserializedConnection::JoinString to DeserializedConnection::Connections
     pub fn convert_connections(connections: &mut BTreeMap<String, DeserializedConnection>) -> HashSet<ConfigLintWarning> {
 
@@ -453,7 +466,13 @@ impl Config {
                                 }
                             }
                         },
-                        DeserializedConnection::Connections(_) => None
+                        DeserializedConnection::Connections(cs) => {
+                            if !Config::is_joinable(cs) {
+                                let join = serde_json::to_string(cs).unwrap_or_else(|_| "".to_string());
+                                return Some(ConfigLintWarning::InvalidConnection { id: k.to_string(), join });
+                            }
+                            None
+                        }
                     };
                     if let Some(x) = replace_with {
                         let mut d = DeserializedConnection::Connections(x);
diff --git a/src/waiter.rs b/src/waiter.rs
index 05de3aa..352f20d 100644
--- a/src/waiter.rs
+++ b/src/waiter.rs
@@ -559,7 +559,7 @@ pub fn get_waiter(mut config: Config) -> Result<Waiter, String> {
                     },
                 }?;
             } else {
-                panic!("HOW!");
+                return Err(format!("The connections of {} leave it before anything leads to it", string_hack(&dst_id, waiter.id_to_component_type_name(&dst_id))));
             }
         }
 
-- 
2.43.0


From c4f9ee66830bf6fb204761bdc7a42ffc388c5e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:48 +0000
Subject: [PATCH 22/25] fix: a buffer whose output has ended stops accepting,
 so that a regulator watching it cannot wait for ever

---
 src/buffer.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 3820f00..cf1ba63 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -100,18 +100,28 @@ impl StartableControl for Buffer {
             unbounded_rcv
         );
 
+        // What is stored here has nowhere to go once the output has ended, so neither has what would arrive later
+        let stdin_closer = match &stdin {
+            Pull::Receiver(_, rcv) => Some(rcv.clone()),
+            _ => None,
+        };
+
         let r_a = motion(
             stdin,
             MotionNotifications::written(monitor_i_snd),
             None,
             push_a
         );
-        let r_b = motion(
-            pull_b,
-            MotionNotifications::read(monitor_o_snd),
-            spy,
-            stdout,
-        );
+        let r_b = async {
+            let result = motion(
+                pull_b,
+                MotionNotifications::read(monitor_o_snd),
+                spy,
+                stdout,
+            ).await;
+            stdin_closer.map(|rcv| rcv.close());
+            result
+        };
 
         async fn total_in_buffer(senders: Vec<Sender<BufferSizeMessage>>, m_in: Receiver<MonitorMessage>, m_out: Receiver<MonitorMessage>) -> Result<usize, SendError<BufferSizeMessage>> {
             let mut size: usize = 0;
-- 
2.43.0


From 4f595222c24b06b9ef433eb499183789f4768184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:07 +0000
Subject: [PATCH 23/25] fix: a result that cannot be written is reported with
 status 1, not a panic

---
 src/bin/pa2.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/bin/pa2.rs b/src/bin/pa2.rs
index d925777..c061e36 100644
--- a/src/bin/pa2.rs
+++ b/src/bin/pa2.rs
@@ -1,3 +1,4 @@
+use std::io::Write;
 use pipeawesome2::bin_support::waiter_error_to_string;
 use pipeawesome2::config::quick_add_connection_set;
 use pipeawesome2::config_io::{ read_config, ConfigFormat };
@@ -610,12 +611,14 @@ fn main() {
     };
 
 
-    match r {
-        Ok(s) => {
-            if !s.is_empty() {
-                println!("{}", s);
-            }
-        }
+    let written = r.and_then(|s| {
+        if s.is_empty() { return Ok(()); }
+        let mut out = std::io::stdout();
+        writeln!(out, "{}", s).and_then(|_| out.flush()).map_err(|e| vec![format!("Could not write the result: {}", e)])
+    });
+
+    match written {
+        Ok(()) => (),
         Err(ss) => {
             eprintln!("Error(s) have occurred:\n");
             for s in ss {
-- 
2.43.0


From 5a71d71fec550705f751dfae3ae88b71905ceb69 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 00:56:48 +0000
Subject: [PATCH 24/25] fix: buffers and junctions accepted output ports they
 do not have

---
 src/buffer.rs   | 3 +++
 src/junction.rs | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index cf1ba63..2898815 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -31,6 +31,9 @@ pub struct Buffer {
 impl Connectable for Buffer {
 
     fn add_output(&mut self, port: OutputPort, breakable: Breakable, src_id: usize, dst_id: usize) -> std::result::Result<Pull, ConnectableAddOutputError> {
+        if port != OutputPort::Out {
+            return Err(ConnectableAddOutputError::UnsupportedPort(port));
+        }
         if self.stdout.is_some() { return Err(ConnectableAddOutputError::AlreadyAllocated(port)); }
         let (child_stdout_push_channel, stdout_io_reciever_channel) = bounded(self.stdout_size);
         self.stdout = Some(Push::IoSender(Journey { src: src_id, src_port: Some(port), dst: dst_id, breakable }, child_stdout_push_channel));
diff --git a/src/junction.rs b/src/junction.rs
index 3d805c4..fb09e55 100644
--- a/src/junction.rs
+++ b/src/junction.rs
@@ -156,7 +156,10 @@ impl Junction {
 
 impl Connectable for Junction {
 
-    fn add_output(&mut self, _port: OutputPort, breakable: Breakable, src_id: usize, dst_id: usize) -> std::result::Result<Pull, ConnectableAddOutputError> {
+    fn add_output(&mut self, port: OutputPort, breakable: Breakable, src_id: usize, dst_id: usize) -> std::result::Result<Pull, ConnectableAddOutputError> {
+        if port != OutputPort::Out {
+            return Err(ConnectableAddOutputError::UnsupportedPort(port));
+        }
         let (child_stdout_push_channel, stdout_io_reciever_channel) = bounded(self.stdout_size);
         self.stdout.push(Push::IoSender(Journey { src: src_id, src_port: Some(OutputPort::Out), dst: dst_id, breakable }, child_stdout_push_channel));
         Ok(Pull::Receiver(PullJourney { src: src_id, dst: dst_id }, stdout_io_reciever_channel))
-- 
2.43.0


From 85c575091ceb86493057970fb6ffafec8a450f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:46 +0000
Subject: [PATCH 25/25] fix: an empty source or destination was an error
 instead of no input or no output

---
 src/drain.rs  | 1 +
 src/faucet.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/drain.rs b/src/drain.rs
index d57186e..90fecaf 100644
--- a/src/drain.rs
+++ b/src/drain.rs
@@ -63,6 +63,7 @@ impl StartableControl for Drain {
         if let Some(pull) = std::mem::take(&mut self.stdin) {
 
             let push = match (pull.journey(), std::mem::take(&mut self.write_location)) {
+                (Some(PullJourney { .. }), Some(f)) if f.is_empty() => Push::None,
                 (Some(PullJourney { .. }), Some(f)) if f == "/dev/null" => Push::None,
                 (Some(PullJourney { src, dst }), Some(f)) if f == "-" => Push::Stdout(Journey { src: *src, src_port: None, dst: *dst, breakable: Breakable::Terminate }, async_std::io::stdout()),
                 (Some(PullJourney { src, dst }), Some(f)) if f == "_" => Push::Stderr(Journey { src: *src, src_port: None, dst: *dst, breakable: Breakable::Terminate }, async_std::io::stderr()),
diff --git a/src/faucet.rs b/src/faucet.rs
index 8e12ac9..f0aa317 100644
--- a/src/faucet.rs
+++ b/src/faucet.rs
@@ -89,6 +89,7 @@ impl StartableControl for Faucet {
     async fn start(&mut self, spy: Option<Sender<SpyMessage>>) -> MotionResult<usize> {
         let read_location = std::mem::take(&mut self.read_location);
         self.stdin = Some(match (self.pull_journey, read_location) {
+            (Some(_), Some(f)) if f.is_empty() => Pull::None,
             (Some(journey), Some(f)) if f == "-" => Pull::Stdin(journey, async_std::io::stdin(), ReadSplitControl::new()),
             (Some(journey), Some(filename)) => {
                 match async_std::fs::File::open(filename).await {
-- 
2.43.0

