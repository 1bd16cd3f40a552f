From da0df608bceb8d2782e07e3fe2b1bf9feb140d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:49 +0000
Subject: [PATCH 01/49] verification hooks behind cfg(hydra_verif): frame
 access, transparent ring hash

---
 hydra/src/hash_ring.rs |  4 ++++
 hydra/src/lib.rs       |  4 ++++
 hydra/src/verif.rs     | 42 ++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 50 insertions(+)
 create mode 100644 hydra/src/verif.rs

diff --git a/hydra/src/hash_ring.rs b/hydra/src/hash_ring.rs
index d620e36..cd6b70f 100644
--- a/hydra/src/hash_ring.rs
+++ b/hydra/src/hash_ring.rs
@@ -1,5 +1,6 @@
 use std::hash::BuildHasher;
 use std::hash::Hash;
+#[cfg(not(hydra_verif))]
 use std::hash::RandomState;
 use std::sync::Arc;
 use std::sync::Mutex;
@@ -8,6 +9,9 @@ use arc_swap::ArcSwap;
 
 use dashmap::DashMap;
 
+#[cfg(hydra_verif)]
+use crate::verif::RandomState;
+
 /// Internal key, node pair.
 #[derive(Clone)]
 struct Node<T: Clone> {
diff --git a/hydra/src/lib.rs b/hydra/src/lib.rs
index e8ebdd3..f641bdd 100644
--- a/hydra/src/lib.rs
+++ b/hydra/src/lib.rs
@@ -112,3 +112,7 @@ pub(crate) use process_monitor::*;
 pub(crate) use process_registration::*;
 pub(crate) use process_registry::*;
 pub(crate) use serialize::*;
+
+/// Access for external verification harnesses.
+#[cfg(hydra_verif)]
+pub mod verif;
diff --git a/hydra/src/verif.rs b/hydra/src/verif.rs
new file mode 100644
index 0000000..cb76265
--- /dev/null
+++ b/hydra/src/verif.rs
@@ -0,0 +1,42 @@
+use std::hash::BuildHasher;
+use std::hash::Hasher;
+
+pub use crate::frame::*;
+
+/// A transparent hash state: an integer key hashes to itself, so harnesses control the positions on a hash ring.
+#[derive(Default, Clone)]
+pub struct RandomState;
+
+impl RandomState {
+    /// Constructs a new [RandomState].
+    pub const fn new() -> Self {
+        Self
+    }
+}
+
+/// The hasher of [RandomState].
+pub struct TransparentHasher(u64);
+
+impl BuildHasher for RandomState {
+    type Hasher = TransparentHasher;
+
+    fn build_hasher(&self) -> Self::Hasher {
+        TransparentHasher(0)
+    }
+}
+
+impl Hasher for TransparentHasher {
+    fn write(&mut self, bytes: &[u8]) {
+        for byte in bytes {
+            self.0 = self.0.rotate_left(8) ^ u64::from(*byte);
+        }
+    }
+
+    fn write_u64(&mut self, value: u64) {
+        self.0 = value;
+    }
+
+    fn finish(&self) -> u64 {
+        self.0
+    }
+}
-- 
2.43.0


From 9c457588de03324fdaef3a471a0cc0846cee2737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:47 +0000
Subject: [PATCH 02/49] fix: decode a frame from its own payload only, reject
 malformed payloads instead of waiting for more

---
 hydra/src/frame/mod.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/hydra/src/frame/mod.rs b/hydra/src/frame/mod.rs
index 1a95b71..03fd419 100644
--- a/hydra/src/frame/mod.rs
+++ b/hydra/src/frame/mod.rs
@@ -7,6 +7,7 @@ use bincode::Encode;
 use bincode::config;
 use bincode::config::Configuration;
 use bincode::config::Fixint;
+use bincode::config::Limit;
 use bincode::config::LittleEndian;
 use bincode::error::DecodeError;
 
@@ -40,9 +41,15 @@ pub use pong::*;
 pub use send::*;
 
 /// Bincode configuration for the frame codec.
-const FRAME_CONFIG: Configuration<LittleEndian, Fixint> = config::standard()
+///
+/// The limit is the largest payload a marker can announce, so that a length inside of a payload can't request more.
+const FRAME_CONFIG: Configuration<LittleEndian, Fixint, Limit<FRAME_LIMIT>> = config::standard()
     .with_fixed_int_encoding()
-    .with_little_endian();
+    .with_little_endian()
+    .with_limit::<FRAME_LIMIT>();
+
+/// The size of the largest payload.
+const FRAME_LIMIT: usize = u32::MAX as usize;
 
 /// The size of the marker.
 const MARKER_LENGTH: usize = std::mem::size_of::<u32>();
@@ -170,17 +177,15 @@ impl Decoder for Codec {
             return Ok(None);
         }
 
-        let result = bincode::decode_from_slice(&src[4..], FRAME_CONFIG);
+        let payload = &src[MARKER_LENGTH..MARKER_LENGTH + length];
+        let result: Result<(Frame, usize), DecodeError> =
+            bincode::decode_from_slice(payload, FRAME_CONFIG);
 
         match result {
             Ok((frame, _)) => {
                 src.advance(MARKER_LENGTH + length);
                 Ok(Some(frame))
             }
-            Err(DecodeError::UnexpectedEnd { additional }) => {
-                src.reserve(additional);
-                Ok(None)
-            }
             Err(e) => Err(Error::new(ErrorKind::InvalidData, e)),
         }
     }
-- 
2.43.0


From d97dbf110c1fb9df81e417bc99fa9ba8ba3dbe26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:47 +0000
Subject: [PATCH 03/49] fix: clear removes the overrides of a hash ring too

---
 hydra/src/hash_ring.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hydra/src/hash_ring.rs b/hydra/src/hash_ring.rs
index cd6b70f..02e6565 100644
--- a/hydra/src/hash_ring.rs
+++ b/hydra/src/hash_ring.rs
@@ -209,7 +209,8 @@ where
     pub fn clear(&self) {
         let _ring_lock = self.ring_lock.lock().unwrap();
 
-        self.ring.store(Arc::new(Vec::new()))
+        self.ring.store(Arc::new(Vec::new()));
+        self.overrides.clear();
     }
 
     /// Hashes the given key using the selected hasher.
-- 
2.43.0


From 89e37c286651a798d5dc914ea325e86d015fed3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:42 +0000
Subject: [PATCH 04/49] fix: keep a process registered while a link or monitor
 to it is installed

---
 hydra/src/process_registry.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/hydra/src/process_registry.rs b/hydra/src/process_registry.rs
index 38929fe..c8e9410 100644
--- a/hydra/src/process_registry.rs
+++ b/hydra/src/process_registry.rs
@@ -30,11 +30,10 @@ static PROCESS_TIMERS: Lazy<DashMap<u64, (Instant, JoinHandle<()>)>> = Lazy::new
 ///
 /// The process will exist for the duration of `callback`.
 pub fn process_exists_lock<C: FnOnce(bool) -> R, R>(pid: Pid, callback: C) -> R {
-    if PROCESS_REGISTRY.get(&pid.id()).is_some() {
-        callback(true)
-    } else {
-        callback(false)
-    }
+    // Holding on to the entry prevents the process from being dropped before `callback` is finished.
+    let process = PROCESS_REGISTRY.get(&pid.id());
+
+    callback(process.is_some())
 }
 
 /// Drops a process from the registry.
-- 
2.43.0


From 7c235cf511603005abf19bdc71a24b9bcce8223e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:42 +0000
Subject: [PATCH 05/49] fix: unlink removes both directions of a link

---
 hydra/src/link.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hydra/src/link.rs b/hydra/src/link.rs
index 7ee1e19..90b2758 100644
--- a/hydra/src/link.rs
+++ b/hydra/src/link.rs
@@ -72,6 +72,13 @@ pub fn link_install(process: Pid, from: Pid) {
 
 /// Destroys a link for the given local process.
 pub fn link_destroy(process: Pid, from: Pid) {
+    if from.is_local() {
+        LINKS.alter(&from.id(), |_, mut value| {
+            value.remove(&process);
+            value
+        });
+    }
+
     if process.is_local() {
         LINKS.alter(&process.id(), |_, mut value| {
             value.remove(&from);
-- 
2.43.0


From 2976d5ba6d3d311424bab2edfa21f96353c46f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:42 +0000
Subject: [PATCH 06/49] fix: register a process before it starts to run

---
 hydra/src/process.rs              |  7 +++++--
 hydra/src/process_registration.rs | 17 ++++++++++++-----
 hydra/src/process_registry.rs     | 22 ++++++++++++++++++----
 3 files changed, 35 insertions(+), 11 deletions(-)

diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index 5c3e855..ff847cf 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -42,6 +42,7 @@ use crate::process_register_timer;
 use crate::process_send;
 use crate::process_set_exit_reason;
 use crate::process_set_flags;
+use crate::process_set_handle;
 use crate::process_unregister;
 use crate::ArgumentError;
 use crate::AsyncCatchUnwind;
@@ -481,6 +482,9 @@ where
         result = SpawnResult::PidMonitor(pid, monitor);
     }
 
+    // Register the process under it's new id, before it has a chance to run, or finish.
+    process_insert(next_id, ProcessRegistration::new(tx));
+
     // Spawn the process with the newly created process object in scope.
     let handle = tokio::spawn(PROCESS.scope(process, async move {
         if let Err(e) = AsyncCatchUnwind::new(AssertUnwindSafe(function)).await {
@@ -488,8 +492,7 @@ where
         }
     }));
 
-    // Register the process under it's new id.
-    process_insert(next_id, ProcessRegistration::new(handle, tx));
+    process_set_handle(next_id, handle);
 
     result
 }
diff --git a/hydra/src/process_registration.rs b/hydra/src/process_registration.rs
index 43cde5b..26bd3c0 100644
--- a/hydra/src/process_registration.rs
+++ b/hydra/src/process_registration.rs
@@ -6,8 +6,8 @@ use crate::ProcessSend;
 
 /// Process registration information.
 pub struct ProcessRegistration {
-    /// A handle to the task that this process lives in.
-    pub handle: JoinHandle<()>,
+    /// A handle to the task that this process lives in or [None] when it's still being spawned.
+    pub handle: Option<JoinHandle<()>>,
     /// The sender of this process.
     pub sender: ProcessSend,
     /// Registered name of this process or [None] when unregistered.
@@ -19,14 +19,21 @@ pub struct ProcessRegistration {
 }
 
 impl ProcessRegistration {
-    /// Constructs a new [ProcessRegistration] from a given task handle, and channel.
-    pub const fn new(handle: JoinHandle<()>, sender: ProcessSend) -> Self {
+    /// Constructs a new [ProcessRegistration] from a given channel.
+    pub const fn new(sender: ProcessSend) -> Self {
         Self {
-            handle,
+            handle: None,
             sender,
             name: None,
             flags: ProcessFlags::empty(),
             exit_reason: None,
         }
     }
+
+    /// Aborts the task that this process lives in.
+    pub fn abort(&self) {
+        if let Some(handle) = &self.handle {
+            handle.abort();
+        }
+    }
 }
diff --git a/hydra/src/process_registry.rs b/hydra/src/process_registry.rs
index c8e9410..d60bb3d 100644
--- a/hydra/src/process_registry.rs
+++ b/hydra/src/process_registry.rs
@@ -62,6 +62,20 @@ pub fn process_insert(id: u64, registration: ProcessRegistration) {
     PROCESS_REGISTRY.insert(id, registration);
 }
 
+/// Sets the task handle of a process, if it's still running.
+pub fn process_set_handle(id: u64, handle: JoinHandle<()>) {
+    PROCESS_REGISTRY.alter(&id, |_, mut process| {
+        process.handle = Some(handle);
+
+        // An exit signal arrived before there was a task to abort.
+        if process.exit_reason.is_some() {
+            process.abort();
+        }
+
+        process
+    });
+}
+
 /// Removes a registered name.
 pub fn process_name_remove(name: &str) {
     PROCESS_NAMES.remove(name);
@@ -152,7 +166,7 @@ pub fn process_exit(pid: Pid, from: Pid, exit_reason: ExitReason) {
             ExitReason::Normal | ExitReason::Ignore => {
                 if pid == from {
                     process.exit_reason = Some(exit_reason);
-                    process.handle.abort();
+                    process.abort();
                 } else if trapping_exits {
                     process
                         .sender
@@ -165,12 +179,12 @@ pub fn process_exit(pid: Pid, from: Pid, exit_reason: ExitReason) {
             }
             ExitReason::Kill => {
                 process.exit_reason = Some(exit_reason);
-                process.handle.abort();
+                process.abort();
             }
             ExitReason::Custom(_) => {
                 if pid == from || !trapping_exits {
                     process.exit_reason = Some(exit_reason);
-                    process.handle.abort();
+                    process.abort();
                 } else {
                     process
                         .sender
@@ -200,7 +214,7 @@ pub fn process_exit_signal_linked(pid: Pid, from: Pid, exit_reason: ExitReason)
                 .unwrap();
         } else if !exit_reason.is_normal() {
             process.exit_reason = Some(exit_reason);
-            process.handle.abort();
+            process.abort();
         }
 
         process
-- 
2.43.0


From 4051c3f8e50ce21e6d69dd2d1c963a970b7f0351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:42 +0000
Subject: [PATCH 07/49] fix: demonitor discards a down message that a selective
 receive has looked at

---
 hydra/src/process_receiver.rs | 60 +++++++++++++++++++++++++++--------
 1 file changed, 47 insertions(+), 13 deletions(-)

diff --git a/hydra/src/process_receiver.rs b/hydra/src/process_receiver.rs
index 93029f9..f01bf16 100644
--- a/hydra/src/process_receiver.rs
+++ b/hydra/src/process_receiver.rs
@@ -46,6 +46,9 @@ where
             let mut items = process.items.borrow_mut();
             let mut found: Option<usize> = None;
 
+            // Down messages of monitors that were removed in the meantime are discarded.
+            items.retain(|item| !is_demonitored(item));
+
             for (index, item) in items.iter_mut().enumerate() {
                 match process_item::<T>(item) {
                     Ok(Some(message)) => {
@@ -112,8 +115,16 @@ where
             let mut items = process.items.borrow_mut();
 
             items.retain_mut(|item| match process_item::<T>(item) {
-                Ok(Some(message)) => !filter(&message),
-                Ok(None) => true,
+                Ok(Some(message)) => {
+                    let discard = filter(&message);
+
+                    if discard {
+                        monitor_received(item);
+                    }
+
+                    !discard
+                }
+                Ok(None) => false,
                 Err(_) => {
                     if self.ignore_type {
                         true
@@ -129,7 +140,9 @@ where
         for mut item in receiver.drain() {
             match process_item::<T>(&mut item) {
                 Ok(Some(message)) => {
-                    if !filter(&message) {
+                    if filter(&message) {
+                        monitor_received(&item);
+                    } else {
                         PROCESS.with(|process| process.items.borrow_mut().push(item));
                     }
                 }
@@ -152,9 +165,31 @@ where
     }
 }
 
+/// Removes the monitor, if any, that the given item is the down message of, once it's taken from the mailbox.
+fn monitor_received(item: &ProcessItem) {
+    if let ProcessItem::MonitorProcessDown(_, reference, _)
+    | ProcessItem::MonitorNodeDown(_, reference) = item
+    {
+        PROCESS.with(|process| process.monitors.borrow_mut().remove(reference));
+    }
+}
+
+/// Returns `true` if the item is the down message of a monitor that is no longer installed.
+fn is_demonitored(item: &ProcessItem) -> bool {
+    match item {
+        ProcessItem::MonitorProcessDown(_, reference, _)
+        | ProcessItem::MonitorNodeDown(_, reference) => {
+            PROCESS.with(|process| !process.monitors.borrow().contains_key(reference))
+        }
+        _ => false,
+    }
+}
+
 /// Converts a processed item into a message.
 #[inline(always)]
 fn convert_item<T: Receivable>(item: ProcessItem) -> Message<T> {
+    monitor_received(&item);
+
     match item {
         // If we got here, the deserialization has already taken place.
         ProcessItem::UserRemoteMessage(_) => unreachable!(),
@@ -162,9 +197,13 @@ fn convert_item<T: Receivable>(item: ProcessItem) -> Message<T> {
             deserialized.downcast().map(|x| Message::User(*x)).unwrap()
         }
         ProcessItem::SystemMessage(system) => Message::System(system),
+        ProcessItem::MonitorProcessDown(dest, reference, exit_reason) => {
+            Message::System(SystemMessage::ProcessDown(dest, reference, exit_reason))
+        }
+        ProcessItem::MonitorNodeDown(node, reference) => {
+            Message::System(SystemMessage::NodeDown(node, reference))
+        }
         // Handled during item processing.
-        ProcessItem::MonitorProcessDown(_, _, _) => unreachable!(),
-        ProcessItem::MonitorNodeDown(_, _) => unreachable!(),
         ProcessItem::MonitorProcessUpdate(_, _) => unreachable!(),
         ProcessItem::AliasDeactivated(_) => unreachable!(),
     }
@@ -195,21 +234,19 @@ fn process_item<T: Receivable>(item: &mut ProcessItem) -> Result<Option<Message<
             .map(Some),
         ProcessItem::SystemMessage(system) => Ok(Some(Message::System(system.clone()))),
         ProcessItem::MonitorProcessDown(dest, reference, exit_reason) => {
-            if PROCESS.with(|process| process.monitors.borrow_mut().remove(reference).is_none()) {
+            if PROCESS.with(|process| !process.monitors.borrow().contains_key(reference)) {
                 // If the process has already called demonitor, discard the message.
                 // This prevents the need for a flush option.
                 return Ok(None);
             }
 
+            // The monitor is kept until the message is taken, it could be removed before that.
             let system = SystemMessage::ProcessDown(dest.clone(), *reference, exit_reason.clone());
 
-            // Make sure processing only happens one time.
-            *item = ProcessItem::SystemMessage(system.clone());
-
             Ok(Some(Message::System(system)))
         }
         ProcessItem::MonitorNodeDown(node, reference) => {
-            if PROCESS.with(|process| process.monitors.borrow_mut().remove(reference).is_none()) {
+            if PROCESS.with(|process| !process.monitors.borrow().contains_key(reference)) {
                 // If the process has already called demonitor, discard the message.
                 // This prevents the need for a flush option.
                 return Ok(None);
@@ -217,9 +254,6 @@ fn process_item<T: Receivable>(item: &mut ProcessItem) -> Result<Option<Message<
 
             let system = SystemMessage::NodeDown(node.clone(), *reference);
 
-            // Make sure processing only happens one time.
-            *item = ProcessItem::SystemMessage(system.clone());
-
             Ok(Some(Message::System(system)))
         }
         ProcessItem::MonitorProcessUpdate(reference, pid) => {
-- 
2.43.0


From 45a3b73badddb5d36611b81b0f74dfd69b4ce1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:35 +0000
Subject: [PATCH 08/49] fix: a serialized message that a filter rejects stays
 receivable as its own type

---
 hydra/src/node_kernel.rs      |  6 +++---
 hydra/src/process_item.rs     |  6 +++---
 hydra/src/process_kernel.rs   |  6 +++---
 hydra/src/process_receiver.rs | 30 +++++++++++++++++-------------
 4 files changed, 26 insertions(+), 22 deletions(-)

diff --git a/hydra/src/node_kernel.rs b/hydra/src/node_kernel.rs
index 04ea5f9..9169096 100644
--- a/hydra/src/node_kernel.rs
+++ b/hydra/src/node_kernel.rs
@@ -30,16 +30,16 @@ pub fn node_forward_send(mut send: Send) {
         match target {
             SendTarget::Pid(id) => {
                 process_sender(Pid::local(id.get()))
-                    .map(|sender| sender.send(ProcessItem::UserRemoteMessage(message)));
+                    .map(|sender| sender.send(ProcessItem::UserRemoteMessage(message, None)));
             }
             SendTarget::Named(name) => {
                 process_name_lookup(&name)
                     .and_then(process_sender)
-                    .map(|sender| sender.send(ProcessItem::UserRemoteMessage(message)));
+                    .map(|sender| sender.send(ProcessItem::UserRemoteMessage(message, None)));
             }
             SendTarget::Alias(alias) => {
                 alias_retrieve(Reference::Local(alias))
-                    .map(|alias| alias.sender.send(ProcessItem::UserRemoteMessage(message)));
+                    .map(|alias| alias.sender.send(ProcessItem::UserRemoteMessage(message, None)));
             }
         }
     }
diff --git a/hydra/src/process_item.rs b/hydra/src/process_item.rs
index 8094360..04b83f5 100644
--- a/hydra/src/process_item.rs
+++ b/hydra/src/process_item.rs
@@ -10,8 +10,8 @@ use crate::SystemMessage;
 
 /// Represents a single unit of computation or a message for the process.
 pub enum ProcessItem {
-    /// Sent from a remote process in a different userspace.
-    UserRemoteMessage(Vec<u8>),
+    /// Sent from a remote process in a different userspace, and the value last deserialized from it.
+    UserRemoteMessage(Vec<u8>, Option<Box<dyn std::any::Any + Send>>),
     /// Sent from a process in the same userspace.
     UserLocalMessage(Box<dyn std::any::Any + Send>),
     /// Sent from the system.
@@ -47,7 +47,7 @@ where
 impl Debug for ProcessItem {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
-            Self::UserRemoteMessage(_) => write!(f, "UserRemoteMessage(..)"),
+            Self::UserRemoteMessage(_, _) => write!(f, "UserRemoteMessage(..)"),
             Self::UserLocalMessage(_) => write!(f, "UserLocalMessage(..)"),
             Self::SystemMessage(system) => write!(f, "SystemMessage({:?})", system),
             Self::MonitorProcessDown(dest, reference, exit_reason) => write!(
diff --git a/hydra/src/process_kernel.rs b/hydra/src/process_kernel.rs
index 59bf0d7..cadd0be 100644
--- a/hydra/src/process_kernel.rs
+++ b/hydra/src/process_kernel.rs
@@ -88,16 +88,16 @@ pub fn process_send<M: Receivable>(dests: Dests, message: M) {
 fn process_send_unoptimal(dest: Dest, message: Vec<u8>) {
     match dest {
         Dest::Pid(pid) => {
-            process_sender(pid).map(|sender| sender.send(ProcessItem::UserRemoteMessage(message)));
+            process_sender(pid).map(|sender| sender.send(ProcessItem::UserRemoteMessage(message, None)));
         }
         Dest::Named(name, _) => {
             process_name_lookup(name.as_ref())
                 .and_then(process_sender)
-                .map(|sender| sender.send(ProcessItem::UserRemoteMessage(message)));
+                .map(|sender| sender.send(ProcessItem::UserRemoteMessage(message, None)));
         }
         Dest::Alias(reference) => {
             alias_retrieve(reference)
-                .map(|alias| alias.sender.send(ProcessItem::UserRemoteMessage(message)));
+                .map(|alias| alias.sender.send(ProcessItem::UserRemoteMessage(message, None)));
         }
     }
 }
diff --git a/hydra/src/process_receiver.rs b/hydra/src/process_receiver.rs
index f01bf16..0a791e8 100644
--- a/hydra/src/process_receiver.rs
+++ b/hydra/src/process_receiver.rs
@@ -192,8 +192,9 @@ fn convert_item<T: Receivable>(item: ProcessItem) -> Message<T> {
 
     match item {
         // If we got here, the deserialization has already taken place.
-        ProcessItem::UserRemoteMessage(_) => unreachable!(),
-        ProcessItem::UserLocalMessage(deserialized) => {
+        ProcessItem::UserRemoteMessage(_, None) => unreachable!(),
+        ProcessItem::UserRemoteMessage(_, Some(deserialized))
+        | ProcessItem::UserLocalMessage(deserialized) => {
             deserialized.downcast().map(|x| Message::User(*x)).unwrap()
         }
         ProcessItem::SystemMessage(system) => Message::System(system),
@@ -212,22 +213,25 @@ fn convert_item<T: Receivable>(item: ProcessItem) -> Message<T> {
 /// Processes a process item, which could be a command, or a message, or anything.
 #[inline(always)]
 fn process_item<T: Receivable>(item: &mut ProcessItem) -> Result<Option<Message<&T>>, ()> {
-    // Special case for serialized messages, we'll convert them to deserialized one time to prevent
-    // deserializing the value more than once, then convert to a reference.
-    if let ProcessItem::UserRemoteMessage(serialized) = item {
-        let result: Result<T, _> = deserialize_value(serialized);
-
-        if let Ok(result) = result {
-            *item = ProcessItem::UserLocalMessage(Box::new(result));
-        } else {
-            return Err(());
+    // Special case for serialized messages, we'll keep the deserialized value to prevent deserializing it more
+    // than once. The serialized value is kept too, this might not be the type the message is received as.
+    if let ProcessItem::UserRemoteMessage(serialized, deserialized) = item {
+        if !deserialized.as_ref().is_some_and(|value| value.is::<T>()) {
+            let result: Result<T, _> = deserialize_value(serialized);
+
+            if let Ok(result) = result {
+                *deserialized = Some(Box::new(result));
+            } else {
+                return Err(());
+            }
         }
     }
 
     match item {
         // Explicitly handled first, so that we can process the other values later.
-        ProcessItem::UserRemoteMessage(_) => unreachable!(),
-        ProcessItem::UserLocalMessage(deserialized) => deserialized
+        ProcessItem::UserRemoteMessage(_, None) => unreachable!(),
+        ProcessItem::UserRemoteMessage(_, Some(deserialized))
+        | ProcessItem::UserLocalMessage(deserialized) => deserialized
             .downcast_ref()
             .map(Message::User)
             .ok_or(())
-- 
2.43.0


From baa249bce007cf9cbed37173ef82d4ba0624f0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:35 +0000
Subject: [PATCH 09/49] fix: a process that ends frees only its own name

---
 hydra/src/process.rs          | 2 +-
 hydra/src/process_registry.rs | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index ff847cf..d62f670 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -420,7 +420,7 @@ impl Drop for Process {
         let process = process_drop(self.pid).unwrap();
 
         if let Some(name) = process.name {
-            process_name_remove(&name);
+            process_name_remove(&name, self.pid);
         }
 
         let exit_reason = process.exit_reason.unwrap_or_default();
diff --git a/hydra/src/process_registry.rs b/hydra/src/process_registry.rs
index d60bb3d..5b6abf8 100644
--- a/hydra/src/process_registry.rs
+++ b/hydra/src/process_registry.rs
@@ -76,9 +76,9 @@ pub fn process_set_handle(id: u64, handle: JoinHandle<()>) {
     });
 }
 
-/// Removes a registered name.
-pub fn process_name_remove(name: &str) {
-    PROCESS_NAMES.remove(name);
+/// Removes a registered name, if it's (still) the name of the given process.
+pub fn process_name_remove(name: &str, pid: Pid) {
+    PROCESS_NAMES.remove_if(name, |_, process_id| *process_id == pid.id());
 }
 
 /// Checks if the process is alive.
-- 
2.43.0


From 56eb1720361c8ddeda26b78be898a9d7007d9904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:35 +0000
Subject: [PATCH 10/49] fix: unalias leaves the aliases of other processes
 alone

---
 hydra/src/alias.rs   |  7 +++++++
 hydra/src/process.rs | 12 ++++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/hydra/src/alias.rs b/hydra/src/alias.rs
index 7353c76..80abd3d 100644
--- a/hydra/src/alias.rs
+++ b/hydra/src/alias.rs
@@ -28,6 +28,13 @@ pub fn alias_destroy(reference: Reference) -> bool {
     ALIASES.remove(&reference.id()).is_some()
 }
 
+/// Destroys an alias for the given reference if it belongs to the given sender, returning `true` if it did.
+pub fn alias_destroy_owned(reference: Reference, sender: &ProcessSend) -> bool {
+    ALIASES
+        .remove_if(&reference.id(), |_, alias| alias.sender.same_channel(sender))
+        .is_some()
+}
+
 /// Destroys all of the alias for every given reference.
 pub fn alias_destroy_all<'a, A: IntoIterator<Item = &'a u64>>(ids: A) {
     for id in ids {
diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index d62f670..3a9ed13 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -13,6 +13,7 @@ use flume::Sender;
 use crate::alias_create;
 use crate::alias_destroy;
 use crate::alias_destroy_all;
+use crate::alias_destroy_owned;
 use crate::link_create;
 use crate::link_destroy;
 use crate::link_fill_info;
@@ -120,9 +121,16 @@ impl Process {
     ///
     /// Returns `true` if the alias was currently-active for the current process, or `false` otherwise.
     pub fn unalias(alias: Reference) -> bool {
-        PROCESS.with(|process| process.aliases.borrow_mut().remove(&alias.id()));
+        // The aliases of the current process are always local.
+        if alias.is_remote() {
+            return false;
+        }
+
+        PROCESS.with(|process| {
+            process.aliases.borrow_mut().remove(&alias.id());
 
-        alias_destroy(alias)
+            alias_destroy_owned(alias, &process.sender)
+        })
     }
 
     /// Returns the current [Pid].
-- 
2.43.0


From 5ceed963596a7ed65896ae29067a20624c0c56df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:35 +0000
Subject: [PATCH 11/49] fix: the alias of a monitor by name on another node
 ends with the monitor

---
 hydra/src/monitor.rs | 8 ++++----
 hydra/src/process.rs | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/hydra/src/monitor.rs b/hydra/src/monitor.rs
index 5bcb11a..0d240ed 100644
--- a/hydra/src/monitor.rs
+++ b/hydra/src/monitor.rs
@@ -64,6 +64,10 @@ pub fn monitor_destroy_all<'a, M: IntoIterator<Item = (&'a Reference, &'a Proces
     monitors: M,
 ) {
     for (reference, monitor) in monitors {
+        if reference.is_local() {
+            alias_destroy(*reference);
+        }
+
         match monitor {
             ProcessMonitor::ForProcess(pid) => {
                 let Some(pid) = pid else {
@@ -85,10 +89,6 @@ pub fn monitor_destroy_all<'a, M: IntoIterator<Item = (&'a Reference, &'a Proces
                 node_monitor_destroy(node.clone(), *reference);
             }
         }
-
-        if reference.is_local() {
-            alias_destroy(*reference);
-        }
     }
 }
 
diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index 3a9ed13..4fa35f7 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -373,13 +373,13 @@ impl Process {
             panic!("Invalid process monitor reference!");
         };
 
+        alias_destroy(monitor);
+
         let Some(pid) = pid else {
             return;
         };
 
         monitor_destroy(pid, monitor);
-
-        alias_destroy(monitor);
     }
 
     /// Returns the current process flags.
-- 
2.43.0


From 8fc5fc0958b78b67d49b68bb3f3c2bbcad25f914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:35 +0000
Subject: [PATCH 12/49] fix: a timer that fires at once leaves no entry behind,
 one that is cancelled never sends, any delay is usable

---
 hydra/src/process.rs          |  9 ++++++---
 hydra/src/process_registry.rs | 31 +++++++++++++++++++++++++++----
 2 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index 4fa35f7..2b0ce96 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -30,6 +30,7 @@ use crate::process_alive;
 use crate::process_destroy_timer;
 use crate::process_drop;
 use crate::process_exit;
+use crate::process_expire_timer;
 use crate::process_flags;
 use crate::process_info;
 use crate::process_insert;
@@ -44,6 +45,7 @@ use crate::process_send;
 use crate::process_set_exit_reason;
 use crate::process_set_flags;
 use crate::process_set_handle;
+use crate::process_set_timer_handle;
 use crate::process_unregister;
 use crate::ArgumentError;
 use crate::AsyncCatchUnwind;
@@ -183,14 +185,15 @@ impl Process {
 
         let reference = Reference::new();
 
+        process_register_timer(reference, duration);
+
         let handle = tokio::spawn(async move {
             Process::sleep(duration).await;
-            Process::send(dest, message);
 
-            process_destroy_timer(reference);
+            process_expire_timer(reference, || Process::send(dest, message));
         });
 
-        process_register_timer(reference, duration, handle);
+        process_set_timer_handle(reference, handle);
 
         reference
     }
diff --git a/hydra/src/process_registry.rs b/hydra/src/process_registry.rs
index 5b6abf8..baae424 100644
--- a/hydra/src/process_registry.rs
+++ b/hydra/src/process_registry.rs
@@ -24,7 +24,8 @@ static PROCESS_REGISTRY: Lazy<DashMap<u64, ProcessRegistration>> = Lazy::new(Das
 /// A collection of registered named processes.
 static PROCESS_NAMES: Lazy<DashMap<String, u64>> = Lazy::new(DashMap::new);
 /// A collection of process timers.
-static PROCESS_TIMERS: Lazy<DashMap<u64, (Instant, JoinHandle<()>)>> = Lazy::new(DashMap::new);
+#[allow(clippy::type_complexity)]
+static PROCESS_TIMERS: Lazy<DashMap<u64, (Instant, Option<JoinHandle<()>>)>> = Lazy::new(DashMap::new);
 
 /// Checks for the given `pid` and calls the given `callback` with the result if it exists or not.
 ///
@@ -259,8 +260,30 @@ pub fn process_name_list() -> Vec<String> {
 }
 
 /// Registers a timer.
-pub fn process_register_timer(timer: Reference, duration: Duration, handle: JoinHandle<()>) {
-    PROCESS_TIMERS.insert(timer.id(), (Instant::now() + duration, handle));
+pub fn process_register_timer(timer: Reference, duration: Duration) {
+    let now = Instant::now();
+
+    // A duration that can't be represented never expires, 30 years from now is far enough.
+    let expires = now
+        .checked_add(duration)
+        .unwrap_or_else(|| now + Duration::from_secs(86400 * 365 * 30));
+
+    PROCESS_TIMERS.insert(timer.id(), (expires, None));
+}
+
+/// Sets the task handle of a timer, if it's still pending.
+pub fn process_set_timer_handle(timer: Reference, handle: JoinHandle<()>) {
+    PROCESS_TIMERS.alter(&timer.id(), |_, (expires, _)| (expires, Some(handle)));
+}
+
+/// Unregisters an expired timer and calls `callback`, unless it was cancelled.
+///
+/// The timer can't be cancelled for the duration of `callback`.
+pub fn process_expire_timer<C: FnOnce()>(timer: Reference, callback: C) {
+    PROCESS_TIMERS.remove_if(&timer.id(), |_, _| {
+        callback();
+        true
+    });
 }
 
 /// Reads a timer.
@@ -279,7 +302,7 @@ pub fn process_read_timer(timer: Reference) -> Option<Duration> {
 
 /// Unregisters and kills a timer.
 pub fn process_destroy_timer(timer: Reference) {
-    if let Some((_, (_, handle))) = PROCESS_TIMERS.remove(&timer.id()) {
+    if let Some((_, (_, Some(handle)))) = PROCESS_TIMERS.remove(&timer.id()) {
         handle.abort();
     }
 }
-- 
2.43.0


From de9ced6e557ce0097aa7825956b34e2e69957f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:35 +0000
Subject: [PATCH 13/49] fix: pids and references stay local when a message is
 serialized without a local node

---
 hydra/src/pid.rs       | 5 ++++-
 hydra/src/reference.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/hydra/src/pid.rs b/hydra/src/pid.rs
index 76016d7..d512173 100644
--- a/hydra/src/pid.rs
+++ b/hydra/src/pid.rs
@@ -17,6 +17,7 @@ use crate::LOCAL_NODE_ID;
 enum PidWire {
     WithNode(NonZeroU64, String, SocketAddr),
     NodeUnavailable(NonZeroU64),
+    Local(NonZeroU64),
 }
 
 /// A unique identifier of a process in hydra.
@@ -81,7 +82,8 @@ impl Serialize for Pid {
         let pid: PidWire = match self {
             Self::Local(id) => match node_lookup_local() {
                 Some((name, address)) => PidWire::WithNode(*id, name, address),
-                None => PidWire::NodeUnavailable(*id),
+                // Without a local node, it can't leave this node.
+                None => PidWire::Local(*id),
             },
             Self::Remote(id, node) => match node_lookup_remote(*node) {
                 Some((name, address)) => PidWire::WithNode(*id, name, address),
@@ -114,6 +116,7 @@ impl<'de> Deserialize<'de> for Pid {
                 None => Ok(Pid::Remote(id, INVALID_NODE_ID)),
             },
             PidWire::NodeUnavailable(id) => Ok(Self::Remote(id, INVALID_NODE_ID)),
+            PidWire::Local(id) => Ok(Self::Local(id)),
         }
     }
 }
diff --git a/hydra/src/reference.rs b/hydra/src/reference.rs
index 5d1b338..eef16d1 100644
--- a/hydra/src/reference.rs
+++ b/hydra/src/reference.rs
@@ -20,6 +20,7 @@ use crate::LOCAL_NODE_ID;
 enum ReferenceWire {
     WithNode(NonZeroU64, String, SocketAddr),
     NodeUnavailable(NonZeroU64),
+    Local(NonZeroU64),
 }
 
 /// A unique id that pertains to a specific node.
@@ -97,7 +98,8 @@ impl Serialize for Reference {
         let reference: ReferenceWire = match self {
             Self::Local(id) => match node_lookup_local() {
                 Some((name, address)) => ReferenceWire::WithNode(*id, name, address),
-                None => ReferenceWire::NodeUnavailable(*id),
+                // Without a local node, it can't leave this node.
+                None => ReferenceWire::Local(*id),
             },
             Self::Remote(id, node) => match node_lookup_remote(*node) {
                 Some((name, address)) => ReferenceWire::WithNode(*id, name, address),
@@ -130,6 +132,7 @@ impl<'de> Deserialize<'de> for Reference {
                 None => Ok(Reference::Remote(id, INVALID_NODE_ID)),
             },
             ReferenceWire::NodeUnavailable(id) => Ok(Self::Remote(id, INVALID_NODE_ID)),
+            ReferenceWire::Local(id) => Ok(Self::Local(id)),
         }
     }
 }
-- 
2.43.0


From 0106daa36e30ce748e00887afc296a421372af27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:43 +0000
Subject: [PATCH 14/49] fix: a name and its process become free in one step
 when unregistered

---
 hydra/src/process_registry.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/hydra/src/process_registry.rs b/hydra/src/process_registry.rs
index baae424..ab99abf 100644
--- a/hydra/src/process_registry.rs
+++ b/hydra/src/process_registry.rs
@@ -148,14 +148,19 @@ pub fn process_register(pid: Pid, name: String) -> Result<(), ArgumentError> {
 
 /// Unregisters a process with the given name.
 pub fn process_unregister(name: &str) {
-    let Some((_, pid)) = PROCESS_NAMES.remove(name) else {
-        panic!("Name {:?} was not registered!", name);
-    };
+    // The name must not be free before the process is, or a concurrent register sees one without the other.
+    let removed = PROCESS_NAMES.remove_if(name, |_, pid| {
+        PROCESS_REGISTRY.alter(pid, |_, mut process| {
+            process.name = None;
+            process
+        });
 
-    PROCESS_REGISTRY.alter(&pid, |_, mut process| {
-        process.name = None;
-        process
+        true
     });
+
+    if removed.is_none() {
+        panic!("Name {:?} was not registered!", name);
+    }
 }
 
 /// Processes an exit signal for the given [Pid] with the `exit_reason`.
-- 
2.43.0


From 1fd6dfb48f2d1a48f56005c5224332c28ecc2ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:32 +0000
Subject: [PATCH 15/49] fix: nothing is delivered over an alias once it has
 ended

---
 hydra/src/alias.rs          | 35 ++++++++++++++++++-----------------
 hydra/src/monitor.rs        | 13 +++++++------
 hydra/src/node_kernel.rs    |  8 +++++---
 hydra/src/node_registry.rs  |  9 +++++----
 hydra/src/process_kernel.rs |  8 +++-----
 5 files changed, 38 insertions(+), 35 deletions(-)

diff --git a/hydra/src/alias.rs b/hydra/src/alias.rs
index 80abd3d..e474700 100644
--- a/hydra/src/alias.rs
+++ b/hydra/src/alias.rs
@@ -10,7 +10,6 @@ use crate::Reference;
 static ALIASES: Lazy<DashMap<u64, Alias>> = Lazy::new(DashMap::new);
 
 /// The state of an active alias.
-#[derive(Clone)]
 pub struct Alias {
     /// The target process sender.
     pub sender: ProcessSend,
@@ -42,25 +41,27 @@ pub fn alias_destroy_all<'a, A: IntoIterator<Item = &'a u64>>(ids: A) {
     }
 }
 
-/// Retrieves an alias for the given reference if it's active.
-pub fn alias_retrieve(reference: Reference) -> Option<Alias> {
-    let mut active: Option<Alias> = None;
+/// Sends the given item over an alias if it's active.
+///
+/// The alias can't be destroyed while the item is being sent, so nothing arrives once it is.
+pub fn alias_send(reference: Reference, item: ProcessItem) {
+    let mut item = Some(item);
+    let mut result = Ok(());
 
-    let result = ALIASES.remove_if(&reference.id(), |_, alias| {
+    ALIASES.remove_if(&reference.id(), |_, alias| {
         if alias.reply {
-            true
-        } else {
-            active = Some(alias.clone());
-            false
-        }
-    });
-
-    result
-        .map(|(_, alias)| {
             let _ = alias
                 .sender
                 .send(ProcessItem::AliasDeactivated(reference.id()));
-            alias
-        })
-        .or(active)
+        }
+
+        if let Some(item) = item.take() {
+            result = alias.sender.send(item);
+        }
+
+        alias.reply
+    });
+
+    // An item that was not delivered is dropped here, after the alias was released.
+    drop((item, result));
 }
diff --git a/hydra/src/monitor.rs b/hydra/src/monitor.rs
index 0d240ed..3093177 100644
--- a/hydra/src/monitor.rs
+++ b/hydra/src/monitor.rs
@@ -97,6 +97,8 @@ pub fn monitor_install(process: Dest, reference: Reference, from: Pid) {
     let dest = process.clone();
 
     let send_process_down = |dest: Dest, exit_reason: ExitReason| {
+        alias_destroy(reference);
+
         PROCESS.with(|process| {
             process
                 .sender
@@ -107,8 +109,6 @@ pub fn monitor_install(process: Dest, reference: Reference, from: Pid) {
                 ))
                 .unwrap()
         });
-
-        alias_destroy(reference);
     };
 
     match process {
@@ -220,6 +220,11 @@ pub fn monitor_process_down(from: Pid, exit_reason: ExitReason) {
     let mut remote_monitors: BTreeMap<u64, (MonitorDown, Vec<Reference>)> = BTreeMap::new();
 
     for (reference, (pid, dest)) in references {
+        // Nothing may arrive over the alias of a monitor after the down message.
+        if reference.is_local() {
+            alias_destroy(reference);
+        }
+
         if pid.is_local() {
             process_sender(pid).map(|sender| {
                 sender.send(ProcessItem::MonitorProcessDown(
@@ -236,10 +241,6 @@ pub fn monitor_process_down(from: Pid, exit_reason: ExitReason) {
             remote.0.monitors.push(reference.id());
             remote.1.push(reference);
         }
-
-        if reference.is_local() {
-            alias_destroy(reference);
-        }
     }
 
     for (node, (monitor_down, references)) in remote_monitors {
diff --git a/hydra/src/node_kernel.rs b/hydra/src/node_kernel.rs
index 9169096..b92bc9f 100644
--- a/hydra/src/node_kernel.rs
+++ b/hydra/src/node_kernel.rs
@@ -3,7 +3,7 @@ use crate::frame::Frame;
 use crate::frame::Send;
 use crate::frame::SendTarget;
 
-use crate::alias_retrieve;
+use crate::alias_send;
 use crate::node_register;
 use crate::node_send_frame;
 use crate::process_name_lookup;
@@ -38,8 +38,10 @@ pub fn node_forward_send(mut send: Send) {
                     .map(|sender| sender.send(ProcessItem::UserRemoteMessage(message, None)));
             }
             SendTarget::Alias(alias) => {
-                alias_retrieve(Reference::Local(alias))
-                    .map(|alias| alias.sender.send(ProcessItem::UserRemoteMessage(message, None)));
+                alias_send(
+                    Reference::Local(alias),
+                    ProcessItem::UserRemoteMessage(message, None),
+                );
             }
         }
     }
diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index ec64274..52801a8 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -309,6 +309,11 @@ pub fn node_remote_supervisor_down(node: Node, process: Pid) {
 
         if let Some((_, monitors)) = NODE_MONITORS.remove(&node) {
             for (reference, monitor) in monitors {
+                // Nothing may arrive over the alias of a monitor after the down message.
+                if reference.is_local() {
+                    alias_destroy(reference);
+                }
+
                 match monitor {
                     NodeMonitor::Node(id) => {
                         process_sender(Pid::local(id)).map(|sender| {
@@ -328,10 +333,6 @@ pub fn node_remote_supervisor_down(node: Node, process: Pid) {
                         monitor_destroy(Pid::local(id), reference);
                     }
                 }
-
-                if reference.is_local() {
-                    alias_destroy(reference);
-                }
             }
         }
 
diff --git a/hydra/src/process_kernel.rs b/hydra/src/process_kernel.rs
index cadd0be..a0a2b73 100644
--- a/hydra/src/process_kernel.rs
+++ b/hydra/src/process_kernel.rs
@@ -4,7 +4,7 @@ use crate::frame::Frame;
 use crate::frame::Send;
 use crate::frame::SendTarget;
 
-use crate::alias_retrieve;
+use crate::alias_send;
 use crate::node_process_send_with_alias;
 use crate::node_process_send_with_name;
 use crate::node_process_send_with_pid;
@@ -96,8 +96,7 @@ fn process_send_unoptimal(dest: Dest, message: Vec<u8>) {
                 .map(|sender| sender.send(ProcessItem::UserRemoteMessage(message, None)));
         }
         Dest::Alias(reference) => {
-            alias_retrieve(reference)
-                .map(|alias| alias.sender.send(ProcessItem::UserRemoteMessage(message, None)));
+            alias_send(reference, ProcessItem::UserRemoteMessage(message, None));
         }
     }
 }
@@ -123,8 +122,7 @@ fn process_send_optimal<M: Receivable>(dest: Dest, message: M) {
         }
         Dest::Alias(reference) => {
             if reference.is_local() {
-                alias_retrieve(reference)
-                    .map(|alias| alias.sender.send(Message::User(message).into()));
+                alias_send(reference, Message::User(message).into());
             } else {
                 node_process_send_with_alias(reference, message);
             }
-- 
2.43.0


From e4471eaf3419395d0ab7407d487280e2179a10bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:17 +0000
Subject: [PATCH 16/49] fix: drop a late reply to a call to a local server that
 timed out

The reply was sent to the caller's pid, so one sent after the timeout surfaced as a stray message.
It's now sent to the call's reply alias, as it already was for remote servers.
---
 hydra/src/gen_server.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/hydra/src/gen_server.rs b/hydra/src/gen_server.rs
index 3609167..296a345 100644
--- a/hydra/src/gen_server.rs
+++ b/hydra/src/gen_server.rs
@@ -218,13 +218,10 @@ pub trait GenServer: Sized + Send + 'static {
         let server = server.into();
 
         async move {
-            let monitor = if server.is_local() {
-                Process::monitor(server.clone())
-            } else {
-                Process::monitor_alias(server.clone(), true)
-            };
+            // The reply is sent to an alias, so that it's dropped once the call is over.
+            let monitor = Process::monitor_alias(server.clone(), true);
 
-            let from = From::new(Process::current(), monitor, server.is_remote());
+            let from = From::new(Process::current(), monitor, true);
 
             Process::send(server, GenServerMessage::Call(from, message));
 
-- 
2.43.0


From 5c7565f1a95e910ff10ef199f0cd2c323e5c53b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:50 +0000
Subject: [PATCH 17/49] fix: free a process' name before it's gone

Between the two the name still referred to a process that didn't exist anymore, so whoever learned
of the end first could not register it.
---
 hydra/src/process.rs          |  4 ++++
 hydra/src/process_registry.rs | 24 ++++++++++++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index 2b0ce96..1daa1f0 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -37,6 +37,7 @@ use crate::process_insert;
 use crate::process_list;
 use crate::process_name_list;
 use crate::process_name_lookup;
+use crate::process_name_release;
 use crate::process_name_remove;
 use crate::process_read_timer;
 use crate::process_register;
@@ -428,6 +429,9 @@ impl Process {
 
 impl Drop for Process {
     fn drop(&mut self) {
+        // Whoever finds the process gone must find its name free.
+        process_name_release(self.pid);
+
         let process = process_drop(self.pid).unwrap();
 
         if let Some(name) = process.name {
diff --git a/hydra/src/process_registry.rs b/hydra/src/process_registry.rs
index ab99abf..eac8afb 100644
--- a/hydra/src/process_registry.rs
+++ b/hydra/src/process_registry.rs
@@ -82,6 +82,30 @@ pub fn process_name_remove(name: &str, pid: Pid) {
     PROCESS_NAMES.remove_if(name, |_, process_id| *process_id == pid.id());
 }
 
+/// Releases the registered name of the given process, if it has one.
+pub fn process_name_release(pid: Pid) {
+    let name = PROCESS_REGISTRY
+        .get(&pid.id())
+        .and_then(|process| process.name.clone());
+
+    let Some(name) = name else {
+        return;
+    };
+
+    PROCESS_NAMES.remove_if(&name, |_, process_id| {
+        if *process_id != pid.id() {
+            return false;
+        }
+
+        PROCESS_REGISTRY.alter(process_id, |_, mut process| {
+            process.name = None;
+            process
+        });
+
+        true
+    });
+}
+
 /// Checks if the process is alive.
 pub fn process_alive(pid: Pid) -> bool {
     if pid.is_remote() {
-- 
2.43.0


From 834203a7e72de459fc2b18799d973463fc48df48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:50 +0000
Subject: [PATCH 18/49] fix: a failed server start returns once the process has
 ended

The starter was told before the process ended and released its name, so starting again at once
could fail with already_started.
---
 hydra/src/gen_server.rs | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/hydra/src/gen_server.rs b/hydra/src/gen_server.rs
index 296a345..8007c35 100644
--- a/hydra/src/gen_server.rs
+++ b/hydra/src/gen_server.rs
@@ -455,7 +455,31 @@ async fn start_gen_server<T: GenServer>(
         Process::spawn(server)
     };
 
-    rx.await
-        .map_err(|_| ExitReason::from("unknown"))?
-        .map(|_| pid)
+    let result = rx
+        .await
+        .unwrap_or_else(|_| Err(ExitReason::from("unknown")));
+
+    if result.is_err() {
+        wait_until_ended(pid).await;
+    }
+
+    result.map(|_| pid)
+}
+
+/// Waits until a process that failed to start has ended, and released its name.
+async fn wait_until_ended(pid: Pid) {
+    let (tx, rx) = oneshot::channel::<()>();
+
+    // The caller may not be a process.
+    Process::spawn(async move {
+        let monitor = Process::monitor(pid);
+
+        Process::receiver()
+            .select(|message| matches!(message, Message::System(SystemMessage::ProcessDown(_, tag, _)) if *tag == monitor))
+            .await;
+
+        drop(tx);
+    });
+
+    let _ = rx.await;
 }
-- 
2.43.0


From 2351ef5b9e2855681ce69027e7a6db38c89f978f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:45 +0000
Subject: [PATCH 19/49] fix: automatic shutdown on all significant children
 waits for all of them

---
 hydra/src/supervisor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index 479ff14..6ea5615 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -740,7 +740,7 @@ impl Supervisor {
             return true;
         }
 
-        self.children.iter().any(|child| {
+        !self.children.iter().any(|child| {
             if child.pid.is_none() {
                 return false;
             }
-- 
2.43.0


From 41d82a53847343a1b037af957e6355bcbbeb3c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:45 +0000
Subject: [PATCH 20/49] fix: a child that fails to start, or is ignored and
 temporary, leaves no specification and no identifier

---
 hydra/src/supervisor.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index 6ea5615..4d6932c 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -717,12 +717,16 @@ impl Supervisor {
                 child.restarting = false;
 
                 if child.is_temporary() && pid.is_none() {
-                    self.children.remove(index);
+                    self.remove_child(index);
                 }
 
                 Ok(pid)
             }
-            Err(reason) => Err(SupervisorError::StartError(reason)),
+            Err(reason) => {
+                self.remove_child(self.children.len() - 1);
+
+                Err(SupervisorError::StartError(reason))
+            }
         }
     }
 
-- 
2.43.0


From 65407ad7da4b36a7328cc418393be0a0261c8557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:45 +0000
Subject: [PATCH 21/49] fix: siblings are stopped in reverse start order,
 temporary ones aren't started again

---
 hydra/src/supervisor.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index 4d6932c..023e6ca 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -610,25 +610,22 @@ impl Supervisor {
         index: usize,
         all: bool,
     ) -> Option<(usize, ExitReason)> {
-        let mut indices = Vec::new();
-
-        let range = if all {
-            0..self.children.len()
-        } else {
-            index..self.children.len()
-        };
-
-        for tindex in range {
-            indices.push(tindex);
+        let first = if all { 0 } else { index };
 
+        for tindex in (first..self.children.len()).rev() {
             if index == tindex {
                 continue;
             }
 
             self.terminate_child_by_index(tindex).await;
+
+            // Temporary children are never restarted.
+            if self.children[tindex].is_temporary() {
+                self.remove_child(tindex);
+            }
         }
 
-        for sindex in indices {
+        for sindex in first..self.children.len() {
             match self.start_child_by_index(sindex).await {
                 Ok(pid) => {
                     let child = &mut self.children[sindex];
-- 
2.43.0


From 75e40284161a82d63639da7647bf7b06d7f0c638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:45 +0000
Subject: [PATCH 22/49] fix: terminating a temporary child removes its
 specification

---
 hydra/src/supervisor.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index 023e6ca..2994f0e 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -385,6 +385,11 @@ impl Supervisor {
 
         if let Some(index) = index {
             self.terminate_child_by_index(index).await;
+
+            if self.children[index].is_temporary() {
+                self.remove_child(index);
+            }
+
             Ok(())
         } else {
             Err(SupervisorError::NotFound)
-- 
2.43.0


From b5963c834d46eff3e721e3029624419037ac791a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:46 +0000
Subject: [PATCH 23/49] fix: a supervisor forgets the pid of a child that has
 ended before restarting it

---
 hydra/src/supervisor.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index 2994f0e..e8e1276 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -462,12 +462,12 @@ impl Supervisor {
     async fn terminate_child_by_index(&mut self, index: usize) {
         let child = &mut self.children[index];
 
+        child.restarting = false;
+
         let Some(pid) = child.pid.take() else {
             return;
         };
 
-        child.restarting = false;
-
         let _ = shutdown(pid, child.shutdown()).await;
     }
 
@@ -499,6 +499,8 @@ impl Supervisor {
             #[cfg(feature = "tracing")]
             tracing::error!(reason = ?reason, child_id = ?child.spec.id, child_pid = ?child.pid, "Child terminated");
 
+            child.pid = None;
+
             if self.add_restart() {
                 return Err(ExitReason::from("shutdown"));
             }
@@ -524,6 +526,8 @@ impl Supervisor {
             #[cfg(feature = "tracing")]
             tracing::error!(reason = ?reason, child_id = ?child.spec.id, child_pid = ?child.pid, "Child terminated");
 
+            child.pid = None;
+
             if self.add_restart() {
                 return Err(ExitReason::from("shutdown"));
             }
-- 
2.43.0


From e8f3d797a143a3ae716438e98374a18b2a48eda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:46 +0000
Subject: [PATCH 24/49] fix: a restart attempt that is no longer wanted doesn't
 count as a restart

---
 hydra/src/supervisor.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index e8e1276..c5deb29 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -653,14 +653,14 @@ impl Supervisor {
 
     /// Tries to restart the given child again, returns if an error occured.
     async fn try_again_restart(&mut self, index: usize) -> Result<(), ExitReason> {
-        if self.add_restart() {
-            return Err(ExitReason::from("shutdown"));
-        }
-
         if !self.children[index].restarting {
             return Ok(());
         }
 
+        if self.add_restart() {
+            return Err(ExitReason::from("shutdown"));
+        }
+
         self.restart(index).await;
 
         Ok(())
-- 
2.43.0


From 01d2a5938ca2187b308b2d2ff692ee9b2690d66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:46 +0000
Subject: [PATCH 25/49] fix: any restart window is usable

---
 hydra/src/supervisor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index c5deb29..b98bd36 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -762,9 +762,9 @@ impl Supervisor {
     /// Adds another restart to the backlog and returns `true` if we've exceeded our quota of restarts.
     fn add_restart(&mut self) -> bool {
         let now = Instant::now();
-        let threshold = now - self.max_duration;
 
-        self.restarts.retain(|restart| *restart >= threshold);
+        self.restarts
+            .retain(|restart| now.duration_since(*restart) <= self.max_duration);
         self.restarts.push(now);
 
         if self.restarts.len() > self.max_restarts {
-- 
2.43.0


From 91bb98b4fe906eb5010987fff22dab997c8e8b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:46 +0000
Subject: [PATCH 26/49] fix: a registry without a start routine reports so

---
 hydra/src/registry.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hydra/src/registry.rs b/hydra/src/registry.rs
index 889c238..af56fa6 100644
--- a/hydra/src/registry.rs
+++ b/hydra/src/registry.rs
@@ -360,7 +360,11 @@ impl Registry {
             return Err(RegistryError::AlreadyStarted(process));
         }
 
-        let start_child = Pin::from(self.start.as_ref().unwrap()(key.clone())).await;
+        let Some(start) = self.start.as_ref() else {
+            return Err(RegistryError::StartNotSupported);
+        };
+
+        let start_child = Pin::from(start(key.clone())).await;
 
         match start_child {
             Ok(pid) => {
-- 
2.43.0


From 9cce9cdbe605a93c6ac3abd3c6257b4c045cd9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:46 +0000
Subject: [PATCH 27/49] fix: only a running registry clears its table when
 dropped

---
 hydra/src/registry.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hydra/src/registry.rs b/hydra/src/registry.rs
index af56fa6..997a668 100644
--- a/hydra/src/registry.rs
+++ b/hydra/src/registry.rs
@@ -107,6 +107,7 @@ pub struct Registry {
     >,
     shutdown: Shutdown,
     lookup: BTreeMap<Pid, RegistryKey>,
+    running: bool,
 }
 
 impl Registry {
@@ -120,6 +121,7 @@ impl Registry {
             start: None,
             shutdown: Shutdown::BrutalKill,
             lookup: BTreeMap::new(),
+            running: false,
         }
     }
 
@@ -473,6 +475,11 @@ impl Registry {
 
 impl Drop for Registry {
     fn drop(&mut self) {
+        // A registry that never ran, or a copy of its configuration, owns nothing.
+        if !self.running {
+            return;
+        }
+
         REGISTRY.remove(&self.name);
 
         for process in self.lookup.keys() {
@@ -488,6 +495,8 @@ impl GenServer for Registry {
     async fn init(&mut self) -> Result<(), ExitReason> {
         Process::set_flags(ProcessFlags::TRAP_EXIT);
 
+        self.running = true;
+
         Ok(())
     }
 
-- 
2.43.0


From 8fe3a9d49c2af335fe3feafbc1a5d3228ce609ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:46 +0000
Subject: [PATCH 28/49] fix: a registry keeps its table under the name it's
 registered with

---
 hydra/src/registry.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/hydra/src/registry.rs b/hydra/src/registry.rs
index 997a668..cde5ff6 100644
--- a/hydra/src/registry.rs
+++ b/hydra/src/registry.rs
@@ -317,9 +317,10 @@ impl Registry {
     }
 
     /// Create a registry proces not linked to a supervision tree.
-    pub async fn start(self, mut options: RegistryOptions) -> Result<Pid, ExitReason> {
-        if options.name.is_none() {
-            options = options.name(self.name.clone());
+    pub async fn start(mut self, mut options: RegistryOptions) -> Result<Pid, ExitReason> {
+        match &options.name {
+            Some(name) => self.name.clone_from(name),
+            None => options = options.name(self.name.clone()),
         }
 
         GenServer::start(self, options.into()).await
@@ -328,18 +329,20 @@ impl Registry {
     /// Creates a registry process as part of a supervision tree.
     ///
     /// For example, this function ensures that the registry is linked to the calling process (its supervisor).
-    pub async fn start_link(self, mut options: RegistryOptions) -> Result<Pid, ExitReason> {
-        if options.name.is_none() {
-            options = options.name(self.name.clone());
+    pub async fn start_link(mut self, mut options: RegistryOptions) -> Result<Pid, ExitReason> {
+        match &options.name {
+            Some(name) => self.name.clone_from(name),
+            None => options = options.name(self.name.clone()),
         }
 
         GenServer::start_link(self, options.into()).await
     }
 
     /// Builds a child specification for this [Registry] process.
-    pub fn child_spec(self, mut options: RegistryOptions) -> ChildSpec {
-        if options.name.is_none() {
-            options = options.name(self.name.clone());
+    pub fn child_spec(mut self, mut options: RegistryOptions) -> ChildSpec {
+        match &options.name {
+            Some(name) => self.name.clone_from(name),
+            None => options = options.name(self.name.clone()),
         }
 
         ChildSpec::new("Registry")
-- 
2.43.0


From 07925ef5a7506aee54e622ce5b1e80479cdb2fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:47 +0000
Subject: [PATCH 29/49] fix: a process removed from a registry survives the end
 of the registry

---
 hydra/src/registry.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/hydra/src/registry.rs b/hydra/src/registry.rs
index cde5ff6..fcb914a 100644
--- a/hydra/src/registry.rs
+++ b/hydra/src/registry.rs
@@ -402,14 +402,14 @@ impl Registry {
                     return;
                 };
 
-                let mut monitors: Vec<(Pid, Reference)> = Vec::with_capacity(registry.len());
+                self.unlink_removed(&registry);
 
-                for (process, key) in &self.lookup {
-                    if registry.contains_key(key) {
-                        monitors.push((*process, Process::monitor(*process)));
+                let mut monitors: Vec<(Pid, Reference)> = Vec::with_capacity(self.lookup.len());
 
-                        Process::exit(*process, ExitReason::from("shutdown"));
-                    }
+                for process in self.lookup.keys() {
+                    monitors.push((*process, Process::monitor(*process)));
+
+                    Process::exit(*process, ExitReason::from("shutdown"));
                 }
 
                 for (process, monitor) in monitors {
@@ -425,6 +425,19 @@ impl Registry {
         }
     }
 
+    /// Forgets the processes that were removed from the given table, they remain running.
+    fn unlink_removed(&mut self, registry: &DashMap<RegistryKey, Pid>) {
+        self.lookup.retain(|process, key| {
+            let registered = registry.get(key).is_some_and(|entry| *entry == *process);
+
+            if !registered {
+                Process::unlink(*process);
+            }
+
+            registered
+        });
+    }
+
     /// Stops a process by the given key.
     fn stop_by_key(&mut self, key: RegistryKey) -> Result<(), RegistryError> {
         let Some(process) = lookup_process(&self.name, &key) else {
@@ -483,7 +496,9 @@ impl Drop for Registry {
             return;
         }
 
-        REGISTRY.remove(&self.name);
+        if let Some((_, registry)) = REGISTRY.remove(&self.name) {
+            self.unlink_removed(&registry);
+        }
 
         for process in self.lookup.keys() {
             Process::unlink(*process);
-- 
2.43.0


From 02d0436f35788903fb420b8799d57ab6974dc964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:30 +0000
Subject: [PATCH 30/49] fix: heartbeat_timeout sets the heartbeat timeout

---
 hydra/src/node_options.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydra/src/node_options.rs b/hydra/src/node_options.rs
index cffa824..9a99132 100644
--- a/hydra/src/node_options.rs
+++ b/hydra/src/node_options.rs
@@ -51,7 +51,7 @@ impl NodeOptions {
 
     /// Sets the time it takes to consider a remote node down when not receiving any data.
     pub fn heartbeat_timeout(mut self, duration: Duration) -> Self {
-        self.handshake_timeout = duration;
+        self.heartbeat_timeout = duration;
         self
     }
 }
-- 
2.43.0


From 055a19cc6200f04ae0121b7c5a6ddb566f64c86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:31 +0000
Subject: [PATCH 31/49] fix: a node without an address is the local one, a
 remote node stays remote without a local node

---
 hydra/src/node.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/hydra/src/node.rs b/hydra/src/node.rs
index 1f47476..08060ad 100644
--- a/hydra/src/node.rs
+++ b/hydra/src/node.rs
@@ -316,17 +316,16 @@ impl<'de> Deserialize<'de> for Node {
     {
         let node: NodeWire = NodeWire::deserialize(deserializer)?;
 
+        // Without an address, it never left this node.
+        let Some(node_address) = node.address else {
+            return Ok(Node::Local);
+        };
+
         match node_lookup_local() {
-            Some((name, address)) => {
-                if node.name == name
-                    && (node.address.is_none() || node.address.is_some_and(|node| node == address))
-                {
-                    Ok(Node::Local)
-                } else {
-                    Ok(Node::Remote(node.name, node.address.unwrap()))
-                }
+            Some((name, address)) if node.name == name && node_address == address => {
+                Ok(Node::Local)
             }
-            None => Ok(Node::Local),
+            _ => Ok(Node::Remote(node.name, node_address)),
         }
     }
 }
-- 
2.43.0


From c4ca9089de5d5a075b3d647713c54437671506d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:32 +0000
Subject: [PATCH 32/49] fix: connections end with the local node

---
 hydra/src/node_local.rs  | 1 -
 hydra/src/node_remote.rs | 4 +++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/hydra/src/node_local.rs b/hydra/src/node_local.rs
index 3449f11..8ded40d 100644
--- a/hydra/src/node_local.rs
+++ b/hydra/src/node_local.rs
@@ -25,7 +25,6 @@ pub enum NodeLocalSupervisorMessage {
 pub struct NodeLocalSupervisor {
     pub name: String,
     pub options: NodeOptions,
-    #[allow(dead_code)]
     pub process: Pid,
 }
 
diff --git a/hydra/src/node_remote.rs b/hydra/src/node_remote.rs
index f5edec7..0fa181d 100644
--- a/hydra/src/node_remote.rs
+++ b/hydra/src/node_remote.rs
@@ -291,7 +291,7 @@ async fn node_remote_supervisor(
         local_supervisor: supervisor,
     });
 
-    Process::link(supervisor.process);
+    Process::link(supervisor.local_supervisor.process);
 
     if !node_accept(node.clone(), Process::current()) {
         panic!("Not accepting node supervisor!");
@@ -318,6 +318,8 @@ async fn node_remote_supervisor(
 }
 
 pub async fn node_remote_accepter(socket: TcpStream, supervisor: Arc<NodeLocalSupervisor>) {
+    Process::link(supervisor.process);
+
     if let Err(error) = socket.set_nodelay(true) {
         #[cfg(feature = "tracing")]
         tracing::warn!(error = ?error, "Failed to set TCP_NODELAY on socket");
-- 
2.43.0


From c38c25bba00a8224571ce90e9843f6c60e7f427b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:33 +0000
Subject: [PATCH 33/49] fix: disconnecting or forgetting a node reports the
 lost connection

---
 hydra/src/node_registry.rs | 98 +++++++++++++++++++++-----------------
 1 file changed, 54 insertions(+), 44 deletions(-)

diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index 52801a8..1fcd1b4 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -278,9 +278,54 @@ pub fn node_register(node: Node, connect: bool) -> u64 {
     next_id
 }
 
+/// Notifies everything connected to the given node that the connection was lost.
+fn node_connection_lost(node: &Node) {
+    NODE_PENDING_MESSAGES.remove(node);
+
+    if let Some((_, links)) = NODE_LINKS.remove(node) {
+        for (from, process_id) in links {
+            let process = Pid::local(process_id);
+
+            link_destroy(process, from);
+
+            process_exit_signal_linked(process, from, ExitReason::from("noconnection"));
+        }
+    }
+
+    if let Some((_, monitors)) = NODE_MONITORS.remove(node) {
+        for (reference, monitor) in monitors {
+            // Nothing may arrive over the alias of a monitor after the down message.
+            if reference.is_local() {
+                alias_destroy(reference);
+            }
+
+            match monitor {
+                NodeMonitor::Node(id) => {
+                    process_sender(Pid::local(id)).map(|sender| {
+                        sender.send(ProcessItem::MonitorNodeDown(node.clone(), reference))
+                    });
+                }
+                NodeMonitor::ProcessMonitor(id, dest) => {
+                    process_sender(Pid::local(id)).map(|sender| {
+                        sender.send(ProcessItem::MonitorProcessDown(
+                            dest,
+                            reference,
+                            ExitReason::from("noconnection"),
+                        ))
+                    });
+                }
+                NodeMonitor::ProcessMonitorCleanup(id) => {
+                    monitor_destroy(Pid::local(id), reference);
+                }
+            }
+        }
+    }
+}
+
 /// Triggered when a remote node supervisor goes down unexpectedly.
 pub fn node_remote_supervisor_down(node: Node, process: Pid) {
     let Some(id) = NODE_MAP.get(&node) else {
+        node_connection_lost(&node);
         return;
     };
 
@@ -297,46 +342,7 @@ pub fn node_remote_supervisor_down(node: Node, process: Pid) {
         value.receiver = None;
         value.state = NodeState::Known;
 
-        if let Some((_, links)) = NODE_LINKS.remove(&node) {
-            for (from, process_id) in links {
-                let process = Pid::local(process_id);
-
-                link_destroy(process, from);
-
-                process_exit_signal_linked(process, from, ExitReason::from("noconnection"));
-            }
-        }
-
-        if let Some((_, monitors)) = NODE_MONITORS.remove(&node) {
-            for (reference, monitor) in monitors {
-                // Nothing may arrive over the alias of a monitor after the down message.
-                if reference.is_local() {
-                    alias_destroy(reference);
-                }
-
-                match monitor {
-                    NodeMonitor::Node(id) => {
-                        process_sender(Pid::local(id)).map(|sender| {
-                            sender.send(ProcessItem::MonitorNodeDown(node.clone(), reference))
-                        });
-                    }
-                    NodeMonitor::ProcessMonitor(id, dest) => {
-                        process_sender(Pid::local(id)).map(|sender| {
-                            sender.send(ProcessItem::MonitorProcessDown(
-                                dest,
-                                reference,
-                                ExitReason::from("noconnection"),
-                            ))
-                        });
-                    }
-                    NodeMonitor::ProcessMonitorCleanup(id) => {
-                        monitor_destroy(Pid::local(id), reference);
-                    }
-                }
-            }
-        }
-
-        NODE_PENDING_MESSAGES.remove(&node);
+        node_connection_lost(&node);
 
         value
     });
@@ -377,13 +383,17 @@ pub fn node_disconnect(node: Node) {
     };
 
     NODE_REGISTRATIONS.alter(&id, |_, mut value| {
-        NODE_PENDING_MESSAGES.remove(&node);
-
         if let Some(supervisor) = value.supervisor.take() {
             Process::exit(supervisor, ExitReason::Kill);
         }
 
+        value.sender = None;
+        value.receiver = None;
         value.state = NodeState::Known;
+
+        // A new connection could be established before the supervisor is gone.
+        node_connection_lost(&node);
+
         value
     });
 }
@@ -398,11 +408,11 @@ pub fn node_forget(node: Node) {
         return;
     };
 
-    NODE_PENDING_MESSAGES.remove(&node);
-
     if let Some(supervisor) = registration.supervisor {
         Process::exit(supervisor, ExitReason::Kill);
     }
+
+    node_connection_lost(&node);
 }
 
 /// Looks up the node information for the local node.
-- 
2.43.0


From ca842995c8b9312c1f8c1a9796875194ddd826f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:34 +0000
Subject: [PATCH 34/49] fix: stopping the local node reports the lost
 connections, and leaves one that is started afterwards alone

---
 hydra/src/node_local.rs    |  2 +-
 hydra/src/node_registry.rs | 29 ++++++++++++++++++++---------
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/hydra/src/node_local.rs b/hydra/src/node_local.rs
index 8ded40d..263c8f9 100644
--- a/hydra/src/node_local.rs
+++ b/hydra/src/node_local.rs
@@ -30,7 +30,7 @@ pub struct NodeLocalSupervisor {
 
 impl Drop for NodeLocalSupervisor {
     fn drop(&mut self) {
-        node_local_panic();
+        node_local_panic(self.process);
     }
 }
 
diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index 1fcd1b4..c051cf2 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -107,23 +107,34 @@ pub fn node_local_stop() {
         panic!("Local node not started!");
     };
 
-    NODE_MAP.clear();
+    if let Some(supervisor) = node_local_process() {
+        Process::exit(supervisor, ExitReason::Kill);
+    }
 
-    if let Some(entry) = NODE_REGISTRATIONS.get(&LOCAL_NODE_ID) {
-        if let Some(supervisor) = entry.supervisor {
-            Process::exit(supervisor, ExitReason::Kill);
-        }
+    node_local_clear();
+}
+
+/// Cleans up distribution information when the given local node supervisor goes down unexpectedly.
+pub fn node_local_panic(process: Pid) {
+    // The local node was stopped already, and maybe started again.
+    if node_local_process() != Some(process) {
+        return;
     }
 
-    NODE_REGISTRATIONS.clear();
-    NODE_PENDING_MESSAGES.clear();
+    node_local_clear();
 }
 
-/// Cleans up distribution information when the local node goes down unexpectedly.
-pub fn node_local_panic() {
+/// Forgets all nodes.
+fn node_local_clear() {
+    let nodes = node_list();
+
     NODE_MAP.clear();
     NODE_REGISTRATIONS.clear();
     NODE_PENDING_MESSAGES.clear();
+
+    for node in nodes {
+        node_connection_lost(&node);
+    }
 }
 
 /// Returns the process responsible for the local node.
-- 
2.43.0


From 8adc07f3f8b267567964cab1a39e24c8787ddb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:34 +0000
Subject: [PATCH 35/49] fix: demonitor takes effect on the node of the process

---
 hydra/src/monitor.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/hydra/src/monitor.rs b/hydra/src/monitor.rs
index 3093177..2fff477 100644
--- a/hydra/src/monitor.rs
+++ b/hydra/src/monitor.rs
@@ -51,9 +51,9 @@ pub fn monitor_destroy(process: Pid, reference: Reference) {
     } else {
         let monitor = Monitor::new(false, Some(process.id()), None, None, reference.id());
 
-        node_send_frame(monitor.into(), reference.node());
+        node_send_frame(monitor.into(), process.node());
 
-        if let Some((name, address)) = node_lookup_remote(reference.node()) {
+        if let Some((name, address)) = node_lookup_remote(process.node()) {
             node_process_monitor_destroy(Node::from((name, address)), reference);
         }
     }
@@ -74,16 +74,7 @@ pub fn monitor_destroy_all<'a, M: IntoIterator<Item = (&'a Reference, &'a Proces
                     continue;
                 };
 
-                if pid.is_local() {
-                    MONITORS.alter(&pid.id(), |_, mut value| {
-                        value.remove(reference);
-                        value
-                    });
-                } else {
-                    let monitor = Monitor::new(false, Some(pid.id()), None, None, reference.id());
-
-                    node_send_frame(monitor.into(), reference.node());
-                }
+                monitor_destroy(*pid, *reference);
             }
             ProcessMonitor::ForNode(node) => {
                 node_monitor_destroy(node.clone(), *reference);
-- 
2.43.0


From 359d7a456ad159d19d7b280309278c8610295271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:35 +0000
Subject: [PATCH 36/49] fix: a monitor by name can be destroyed before the
 process is known

---
 hydra/src/monitor.rs       |  9 +++++++++
 hydra/src/node_registry.rs | 39 ++++++++++++++++++++++++++++++++++----
 hydra/src/node_remote.rs   | 11 +++++++++--
 hydra/src/process.rs       |  2 ++
 4 files changed, 55 insertions(+), 6 deletions(-)

diff --git a/hydra/src/monitor.rs b/hydra/src/monitor.rs
index 2fff477..004d9cd 100644
--- a/hydra/src/monitor.rs
+++ b/hydra/src/monitor.rs
@@ -13,6 +13,7 @@ use crate::node_monitor_destroy;
 use crate::node_process_monitor_create;
 use crate::node_process_monitor_destroy;
 use crate::node_process_monitor_destroy_all;
+use crate::node_process_monitor_destroy_named;
 use crate::node_register;
 use crate::node_send_frame;
 use crate::process_exists_lock;
@@ -59,6 +60,13 @@ pub fn monitor_destroy(process: Pid, reference: Reference) {
     }
 }
 
+/// Destroys a monitor by name for the given reference, the process might not be known yet.
+pub fn monitor_destroy_named(reference: Reference) {
+    if let Some(process) = node_process_monitor_destroy_named(reference) {
+        monitor_destroy(process, reference);
+    }
+}
+
 /// Destroys all monitors registered for the given reference, monitor combination.
 pub fn monitor_destroy_all<'a, M: IntoIterator<Item = (&'a Reference, &'a ProcessMonitor)>>(
     monitors: M,
@@ -71,6 +79,7 @@ pub fn monitor_destroy_all<'a, M: IntoIterator<Item = (&'a Reference, &'a Proces
         match monitor {
             ProcessMonitor::ForProcess(pid) => {
                 let Some(pid) = pid else {
+                    monitor_destroy_named(*reference);
                     continue;
                 };
 
diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index c051cf2..9ebd1ca 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -44,7 +44,7 @@ enum NodeMonitor {
     /// The monitor is explicitly for the node itself.
     Node(u64),
     /// The monitor is installed on behalf of a remote process monitor.
-    ProcessMonitor(u64, Dest),
+    ProcessMonitor(u64, Dest, Option<Pid>),
     /// The monitor is installed on behalf of a remote process monitor for cleanup.
     ProcessMonitorCleanup(u64),
 }
@@ -316,7 +316,7 @@ fn node_connection_lost(node: &Node) {
                         sender.send(ProcessItem::MonitorNodeDown(node.clone(), reference))
                     });
                 }
-                NodeMonitor::ProcessMonitor(id, dest) => {
+                NodeMonitor::ProcessMonitor(id, dest, _) => {
                     process_sender(Pid::local(id)).map(|sender| {
                         sender.send(ProcessItem::MonitorProcessDown(
                             dest,
@@ -453,7 +453,7 @@ pub fn node_process_monitor_create(node: Node, reference: Reference, dest: Dest,
     NODE_MONITORS
         .entry(node)
         .or_default()
-        .insert(reference, NodeMonitor::ProcessMonitor(from.id(), dest));
+        .insert(reference, NodeMonitor::ProcessMonitor(from.id(), dest, None));
 }
 
 /// Creates a monitor cleanup for the given node and reference from the given process.
@@ -472,6 +472,37 @@ pub fn node_process_monitor_destroy(node: Node, reference: Reference) {
     });
 }
 
+/// Updates the process that a monitor by name is for, returns `false` if the monitor no longer exists.
+pub fn node_process_monitor_update(node: &Node, reference: Reference, process: Pid) -> bool {
+    let mut found = false;
+
+    NODE_MONITORS.alter(node, |_, mut value| {
+        if let Some(NodeMonitor::ProcessMonitor(_, _, pid)) = value.get_mut(&reference) {
+            *pid = Some(process);
+            found = true;
+        }
+
+        value
+    });
+
+    found
+}
+
+/// Destroys a monitor by name for the given reference, returns the process it's for if it's known.
+pub fn node_process_monitor_destroy_named(reference: Reference) -> Option<Pid> {
+    let mut process = None;
+
+    NODE_MONITORS.alter_all(|_, mut value| {
+        if let Some(NodeMonitor::ProcessMonitor(_, _, pid)) = value.remove(&reference) {
+            process = pid;
+        }
+
+        value
+    });
+
+    process
+}
+
 /// Destroys all process monitors for the given node by their references.
 pub fn node_process_monitor_destroy_all(node: Node, references: Vec<Reference>) {
     NODE_MONITORS.alter(&node, |_, mut value| {
@@ -536,7 +567,7 @@ pub fn node_process_monitor_down(node: Node, reference: Reference, exit_reason:
 
     alias_destroy(reference);
 
-    if let Some(NodeMonitor::ProcessMonitor(id, dest)) = monitor {
+    if let Some(NodeMonitor::ProcessMonitor(id, dest, _)) = monitor {
         process_sender(Pid::local(id)).map(|sender| {
             sender.send(ProcessItem::MonitorProcessDown(
                 dest,
diff --git a/hydra/src/node_remote.rs b/hydra/src/node_remote.rs
index 0fa181d..43493f8 100644
--- a/hydra/src/node_remote.rs
+++ b/hydra/src/node_remote.rs
@@ -35,6 +35,7 @@ use crate::node_process_link_down;
 use crate::node_process_monitor_cleanup;
 use crate::node_process_monitor_destroy;
 use crate::node_process_monitor_down;
+use crate::node_process_monitor_update;
 use crate::node_register;
 use crate::node_register_workers;
 use crate::node_remote_supervisor_down;
@@ -225,8 +226,14 @@ async fn node_remote_receiver(mut reader: Reader, supervisor: Arc<NodeRemoteSupe
                 let reference = Reference::local(monitor_update.reference_id);
                 let from = Pid::remote(monitor_update.from_id, node);
 
-                process_sender(Pid::local(monitor_update.process_id))
-                    .map(|sender| sender.send(ProcessItem::MonitorProcessUpdate(reference, from)));
+                if node_process_monitor_update(&supervisor.node, reference, from) {
+                    process_sender(Pid::local(monitor_update.process_id)).map(|sender| {
+                        sender.send(ProcessItem::MonitorProcessUpdate(reference, from))
+                    });
+                } else {
+                    // The monitor was destroyed before the process was known.
+                    monitor_destroy(from, reference);
+                }
             }
             Frame::Link(link) => {
                 let node = node_register(supervisor.node.clone(), false);
diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index 1daa1f0..eb1f05b 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -22,6 +22,7 @@ use crate::link_process_down;
 use crate::monitor_create;
 use crate::monitor_destroy;
 use crate::monitor_destroy_all;
+use crate::monitor_destroy_named;
 use crate::monitor_fill_info;
 use crate::monitor_install;
 use crate::monitor_process_down;
@@ -380,6 +381,7 @@ impl Process {
         alias_destroy(monitor);
 
         let Some(pid) = pid else {
+            monitor_destroy_named(monitor);
             return;
         };
 
-- 
2.43.0


From 91ab697b70a782cac3659eb1bfc53e71286492fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:36 +0000
Subject: [PATCH 37/49] fix: keep a process registered while another node's
 monitor by name is installed

---
 hydra/src/node_remote.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/hydra/src/node_remote.rs b/hydra/src/node_remote.rs
index 43493f8..a7e7234 100644
--- a/hydra/src/node_remote.rs
+++ b/hydra/src/node_remote.rs
@@ -187,14 +187,26 @@ async fn node_remote_receiver(mut reader: Reader, supervisor: Arc<NodeRemoteSupe
                             }
                         });
                     } else if let Some(name) = monitor.process_name {
-                        if let Some(id) = process_name_lookup(&name) {
-                            monitor_create(id, reference, from, None);
+                        let process = process_name_lookup(&name).filter(|process| {
+                            process_exists_lock(*process, |exists| {
+                                if exists {
+                                    monitor_create(*process, reference, from, None);
+                                    node_process_monitor_cleanup(
+                                        supervisor.node.clone(),
+                                        reference,
+                                        *process,
+                                    );
+                                }
+
+                                exists
+                            })
+                        });
 
+                        if let Some(process) = process {
                             let monitor_update =
-                                MonitorUpdate::new(from_id, id.id(), reference.id());
+                                MonitorUpdate::new(from_id, process.id(), reference.id());
 
                             node_send_frame(monitor_update.into(), node);
-                            node_process_monitor_cleanup(supervisor.node.clone(), reference, id);
                         } else {
                             let mut monitor_down = MonitorDown::new(ExitReason::from("noproc"));
 
-- 
2.43.0


From ecf1aff487a43d87f9aa1b9bfdcb8bbea6ab63a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:36 +0000
Subject: [PATCH 38/49] fix: a down message of another node only ends a process
 monitor for it

---
 hydra/src/node_registry.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index 9ebd1ca..10c59a3 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -560,14 +560,19 @@ pub fn node_process_monitor_down(node: Node, reference: Reference, exit_reason:
     let mut monitor: Option<NodeMonitor> = None;
 
     NODE_MONITORS.alter(&node, |_, mut value| {
-        monitor = value.remove(&reference);
+        if matches!(
+            value.get(&reference),
+            Some(NodeMonitor::ProcessMonitor(_, _, _))
+        ) {
+            monitor = value.remove(&reference);
+        }
 
         value
     });
 
-    alias_destroy(reference);
-
     if let Some(NodeMonitor::ProcessMonitor(id, dest, _)) = monitor {
+        alias_destroy(reference);
+
         process_sender(Pid::local(id)).map(|sender| {
             sender.send(ProcessItem::MonitorProcessDown(
                 dest,
-- 
2.43.0


From e01b6a32a90e707bc2b91e33bc522e4d3648b0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:12 +0000
Subject: [PATCH 39/49] fix: demonitor of another node needs no from_id

---
 hydra/src/node_remote.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/hydra/src/node_remote.rs b/hydra/src/node_remote.rs
index a7e7234..68416f0 100644
--- a/hydra/src/node_remote.rs
+++ b/hydra/src/node_remote.rs
@@ -159,14 +159,15 @@ async fn node_remote_receiver(mut reader: Reader, supervisor: Arc<NodeRemoteSupe
             Frame::Monitor(monitor) => {
                 let node = node_register(supervisor.node.clone(), false);
 
-                let from_id = monitor
-                    .from_id
-                    .expect("Must have a from_id for remote monitors!");
-
-                let from = Pid::remote(from_id, node);
                 let reference = Reference::remote(monitor.reference_id, node);
 
                 if monitor.install {
+                    let from_id = monitor
+                        .from_id
+                        .expect("Must have a from_id for remote monitors!");
+
+                    let from = Pid::remote(from_id, node);
+
                     if let Some(id) = monitor.process_id {
                         let process = Pid::local(id);
 
-- 
2.43.0


From 1f11e7616ff3854de5ded65db4e19dda5e9df5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:12 +0000
Subject: [PATCH 40/49] fix: a link ends with the remote process

---
 hydra/src/node_registry.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index 10c59a3..9e8b87c 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -593,6 +593,8 @@ pub fn node_process_link_down(node: Node, process: Pid, from: Pid, exit_reason:
     });
 
     if found {
+        link_destroy(process, from);
+
         process_exit_signal_linked(process, from, exit_reason);
     }
 }
-- 
2.43.0


From 90667c812915ea91f9f4889b32347baad8216c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:55 +0000
Subject: [PATCH 41/49] fix: comparing a reference with a destination ends

---
 hydra/src/dest.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydra/src/dest.rs b/hydra/src/dest.rs
index b7504be..d419981 100644
--- a/hydra/src/dest.rs
+++ b/hydra/src/dest.rs
@@ -137,7 +137,7 @@ impl PartialEq<Reference> for Dest {
 impl PartialEq<Dest> for Reference {
     fn eq(&self, other: &Dest) -> bool {
         match other {
-            Dest::Alias(reference) => reference == other,
+            Dest::Alias(reference) => self == reference,
             _ => false,
         }
     }
-- 
2.43.0


From 622ccb9d84dc9e4d168ae7bf74f4e80dc75af960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:01 +0000
Subject: [PATCH 42/49] fix: a link that could not be installed is not kept

---
 hydra/src/link.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hydra/src/link.rs b/hydra/src/link.rs
index 90b2758..3789ff3 100644
--- a/hydra/src/link.rs
+++ b/hydra/src/link.rs
@@ -49,6 +49,8 @@ pub fn link_install(process: Pid, from: Pid) {
 
     if process.is_local() {
         if !link_create(process, from, false) {
+            link_destroy(process, from);
+
             process_exit_signal_linked(from, process, ExitReason::from("noproc"));
         }
     } else {
@@ -64,6 +66,8 @@ pub fn link_install(process: Pid, from: Pid) {
                 node_send_frame(link.into(), node);
             }
             None => {
+                link_destroy(process, from);
+
                 process_exit_signal_linked(from, process, ExitReason::from("noconnection"));
             }
         }
-- 
2.43.0


From ad4b2e342efd97880d8a32a2281eb06681b08b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:01 +0000
Subject: [PATCH 43/49] fix: stopping the local node forgets nodes completely

---
 hydra/src/node_registry.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index 9e8b87c..d31757e 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -126,11 +126,16 @@ pub fn node_local_panic(process: Pid) {
 
 /// Forgets all nodes.
 fn node_local_clear() {
-    let nodes = node_list();
+    let mut nodes = Vec::new();
 
-    NODE_MAP.clear();
-    NODE_REGISTRATIONS.clear();
-    NODE_PENDING_MESSAGES.clear();
+    // A node could be registered meanwhile, it's either forgotten completely, or not at all.
+    NODE_MAP.retain(|node, id| {
+        NODE_REGISTRATIONS.remove(id);
+        nodes.push(node.clone());
+        false
+    });
+
+    NODE_REGISTRATIONS.remove(&LOCAL_NODE_ID);
 
     for node in nodes {
         node_connection_lost(&node);
-- 
2.43.0


From 19c40c8e38be718da3ed4b973f72994db434bd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:01 +0000
Subject: [PATCH 44/49] fix: a supervisor that goes down late leaves a new
 connection alone

---
 hydra/src/node_registry.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index d31757e..80bc48e 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -340,16 +340,13 @@ fn node_connection_lost(node: &Node) {
 
 /// Triggered when a remote node supervisor goes down unexpectedly.
 pub fn node_remote_supervisor_down(node: Node, process: Pid) {
+    // Disconnecting or forgetting the node reported the lost connection already.
     let Some(id) = NODE_MAP.get(&node) else {
-        node_connection_lost(&node);
         return;
     };
 
     NODE_REGISTRATIONS.alter(&id, |_, mut value| {
-        if value
-            .supervisor
-            .is_some_and(|supervisor| supervisor != process)
-        {
+        if value.supervisor != Some(process) {
             return value;
         }
 
-- 
2.43.0


From eff59af42a0afdeb95d92b7e30986b81469bbca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:25 +0000
Subject: [PATCH 45/49] fix: nothing is installed on behalf of a node after the
 connection was lost

---
 hydra/src/node_registry.rs |  8 ++++++++
 hydra/src/node_remote.rs   | 25 +++++++++++++++++++++++++
 2 files changed, 33 insertions(+)

diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index 80bc48e..75ce6e0 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -361,6 +361,14 @@ pub fn node_remote_supervisor_down(node: Node, process: Pid) {
     });
 }
 
+/// Returns `true` if the given supervisor is responsible for the connection to the given node.
+pub fn node_supervised_by(node: &Node, process: Pid) -> bool {
+    NODE_MAP
+        .get(node)
+        .and_then(|id| NODE_REGISTRATIONS.get(&id).map(|value| value.supervisor))
+        .is_some_and(|supervisor| supervisor == Some(process))
+}
+
 /// Returns the node list excluding the local node.
 pub fn node_list() -> Vec<Node> {
     NODE_MAP
diff --git a/hydra/src/node_remote.rs b/hydra/src/node_remote.rs
index 68416f0..2cd3cbc 100644
--- a/hydra/src/node_remote.rs
+++ b/hydra/src/node_remote.rs
@@ -40,6 +40,7 @@ use crate::node_register;
 use crate::node_register_workers;
 use crate::node_remote_supervisor_down;
 use crate::node_send_frame;
+use crate::node_supervised_by;
 use crate::process_exists_lock;
 use crate::process_exit;
 use crate::process_name_lookup;
@@ -135,6 +136,19 @@ async fn node_remote_sender(mut writer: Writer, supervisor: Arc<NodeRemoteSuperv
     }
 }
 
+/// Destroys a monitor that was installed after the connection was lost.
+fn node_remote_monitor_check(
+    supervisor: &NodeRemoteSupervisor,
+    process: Pid,
+    reference: Reference,
+) {
+    if !node_supervised_by(&supervisor.node, supervisor.process) {
+        monitor_destroy(process, reference);
+
+        node_process_monitor_destroy(supervisor.node.clone(), reference);
+    }
+}
+
 async fn node_remote_receiver(mut reader: Reader, supervisor: Arc<NodeRemoteSupervisor>) {
     let recv_timeout = supervisor.local_supervisor.options.heartbeat_timeout;
 
@@ -187,6 +201,8 @@ async fn node_remote_receiver(mut reader: Reader, supervisor: Arc<NodeRemoteSupe
                                 node_send_frame(monitor_down.into(), node);
                             }
                         });
+
+                        node_remote_monitor_check(&supervisor, process, reference);
                     } else if let Some(name) = monitor.process_name {
                         let process = process_name_lookup(&name).filter(|process| {
                             process_exists_lock(*process, |exists| {
@@ -204,6 +220,8 @@ async fn node_remote_receiver(mut reader: Reader, supervisor: Arc<NodeRemoteSupe
                         });
 
                         if let Some(process) = process {
+                            node_remote_monitor_check(&supervisor, process, reference);
+
                             let monitor_update =
                                 MonitorUpdate::new(from_id, process.id(), reference.id());
 
@@ -257,6 +275,13 @@ async fn node_remote_receiver(mut reader: Reader, supervisor: Arc<NodeRemoteSupe
                 if link.install {
                     if link_create(process, from, false) {
                         node_process_link_create(supervisor.node.clone(), from, process);
+
+                        // The connection could've been lost before the link was installed.
+                        if !node_supervised_by(&supervisor.node, supervisor.process) {
+                            link_destroy(process, from);
+
+                            node_link_destroy(supervisor.node.clone(), from, process);
+                        }
                     } else {
                         let mut link_down =
                             LinkDown::new(link.process_id, ExitReason::from("noproc"));
-- 
2.43.0


From 4cf6c36a8868b1dfafa36bec6e7a037922aad385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:19 +0000
Subject: [PATCH 46/49] fix: a websocket handler is terminated once, however it
 ends

---
 hydra-websockets/src/websocket_handler.rs | 96 ++++++++++-------------
 1 file changed, 40 insertions(+), 56 deletions(-)

diff --git a/hydra-websockets/src/websocket_handler.rs b/hydra-websockets/src/websocket_handler.rs
index a9ca593..30196d2 100644
--- a/hydra-websockets/src/websocket_handler.rs
+++ b/hydra-websockets/src/websocket_handler.rs
@@ -1,3 +1,4 @@
+use std::convert::Infallible;
 use std::future::Future;
 use std::net::SocketAddr;
 
@@ -84,12 +85,13 @@ where
 }
 
 /// Internal routine to process commands from a [WebsocketHandler] callback.
-async fn websocket_process_commands<T, S>(
+///
+/// An error is the reason the handler has to exit with.
+async fn websocket_process_commands<S>(
     commands: WebsocketCommands,
-    handler: &mut T,
     stream: &mut WebSocketStream<S>,
-) where
-    T: WebsocketHandler + Send + 'static,
+) -> Result<(), ExitReason>
+where
     S: AsyncRead + AsyncWrite + Unpin + Send + 'static,
 {
     let mut close_command: Option<WebsocketCommand> = None;
@@ -110,27 +112,24 @@ async fn websocket_process_commands<T, S>(
 
     let mut sends = stream::iter(sends);
 
-    if let Err(error) = stream.send_all(&mut sends).await {
-        handler.terminate(error_to_reason(&error)).await;
-
-        Process::exit(Process::current(), error_to_reason(&error))
-    }
+    stream
+        .send_all(&mut sends)
+        .await
+        .map_err(|error| error_to_reason(&error))?;
 
     if let Some(WebsocketCommand::Close(code, reason)) = close_command {
-        if let Err(error) = stream
+        stream
             .close(Some(CloseFrame {
                 code,
                 reason: reason.into(),
             }))
             .await
-        {
-            handler.terminate(error_to_reason(&error)).await;
+            .map_err(|error| error_to_reason(&error))?;
 
-            Process::exit(Process::current(), error_to_reason(&error));
-        } else {
-            Process::exit(Process::current(), ExitReason::Normal);
-        }
+        return Err(ExitReason::Normal);
     }
+
+    Ok(())
 }
 
 /// Internal [WebsocketHandler] start routine.
@@ -139,31 +138,31 @@ where
     T: WebsocketHandler + Send + 'static,
     S: AsyncRead + AsyncWrite + Unpin + Send + 'static,
 {
-    match handler.websocket_init().await {
-        Ok(commands) => {
-            if let Some(commands) = commands {
-                websocket_process_commands(commands, &mut handler, &mut stream).await;
-            }
-        }
-        Err(reason) => {
-            return Process::exit(Process::current(), reason);
-        }
+    let Err(reason) = websocket_loop(&mut handler, &mut stream).await;
+
+    handler.terminate(reason.clone()).await;
+
+    Process::exit(Process::current(), reason);
+}
+
+/// Internal [WebsocketHandler] loop, which ends with the reason the handler has to exit with.
+async fn websocket_loop<T, S>(
+    handler: &mut T,
+    stream: &mut WebSocketStream<S>,
+) -> Result<Infallible, ExitReason>
+where
+    T: WebsocketHandler + Send + 'static,
+    S: AsyncRead + AsyncWrite + Unpin + Send + 'static,
+{
+    if let Some(commands) = handler.websocket_init().await? {
+        websocket_process_commands(commands, stream).await?;
     }
 
     loop {
         tokio::select! {
             message = Process::receive::<T::Message>() => {
-                match handler.websocket_info(message).await {
-                    Ok(commands) => {
-                        if let Some(commands) = commands {
-                            websocket_process_commands(commands, &mut handler, &mut stream).await;
-                        }
-                    }
-                    Err(reason) => {
-                        handler.terminate(reason.clone()).await;
-
-                        return Process::exit(Process::current(), reason);
-                    }
+                if let Some(commands) = handler.websocket_info(message).await? {
+                    websocket_process_commands(commands, stream).await?;
                 }
             }
             ws_message = stream.next() => {
@@ -178,9 +177,7 @@ where
                         match &message {
                             WebsocketMessage::Ping(data) => {
                                 if let Err(error) = stream.send(WebsocketMessage::Pong(data.clone())).await {
-                                    handler.terminate(error_to_reason(&error)).await;
-
-                                    return Process::exit(Process::current(), error_to_reason(&error));
+                                    return Err(error_to_reason(&error));
                                 }
                             }
                             WebsocketMessage::Close(_) => {
@@ -191,29 +188,16 @@ where
                             }
                         }
 
-                        match handler.websocket_handle(message).await {
-                            Ok(commands) => {
-                                if let Some(commands) = commands {
-                                    websocket_process_commands(commands, &mut handler, &mut stream).await;
-                                }
-                            }
-                            Err(reason) => {
-                                handler.terminate(reason.clone()).await;
-
-                                return Process::exit(Process::current(), reason);
-                            }
+                        if let Some(commands) = handler.websocket_handle(message).await? {
+                            websocket_process_commands(commands, stream).await?;
                         }
 
                         if should_close {
-                            handler.terminate(ExitReason::from("connection_closed")).await;
-
-                            return Process::exit(Process::current(), ExitReason::from("connection_closed"));
+                            return Err(ExitReason::from("connection_closed"));
                         }
                     }
                     Err(error) => {
-                        handler.terminate(error_to_reason(&error)).await;
-
-                        return Process::exit(Process::current(), error_to_reason(&error));
+                        return Err(error_to_reason(&error));
                     }
                 }
             }
-- 
2.43.0


From b6b771be09456770d12bbb2927acee055a97d383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:35 +0000
Subject: [PATCH 47/49] fix: a websocket handler answers the close of its
 client

---
 hydra-websockets/src/websocket_handler.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hydra-websockets/src/websocket_handler.rs b/hydra-websockets/src/websocket_handler.rs
index 30196d2..8f39e8e 100644
--- a/hydra-websockets/src/websocket_handler.rs
+++ b/hydra-websockets/src/websocket_handler.rs
@@ -181,6 +181,9 @@ where
                                 }
                             }
                             WebsocketMessage::Close(_) => {
+                                // The reply was queued only, without it the close is incomplete for the client.
+                                let _ = stream.flush().await;
+
                                 should_close = true;
                             }
                             _ => {
-- 
2.43.0


From dfdaea5f9935d4c35b49c10bd7251e1f6ff7a3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:58 +0000
Subject: [PATCH 48/49] fix: a websocket client that is refused gets a response

---
 hydra-websockets/src/websocket_server.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hydra-websockets/src/websocket_server.rs b/hydra-websockets/src/websocket_server.rs
index bdb2b47..6540ea3 100644
--- a/hydra-websockets/src/websocket_server.rs
+++ b/hydra-websockets/src/websocket_server.rs
@@ -13,6 +13,7 @@ use tokio_tungstenite::accept_hdr_async_with_config;
 use tokio_tungstenite::tungstenite;
 
 use tungstenite::handshake::server::ErrorResponse;
+use tungstenite::http::StatusCode;
 use tungstenite::protocol::WebSocketConfig;
 
 #[cfg(feature = "native-tls")]
@@ -125,7 +126,14 @@ where
             handler = Some(rhandler);
             Ok(response)
         }
-        Err(reason) => Err(ErrorResponse::new(Some(format!("{:?}", reason)))),
+        Err(reason) => {
+            let mut response = ErrorResponse::new(Some(format!("{:?}", reason)));
+
+            // A response with the default status, a success, would not be sent.
+            *response.status_mut() = StatusCode::FORBIDDEN;
+
+            Err(response)
+        }
     };
 
     let ws_config = WebSocketConfig::default()
-- 
2.43.0


From 69a5fb35f2bed8be39242d91bff3244b5d40f32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:16 +0000
Subject: [PATCH 49/49] verification hooks: schedule other threads between two
 accesses to a counter

---
 hydra/src/node_registry.rs |  4 ++
 hydra/src/process.rs       |  4 ++
 hydra/src/reference.rs     |  4 ++
 hydra/src/verif.rs         | 79 ++++++++++++++++++++++++++++++++++++++
 4 files changed, 91 insertions(+)

diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index 75ce6e0..33bfd7b 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -1,6 +1,7 @@
 use std::collections::BTreeMap;
 use std::collections::BTreeSet;
 use std::net::SocketAddr;
+#[cfg(not(hydra_verif))]
 use std::sync::atomic::AtomicU64;
 use std::sync::atomic::Ordering;
 use std::sync::Mutex;
@@ -32,6 +33,9 @@ use crate::Process;
 use crate::ProcessItem;
 use crate::Reference;
 
+#[cfg(hydra_verif)]
+use crate::verif::AtomicU64;
+
 /// Represents the node id always used for the local node.
 pub const LOCAL_NODE_ID: u64 = 0;
 
diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index eb1f05b..e4ed022 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -3,6 +3,7 @@ use std::collections::BTreeMap;
 use std::collections::BTreeSet;
 use std::future::Future;
 use std::panic::AssertUnwindSafe;
+#[cfg(not(hydra_verif))]
 use std::sync::atomic::AtomicU64;
 use std::sync::atomic::Ordering;
 use std::time::Duration;
@@ -66,6 +67,9 @@ use crate::Receivable;
 use crate::Reference;
 use crate::Timeout;
 
+#[cfg(hydra_verif)]
+use crate::verif::AtomicU64;
+
 /// The send type for a process.
 pub(crate) type ProcessSend = Sender<ProcessItem>;
 /// The receive type for a process.
diff --git a/hydra/src/reference.rs b/hydra/src/reference.rs
index eef16d1..c8ffec6 100644
--- a/hydra/src/reference.rs
+++ b/hydra/src/reference.rs
@@ -2,6 +2,7 @@ use std::fmt::Debug;
 use std::net::SocketAddr;
 use std::num::NonZeroU64;
 
+#[cfg(not(hydra_verif))]
 use std::sync::atomic::AtomicU64;
 use std::sync::atomic::Ordering;
 
@@ -15,6 +16,9 @@ use crate::Node;
 use crate::INVALID_NODE_ID;
 use crate::LOCAL_NODE_ID;
 
+#[cfg(hydra_verif)]
+use crate::verif::AtomicU64;
+
 /// The representation of a [Reference] serialized for the wire.
 #[derive(Serialize, Deserialize)]
 enum ReferenceWire {
diff --git a/hydra/src/verif.rs b/hydra/src/verif.rs
index cb76265..cece402 100644
--- a/hydra/src/verif.rs
+++ b/hydra/src/verif.rs
@@ -1,5 +1,8 @@
 use std::hash::BuildHasher;
 use std::hash::Hasher;
+use std::ops::Deref;
+use std::sync::atomic::Ordering;
+use std::sync::OnceLock;
 
 pub use crate::frame::*;
 
@@ -40,3 +43,79 @@ impl Hasher for TransparentHasher {
         self.0
     }
 }
+
+/// Called where another thread could run between two accesses to an [AtomicU64].
+static POINT: OnceLock<fn()> = OnceLock::new();
+
+/// Sets the function that is called where another thread could run between two accesses to an [AtomicU64].
+pub fn set_point(point: fn()) {
+    let _ = POINT.set(point);
+}
+
+/// An atomic that lets the harness schedule other threads between its accesses.
+///
+/// Increments that take effect in one step are left alone, anything else could happen before or after them.
+pub struct AtomicU64(std::sync::atomic::AtomicU64);
+
+impl AtomicU64 {
+    /// Constructs a new [AtomicU64].
+    pub const fn new(value: u64) -> Self {
+        Self(std::sync::atomic::AtomicU64::new(value))
+    }
+
+    /// Loads the value.
+    pub fn load(&self, order: Ordering) -> u64 {
+        point();
+        self.0.load(order)
+    }
+
+    /// Stores the value.
+    pub fn store(&self, value: u64, order: Ordering) {
+        point();
+        self.0.store(value, order)
+    }
+
+    /// Stores the value, returning the previous one.
+    pub fn swap(&self, value: u64, order: Ordering) -> u64 {
+        point();
+        self.0.swap(value, order)
+    }
+
+    /// Stores the value if the current one is as expected.
+    pub fn compare_exchange(
+        &self,
+        current: u64,
+        value: u64,
+        success: Ordering,
+        failure: Ordering,
+    ) -> Result<u64, u64> {
+        point();
+        self.0.compare_exchange(current, value, success, failure)
+    }
+
+    /// Stores the value if the current one is as expected.
+    pub fn compare_exchange_weak(
+        &self,
+        current: u64,
+        value: u64,
+        success: Ordering,
+        failure: Ordering,
+    ) -> Result<u64, u64> {
+        self.compare_exchange(current, value, success, failure)
+    }
+}
+
+impl Deref for AtomicU64 {
+    type Target = std::sync::atomic::AtomicU64;
+
+    fn deref(&self) -> &Self::Target {
+        &self.0
+    }
+}
+
+/// Lets another thread run, if the harness wants to.
+fn point() {
+    if let Some(point) = POINT.get() {
+        point();
+    }
+}
-- 
2.43.0

