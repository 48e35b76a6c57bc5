From c996fbea2e29834b1701a7d71178b9244138ec2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 01/15] fix: don't panic on a network address without a netmask

---
 sudo_plugin/src/options/settings.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sudo_plugin/src/options/settings.rs b/sudo_plugin/src/options/settings.rs
index 4115411..ca5c8a7 100644
--- a/sudo_plugin/src/options/settings.rs
+++ b/sudo_plugin/src/options/settings.rs
@@ -328,7 +328,10 @@ impl FromSudoOption for NetAddr {
             .unwrap_or_else(|| bytes.len());
 
         let addr = s[        .. mid].parse()?;
-        let mask = s[mid + 1 ..    ].parse()?;
+
+        // if there's no separator there's also no mask, and the empty
+        // string isn't parseable as an address
+        let mask = s.get(mid + 1 ..).unwrap_or("").parse()?;
 
         Ok(Self {
             addr,
-- 
2.43.0


From 16a52a2f55eb8b753446628678afeeb8c3c2d82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 02/15] fix: don't loop forever printing an error that has a
 source

---
 sudo_plugin/src/output/print_facility.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sudo_plugin/src/output/print_facility.rs b/sudo_plugin/src/output/print_facility.rs
index 0c19d59..7e4a36d 100644
--- a/sudo_plugin/src/output/print_facility.rs
+++ b/sudo_plugin/src/output/print_facility.rs
@@ -88,8 +88,12 @@ impl PrintFacility {
         // stabilized
         self.write_line(format!("{}", error).as_bytes())?;
 
-        while let Some(error) = error.source() {
+        let mut source = error.source();
+
+        while let Some(error) = source {
             self.write_line(format!("{}", error).as_bytes())?;
+
+            source = error.source();
         }
 
         Ok(())
-- 
2.43.0


From 899c42393022ac4102635b4dcbacfca258685678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:01 +0000
Subject: [PATCH 03/15] fix: don't use messages as printf format strings

---
 sudo_plugin/src/output/print_facility.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sudo_plugin/src/output/print_facility.rs b/sudo_plugin/src/output/print_facility.rs
index 7e4a36d..7ca2233 100644
--- a/sudo_plugin/src/output/print_facility.rs
+++ b/sudo_plugin/src/output/print_facility.rs
@@ -113,7 +113,10 @@ impl Write for PrintFacility {
         let count = unsafe {
             // TODO: level should be bitflags when we start implementing the
             // full conversation interface
-            (printf)(self.level as _, message.as_ptr())
+            //
+            // the message isn't ours to be used as a format string, it
+            // may contain `%`s that need to be printed literally
+            (printf)(self.level as _, b"%s\0".as_ptr().cast(), message.as_ptr())
         };
 
         #[allow(clippy::cast_sign_loss)]
-- 
2.43.0


From 644106bda5127739de962e635f0bcf35e02f4dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:20 +0000
Subject: [PATCH 04/15] fix: accept commands and other paths that aren't UTF-8

A command whose path wasn't UTF-8 was indistinguishable from there being
no command at all (sudo -V), so its session was never paired.
---
 sudo_plugin/src/options/command_info.rs |  4 ++--
 sudo_plugin/src/options/option_map.rs   | 13 ++++++++++++-
 sudo_plugin/src/options/user_info.rs    |  4 ++--
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/sudo_plugin/src/options/command_info.rs b/sudo_plugin/src/options/command_info.rs
index 9c56cb9..a188cad 100644
--- a/sudo_plugin/src/options/command_info.rs
+++ b/sudo_plugin/src/options/command_info.rs
@@ -248,7 +248,7 @@ impl TryFrom<OptionMap> for CommandInfo {
         Ok(Self {
             // in the event that the `-V` flag is passed to `sudo`,
             // there's no command
-            command:       value.get("command").unwrap_or_default(),
+            command:       value.get_path("command").unwrap_or_default(),
             runas_gid,
             runas_uid,
             runas_egid:    value.get("runas_egid").unwrap_or(runas_gid),
@@ -257,7 +257,7 @@ impl TryFrom<OptionMap> for CommandInfo {
 
             chroot:            value.get("chroot")            .ok(),
             close_from:        value.get("closefrom")         .ok(),
-            cwd:               value.get("cwd")               .ok(),
+            cwd:               value.get_path("cwd")          .ok(),
             exec_background:   value.get("exec_background")   .unwrap_or(false),
             exec_fd:           value.get("execfd")            .ok(),
             iolog_compress:    value.get("iolog_compress")    .unwrap_or(false),
diff --git a/sudo_plugin/src/options/option_map.rs b/sudo_plugin/src/options/option_map.rs
index 4515a08..cebfb92 100644
--- a/sudo_plugin/src/options/option_map.rs
+++ b/sudo_plugin/src/options/option_map.rs
@@ -16,7 +16,9 @@ use crate::errors::{Result, Error};
 use crate::options::traits::FromSudoOption;
 
 use std::collections::HashMap;
-use std::ffi::CStr;
+use std::ffi::{CStr, OsStr};
+use std::os::unix::ffi::OsStrExt;
+use std::path::PathBuf;
 use std::str;
 
 use libc::c_char;
@@ -120,6 +122,15 @@ impl OptionMap {
         self.get_bytes(k.as_bytes()).and_then(|b| str::from_utf8(b).ok())
     }
 
+    /// Gets the value of a key as a path. Unlike [`get`](Self::get),
+    /// the value isn't required to be a UTF-8 string since paths aren't
+    /// required to be UTF-8 either.
+    pub(crate) fn get_path(&self, k: &str) -> Result<PathBuf> {
+        self.get_bytes(k.as_bytes())
+            .map(|b| OsStr::from_bytes(b).into())
+            .ok_or(Error::OptionMissing { key: k.into() })
+    }
+
     /// Fetches a raw byte value using a bytes as the key. This is
     /// provided to allow plugins to retrieve values for keys when the
     /// value and/or key are not guaranteed to be UTF-8 strings.
diff --git a/sudo_plugin/src/options/user_info.rs b/sudo_plugin/src/options/user_info.rs
index 388324a..db85c23 100644
--- a/sudo_plugin/src/options/user_info.rs
+++ b/sudo_plugin/src/options/user_info.rs
@@ -99,7 +99,7 @@ impl TryFrom<OptionMap> for UserInfo {
 
     fn try_from(value: OptionMap) -> Result<Self> {
         Ok(Self {
-            cwd:    value.get("cwd")?,
+            cwd:    value.get_path("cwd")?,
             egid:   value.get("egid")?,
             euid:   value.get("euid")?,
             gid:    value.get("gid")?,
@@ -116,7 +116,7 @@ impl TryFrom<OptionMap> for UserInfo {
             lines:  value.get("lines") .unwrap_or(24),
             sid:    value.get("sid")   .unwrap_or(0),
             tcpgid: value.get("tcpgid").unwrap_or(-1),
-            tty:    value.get("tty")   .ok(),
+            tty:    value.get_path("tty").ok(),
 
             raw: value,
         })
-- 
2.43.0


From 1d11808f210be1ab95e4b0314e39deee3b9d9b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 05/15] fix: refuse redirected stdin even if it isn't to be
 logged

Paired sessions could be piped to whenever the policy hadn't asked for
stdin to be logged, which is its default.
---
 sudo_pair/src/lib.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/sudo_pair/src/lib.rs b/sudo_pair/src/lib.rs
index 6ac49e8..dce880f 100644
--- a/sudo_pair/src/lib.rs
+++ b/sudo_pair/src/lib.rs
@@ -111,6 +111,10 @@ impl IoPlugin for SudoPair {
 
     const NAME: &'static str = "sudo_pair";
 
+    // the hints only say what the policy wants logged; we need to refuse
+    // redirected input even if the policy has no interest in logging it
+    const IGNORE_IOLOG_HINTS: bool = true;
+
     fn open(env: &'static IoEnv) -> Result<Self> {
         let mut slog = slog(Self::NAME, Self::VERSION);
 
@@ -207,14 +211,26 @@ impl IoPlugin for SudoPair {
     }
 
     fn log_ttyout(&self, log: &[u8]) -> Result<()> {
+        if !self.env.command_info.iolog_ttyout {
+            return Ok(());
+        }
+
         self.log_output(log)
     }
 
     fn log_stdout(&self, log: &[u8]) -> Result<()> {
-       self.log_output(log)
+        if !self.env.command_info.iolog_stdout {
+            return Ok(());
+        }
+
+        self.log_output(log)
     }
 
     fn log_stderr(&self, log: &[u8]) -> Result<()> {
+        if !self.env.command_info.iolog_stderr {
+            return Ok(());
+        }
+
         self.log_output(log)
     }
 
-- 
2.43.0


From 1ac4bb0c688c266432eb51c745d5eb09c3fbe014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:51 +0000
Subject: [PATCH 06/15] fix: don't abort sudo when the socket's fd is
 FD_SETSIZE or above

---
 sudo_pair/src/socket.rs | 37 +++++++++++--------------------------
 1 file changed, 11 insertions(+), 26 deletions(-)

diff --git a/sudo_pair/src/socket.rs b/sudo_pair/src/socket.rs
index eaf45c6..5912ab3 100644
--- a/sudo_pair/src/socket.rs
+++ b/sudo_pair/src/socket.rs
@@ -25,7 +25,6 @@ use std::os::unix::prelude::*;
 use std::os::unix::net::{UnixListener, UnixStream};
 use std::mem;
 use std::path::Path;
-use std::ptr;
 
 use libc::{self, gid_t, mode_t, uid_t};
 
@@ -69,37 +68,23 @@ impl Socket {
                     return Err(Error::last_os_error());
                 }
 
-                let     fd      = listener.as_raw_fd();
-                let mut readfds = mem::MaybeUninit::<libc::fd_set>::uninit();
-
-                libc::FD_ZERO(readfds.as_mut_ptr());
-
-                let mut readfds = readfds.assume_init();
-
-                libc::FD_SET(fd, &mut readfds);
+                let mut pollfd = libc::pollfd {
+                    fd:      listener.as_raw_fd(),
+                    events:  libc::POLLIN,
+                    revents: 0,
+                };
 
                 // rust automatically wraps the `accept()` function in a
                 // loop that retries on SIGINT, so we have to get
-                // creative here and `select(2)` ourselves if we want
-                // Ctrl-C to interrupt the process
-                match libc::select(
-                    fd + 1, // this must be greater than the fd's int value
-                    &mut readfds,
-                    ptr::null_mut(),
-                    ptr::null_mut(),
-                    ptr::null_mut(),
-                ) {
+                // creative here and `poll(2)` ourselves if we want
+                // Ctrl-C to interrupt the process (`select(2)` can't be
+                // used as it's limited to fds below `FD_SETSIZE`)
+                match libc::poll(&mut pollfd, 1, -1) {
                     1  => (),
                     -1 => return Err(Error::last_os_error()),
-                    0  => unreachable!("`select` returned 0 even though no timeout was set"),
-                    _  => unreachable!("`select` indicated that more than 1 fd is ready"),
+                    0  => unreachable!("`poll` returned 0 even though no timeout was set"),
+                    _  => unreachable!("`poll` indicated that more than 1 fd is ready"),
                 };
-
-                // as a sanity check, confirm that the fd we're going to
-                // `accept` is the one that `select` says is ready
-                if !libc::FD_ISSET(fd, &readfds) {
-                    unreachable!("`select` returned an unexpected file descriptor");
-                }
             }
 
             listener.accept().map(|connection| {
-- 
2.43.0


From ce8a60e605618693603dbe0144e42254c1c67e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:02 +0000
Subject: [PATCH 07/15] fix: notice explicit groups whose names aren't UTF-8

---
 sudo_pair/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sudo_pair/src/lib.rs b/sudo_pair/src/lib.rs
index dce880f..07c5f54 100644
--- a/sudo_pair/src/lib.rs
+++ b/sudo_pair/src/lib.rs
@@ -565,7 +565,10 @@ impl SudoPair {
 
     // returns true if `-g` was specified
     fn is_sudoing_to_explicit_group(&self) -> bool {
-        self.env.settings.runas_group.is_some()
+        //
+        // the raw setting is used because group names aren't required to
+        // be UTF-8, and those that aren't are absent from the parsed one
+        self.env.settings.raw.get_bytes(b"runas_group").is_some()
     }
 
     fn socket_path(&self) -> PathBuf {
-- 
2.43.0


From b8b9bb123f64b52fda678de259d29fc27baa3b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:04 +0000
Subject: [PATCH 08/15] fix: report sudo_pair's own version

---
 sudo_pair/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sudo_pair/src/lib.rs b/sudo_pair/src/lib.rs
index 07c5f54..568cf67 100644
--- a/sudo_pair/src/lib.rs
+++ b/sudo_pair/src/lib.rs
@@ -111,6 +111,9 @@ impl IoPlugin for SudoPair {
 
     const NAME: &'static str = "sudo_pair";
 
+    // the default is the version of the `sudo_plugin` crate
+    const VERSION: &'static str = env!("CARGO_PKG_VERSION");
+
     // the hints only say what the policy wants logged; we need to refuse
     // redirected input even if the policy has no interest in logging it
     const IGNORE_IOLOG_HINTS: bool = true;
-- 
2.43.0


From e8c92f13cb4d24fdcb51562bd8557d14a0dd5048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:16 +0000
Subject: [PATCH 09/15] fix: read the command's umask as octal

---
 sudo_plugin/src/options/command_info.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sudo_plugin/src/options/command_info.rs b/sudo_plugin/src/options/command_info.rs
index a188cad..501ce2c 100644
--- a/sudo_plugin/src/options/command_info.rs
+++ b/sudo_plugin/src/options/command_info.rs
@@ -253,7 +253,10 @@ impl TryFrom<OptionMap> for CommandInfo {
             runas_uid,
             runas_egid:    value.get("runas_egid").unwrap_or(runas_gid),
             runas_euid:    value.get("runas_euid").unwrap_or(runas_uid),
-            umask:         value.get("umask").unwrap_or(0o7777),
+            // the umask is in octal, like every file mode sudo gives us
+            umask:         value.get_str("umask")
+                .and_then(|v| mode_t::from_str_radix(v, 8).ok())
+                .unwrap_or(0o7777),
 
             chroot:            value.get("chroot")            .ok(),
             close_from:        value.get("closefrom")         .ok(),
-- 
2.43.0


From 1a016d561ef9aac7b52c4cf9e2237a631a4082ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:18 +0000
Subject: [PATCH 10/15] fix: look up the BSD authentication type under sudo's
 key for it

---
 sudo_plugin/src/options/settings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudo_plugin/src/options/settings.rs b/sudo_plugin/src/options/settings.rs
index ca5c8a7..2781979 100644
--- a/sudo_plugin/src/options/settings.rs
+++ b/sudo_plugin/src/options/settings.rs
@@ -279,7 +279,7 @@ impl TryFrom<OptionMap> for Settings {
             plugin_path: value.get("plugin_path")?,
             progname:    value.get("progname")?,
 
-            bsd_auth_type:        value.get("bsd_auth_type")       .ok(),
+            bsd_auth_type:        value.get("bsdauth_type")        .ok(),
             close_from:           value.get("closefrom")           .ok(),
             debug_flags:          value.get("debug_flags")         .ok(),
             debug_level:          value.get("debug_level")         .ok(),
-- 
2.43.0


From b524e326fd530c043910eb59e1724661e21ca967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:49 +0000
Subject: [PATCH 11/15] fix: include flags whose values aren't UTF-8 in the
 invocation

---
 sudo_plugin/src/options/settings.rs | 31 ++++++++++++++++-------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/sudo_plugin/src/options/settings.rs b/sudo_plugin/src/options/settings.rs
index 2781979..90960ce 100644
--- a/sudo_plugin/src/options/settings.rs
+++ b/sudo_plugin/src/options/settings.rs
@@ -174,6 +174,9 @@ impl Settings {
     pub fn flags(&self) -> Vec<Vec<u8>> {
         let mut flags: Vec<Vec<u8>> = vec![];
 
+        // values that aren't valid UTF-8 were still given by the user,
+        // so string values are taken from the raw options
+
         // `sudoedit` is set if the flag was provided *or* if sudo
         // was invoked as `sudoedit` directly; try our best to intrepret
         // this case, although we'll technically get it wrong in the
@@ -182,23 +185,23 @@ impl Settings {
             flags.push(b"--edit".to_vec());
         }
 
-        if let Some(ref runas_user) = self.runas_user {
+        if let Some(runas_user) = self.raw.get_bytes(b"runas_user") {
             let mut flag = b"--user ".to_vec();
-            flag.extend_from_slice(runas_user.as_bytes());
+            flag.extend_from_slice(runas_user);
 
             flags.push(flag);
         }
 
-        if let Some(ref runas_group) = self.runas_group {
+        if let Some(runas_group) = self.raw.get_bytes(b"runas_group") {
             let mut flag = b"--group ".to_vec();
-            flag.extend_from_slice(runas_group.as_bytes());
+            flag.extend_from_slice(runas_group);
 
             flags.push(flag);
         }
 
-        if let Some(ref prompt) = self.prompt {
+        if let Some(prompt) = self.raw.get_bytes(b"prompt") {
             let mut flag = b"--prompt ".to_vec();
-            flag.extend_from_slice(prompt.as_bytes());
+            flag.extend_from_slice(prompt);
 
             flags.push(flag);
         }
@@ -231,30 +234,30 @@ impl Settings {
             flags.push(b"--non-interactive".to_vec());
         }
 
-        if let Some(ref login_class) = self.login_class {
+        if let Some(login_class) = self.raw.get_bytes(b"login_class") {
             let mut flag = b"--login-class ".to_vec();
-            flag.extend_from_slice(login_class.as_bytes());
+            flag.extend_from_slice(login_class);
 
             flags.push(flag);
         }
 
-        if let Some(ref selinux_role) = self.selinux_role {
+        if let Some(selinux_role) = self.raw.get_bytes(b"selinux_role") {
             let mut flag = b"--role ".to_vec();
-            flag.extend_from_slice(selinux_role.as_bytes());
+            flag.extend_from_slice(selinux_role);
 
             flags.push(flag);
         }
 
-        if let Some(ref selinux_type) = self.selinux_type {
+        if let Some(selinux_type) = self.raw.get_bytes(b"selinux_type") {
             let mut flag = b"--type ".to_vec();
-            flag.extend_from_slice(selinux_type.as_bytes());
+            flag.extend_from_slice(selinux_type);
 
             flags.push(flag);
         }
 
-        if let Some(ref bsd_auth_type) = self.bsd_auth_type {
+        if let Some(bsd_auth_type) = self.raw.get_bytes(b"bsdauth_type") {
             let mut flag = b"--auth-type ".to_vec();
-            flag.extend_from_slice(bsd_auth_type.as_bytes());
+            flag.extend_from_slice(bsd_auth_type);
 
             flags.push(flag);
         }
-- 
2.43.0


From 329d8f6f2ea25d0f42c36eb6fddf39bc8511c0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 12/15] fix: don't evaluate the approval script's arguments

---
 sample/bin/sudo_approve | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sample/bin/sudo_approve b/sample/bin/sudo_approve
index ec412ef..6940966 100755
--- a/sample/bin/sudo_approve
+++ b/sample/bin/sudo_approve
@@ -50,6 +50,11 @@ usage() {
 
 main() {
     declare -r socket_path="${1}"
+
+    # integer variables evaluate whatever they're assigned (up to and
+    # including command substitutions), so only let numbers near them
+    [[ "${2}" =~ ^[0-9]+$ && "${3}" =~ ^[0-9]+$ ]] || usage
+
     declare -ri uid="${2}"
     declare -ri pid="${3}"
 
-- 
2.43.0


From 3ef0d13de62cb6e6779db397b1bbe624696cd4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:41 +0000
Subject: [PATCH 13/15] fix: catch panics of an error's conversion into a log
 status

---
 sudo_plugin/src/core.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sudo_plugin/src/core.rs b/sudo_plugin/src/core.rs
index 86e5619..3cf0be5 100644
--- a/sudo_plugin/src/core.rs
+++ b/sudo_plugin/src/core.rs
@@ -120,11 +120,13 @@ impl<T: Into<LogStatus>> From<std::thread::Result<T>> for LogStatus {
 }
 
 fn catch_unwind_open<T: std::fmt::Debug + Into<OpenStatus>, F: FnOnce() -> T + UnwindSafe>(f: F) -> i32 {
-    Into::<OpenStatus>::into(catch_unwind(f)) as _
+    // the conversion can run code of the plugin's, so it can panic, too
+    Into::<OpenStatus>::into(catch_unwind(|| -> OpenStatus { f().into() })) as _
 }
 
 fn catch_unwind_log<T: Into<LogStatus>, F: FnOnce() -> T + UnwindSafe>(f: F) -> i32 {
-    Into::<LogStatus>::into(catch_unwind(f)) as _
+    // the conversion can run code of the plugin's, so it can panic, too
+    Into::<LogStatus>::into(catch_unwind(|| -> LogStatus { f().into() })) as _
 }
 
 #[doc(hidden)]
-- 
2.43.0


From b8d6bbfbe1ddb3a834c714c0003c1dd70e7faeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:14 +0000
Subject: [PATCH 14/15] fix: don't reuse the environment of a session that
 failed to open or close

---
 sudo_plugin/src/plugin/io_state.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sudo_plugin/src/plugin/io_state.rs b/sudo_plugin/src/plugin/io_state.rs
index 6ef0188..5c47f8e 100644
--- a/sudo_plugin/src/plugin/io_state.rs
+++ b/sudo_plugin/src/plugin/io_state.rs
@@ -56,6 +56,11 @@ pub unsafe trait IoState<P: IoPlugin> {
         f:   F,
     ) -> OpenStatus {
         unsafe {
+            // a session that failed to open or panicked while closing
+            // leaves its environment behind, which isn't this session's
+            drop(Self::io_plugin_mut().take());
+            drop(Self::io_env_mut()   .take());
+
             let env    = Self::io_env_mut().get_or_insert(env);
             let plugin = f(env).map(|p| Self::io_plugin_mut().get_or_insert(p));
 
-- 
2.43.0


From 8655928d49c78e1b287a6a8a3002e9b5886cd19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:05 +0000
Subject: [PATCH 15/15] fix: accept plugin options with paths that aren't UTF-8

---
 sudo_pair/src/lib.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/sudo_pair/src/lib.rs b/sudo_pair/src/lib.rs
index 568cf67..61cf176 100644
--- a/sudo_pair/src/lib.rs
+++ b/sudo_pair/src/lib.rs
@@ -75,6 +75,7 @@ use crate::socket::Socket;
 
 use std::cell::RefCell;
 use std::collections::HashSet;
+use std::ffi::OsStr;
 use std::fs::File;
 use std::io::{Read, Write};
 use std::os::unix::ffi::OsStrExt;
@@ -756,18 +757,22 @@ impl PluginOptions {
 #[allow(single_use_lifetimes)]
 impl<'a> From<&'a OptionMap> for PluginOptions {
     fn from(map: &'a OptionMap) -> Self {
+        // paths aren't required to be UTF-8, so they're read as bytes
+        let path = |key: &str| map.get_bytes(key.as_bytes())
+            .map(|path| PathBuf::from(OsStr::from_bytes(path)));
+
         Self {
-            binary_path: map.get("binary_path")
-                .unwrap_or_else(|_| DEFAULT_BINARY_PATH.into()),
+            binary_path: path("binary_path")
+                .unwrap_or_else(|| DEFAULT_BINARY_PATH.into()),
 
-            user_prompt_path: map.get("user_prompt_path")
-                .unwrap_or_else(|_| DEFAULT_USER_PROMPT_PATH.into()),
+            user_prompt_path: path("user_prompt_path")
+                .unwrap_or_else(|| DEFAULT_USER_PROMPT_PATH.into()),
 
-            pair_prompt_path: map.get("pair_prompt_path")
-                .unwrap_or_else(|_| DEFAULT_PAIR_PROMPT_PATH.into()),
+            pair_prompt_path: path("pair_prompt_path")
+                .unwrap_or_else(|| DEFAULT_PAIR_PROMPT_PATH.into()),
 
-            socket_dir: map.get("socket_dir")
-                .unwrap_or_else(|_| DEFAULT_SOCKET_DIR.into()),
+            socket_dir: path("socket_dir")
+                .unwrap_or_else(|| DEFAULT_SOCKET_DIR.into()),
 
             gids_enforced: map.get("gids_enforced")
                 .unwrap_or_else(|_| DEFAULT_GIDS_ENFORCED.iter().copied().collect()),
-- 
2.43.0

