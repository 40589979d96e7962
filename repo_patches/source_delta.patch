From 109795f179212daf48599df419fbe514b8c28d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:32 +0000
Subject: [PATCH 01/49] verif hooks: expose private items to /verif harness
 under cfg(shpool_verif)

---
 libshpool/src/attach.rs                 | 5 +++++
 libshpool/src/common.rs                 | 5 +++++
 libshpool/src/config.rs                 | 5 +++++
 libshpool/src/config_watcher.rs         | 5 +++++
 libshpool/src/daemon/etc_environment.rs | 5 +++++
 libshpool/src/daemon/events.rs          | 5 +++++
 libshpool/src/daemon/exit_notify.rs     | 5 +++++
 libshpool/src/daemon/keybindings.rs     | 5 +++++
 libshpool/src/daemon/mod.rs             | 5 +++++
 libshpool/src/daemon/pager.rs           | 5 +++++
 libshpool/src/daemon/server.rs          | 5 +++++
 libshpool/src/daemon/shell.rs           | 5 +++++
 libshpool/src/daemon/shell_inject.rs    | 5 +++++
 libshpool/src/daemon/show_motd.rs       | 5 +++++
 libshpool/src/daemon/signals.rs         | 5 +++++
 libshpool/src/daemon/systemd.rs         | 5 +++++
 libshpool/src/daemon/trie.rs            | 5 +++++
 libshpool/src/daemon/ttl_reaper.rs      | 5 +++++
 libshpool/src/daemonize.rs              | 5 +++++
 libshpool/src/detach.rs                 | 5 +++++
 libshpool/src/duration.rs               | 5 +++++
 libshpool/src/events.rs                 | 5 +++++
 libshpool/src/exe.rs                    | 5 +++++
 libshpool/src/hooks.rs                  | 5 +++++
 libshpool/src/kill.rs                   | 5 +++++
 libshpool/src/lib.rs                    | 8 ++++++++
 libshpool/src/list.rs                   | 5 +++++
 libshpool/src/protocol.rs               | 5 +++++
 libshpool/src/session_restore.rs        | 5 +++++
 libshpool/src/set_log_level.rs          | 5 +++++
 libshpool/src/template.rs               | 5 +++++
 libshpool/src/tty.rs                    | 5 +++++
 libshpool/src/user.rs                   | 5 +++++
 libshpool/src/var.rs                    | 5 +++++
 34 files changed, 173 insertions(+)

diff --git a/libshpool/src/attach.rs b/libshpool/src/attach.rs
index 6693e6a..179961e 100644
--- a/libshpool/src/attach.rs
+++ b/libshpool/src/attach.rs
@@ -506,3 +506,8 @@ impl SignalHandler {
         session_name.clone()
     }
 }
+
+#[cfg(shpool_verif)]
+pub mod verif {
+    include!(concat!(env!("SHPOOL_VERIF_HOOKS"), "/attach.rs"));
+}
diff --git a/libshpool/src/common.rs b/libshpool/src/common.rs
index 5ef027d..6023180 100644
--- a/libshpool/src/common.rs
+++ b/libshpool/src/common.rs
@@ -138,3 +138,8 @@ mod tests {
         assert!(checks.get() >= 3);
     }
 }
+
+#[cfg(shpool_verif)]
+pub mod verif {
+    include!(concat!(env!("SHPOOL_VERIF_HOOKS"), "/common.rs"));
+}
diff --git a/libshpool/src/config.rs b/libshpool/src/config.rs
index 404a7b8..1beea40 100644
--- a/libshpool/src/config.rs
+++ b/libshpool/src/config.rs
@@ -549,3 +549,8 @@ mod test {
         }
     }
 }
+
+#[cfg(shpool_verif)]
+pub mod verif {
+    include!(concat!(env!("SHPOOL_VERIF_HOOKS"), "/config.rs"));
+}
diff --git a/libshpool/src/config_watcher.rs b/libshpool/src/config_watcher.rs
index 41b5acc..d840dfa 100644
--- a/libshpool/src/config_watcher.rs
+++ b/libshpool/src/config_watcher.rs
@@ -816,3 +816,8 @@ mod test {
         assert_eq!(reloads.len(), 1, "expected 1 reload, got {}", reloads.len());
     }
 }
+
+#[cfg(shpool_verif)]
+pub mod verif {
+    include!(concat!(env!("SHPOOL_VERIF_HOOKS"), "/config_watcher.rs"));
+}
diff --git a/libshpool/src/daemon/etc_environment.rs b/libshpool/src/daemon/etc_environment.rs
index 8f010ae..031ffa6 100644
--- a/libshpool/src/daemon/etc_environment.rs
+++ b/libshpool/src/daemon/etc_environment.rs
@@ -114,3 +114,8 @@ JAVA_HOME=/opt/jdk
         Ok(())
     }
 }
+
+#[cfg(shpool_verif)]
+pub mod verif {
+    include!(concat!(env!("SHPOOL_VERIF_HOOKS"), "/daemon_etc_environment.rs"));
+}
diff --git a/libshpool/src/daemon/events.rs b/libshpool/src/daemon/events.rs
index bf8e768..078d398 100644
--- a/libshpool/src/daemon/events.rs
+++ b/libshpool/src/daemon/events.rs
@@ -1156,3 +1156,8 @@ mod tests {
         assert!(bytes_received > 0, "fast should have received events");
     }
 }
+
+#[cfg(shpool_verif)]
+pub mod verif {
+    include!(concat!(env!("SHPOOL_VERIF_HOOKS"), "/daemon_events.rs"));
+}
diff --git a/libshpool/src/daemon/exit_notify.rs b/libshpool/src/daemon/exit_notify.rs
index 7e627e6..9f3a272 100644
--- a/libshpool/src/daemon/exit_notify.rs
+++ b/libshpool/src/daemon/exit_notify.rs
@@ -60,3 +60,8 @@ impl ExitNotifier {
         }
     }
 }
+
+#[cfg(shpool_verif)]
+pub mod verif {
+    include!(concat!(env!("SHPOOL_VERIF_HOOKS"), "/daemon_exit_notify.rs"));
+}
diff --git a/libshpool/src/daemon/keybindings.rs b/libshpool/src/daemon/keybindings.rs
index ddb9ade..9e059c5 100644
--- a/libshpool/src/daemon/keybindings.rs
+++ b/libshpool/src/daemon/keybindings.rs
@@ -707,3 +707,8 @@ mod test {
         }
     }
 }
+
+#[cfg(shpool_verif)]
+pub mod verif {
+    include!(concat!(env!("SHPOOL_VERIF_HOOKS"), "/daemon_keybindings.rs"));
+}
diff --git a/libshpool/src/daemon/mod.rs b/libshpool/src/daemon/mod.rs
index fa26992..034146c 100644
--- a/libshpool/src/daemon/mod.rs
+++ b/libshpool/src/daemon/mod.rs
@@ -114,3 +114,8 @@ pub fn run(
 
     Ok(())
 }
+
+#[cfg(shpool_verif)]
+pub mod verif {
+    include!(concat!(env!("SHPOOL_VERIF_HOOKS"), "/daemon.rs"));
+}
diff --git a/libshpool/src/daemon/pager.rs b/libshpool/src/daemon/pager.rs
index 49723a9..08901ce 100644
--- a/libshpool/src/daemon/pager.rs
+++ b/libshpool/src/daemon/pager.rs
@@ -402,3 +402,8 @@ impl std::fmt::Display for PagerError {
 }
 
 impl std::error::Error for PagerError {}
+
+#[cfg(shpool_verif)]
+pub mod verif {
+    include!(concat!(env!("SHPOOL_VERIF_HOOKS"), "/daemon_pager.rs"));
+}
diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 20814ea..5c49452 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -1435,3 +1435,8 @@ impl std::fmt::Display for ShellSelectionError {
 }
 
 impl std::error::Error for ShellSelectionError {}
+
+#[cfg(shpool_verif)]
+pub mod verif {
+    include!(concat!(env!("SHPOOL_VERIF_HOOKS"), "/daemon_server.rs"));
+}
diff --git a/libshpool/src/daemon/shell.rs b/libshpool/src/daemon/shell.rs
index 9ab07b5..14f313a 100644
--- a/libshpool/src/daemon/shell.rs
+++ b/libshpool/src/daemon/shell.rs
@@ -1198,3 +1198,8 @@ mod test {
         }
     }
 }
+
+#[cfg(shpool_verif)]
+pub mod verif {
+    include!(concat!(env!("SHPOOL_VERIF_HOOKS"), "/daemon_shell.rs"));
+}
diff --git a/libshpool/src/daemon/shell_inject.rs b/libshpool/src/daemon/shell_inject.rs
index 7cd90d0..a1b7c76 100644
--- a/libshpool/src/daemon/shell_inject.rs
+++ b/libshpool/src/daemon/shell_inject.rs
@@ -252,3 +252,8 @@ impl SentinelScanner {
         }
     }
 }
+
+#[cfg(shpool_verif)]
+pub mod verif {
+    include!(concat!(env!("SHPOOL_VERIF_HOOKS"), "/daemon_shell_inject.rs"));
+}
diff --git a/libshpool/src/daemon/show_motd.rs b/libshpool/src/daemon/show_motd.rs
index 750f111..b836637 100644
--- a/libshpool/src/daemon/show_motd.rs
+++ b/libshpool/src/daemon/show_motd.rs
@@ -193,3 +193,8 @@ impl Debouncer {
         }
     }
 }
+
+#[cfg(shpool_verif)]
+pub mod verif {
+    include!(concat!(env!("SHPOOL_VERIF_HOOKS"), "/daemon_show_motd.rs"));
+}
diff --git a/libshpool/src/daemon/signals.rs b/libshpool/src/daemon/signals.rs
index 114a1f7..c8c6dcc 100644
--- a/libshpool/src/daemon/signals.rs
+++ b/libshpool/src/daemon/signals.rs
@@ -75,3 +75,8 @@ impl Handler {
         Ok(())
     }
 }
+
+#[cfg(shpool_verif)]
+pub mod verif {
+    include!(concat!(env!("SHPOOL_VERIF_HOOKS"), "/daemon_signals.rs"));
+}
diff --git a/libshpool/src/daemon/systemd.rs b/libshpool/src/daemon/systemd.rs
index 2e0172b..fc4edf1 100644
--- a/libshpool/src/daemon/systemd.rs
+++ b/libshpool/src/daemon/systemd.rs
@@ -50,3 +50,8 @@ pub fn activation_socket() -> anyhow::Result<UnixListener> {
 
     Ok(fd.into())
 }
+
+#[cfg(shpool_verif)]
+pub mod verif {
+    include!(concat!(env!("SHPOOL_VERIF_HOOKS"), "/daemon_systemd.rs"));
+}
diff --git a/libshpool/src/daemon/trie.rs b/libshpool/src/daemon/trie.rs
index f577d25..71fa85c 100644
--- a/libshpool/src/daemon/trie.rs
+++ b/libshpool/src/daemon/trie.rs
@@ -149,3 +149,8 @@ impl TrieTab<u8> for Vec<Option<usize>> {
         self[index as usize] = Some(elem)
     }
 }
+
+#[cfg(shpool_verif)]
+pub mod verif {
+    include!(concat!(env!("SHPOOL_VERIF_HOOKS"), "/daemon_trie.rs"));
+}
diff --git a/libshpool/src/daemon/ttl_reaper.rs b/libshpool/src/daemon/ttl_reaper.rs
index ad4da2e..2557669 100644
--- a/libshpool/src/daemon/ttl_reaper.rs
+++ b/libshpool/src/daemon/ttl_reaper.rs
@@ -153,3 +153,8 @@ impl cmp::Ord for Reapable {
         other.reap_at.cmp(&self.reap_at)
     }
 }
+
+#[cfg(shpool_verif)]
+pub mod verif {
+    include!(concat!(env!("SHPOOL_VERIF_HOOKS"), "/daemon_ttl_reaper.rs"));
+}
diff --git a/libshpool/src/daemonize.rs b/libshpool/src/daemonize.rs
index d359a9b..2184431 100644
--- a/libshpool/src/daemonize.rs
+++ b/libshpool/src/daemonize.rs
@@ -258,3 +258,8 @@ unsafe fn become_child(wait_child: bool) -> anyhow::Result<()> {
     }
     Ok(())
 }
+
+#[cfg(shpool_verif)]
+pub mod verif {
+    include!(concat!(env!("SHPOOL_VERIF_HOOKS"), "/daemonize.rs"));
+}
diff --git a/libshpool/src/detach.rs b/libshpool/src/detach.rs
index 3d74cf6..2724b9c 100644
--- a/libshpool/src/detach.rs
+++ b/libshpool/src/detach.rs
@@ -57,3 +57,8 @@ where
 
     Ok(())
 }
+
+#[cfg(shpool_verif)]
+pub mod verif {
+    include!(concat!(env!("SHPOOL_VERIF_HOOKS"), "/detach.rs"));
+}
diff --git a/libshpool/src/duration.rs b/libshpool/src/duration.rs
index 076dfec..ef2d91b 100644
--- a/libshpool/src/duration.rs
+++ b/libshpool/src/duration.rs
@@ -126,3 +126,8 @@ mod test {
         }
     }
 }
+
+#[cfg(shpool_verif)]
+pub mod verif {
+    include!(concat!(env!("SHPOOL_VERIF_HOOKS"), "/duration.rs"));
+}
diff --git a/libshpool/src/events.rs b/libshpool/src/events.rs
index 4ba555b..c543cc9 100644
--- a/libshpool/src/events.rs
+++ b/libshpool/src/events.rs
@@ -28,3 +28,8 @@ pub fn run(socket_path: &Path) -> anyhow::Result<()> {
     }
     Ok(())
 }
+
+#[cfg(shpool_verif)]
+pub mod verif {
+    include!(concat!(env!("SHPOOL_VERIF_HOOKS"), "/events.rs"));
+}
diff --git a/libshpool/src/exe.rs b/libshpool/src/exe.rs
index bf3014b..eec3c47 100644
--- a/libshpool/src/exe.rs
+++ b/libshpool/src/exe.rs
@@ -19,3 +19,8 @@ pub fn current() -> anyhow::Result<PathBuf> {
 
     Ok(path)
 }
+
+#[cfg(shpool_verif)]
+pub mod verif {
+    include!(concat!(env!("SHPOOL_VERIF_HOOKS"), "/exe.rs"));
+}
diff --git a/libshpool/src/hooks.rs b/libshpool/src/hooks.rs
index 51fc2eb..5818cbf 100644
--- a/libshpool/src/hooks.rs
+++ b/libshpool/src/hooks.rs
@@ -61,3 +61,8 @@ pub trait Hooks {
         Ok(())
     }
 }
+
+#[cfg(shpool_verif)]
+pub mod verif {
+    include!(concat!(env!("SHPOOL_VERIF_HOOKS"), "/hooks.rs"));
+}
diff --git a/libshpool/src/kill.rs b/libshpool/src/kill.rs
index 1eda0e8..9994d5d 100644
--- a/libshpool/src/kill.rs
+++ b/libshpool/src/kill.rs
@@ -53,3 +53,8 @@ where
 
     Ok(())
 }
+
+#[cfg(shpool_verif)]
+pub mod verif {
+    include!(concat!(env!("SHPOOL_VERIF_HOOKS"), "/kill.rs"));
+}
diff --git a/libshpool/src/lib.rs b/libshpool/src/lib.rs
index ee9e2ac..7558a0a 100644
--- a/libshpool/src/lib.rs
+++ b/libshpool/src/lib.rs
@@ -12,6 +12,9 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+// shpool_verif guards the verification hooks (see the verif modules).
+#![allow(unexpected_cfgs)]
+
 use std::{
     collections::hash_map::DefaultHasher,
     env, fs,
@@ -489,3 +492,8 @@ pub unsafe fn run(
 
 struct NoopHooks {}
 impl hooks::Hooks for NoopHooks {}
+
+#[cfg(shpool_verif)]
+pub mod verif {
+    include!(concat!(env!("SHPOOL_VERIF_HOOKS"), "/lib.rs"));
+}
diff --git a/libshpool/src/list.rs b/libshpool/src/list.rs
index 3aaeeba..65a9416 100644
--- a/libshpool/src/list.rs
+++ b/libshpool/src/list.rs
@@ -56,3 +56,8 @@ pub fn run(socket: PathBuf, json_output: bool) -> anyhow::Result<()> {
 
     Ok(())
 }
+
+#[cfg(shpool_verif)]
+pub mod verif {
+    include!(concat!(env!("SHPOOL_VERIF_HOOKS"), "/list.rs"));
+}
diff --git a/libshpool/src/protocol.rs b/libshpool/src/protocol.rs
index e1ec02b..6af7f56 100644
--- a/libshpool/src/protocol.rs
+++ b/libshpool/src/protocol.rs
@@ -604,3 +604,8 @@ mod test {
         }
     }
 }
+
+#[cfg(shpool_verif)]
+pub mod verif {
+    include!(concat!(env!("SHPOOL_VERIF_HOOKS"), "/protocol.rs"));
+}
diff --git a/libshpool/src/session_restore.rs b/libshpool/src/session_restore.rs
index 01a3c9d..506d561 100644
--- a/libshpool/src/session_restore.rs
+++ b/libshpool/src/session_restore.rs
@@ -188,3 +188,8 @@ pub fn new(
         }),
     }
 }
+
+#[cfg(shpool_verif)]
+pub mod verif {
+    include!(concat!(env!("SHPOOL_VERIF_HOOKS"), "/session_restore.rs"));
+}
diff --git a/libshpool/src/set_log_level.rs b/libshpool/src/set_log_level.rs
index 230063f..f007aa5 100644
--- a/libshpool/src/set_log_level.rs
+++ b/libshpool/src/set_log_level.rs
@@ -42,3 +42,8 @@ pub fn run(level: LogLevel, socket: PathBuf) -> anyhow::Result<()> {
 
     Ok(())
 }
+
+#[cfg(shpool_verif)]
+pub mod verif {
+    include!(concat!(env!("SHPOOL_VERIF_HOOKS"), "/set_log_level.rs"));
+}
diff --git a/libshpool/src/template.rs b/libshpool/src/template.rs
index 74c74d3..67843d5 100644
--- a/libshpool/src/template.rs
+++ b/libshpool/src/template.rs
@@ -209,3 +209,8 @@ mod test {
         Ok(())
     }
 }
+
+#[cfg(shpool_verif)]
+pub mod verif {
+    include!(concat!(env!("SHPOOL_VERIF_HOOKS"), "/template.rs"));
+}
diff --git a/libshpool/src/tty.rs b/libshpool/src/tty.rs
index e7addf6..6a9234e 100644
--- a/libshpool/src/tty.rs
+++ b/libshpool/src/tty.rs
@@ -138,3 +138,8 @@ impl std::ops::Drop for AttachFlagsGuard<'_> {
         }
     }
 }
+
+#[cfg(shpool_verif)]
+pub mod verif {
+    include!(concat!(env!("SHPOOL_VERIF_HOOKS"), "/tty.rs"));
+}
diff --git a/libshpool/src/user.rs b/libshpool/src/user.rs
index e96e158..52ae7b2 100644
--- a/libshpool/src/user.rs
+++ b/libshpool/src/user.rs
@@ -92,3 +92,8 @@ pub fn info() -> anyhow::Result<Info> {
         })
     }
 }
+
+#[cfg(shpool_verif)]
+pub mod verif {
+    include!(concat!(env!("SHPOOL_VERIF_HOOKS"), "/user.rs"));
+}
diff --git a/libshpool/src/var.rs b/libshpool/src/var.rs
index 13e55cb..94d784d 100644
--- a/libshpool/src/var.rs
+++ b/libshpool/src/var.rs
@@ -65,3 +65,8 @@ pub fn run(socket: PathBuf, command: VarCommands) -> anyhow::Result<()> {
 
     Ok(())
 }
+
+#[cfg(shpool_verif)]
+pub mod verif {
+    include!(concat!(env!("SHPOOL_VERIF_HOOKS"), "/var.rs"));
+}
-- 
2.43.0


From 99f2790fe4a74bebb1a145a38ecaffae1ccc477b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:15 +0000
Subject: [PATCH 02/49] fix: reject overflowing and malformed durations instead
 of misreading them

Durations such as '1h30m' or '5x3d' were accepted with the middle of the
text ignored, and large values overflowed (panic in debug builds, a wrapped
value in release builds).
---
 libshpool/src/duration.rs | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/libshpool/src/duration.rs b/libshpool/src/duration.rs
index ef2d91b..dc3d9db 100644
--- a/libshpool/src/duration.rs
+++ b/libshpool/src/duration.rs
@@ -41,17 +41,17 @@ fn parse_colon_duration(src: &str) -> anyhow::Result<time::Duration> {
     if parts.len() == 1 {
         return Ok(time::Duration::from_secs(secs));
     }
-    secs += parts[1].parse::<u64>().context("parsing minutes part")? * 60;
+    secs = add_units(secs, parts[1].parse::<u64>().context("parsing minutes part")?, 60)?;
     dbg!(secs);
     if parts.len() == 2 {
         return Ok(time::Duration::from_secs(secs));
     }
-    secs += parts[2].parse::<u64>().context("parsing hours part")? * 60 * 60;
+    secs = add_units(secs, parts[2].parse::<u64>().context("parsing hours part")?, 60 * 60)?;
     dbg!(secs);
     if parts.len() == 3 {
         return Ok(time::Duration::from_secs(secs));
     }
-    secs += parts[3].parse::<u64>().context("parsing days part")? * 60 * 60 * 24;
+    secs = add_units(secs, parts[3].parse::<u64>().context("parsing days part")?, 60 * 60 * 24)?;
     dbg!(secs);
     if parts.len() != 4 {
         bail!("colon duration cannot have more than 4 parts");
@@ -60,22 +60,31 @@ fn parse_colon_duration(src: &str) -> anyhow::Result<time::Duration> {
     Ok(time::Duration::from_secs(secs))
 }
 
+/// Adds `n` units of `unit_secs` seconds each to `secs`.
+fn add_units(secs: u64, n: u64, unit_secs: u64) -> anyhow::Result<u64> {
+    let unit_total = n.checked_mul(unit_secs).ok_or(anyhow!("duration is too large"))?;
+    secs.checked_add(unit_total).ok_or(anyhow!("duration is too large"))
+}
+
 /// Parses 20d, 3h, 14m ect
 fn parse_suffix_duration(src: &str) -> anyhow::Result<time::Duration> {
     let num: String = src.chars().take_while(|c| c.is_numeric()).collect();
     let c = src.chars().last().ok_or(anyhow!("internal error: no suffix"))?;
+    if num.len() + c.len_utf8() != src.len() {
+        bail!("'{}' must be a number followed by a single time unit", src);
+    }
     make_suffix_duration(num.parse::<u64>().context("parsing num part of duration")?, c)
-        .ok_or(anyhow!("unknown time unit '{}'", c))
 }
 
-fn make_suffix_duration(n: u64, c: char) -> Option<time::Duration> {
-    match c {
-        's' => Some(time::Duration::from_secs(n)),
-        'm' => Some(time::Duration::from_secs(n * 60)),
-        'h' => Some(time::Duration::from_secs(n * 60 * 60)),
-        'd' => Some(time::Duration::from_secs(n * 60 * 60 * 24)),
-        _ => None,
-    }
+fn make_suffix_duration(n: u64, c: char) -> anyhow::Result<time::Duration> {
+    let unit_secs = match c {
+        's' => 1,
+        'm' => 60,
+        'h' => 60 * 60,
+        'd' => 60 * 60 * 24,
+        _ => bail!("unknown time unit '{}'", c),
+    };
+    Ok(time::Duration::from_secs(add_units(0, n, unit_secs)?))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 1b33272849e887c63440b5a527f4805c69656d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:20 +0000
Subject: [PATCH 03/49] fix: give Ctrl-x and Ctrl-y their own key codes

The two entries were swapped: terminals send 24 (0x18) for Ctrl-x and 25
(0x19) for Ctrl-y, so a Ctrl-x binding fired on Ctrl-y and vice versa.
---
 libshpool/src/daemon/keybindings.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libshpool/src/daemon/keybindings.rs b/libshpool/src/daemon/keybindings.rs
index 9e059c5..288d1fa 100644
--- a/libshpool/src/daemon/keybindings.rs
+++ b/libshpool/src/daemon/keybindings.rs
@@ -458,8 +458,8 @@ const CONTROL_CODES: [(&str, u8); 42] = [
     ("Ctrl-u", 21),
     ("Ctrl-v", 22),
     ("Ctrl-w", 23),
-    ("Ctrl-y", 24),
-    ("Ctrl-x", 25),
+    ("Ctrl-x", 24),
+    ("Ctrl-y", 25),
     ("Ctrl-z", 26),
     ("Ctrl-@", 0),
     ("Ctrl-2", 0),
-- 
2.43.0


From f895ef9f1bacea101c3bb22e83b22c20fbbcd385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:20 +0000
Subject: [PATCH 04/49] fix: keep keybindings working when chords share a key
 code

Ctrl-Space, Ctrl-@ and Ctrl-2 all generate byte 0. Two bindings using
different spellings overwrote each other's entry in the chord table, so the
binding that was added first could never match.
---
 libshpool/src/daemon/keybindings.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/libshpool/src/daemon/keybindings.rs b/libshpool/src/daemon/keybindings.rs
index 288d1fa..984024a 100644
--- a/libshpool/src/daemon/keybindings.rs
+++ b/libshpool/src/daemon/keybindings.rs
@@ -122,22 +122,30 @@ impl Bindings {
         let mut sequences = Trie::new();
 
         let mut chord_atom_counter: usize = 0;
-        let mut chord_atom_tab = HashMap::new();
+        // Keyed by key code rather than by chord, since several chords can
+        // generate the same byte (Ctrl-Space, Ctrl-@ and Ctrl-2 for example),
+        // so the input stream can't tell them apart.
+        let mut chord_atom_tab: HashMap<u8, ChordAtom> = HashMap::new();
 
         let tokenizer = Lexer::new();
         for (binding_src, action) in bindings.into_iter() {
             let tokens =
                 tokenizer.tokenize(binding_src.chars()).context("tokenizing keybinding")?;
             let sequence = parse(tokens).context("parsing keybinding")?;
+            let mut atoms = vec![];
             for chord in sequence.0.iter() {
                 // resolving the key code will also check the validity
                 let code = chord.key_code()?;
 
-                let chord_atom = chord_atom_tab.entry(chord.clone()).or_insert_with(|| {
-                    let atom = ChordAtom(chord_atom_counter as u8);
-                    chord_atom_counter += 1;
-                    atom
-                });
+                let chord_atom = match chord_atom_tab.get(&code) {
+                    Some(atom) => *atom,
+                    None => {
+                        let atom = ChordAtom(chord_atom_counter as u8);
+                        chord_atom_counter += 1;
+                        chord_atom_tab.insert(code, atom);
+                        atom
+                    }
+                };
                 if chord_atom_counter >= u8::MAX as usize {
                     return Err(anyhow!(
                         "shpool only supports up to {} unique chords at a time",
@@ -145,10 +153,10 @@ impl Bindings {
                     ));
                 }
 
-                chords.insert(vec![code].into_iter(), *chord_atom);
+                chords.insert(vec![code].into_iter(), chord_atom);
+                atoms.push(chord_atom);
             }
-            sequences
-                .insert(sequence.0.iter().map(|chord| *chord_atom_tab.get(chord).unwrap()), action);
+            sequences.insert(atoms.into_iter(), action);
         }
 
         Ok(Bindings {
-- 
2.43.0


From 3dfe6cc31d5f77c306a4646bd7e0cbd42dfb8b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:20 +0000
Subject: [PATCH 05/49] fix: refuse keybindings that are empty or cut off

'Ctr', 'a-', 'a Spac' and '' were accepted with the incomplete end dropped,
leaving a binding other than the one that was written.
---
 libshpool/src/daemon/keybindings.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libshpool/src/daemon/keybindings.rs b/libshpool/src/daemon/keybindings.rs
index 984024a..5fe7210 100644
--- a/libshpool/src/daemon/keybindings.rs
+++ b/libshpool/src/daemon/keybindings.rs
@@ -348,6 +348,10 @@ fn parse<T: IntoIterator<Item = Token>>(tokens: T) -> anyhow::Result<Sequence> {
         }
     }
 
+    if saw_dash {
+        return Err(anyhow!("a keybinding must end with a key"));
+    }
+
     if !keys.is_empty() {
         chords.push(Chord(keys));
     }
@@ -429,6 +433,10 @@ impl Lexer {
             }
         }
 
+        if !word_chars.is_empty() {
+            return Err(anyhow!("unexpected char: '{}'", word_chars[0]));
+        }
+
         Ok(tokens)
     }
 }
-- 
2.43.0


From dec76deeb72bb7e5bdbd8b260be9b85b2a454ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:16 +0000
Subject: [PATCH 06/49] fix: deliver every typed byte that is not part of a
 keybinding

A keybinding starting at the second byte of a read swallowed the byte before
it, and a detach keybinding dropped everything typed before it in the same
read.
---
 libshpool/src/daemon/shell.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/libshpool/src/daemon/shell.rs b/libshpool/src/daemon/shell.rs
index 14f313a..696683b 100644
--- a/libshpool/src/daemon/shell.rs
+++ b/libshpool/src/daemon/shell.rs
@@ -900,7 +900,7 @@ impl SessionInner {
                             Match(action) => {
                                 info!("{:?} keybinding action fired", action);
                                 let keybinding_len = partial_keybinding.len() + 1;
-                                if keybinding_len < i {
+                                if keybinding_len <= i {
                                     // this keybinding is wholly contained in buf
                                     debug!("snipping keybinding_len={} i={}", keybinding_len, i);
                                     snip_sections.push((keybinding_len, i));
@@ -915,6 +915,20 @@ impl SessionInner {
                                 use keybindings::Action::*;
                                 match action {
                                     Detach => {
+                                        // deliver whatever was typed before the keybinding
+                                        len = snip_buf(
+                                            &mut buf[..],
+                                            i + 1,
+                                            &snip_sections[..],
+                                            &mut keep_sections,
+                                        );
+                                        master_writer
+                                            .write_all(&buf[0..len])
+                                            .context("writing final client chunk")?;
+                                        master_writer
+                                            .flush()
+                                            .context("flushing final input to shell")?;
+
                                         self.action_detach()?;
                                         debug!("exiting client->shell thread after detach");
                                         return Ok(());
-- 
2.43.0


From 267be58685d10dcf3988b5a53a57868d8a1fce26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:14 +0000
Subject: [PATCH 07/49] fix: look for the user config in the documented
 $XDG_CONFIG_HOME

---
 libshpool/src/config.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libshpool/src/config.rs b/libshpool/src/config.rs
index 1beea40..84740d4 100644
--- a/libshpool/src/config.rs
+++ b/libshpool/src/config.rs
@@ -155,7 +155,9 @@ impl Manager {
 
     #[cfg(not(any(target_os = "macos", target_os = "ios", target_os = "windows")))]
     fn config_base_dir() -> anyhow::Result<PathBuf> {
-        match std::env::var("XDG_CONFIG_DIR") {
+        // XDG_CONFIG_HOME is the documented (and standard) name,
+        // XDG_CONFIG_DIR is still honored for backwards compatibility.
+        match std::env::var("XDG_CONFIG_HOME").or_else(|_| std::env::var("XDG_CONFIG_DIR")) {
             Ok(v) => Ok(PathBuf::from(v)),
             Err(_) => {
                 let user_info = user::info().context("getting user info")?;
-- 
2.43.0


From a90c9a59b0ac6c97428f5d8d73ff32a8a83568b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:37 +0000
Subject: [PATCH 08/49] fix: forward everything the shell printed before it
 exited

---
 libshpool/src/daemon/shell.rs | 59 ++++++++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 14 deletions(-)

diff --git a/libshpool/src/daemon/shell.rs b/libshpool/src/daemon/shell.rs
index 696683b..c199c0d 100644
--- a/libshpool/src/daemon/shell.rs
+++ b/libshpool/src/daemon/shell.rs
@@ -311,6 +311,9 @@ impl SessionInner {
                 None
             };
 
+            // The exit status to report once the pty has been drained.
+            let mut pending_exit: Option<i32> = None;
+
             loop {
                 let mut do_reattach = false;
                 crossbeam_channel::select! {
@@ -369,15 +372,8 @@ impl SessionInner {
                                     .context("sending client disconnect ack")?;
                             }
                             Ok(ClientConnectionMsg::DisconnectExit(exit_status)) => {
-                                let ack = if let ClientConnectionMsg::New(mut old_conn) = client_conn {
-                                    info!("disconnectexit({}), shutting down client stream",
-                                           exit_status);
-
-                                    // write an exit status frame so the attach process
-                                    // can exit with the same exit code as the child shell
-                                    Self::write_exit_chunk(&mut old_conn.sink, exit_status);
-                                    shutdown_socket(&old_conn.stream, net::Shutdown::Both)?;
-
+                                let ack = if let ClientConnectionMsg::New(_) = &client_conn {
+                                    info!("disconnectexit({}), draining output", exit_status);
                                     ClientConnectionStatus::Detached
                                 } else {
                                     info!(
@@ -388,7 +384,10 @@ impl SessionInner {
                                 args.client_connection_ack.send(ack)
                                     .context("sending client disconnect exit ack")?;
 
-                                return Ok(());
+                                // The last output of the shell might still be waiting in
+                                // the pty, so keep forwarding until there is nothing left
+                                // to read before we report the exit to the client.
+                                pending_exit = Some(exit_status);
                             }
 
                             // SessionInner getting dropped, so this thread should go away.
@@ -532,26 +531,39 @@ impl SessionInner {
                 // Block until the shell has some data for us so we can be sure our reads
                 // always succeed. We don't want to end up blocked forever on a read while
                 // a client is trying to attach.
-                let nready = match poll::poll(&mut poll_fds, SHELL_TO_CLIENT_POLL_MS) {
+                let poll_ms = if pending_exit.is_some() { 0 } else { SHELL_TO_CLIENT_POLL_MS };
+                let nready = match poll::poll(&mut poll_fds, poll_ms) {
                     Ok(n) => n,
                     Err(e) => {
                         error!("polling pty master: {:?}", e);
-                        return Err(e)?;
+                        return Self::finish_exit(client_conn, pending_exit)
+                            .and(Err(e).context("polling pty master"));
                     }
                 };
                 if nready == 0 {
                     // if timeout
+                    if pending_exit.is_some() {
+                        return Self::finish_exit(client_conn, pending_exit);
+                    }
                     continue;
                 }
                 if nready != 1 {
                     return Err(anyhow!("shell->client thread: expected exactly 1 ready fd"));
                 }
+                // The hangup gets reported as soon as the shell side closes, even if
+                // there is still output left to read, in which case we are not done.
                 let hangup = poll_fds[0]
                     .revents()
-                    .map(|r| r.intersects(PollFlags::POLLHUP | PollFlags::POLLERR))
+                    .map(|r| {
+                        r.intersects(PollFlags::POLLHUP | PollFlags::POLLERR)
+                            && !r.contains(PollFlags::POLLIN)
+                    })
                     .unwrap_or(false);
                 if hangup {
                     info!("pty master hung up, exiting shell->client thread");
+                    if pending_exit.is_some() {
+                        return Self::finish_exit(client_conn, pending_exit);
+                    }
 
                     // If we have an attached client conn, make a best effort attempt
                     // to forward the exit status.
@@ -568,10 +580,14 @@ impl SessionInner {
                     Ok(l) => l,
                     Err(e) => {
                         error!("reading chunk from pty master: {:?}", e);
-                        return Err(e).context("reading pty master chunk")?;
+                        return Self::finish_exit(client_conn, pending_exit)
+                            .and(Err(e).context("reading pty master chunk"));
                     }
                 };
                 if len == 0 {
+                    if pending_exit.is_some() {
+                        return Self::finish_exit(client_conn, pending_exit);
+                    }
                     continue;
                 }
                 let mut buf = &buf[..len];
@@ -632,6 +648,21 @@ impl SessionInner {
             .spawn(move || log_if_error("error in shell->client", closure()))?)
     }
 
+    /// Once all output has been forwarded, report the exit status (if any) to
+    /// the client so that the attach process can exit with the same code as
+    /// the child shell, then hang up on it.
+    fn finish_exit(
+        client_conn: ClientConnectionMsg,
+        exit_status: Option<i32>,
+    ) -> anyhow::Result<()> {
+        if let (ClientConnectionMsg::New(mut conn), Some(exit_status)) = (client_conn, exit_status)
+        {
+            Self::write_exit_chunk(&mut conn.sink, exit_status);
+            shutdown_socket(&conn.stream, net::Shutdown::Both)?;
+        }
+        Ok(())
+    }
+
     fn write_exit_chunk<W: io::Write>(mut sink: W, status: i32) {
         let status_buf: [u8; 4] = status.to_le_bytes();
         let chunk = Chunk { kind: ChunkKind::ExitStatus, buf: status_buf.as_slice() };
-- 
2.43.0


From f07d7af04c8936c71bb84f13c495c7a119010d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:24 +0000
Subject: [PATCH 09/49] fix: recognize the setup sentinel right after output
 that looks like its start

---
 libshpool/src/daemon/shell_inject.rs | 39 +++++++++++++---------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/libshpool/src/daemon/shell_inject.rs b/libshpool/src/daemon/shell_inject.rs
index a1b7c76..8106a62 100644
--- a/libshpool/src/daemon/shell_inject.rs
+++ b/libshpool/src/daemon/shell_inject.rs
@@ -26,7 +26,6 @@ use tracing::{debug, error, info, instrument, warn};
 
 use crate::{
     consts::{SENTINEL_FLAG_VAR, STARTUP_SENTINEL},
-    daemon::trie::{Trie, TrieCursor},
     exe, test_hooks,
 };
 
@@ -217,39 +216,37 @@ fn sniff_shell(pid: libc::pid_t) -> anyhow::Result<KnownShell> {
     }
 }
 
-/// A trie for scanning through shell output to look for the sentinel.
+/// A scanner for looking for the sentinel in shell output.
 pub struct SentinelScanner {
-    scanner: Trie<u8, (), Vec<Option<usize>>>,
-    cursor: TrieCursor,
+    sentinel: Vec<u8>,
+    /// The most recent output, at most as long as the sentinel. We need to
+    /// look at all of it for every byte since the sentinel can directly follow
+    /// output which looks like the start of the sentinel.
+    recent: Vec<u8>,
     num_matches: usize,
 }
 
 impl SentinelScanner {
     /// Create a new sentinel scanner.
     pub fn new(sentinel: &str) -> Self {
-        let mut scanner = Trie::new();
-        scanner.insert(sentinel.bytes(), ());
-
-        SentinelScanner { scanner, cursor: TrieCursor::Start, num_matches: 0 }
+        SentinelScanner { sentinel: sentinel.as_bytes().to_vec(), recent: vec![], num_matches: 0 }
     }
 
     // Pump the given byte through the scanner, returning true if the underlying
     // shell has finished printing the sentinel value.
     pub fn transition(&mut self, byte: u8) -> bool {
-        self.cursor = self.scanner.advance(self.cursor, byte);
-        match self.cursor {
-            TrieCursor::NoMatch => {
-                self.cursor = TrieCursor::Start;
-                false
-            }
-            TrieCursor::Match { is_partial, .. } if !is_partial => {
-                self.cursor = TrieCursor::Start;
-                self.num_matches += 1;
-                debug!("got prompt sentinel match #{}", self.num_matches);
-                self.num_matches == 1
-            }
-            _ => false,
+        self.recent.push(byte);
+        if self.recent.len() > self.sentinel.len() {
+            self.recent.remove(0);
         }
+        if self.recent != self.sentinel {
+            return false;
+        }
+
+        self.recent.clear();
+        self.num_matches += 1;
+        debug!("got prompt sentinel match #{}", self.num_matches);
+        self.num_matches == 1
     }
 }
 
-- 
2.43.0


From 38dcce3377903f8f06a3677b7438b920d1b9a4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:24 +0000
Subject: [PATCH 10/49] fix: do not overflow when reattaching with the largest
 possible tty size

---
 libshpool/src/daemon/shell.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libshpool/src/daemon/shell.rs b/libshpool/src/daemon/shell.rs
index c199c0d..e4f7948 100644
--- a/libshpool/src/daemon/shell.rs
+++ b/libshpool/src/daemon/shell.rs
@@ -339,8 +339,8 @@ impl SessionInner {
                                 // can "bake" for a little bit, which emacs seems
                                 // to require in order to pick up the jiggle.
                                 let oversize = TtySize {
-                                    rows: conn.size.rows + 1,
-                                    cols: conn.size.cols + 1,
+                                    rows: conn.size.rows.saturating_add(1),
+                                    cols: conn.size.cols.saturating_add(1),
                                     xpixel: conn.size.xpixel,
                                     ypixel: conn.size.ypixel,
                                 };
-- 
2.43.0


From c5943acf4c008c8e06e51ac4bc545678a299bfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:25 +0000
Subject: [PATCH 11/49] fix: a motd longer than one frame no longer kills the
 attach

The client refuses frames of more than BUF_SIZE bytes, so dumping a long
motd as a single frame made every new attach fail.
---
 libshpool/src/daemon/show_motd.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/libshpool/src/daemon/show_motd.rs b/libshpool/src/daemon/show_motd.rs
index b836637..e5831ff 100644
--- a/libshpool/src/daemon/show_motd.rs
+++ b/libshpool/src/daemon/show_motd.rs
@@ -20,7 +20,7 @@ use shpool_protocol::{Chunk, ChunkKind, TtySize};
 use tracing::{info, instrument};
 
 use crate::{
-    config,
+    config, consts,
     daemon::pager::{Pager, PagerCtl},
     duration,
     protocol::ChunkExt as _,
@@ -67,9 +67,14 @@ impl DailyMessenger {
 
         let raw_motd_value = self.raw_motd_value(term_db)?;
 
-        let chunk = Chunk { kind: ChunkKind::Data, buf: raw_motd_value.as_slice() };
+        // The client only accepts frames of up to BUF_SIZE bytes, so a long
+        // motd needs to be broken up.
+        for block in raw_motd_value.as_slice().chunks(consts::BUF_SIZE) {
+            let chunk = Chunk { kind: ChunkKind::Data, buf: block };
+            chunk.write_to(&mut stream).context("dumping motd")?;
+        }
 
-        chunk.write_to(&mut stream).context("dumping motd")
+        Ok(())
     }
 
     /// Display the motd in a pager. Callers should do a downcast error
-- 
2.43.0


From 913b633e405c39b02343624f64f3392b8fec660b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:25 +0000
Subject: [PATCH 12/49] fix: don't kill the attach with an oversized
 MaybeSwitch frame

Setting a variable to a value of more than BUF_SIZE bytes made every
attached client exit with an error since it refuses frames which don't
fit its buffer.
---
 libshpool/src/daemon/shell.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libshpool/src/daemon/shell.rs b/libshpool/src/daemon/shell.rs
index e4f7948..8021cb8 100644
--- a/libshpool/src/daemon/shell.rs
+++ b/libshpool/src/daemon/shell.rs
@@ -463,6 +463,12 @@ impl SessionInner {
                             continue;
                         }
 
+                        // The client gives up on frames which don't fit its buffer.
+                        if encoded.len() > consts::BUF_SIZE {
+                            error!("MaybeSwitch of {} bytes is too big, dropping", encoded.len());
+                            continue;
+                        }
+
                         let chunk = Chunk { kind: ChunkKind::MaybeSwitch, buf: &encoded[..] };
                         match chunk.write_to(&mut conn.sink).and_then(|_| conn.sink.flush()) {
                             Ok(_) => {
-- 
2.43.0


From fdd7cc2519c137f36148298b18a857f30835613c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:44 +0000
Subject: [PATCH 13/49] fix: don't drop a new session when the old one of the
 same name ends

---
 libshpool/src/daemon/server.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 5c49452..31d88d2 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -289,6 +289,9 @@ impl Server {
 
         if let Some((child_exit_notifier, mut inner, pager_ctl_slot)) = shell_results {
             let mut child_done = false;
+            // Identifies our session, since the name might get reused by
+            // another session while we are attached to ours.
+            let our_notifier = Arc::clone(&child_exit_notifier);
             let client_stream = match inner.client_stream.as_mut() {
                 Some(s) => s,
                 None => {
@@ -358,7 +361,13 @@ impl Server {
                     // The publish below is gated on `is_some()` because a
                     // concurrent kill or reaper may have already removed the
                     // entry (and published) while we were waiting for the lock.
-                    if shells.remove(&header.name).is_some() {
+                    // It might also have put a new session with the same name in
+                    // place, which is none of our business.
+                    let is_ours = shells
+                        .get(&header.name)
+                        .map(|s| Arc::ptr_eq(&s.child_exit_notifier, &our_notifier))
+                        .unwrap_or(false);
+                    if is_ours && shells.remove(&header.name).is_some() {
                         self.events_bus.publish(&events::Event::SessionRemoved);
                     }
                 }
@@ -379,8 +388,10 @@ impl Server {
                     let _s = span!(Level::INFO, "disconnect_lock(shells)").entered();
                     let shells = self.shells.lock();
                     if let Some(session) = shells.get(&header.name) {
-                        session.lifecycle.record_detached();
-                        self.events_bus.publish(&events::Event::SessionDetached);
+                        if Arc::ptr_eq(&session.child_exit_notifier, &our_notifier) {
+                            session.lifecycle.record_detached();
+                            self.events_bus.publish(&events::Event::SessionDetached);
+                        }
                     }
                 }
                 if let Err(err) = self.hooks.on_client_disconnect(&header.name) {
-- 
2.43.0


From 4697c93f0f9f5c3ed93d356a4ae7f3e5bd705e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:45 +0000
Subject: [PATCH 14/49] fix: don't crash on a ttl that reaches past the end of
 time

---
 libshpool/src/daemon/server.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 31d88d2..31fb82f 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -16,9 +16,7 @@ use std::{
     collections::HashMap,
     env,
     ffi::OsString,
-    fs, io, net,
-    ops::Add,
-    os,
+    fs, io, net, os,
     os::unix::{
         fs::PermissionsExt as _,
         net::{UnixListener, UnixStream},
@@ -1175,9 +1173,13 @@ impl Server {
 
         if let Some(ttl_secs) = header.ttl_secs {
             info!("registering session with ttl with the reaper");
-            self.register_new_reapable_session
-                .send((header.name.clone(), Instant::now().add(Duration::from_secs(ttl_secs))))
-                .context("sending reapable session registration msg")?;
+            match Instant::now().checked_add(Duration::from_secs(ttl_secs)) {
+                Some(reap_at) => self
+                    .register_new_reapable_session
+                    .send((header.name.clone(), reap_at))
+                    .context("sending reapable session registration msg")?,
+                None => info!("ttl of {}s is too far off to ever expire", ttl_secs),
+            }
         }
 
         Ok(shell::Session {
-- 
2.43.0


From 064729404b1e5a887fc6ca0b392a4020cbf84698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:47 +0000
Subject: [PATCH 15/49] fix: tell all sessions about a changed var even if one
 is gone

---
 libshpool/src/daemon/server.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 31fb82f..5ca18c5 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -734,9 +734,13 @@ impl Server {
         }
         for ctl in ctls.into_iter() {
             let ctl = ctl.lock();
-            ctl.maybe_switch
-                .send_timeout(maybe_switch.clone(), SESSION_MSG_TIMEOUT)
-                .context("broadcasting maybe_switch")?;
+            // One session that can't take the update (because its shell has
+            // already exited, say) must not keep it from the others.
+            if let Err(err) =
+                ctl.maybe_switch.send_timeout(maybe_switch.clone(), SESSION_MSG_TIMEOUT)
+            {
+                warn!("broadcasting maybe_switch: {:?}", err);
+            }
         }
 
         write_reply(&mut stream, ModifyVarReply {}).context("writing modify var reply")?;
-- 
2.43.0


From aac8f67757e48e16839482b4b693504e9b999773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:48 +0000
Subject: [PATCH 16/49] fix: announce a session killed under a repeated name
 only once

---
 libshpool/src/daemon/server.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 5ca18c5..85b8c76 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -768,8 +768,10 @@ impl Server {
             }
 
             for session in to_remove.iter() {
-                shells.remove(session);
-                self.events_bus.publish(&events::Event::SessionRemoved);
+                // The same name might have been listed more than once.
+                if shells.remove(session).is_some() {
+                    self.events_bus.publish(&events::Event::SessionRemoved);
+                }
             }
             if !to_remove.is_empty() {
                 test_hooks::emit("daemon-handle-kill-removed-shells");
-- 
2.43.0


From 6c2f587b5280ef3c094d8956cf31fccd6ce0cc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:49 +0000
Subject: [PATCH 17/49] fix: refuse session names that can't be used as a file
 name

---
 libshpool/src/daemon/server.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 85b8c76..94d80a6 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -62,6 +62,9 @@ const DEFAULT_PROMPT_PREFIX: &str = "shpool:$SHPOOL_SESSION_NAME ";
 // global session table lock held.
 const SESSION_MSG_TIMEOUT: time::Duration = time::Duration::from_millis(500);
 
+// The longest file name that common file systems support.
+const MAX_SESSION_NAME_BYTES: usize = 255;
+
 pub struct Server {
     config: config::Manager,
     /// A map from shell session names to session descriptors.
@@ -244,10 +247,12 @@ impl Server {
         header: AttachHeader,
         peer_pid: libc::pid_t,
     ) -> anyhow::Result<()> {
-        if header.name.chars().any(|c| '/' == c || c.is_whitespace())
+        // The name ends up as a file name and in an environment variable.
+        if header.name.chars().any(|c| '/' == c || '\0' == c || c.is_whitespace())
             || header.name == "."
             || header.name == ".."
             || header.name.is_empty()
+            || header.name.len() > MAX_SESSION_NAME_BYTES
         {
             write_reply(
                 &mut stream,
-- 
2.43.0


From 4973d26946220f66728261911510b833be5c6fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:53 +0000
Subject: [PATCH 18/49] fix: don't reap a session that only shares the name of
 an expired one

---
 libshpool/src/daemon/server.rs     |  4 ++--
 libshpool/src/daemon/ttl_reaper.rs | 19 +++++++++++++++----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 94d80a6..73b83d9 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -75,7 +75,7 @@ pub struct Server {
     /// the main thread to become available to accept new connections.
     shells: Arc<Mutex<HashMap<String, Box<shell::Session>>>>,
     runtime_dir: PathBuf,
-    register_new_reapable_session: crossbeam_channel::Sender<(String, Instant)>,
+    register_new_reapable_session: crossbeam_channel::Sender<(String, Instant, Arc<ExitNotifier>)>,
     hooks: Box<dyn hooks::Hooks + Send + Sync>,
     events_bus: Arc<events::EventBus>,
     daily_messenger: Arc<show_motd::DailyMessenger>,
@@ -1187,7 +1187,7 @@ impl Server {
             match Instant::now().checked_add(Duration::from_secs(ttl_secs)) {
                 Some(reap_at) => self
                     .register_new_reapable_session
-                    .send((header.name.clone(), reap_at))
+                    .send((header.name.clone(), reap_at, Arc::clone(&child_exit_notifier)))
                     .context("sending reapable session registration msg")?,
                 None => info!("ttl of {}s is too far off to ever expire", ttl_secs),
             }
diff --git a/libshpool/src/daemon/ttl_reaper.rs b/libshpool/src/daemon/ttl_reaper.rs
index 2557669..c9eafff 100644
--- a/libshpool/src/daemon/ttl_reaper.rs
+++ b/libshpool/src/daemon/ttl_reaper.rs
@@ -31,12 +31,13 @@ use parking_lot::Mutex;
 use tracing::{info, span, warn, Level};
 
 use super::events;
+use super::exit_notify::ExitNotifier;
 use super::shell;
 
 /// Run the reaper thread loop. Should be invoked in a dedicated
 /// thread.
 pub fn run(
-    new_sess: crossbeam_channel::Receiver<(String, Instant)>,
+    new_sess: crossbeam_channel::Receiver<(String, Instant, Arc<ExitNotifier>)>,
     shells: Arc<Mutex<HashMap<String, Box<shell::Session>>>>,
     events_bus: Arc<events::EventBus>,
 ) -> anyhow::Result<()> {
@@ -49,14 +50,14 @@ pub fn run(
         // empty heap loop, just waiting for new sessions to watch
         while heap.is_empty() {
             match new_sess.recv() {
-                Ok((session_name, reap_at)) => {
+                Ok((session_name, reap_at, exit_notifier)) => {
                     let gen_id = gen_ids.entry(session_name.clone()).or_insert(0);
                     *gen_id += 1;
                     info!(
                         "scheduling first sess {}:{} to be reaped at {:?}",
                         &session_name, *gen_id, reap_at
                     );
-                    heap.push(Reapable { session_name, gen_id: *gen_id, reap_at });
+                    heap.push(Reapable { session_name, gen_id: *gen_id, reap_at, exit_notifier });
                 }
                 Err(crossbeam_channel::RecvError) => {
                     info!("bailing due to RecvError in empty heap loop");
@@ -76,7 +77,7 @@ pub fn run(
             crossbeam_channel::select! {
                 recv(new_sess) -> new_sess_msg => {
                     match new_sess_msg {
-                        Ok((session_name, reap_at)) => {
+                        Ok((session_name, reap_at, exit_notifier)) => {
                             let gen_id = gen_ids.entry(session_name.clone()).or_insert(0);
                             *gen_id += 1;
                             info!("scheduling {}:{} to be reaped at {:?}",
@@ -85,6 +86,7 @@ pub fn run(
                                 session_name,
                                 gen_id: *gen_id,
                                 reap_at,
+                                exit_notifier,
                             });
                         }
                         Err(crossbeam_channel::RecvError) => {
@@ -108,6 +110,13 @@ pub fn run(
                     let _s = span!(Level::INFO, "lock(shells)").entered();
                     let mut shells = shells.lock();
                     if let Some(sess) = shells.get(&reapable.session_name) {
+                        // The session might be long gone, and its name taken
+                        // over by one that has no ttl.
+                        if !Arc::ptr_eq(&sess.child_exit_notifier, &reapable.exit_notifier) {
+                            info!("ignoring '{}' because it is a different session now",
+                                  reapable.session_name);
+                            continue;
+                        }
                         if let Err(e) = sess.kill() {
                             warn!("error trying to kill '{}': {:?}",
                                   reapable.session_name, e);
@@ -132,6 +141,8 @@ struct Reapable {
     session_name: String,
     gen_id: usize,
     reap_at: Instant,
+    /// Tells the session apart from any other that gets the same name.
+    exit_notifier: Arc<ExitNotifier>,
 }
 
 impl cmp::PartialEq for Reapable {
-- 
2.43.0


From b6047b611ae21f697e9dff101b7b47b1317b2701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:33 +0000
Subject: [PATCH 19/49] fix: don't leave the client hanging and attached when
 an attach fails late

---
 libshpool/src/daemon/server.rs | 70 ++++++++++++++++++++++------------
 1 file changed, 46 insertions(+), 24 deletions(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 73b83d9..020fb31 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -285,8 +285,10 @@ impl Server {
             Err(err) => return Err(err)?,
         };
 
-        self.link_ssh_auth_sock(&header).context("linking SSH_AUTH_SOCK")?;
-        self.populate_session_env_file(&header).context("populating session env file")?;
+        let prepared =
+            self.link_ssh_auth_sock(&header).context("linking SSH_AUTH_SOCK").and_then(|_| {
+                self.populate_session_env_file(&header).context("populating session env file")
+            });
 
         test_hooks::emit("handle-attach-before-inner-session-lock");
 
@@ -302,6 +304,18 @@ impl Server {
                 }
             };
 
+            // The client is already recorded as attached, so we can't just bail.
+            if let Err(err) = prepared {
+                let reply =
+                    AttachReplyHeader { status: AttachStatus::UnexpectedError(format!("{err:?}")) };
+                if let Err(e) = write_reply(client_stream, reply) {
+                    error!("error writing reply status: {:?}", e);
+                }
+                inner.client_stream = None;
+                self.note_client_disconnect(&header.name, &our_notifier);
+                return Err(err);
+            }
+
             let reply_status =
                 write_reply(client_stream, AttachReplyHeader { status: status.clone() });
             if let Err(e) = reply_status {
@@ -327,15 +341,19 @@ impl Server {
                         info!("not time to show the motd in the pager yet");
                         header.local_tty_size.clone()
                     }
-                    Err(e) => match e.downcast::<PagerError>() {
-                        Ok(PagerError::ClientHangup) => {
-                            info!("client hung up while talking to pager, bailing");
-                            return Ok(());
-                        }
-                        Err(e) => {
-                            return Err(e).context("showing motd in pager")?;
+                    Err(e) => {
+                        inner.client_stream = None;
+                        self.note_client_disconnect(&header.name, &our_notifier);
+                        match e.downcast::<PagerError>() {
+                            Ok(PagerError::ClientHangup) => {
+                                info!("client hung up while talking to pager, bailing");
+                                return Ok(());
+                            }
+                            Err(e) => {
+                                return Err(e).context("showing motd in pager")?;
+                            }
                         }
-                    },
+                    }
                 }
             } else {
                 header.local_tty_size.clone()
@@ -386,20 +404,7 @@ impl Server {
                         .context("within shell->client thread after child exit")?;
                 }
             } else {
-                // Client disconnected but shell is still running - set last_disconnected_at
-                {
-                    let _s = span!(Level::INFO, "disconnect_lock(shells)").entered();
-                    let shells = self.shells.lock();
-                    if let Some(session) = shells.get(&header.name) {
-                        if Arc::ptr_eq(&session.child_exit_notifier, &our_notifier) {
-                            session.lifecycle.record_detached();
-                            self.events_bus.publish(&events::Event::SessionDetached);
-                        }
-                    }
-                }
-                if let Err(err) = self.hooks.on_client_disconnect(&header.name) {
-                    warn!("client_disconnect hook: {:?}", err);
-                }
+                self.note_client_disconnect(&header.name, &our_notifier);
             }
 
             info!("finished attach streaming section");
@@ -410,6 +415,23 @@ impl Server {
         Ok(())
     }
 
+    /// Client disconnected but shell is still running - set last_disconnected_at
+    fn note_client_disconnect(&self, name: &str, our_notifier: &Arc<ExitNotifier>) {
+        {
+            let _s = span!(Level::INFO, "disconnect_lock(shells)").entered();
+            let shells = self.shells.lock();
+            if let Some(session) = shells.get(name) {
+                if Arc::ptr_eq(&session.child_exit_notifier, our_notifier) {
+                    session.lifecycle.record_detached();
+                    self.events_bus.publish(&events::Event::SessionDetached);
+                }
+            }
+        }
+        if let Err(err) = self.hooks.on_client_disconnect(name) {
+            warn!("client_disconnect hook: {:?}", err);
+        }
+    }
+
     #[allow(clippy::type_complexity)]
     fn select_shell_desc(
         &self,
-- 
2.43.0


From d5cfbc66e71b5cf9882775d1c83f6a8bfec7dafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:40 +0000
Subject: [PATCH 20/49] fix: don't create a session twice or hang when clients
 race to create it

---
 libshpool/src/daemon/server.rs | 63 +++++++++++++++++++---------------
 libshpool/src/daemon/shell.rs  | 15 ++++++++
 2 files changed, 50 insertions(+), 28 deletions(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 020fb31..1efa878 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -561,7 +561,7 @@ impl Server {
         let motd = self.config.get().motd.clone().unwrap_or_default();
         let session = self.spawn_subshell(
             conn_id,
-            stream,
+            stream.try_clone().context("creating stream handle for the session")?,
             header,
             user_info,
             shell_env,
@@ -572,38 +572,45 @@ impl Server {
             session_name_template: header.name_template.clone(),
             pid: peer_pid,
         });
-        {
-            let _s = span!(Level::INFO, "select_shell_lock_2(shells)").entered();
-            let mut shells = self.shells.lock();
-            // If we're replacing a stale entry whose shell process is
-            // gone, surface that to subscribers before announcing the
-            // replacement.
-            if shells.insert(header.name.clone(), Box::new(session)).is_some() {
-                self.events_bus.publish(&events::Event::SessionRemoved);
+
+        // we unwrap to propagate the poison as an unwind
+        let _s = span!(Level::INFO, "select_shell_lock_2(shells)").entered();
+        let mut shells = self.shells.lock();
+
+        // Someone else might have created the session while we were busy
+        // starting our shell. Theirs is in use, so ours has to go.
+        let lost_race = shells.get(&header.name).map(|s| !s.is_stale()).unwrap_or(false);
+        if lost_race {
+            drop(shells);
+            info!("lost the race to create '{}'", header.name);
+            write_reply(&mut stream, AttachReplyHeader { status: AttachStatus::Busy })?;
+            stream.shutdown(net::Shutdown::Both).context("closing stream")?;
+            session.kill().context("killing surplus shell proc")?;
+            if let Err(err) = self.hooks.on_busy(&header.name) {
+                warn!("busy hook: {:?}", err);
             }
-            self.events_bus.publish(&events::Event::SessionCreated);
-            self.events_bus.publish(&events::Event::SessionAttached);
+            return Err(ShellSelectionError::BusyShellSession)?;
         }
 
-        // we unwrap to propagate the poison as an unwind
-        let _s = span!(Level::INFO, "select_shell_lock_3(shells)").entered();
-        let shells = self.shells.lock();
+        // Return a reference to the inner session so that we can work with it
+        // without the global session table lock held. We have to lock it before
+        // anyone else gets to see the session.
+        let parts = (
+            Arc::clone(&session.child_exit_notifier),
+            session.inner.lock_arc(),
+            Arc::clone(&session.pager_ctl),
+        );
 
-        // return a reference to the inner session so that
-        // we can work with it without the global session
-        // table lock held
-        if let Some(session) = shells.get(&header.name) {
-            Ok((
-                Some((
-                    Arc::clone(&session.child_exit_notifier),
-                    session.inner.lock_arc(),
-                    Arc::clone(&session.pager_ctl),
-                )),
-                AttachStatus::Created { warnings },
-            ))
-        } else {
-            Ok((None, AttachStatus::UnexpectedError(String::from("selecting session"))))
+        // If we're replacing a stale entry whose shell process is
+        // gone, surface that to subscribers before announcing the
+        // replacement.
+        if shells.insert(header.name.clone(), Box::new(session)).is_some() {
+            self.events_bus.publish(&events::Event::SessionRemoved);
         }
+        self.events_bus.publish(&events::Event::SessionCreated);
+        self.events_bus.publish(&events::Event::SessionAttached);
+
+        Ok((Some(parts), AttachStatus::Created { warnings }))
     }
 
     #[instrument(skip_all)]
diff --git a/libshpool/src/daemon/shell.rs b/libshpool/src/daemon/shell.rs
index 8021cb8..ead218e 100644
--- a/libshpool/src/daemon/shell.rs
+++ b/libshpool/src/daemon/shell.rs
@@ -122,6 +122,21 @@ pub struct Session {
 }
 
 impl Session {
+    /// Whether there is nothing left of the session but its entry in the
+    /// session table.
+    pub fn is_stale(&self) -> bool {
+        if self.child_exit_notifier.wait(Some(Duration::from_millis(0))).is_some() {
+            return true;
+        }
+        // whoever holds the lock is still using the session
+        match self.inner.try_lock() {
+            Some(inner) => {
+                inner.shell_to_client_join_h.as_ref().map(|h| h.is_finished()).unwrap_or(false)
+            }
+            None => false,
+        }
+    }
+
     /// Kill the session, first sending a SIGHUP and then resorting to a
     /// SIGKILL if that doesn't work (SIGTERM doesn't really work on shells).
     #[instrument(skip_all)]
-- 
2.43.0


From 6cbcebd89c313e72685e768252cf1f81f406a78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:05 +0000
Subject: [PATCH 21/49] fix: detach the remaining sessions when one has no
 shell->client thread

---
 libshpool/src/daemon/server.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 1efa878..22943f0 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -675,14 +675,18 @@ impl Server {
                 if let Some(s) = shells.get(&session) {
                     let _s = span!(Level::INFO, "lock(shell_to_client_ctl)", s = session).entered();
                     let shell_to_client_ctl = s.shell_to_client_ctl.lock();
-                    shell_to_client_ctl
+                    // If the shell->client thread is gone there can be no client,
+                    // which must not keep us from detaching the other sessions.
+                    let sent = shell_to_client_ctl
                         .client_connection
-                        .send(shell::ClientConnectionMsg::Disconnect)
-                        .context("sending client detach to shell->client")?;
-                    let status = shell_to_client_ctl
-                        .client_connection_ack
-                        .recv()
-                        .context("getting client conn ack")?;
+                        .send(shell::ClientConnectionMsg::Disconnect);
+                    let status = match sent {
+                        Ok(()) => shell_to_client_ctl
+                            .client_connection_ack
+                            .recv()
+                            .unwrap_or(shell::ClientConnectionStatus::DetachNone),
+                        Err(_) => shell::ClientConnectionStatus::DetachNone,
+                    };
                     info!("detached session({}), status = {:?}", session, status);
                     if let shell::ClientConnectionStatus::DetachNone = status {
                         not_attached_sessions.push(session);
-- 
2.43.0


From ce98df483611337d0cb3cb89f086ea15212cf3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:57 +0000
Subject: [PATCH 22/49] fix: keep watching all config files after one of them
 has to be reloaded

---
 libshpool/src/config_watcher.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libshpool/src/config_watcher.rs b/libshpool/src/config_watcher.rs
index d840dfa..590de9b 100644
--- a/libshpool/src/config_watcher.rs
+++ b/libshpool/src/config_watcher.rs
@@ -351,7 +351,10 @@ impl<Handler> ConfigWatcherInner<Handler> {
                 self.paths.drain().map(|(path, (watched_path, _))| (path, watched_path)).collect()
             }
         };
-        rewatch_paths.into_iter().any(|(path, watched_path)| {
+        // Every path needs its watch back, even if an earlier one already
+        // calls for a reload.
+        let mut reload = false;
+        for (path, watched_path) in rewatch_paths {
             if let Err(err) = self.watcher.unwatch(&watched_path) {
                 // error sometimes is expected if the watched_path was simply removed, in that
                 // case notify will automatically remove the watch.
@@ -359,10 +362,11 @@ impl<Handler> ConfigWatcherInner<Handler> {
             } else {
                 debug!("unwatched {}", watched_path.display());
             }
-            watch_and_add(&mut self.watcher, self.paths.entry(path))
+            reload |= watch_and_add(&mut self.watcher, self.paths.entry(path))
                 .map_err(|err| error!("Failed to add watch: {:?}", err))
-                .unwrap_or(true)
-        })
+                .unwrap_or(true);
+        }
+        reload
     }
 }
 
-- 
2.43.0


From b8a1708ec64d415f4a75958f1b3bf79162c132ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 23/49] fix: don't leak the ptys of other sessions to shells
 and pagers

The loop that was meant to close all file descriptors used the constant that
asks for their maximum number, not the number, so it closed just one.
---
 libshpool/src/common.rs        | 25 ++++++++++++++++++++++++-
 libshpool/src/daemon/pager.rs  |  6 ++----
 libshpool/src/daemon/server.rs |  6 ++----
 3 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/libshpool/src/common.rs b/libshpool/src/common.rs
index 6023180..bdaafd6 100644
--- a/libshpool/src/common.rs
+++ b/libshpool/src/common.rs
@@ -14,9 +14,12 @@
 
 //! The common module is a grab bag of shared utility functions.
 
-use std::{env, thread, time};
+use std::{env, fs, thread, time};
 
 use anyhow::anyhow;
+use nix::unistd;
+
+use crate::consts;
 
 /// Controls how often `sleep_unless` re-checks its stop predicate.
 #[derive(Clone, Copy, Debug)]
@@ -88,6 +91,26 @@ pub fn resolve_sessions(sessions: &mut Vec<String>, action: &str) -> anyhow::Res
     Ok(())
 }
 
+/// Close every file descriptor except for stdin, stdout and stderr. Meant
+/// for a freshly forked child, so that the program it is about to exec does
+/// not get hold of the ptys of other sessions.
+pub fn close_inherited_fds() {
+    let fds: Vec<i32> = match fs::read_dir("/dev/fd") {
+        Ok(entries) => {
+            entries.filter_map(|entry| entry.ok()?.file_name().to_str()?.parse().ok()).collect()
+        }
+        Err(_) => {
+            let max = unistd::sysconf(unistd::SysconfVar::OPEN_MAX).ok().flatten();
+            (0..max.unwrap_or(1024) as i32).collect()
+        }
+    };
+    for fd in fds {
+        if fd > consts::STDERR_FD {
+            let _ = unistd::close(fd);
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use std::cell::Cell;
diff --git a/libshpool/src/daemon/pager.rs b/libshpool/src/daemon/pager.rs
index 08901ce..2bb95e2 100644
--- a/libshpool/src/daemon/pager.rs
+++ b/libshpool/src/daemon/pager.rs
@@ -51,7 +51,7 @@ use parking_lot::Mutex;
 use shpool_protocol::{Chunk, ChunkKind, TtySize};
 use tracing::{error, info, instrument, span, trace, warn, Level};
 
-use crate::{consts, protocol::ChunkExt as _, tty::TtySizeExt as _};
+use crate::{common, consts, protocol::ChunkExt as _, tty::TtySizeExt as _};
 
 // poll relatively quickly to pick up pager exits reasonably fast,
 // but still slow enough to spend most of the time parked.
@@ -140,9 +140,7 @@ impl Pager {
         info!("forking pager pty proc");
         let fork = shpool_pty::fork::Fork::from_ptmx().context("forking pty")?;
         if fork.is_child().is_ok() {
-            for fd in consts::STDERR_FD + 1..(nix::unistd::SysconfVar::OPEN_MAX as i32) {
-                let _ = nix::unistd::close(fd);
-            }
+            common::close_inherited_fds();
             let err = cmd.exec();
             eprintln!("pager exec err: {err:?}");
             std::process::exit(1);
diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 22943f0..6a58c8f 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -42,7 +42,7 @@ use shpool_protocol::{
 use tracing::{debug, error, info, instrument, span, warn, Level};
 
 use crate::{
-    config,
+    common, config,
     config::MotdDisplayMode,
     consts,
     daemon::{
@@ -1066,9 +1066,7 @@ impl Server {
             if noecho {
                 tty::disable_echo(slave.borrow_fd()).context("disabling echo on pty")?;
             }
-            for fd in consts::STDERR_FD + 1..(nix::unistd::SysconfVar::OPEN_MAX as i32) {
-                let _ = nix::unistd::close(fd);
-            }
+            common::close_inherited_fds();
             let err = cmd.exec();
             eprintln!("shell exec err: {err:?}");
             std::process::exit(1);
-- 
2.43.0


From d7b7c99fb765aead5f1eb4513e09eb6311efe23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 24/49] fix: don't record an attachment to a session that is
 about to be replaced

---
 libshpool/src/daemon/server.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 6a58c8f..b6d8726 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -479,12 +479,6 @@ impl Server {
                         None => {
                             // the channel is still open so the subshell is still running
                             info!("taking over existing session inner");
-                            inner.client_stream = Some(stream.try_clone()?);
-                            session.lifecycle.record_attached(Attachment {
-                                session_name_template: header.name_template.clone(),
-                                pid: peer_pid,
-                            });
-
                             if inner
                                 .shell_to_client_join_h
                                 .as_ref()
@@ -495,6 +489,11 @@ impl Server {
                                     "child_exited chan unclosed, but shell->client thread has exited, clobbering with new subshell"
                                 );
                             } else {
+                                inner.client_stream = Some(stream.try_clone()?);
+                                session.lifecycle.record_attached(Attachment {
+                                    session_name_template: header.name_template.clone(),
+                                    pid: peer_pid,
+                                });
                                 // Reattach confirmed; the create path won't run
                                 // and clobber the entry, so it's safe to publish.
                                 self.events_bus.publish(&events::Event::SessionAttached);
-- 
2.43.0


From 1b4df47bf463f48b1fcfc746cd977a1d0b81ac8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 25/49] fix: end a surplus shell even if its client is gone

---
 libshpool/src/daemon/server.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index b6d8726..b7cca7e 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -582,9 +582,11 @@ impl Server {
         if lost_race {
             drop(shells);
             info!("lost the race to create '{}'", header.name);
+            if let Err(err) = session.kill() {
+                error!("killing surplus shell proc: {:?}", err);
+            }
             write_reply(&mut stream, AttachReplyHeader { status: AttachStatus::Busy })?;
             stream.shutdown(net::Shutdown::Both).context("closing stream")?;
-            session.kill().context("killing surplus shell proc")?;
             if let Err(err) = self.hooks.on_busy(&header.name) {
                 warn!("busy hook: {:?}", err);
             }
-- 
2.43.0


From 6eae35aac64c42af2eb313ef3b9ee7255eddaf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 26/49] fix: don't signal a process that got the pid of a shell
 that has exited

---
 libshpool/src/daemon/shell.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libshpool/src/daemon/shell.rs b/libshpool/src/daemon/shell.rs
index ead218e..8dcf310 100644
--- a/libshpool/src/daemon/shell.rs
+++ b/libshpool/src/daemon/shell.rs
@@ -141,6 +141,11 @@ impl Session {
     /// SIGKILL if that doesn't work (SIGTERM doesn't really work on shells).
     #[instrument(skip_all)]
     pub fn kill(&self) -> anyhow::Result<()> {
+        // Once the child has been reaped some other process might have its pid.
+        if self.child_exit_notifier.wait(Some(Duration::from_millis(0))).is_some() {
+            return Ok(());
+        }
+
         // SIGHUP is a signal to indicate that the terminal has disconnected
         // from a process. We can't use the normal SIGTERM graceful-shutdown
         // signal since shells just forward those to their child process,
-- 
2.43.0


From 3891a04aadfd334a76dd4465df4ee9e442cfe9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 27/49] fix: a lost race to create a session must not cancel
 the ttl of the winner

---
 libshpool/src/daemon/ttl_reaper.rs | 35 +++++-------------------------
 1 file changed, 6 insertions(+), 29 deletions(-)

diff --git a/libshpool/src/daemon/ttl_reaper.rs b/libshpool/src/daemon/ttl_reaper.rs
index c9eafff..d600a48 100644
--- a/libshpool/src/daemon/ttl_reaper.rs
+++ b/libshpool/src/daemon/ttl_reaper.rs
@@ -14,8 +14,8 @@
 
 /*! The ttl reaper is responsible to reaping sessions which
   have a ttl set. It uses a channel for a mailbox to listen
-  for newly woken threads, adds a generation id to session
-  names to avoid clobbering fresh session with the same
+  for newly woken threads, remembers the exit notifier of
+  each session to avoid clobbering fresh session with the same
   session name as a previous session, and uses a min heap
   to schedule wakeups in order to reap threads on time.
 */
@@ -44,20 +44,14 @@ pub fn run(
     let _s = span!(Level::INFO, "ttl_reaper").entered();
 
     let mut heap = BinaryHeap::new();
-    let mut gen_ids = HashMap::new();
 
     loop {
         // empty heap loop, just waiting for new sessions to watch
         while heap.is_empty() {
             match new_sess.recv() {
                 Ok((session_name, reap_at, exit_notifier)) => {
-                    let gen_id = gen_ids.entry(session_name.clone()).or_insert(0);
-                    *gen_id += 1;
-                    info!(
-                        "scheduling first sess {}:{} to be reaped at {:?}",
-                        &session_name, *gen_id, reap_at
-                    );
-                    heap.push(Reapable { session_name, gen_id: *gen_id, reap_at, exit_notifier });
+                    info!("scheduling first sess {} to be reaped at {:?}", &session_name, reap_at);
+                    heap.push(Reapable { session_name, reap_at, exit_notifier });
                 }
                 Err(crossbeam_channel::RecvError) => {
                     info!("bailing due to RecvError in empty heap loop");
@@ -78,16 +72,8 @@ pub fn run(
                 recv(new_sess) -> new_sess_msg => {
                     match new_sess_msg {
                         Ok((session_name, reap_at, exit_notifier)) => {
-                            let gen_id = gen_ids.entry(session_name.clone()).or_insert(0);
-                            *gen_id += 1;
-                            info!("scheduling {}:{} to be reaped at {:?}",
-                                  &session_name, *gen_id, reap_at);
-                            heap.push(Reapable {
-                                session_name,
-                                gen_id: *gen_id,
-                                reap_at,
-                                exit_notifier,
-                            });
+                            info!("scheduling {} to be reaped at {:?}", &session_name, reap_at);
+                            heap.push(Reapable { session_name, reap_at, exit_notifier });
                         }
                         Err(crossbeam_channel::RecvError) => {
                             info!("bailing due to RecvError");
@@ -99,14 +85,6 @@ pub fn run(
                     let reapable = heap.pop()
                         .expect("there to be an entry in a non-empty heap");
                     info!("waking up to reap {:?}", reapable);
-                    let current_gen = gen_ids.get(&reapable.session_name)
-                        .copied().unwrap_or(0);
-                    if current_gen != reapable.gen_id {
-                        info!("ignoring {}:{} because current gen is {:?}",
-                              &reapable.session_name, reapable.gen_id, current_gen);
-                        continue;
-                    }
-
                     let _s = span!(Level::INFO, "lock(shells)").entered();
                     let mut shells = shells.lock();
                     if let Some(sess) = shells.get(&reapable.session_name) {
@@ -139,7 +117,6 @@ pub fn run(
 #[derive(Debug)]
 struct Reapable {
     session_name: String,
-    gen_id: usize,
     reap_at: Instant,
     /// Tells the session apart from any other that gets the same name.
     exit_notifier: Arc<ExitNotifier>,
-- 
2.43.0


From a3e97d13e38ccb0b254a654c0f66f7406daaf2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:59 +0000
Subject: [PATCH 28/49] fix: attach with a blank SSH_AUTH_SOCK instead of
 failing to link to it

---
 libshpool/src/daemon/server.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index b7cca7e..640822d 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -620,7 +620,9 @@ impl Server {
             return Ok(());
         }
 
-        if let Some(ssh_auth_sock) = header.local_env_get("SSH_AUTH_SOCK") {
+        // A blank SSH_AUTH_SOCK is as good as none, there is nothing to link to.
+        let ssh_auth_sock = header.local_env_get("SSH_AUTH_SOCK").filter(|s| !s.is_empty());
+        if let Some(ssh_auth_sock) = ssh_auth_sock {
             let symlink = self.ssh_auth_sock_symlink(PathBuf::from(&header.name));
             fs::create_dir_all(symlink.parent().ok_or(anyhow!("no symlink parent dir"))?)
                 .context("could not create directory for SSH_AUTH_SOCK symlink")?;
-- 
2.43.0


From e654df5e7546794738729e2756d94baec8267776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:00 +0000
Subject: [PATCH 29/49] fix: schedule the reaping of a session only once it is
 in the table

A session registered earlier could have its time run out before it was
there (at once with a ttl of 0, or while somebody held the table lock),
and the reaper would then forget about it for good.
---
 libshpool/src/daemon/server.rs | 35 +++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 640822d..01076f2 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -610,6 +610,9 @@ impl Server {
         }
         self.events_bus.publish(&events::Event::SessionCreated);
         self.events_bus.publish(&events::Event::SessionAttached);
+        drop(shells);
+
+        self.schedule_reaping(header, &parts.0);
 
         Ok((Some(parts), AttachStatus::Created { warnings }))
     }
@@ -955,6 +958,27 @@ impl Server {
         }
     }
 
+    /// Have the new session reaped once its ttl is over, if it has one. Must
+    /// not be called before the session is in the table, since the reaper
+    /// forgets about sessions that are not there when their time is up.
+    fn schedule_reaping(&self, header: &AttachHeader, exit_notifier: &Arc<ExitNotifier>) {
+        if let Some(ttl_secs) = header.ttl_secs {
+            info!("registering session with ttl with the reaper");
+            match Instant::now().checked_add(Duration::from_secs(ttl_secs)) {
+                Some(reap_at) => {
+                    if let Err(err) = self.register_new_reapable_session.send((
+                        header.name.clone(),
+                        reap_at,
+                        Arc::clone(exit_notifier),
+                    )) {
+                        error!("sending reapable session registration msg: {:?}", err);
+                    }
+                }
+                None => info!("ttl of {}s is too far off to ever expire", ttl_secs),
+            }
+        }
+    }
+
     /// Spawn a subshell and return the session descriptor for it. The
     /// session is wrapped in an Arc so the inner session can hold a Weak
     /// back-reference to the session.
@@ -1216,17 +1240,6 @@ impl Server {
                 child_exit_notifier: shell_to_client_child_exit_notifier,
             })?);
 
-        if let Some(ttl_secs) = header.ttl_secs {
-            info!("registering session with ttl with the reaper");
-            match Instant::now().checked_add(Duration::from_secs(ttl_secs)) {
-                Some(reap_at) => self
-                    .register_new_reapable_session
-                    .send((header.name.clone(), reap_at, Arc::clone(&child_exit_notifier)))
-                    .context("sending reapable session registration msg")?,
-                None => info!("ttl of {}s is too far off to ever expire", ttl_secs),
-            }
-        }
-
         Ok(shell::Session {
             shell_to_client_ctl,
             pager_ctl: Arc::new(Mutex::new(None)),
-- 
2.43.0


From cc450624d5cceda999775425c925a9d4744ab5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:28 +0000
Subject: [PATCH 30/49] fix: tell sessions of variable changes in the order
 they were made in

handle_modify_var used to release the lock on the variables before it told
the sessions, so of two changes made at the same time the older one could
reach a client last and leave it in the wrong session.
---
 libshpool/src/daemon/server.rs | 38 ++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 01076f2..c922de1 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -755,7 +755,9 @@ impl Server {
         mut stream: UnixStream,
         request: ModifyVarRequest,
     ) -> anyhow::Result<()> {
-        let maybe_switch = {
+        {
+            // Held until every session has been told, so that sessions hear
+            // of changes in the order they were made in.
             let mut vars = self.vars.lock();
             if let Some(val) = request.val {
                 vars.insert(request.var, val);
@@ -763,27 +765,27 @@ impl Server {
                 vars.remove(&request.var);
             }
 
-            MaybeSwitch {
+            let maybe_switch = MaybeSwitch {
                 switch_to: None,
                 vars: vars.iter().map(|(k, v)| (k.clone(), v.clone())).collect(),
-            }
-        };
+            };
 
-        let mut ctls = Vec::new();
-        {
-            let shells = self.shells.lock();
-            for session in shells.values() {
-                ctls.push(Arc::clone(&session.shell_to_client_ctl));
-            }
-        }
-        for ctl in ctls.into_iter() {
-            let ctl = ctl.lock();
-            // One session that can't take the update (because its shell has
-            // already exited, say) must not keep it from the others.
-            if let Err(err) =
-                ctl.maybe_switch.send_timeout(maybe_switch.clone(), SESSION_MSG_TIMEOUT)
+            let mut ctls = Vec::new();
             {
-                warn!("broadcasting maybe_switch: {:?}", err);
+                let shells = self.shells.lock();
+                for session in shells.values() {
+                    ctls.push(Arc::clone(&session.shell_to_client_ctl));
+                }
+            }
+            for ctl in ctls.into_iter() {
+                let ctl = ctl.lock();
+                // One session that can't take the update (because its shell has
+                // already exited, say) must not keep it from the others.
+                if let Err(err) =
+                    ctl.maybe_switch.send_timeout(maybe_switch.clone(), SESSION_MSG_TIMEOUT)
+                {
+                    warn!("broadcasting maybe_switch: {:?}", err);
+                }
             }
         }
 
-- 
2.43.0


From 14180a5f82a3bd4313abe6264ea0c9849ac6f0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:55 +0000
Subject: [PATCH 31/49] fix: tell a client of variable changes made while it
 was attaching

A change made after a client asked for the variables, but before its
connection was handed to the session, was broadcast to everyone but that
client, which then stayed in the session of the old value until the next
change.
---
 libshpool/src/daemon/server.rs | 37 ++++++++++++++++++++++++++++++++--
 libshpool/src/daemon/shell.rs  |  5 +++++
 2 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index c922de1..0a1b1c1 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -49,7 +49,7 @@ use crate::{
         etc_environment, events, exit_notify::ExitNotifier, hooks, pager, pager::PagerError, shell,
         shell_inject, show_motd, ttl_reaper,
     },
-    protocol, test_hooks, tty, user,
+    protocol, template, test_hooks, tty, user,
 };
 
 const DEFAULT_INITIAL_SHELL_PATH: &str = "/usr/bin:/bin:/usr/sbin:/sbin";
@@ -360,7 +360,10 @@ impl Server {
             };
 
             info!("starting bidi stream loop");
-            match inner.bidi_stream(conn_id, init_tty_size, child_exit_notifier) {
+            let shell_to_client_ctl = Arc::clone(&inner.shell_to_client_ctl);
+            match inner.bidi_stream(conn_id, init_tty_size, child_exit_notifier, || {
+                self.send_missed_vars(&header, &shell_to_client_ctl)
+            }) {
                 Ok(done) => {
                     child_done = done;
                 }
@@ -415,6 +418,36 @@ impl Server {
         Ok(())
     }
 
+    /// Variables may have changed after the client used them to work out which
+    /// session to attach to, but before the session could tell it so.
+    fn send_missed_vars(
+        &self,
+        header: &AttachHeader,
+        shell_to_client_ctl: &Mutex<shell::ShellToClientCtl>,
+    ) {
+        let tmpl = match template::Template::new(&header.name_template) {
+            Ok(t) => t,
+            Err(err) => {
+                warn!("parsing session name template: {:?}", err);
+                return;
+            }
+        };
+
+        // Held while sending so that we don't overtake a later change.
+        let vars = self.vars.lock();
+        if header.name_template.is_empty() || tmpl.apply(&vars) == header.name {
+            return;
+        }
+        let maybe_switch = MaybeSwitch {
+            switch_to: None,
+            vars: vars.iter().map(|(k, v)| (k.clone(), v.clone())).collect(),
+        };
+        let ctl = shell_to_client_ctl.lock();
+        if let Err(err) = ctl.maybe_switch.send_timeout(maybe_switch, SESSION_MSG_TIMEOUT) {
+            warn!("sending missed vars: {:?}", err);
+        }
+    }
+
     /// Client disconnected but shell is still running - set last_disconnected_at
     fn note_client_disconnect(&self, name: &str, our_notifier: &Arc<ExitNotifier>) {
         {
diff --git a/libshpool/src/daemon/shell.rs b/libshpool/src/daemon/shell.rs
index 8dcf310..137c3cd 100644
--- a/libshpool/src/daemon/shell.rs
+++ b/libshpool/src/daemon/shell.rs
@@ -708,12 +708,16 @@ impl SessionInner {
     /// bidi_stream shuffles bytes between the subprocess and
     /// the client connection. It returns true if the subprocess
     /// has exited, and false if it is still running.
+    ///
+    /// on_connected is called as soon as control messages to the session
+    /// reach the client.
     #[instrument(skip_all, fields(s = self.name))]
     pub fn bidi_stream(
         &mut self,
         conn_id: usize,
         init_tty_size: TtySize,
         child_exit_notifier: Arc<ExitNotifier>,
+        on_connected: impl FnOnce(),
     ) -> anyhow::Result<bool> {
         test_hooks::emit("daemon-bidi-stream-enter");
         #[allow(clippy::let_unit_value)]
@@ -753,6 +757,7 @@ impl SessionInner {
                 .context("waiting for client connection ack (1)")?;
             info!("client connection status={:?}", status);
         }
+        on_connected();
 
         let pty_master =
             self.pty_master.is_parent().context("internal error: executing in child fork")?;
-- 
2.43.0


From 566aec542feaf2dc879b891da41b753a832f67c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:22 +0000
Subject: [PATCH 32/49] fix: don't give up on a session that was left a moment
 ago when switching

A client that follows a variable back to the session it has just left (or
two clients that trade places) could find that session busy because the
daemon was yet to notice that its client was gone, and exited.
---
 libshpool/src/attach.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/libshpool/src/attach.rs b/libshpool/src/attach.rs
index 179961e..e29757e 100644
--- a/libshpool/src/attach.rs
+++ b/libshpool/src/attach.rs
@@ -38,6 +38,7 @@ use crate::{
 };
 
 const MAX_FORCE_RETRIES: usize = 20;
+const MAX_SWITCH_RETRIES: usize = 20;
 
 #[allow(clippy::too_many_arguments)]
 pub fn run(
@@ -117,13 +118,15 @@ impl Attach {
         };
 
         info!("looping on attach_with_name");
+        let mut switching = false;
         loop {
             info!("attaching to '{}'", resolved.session_name);
-            match self.attach_resolved(resolved) {
+            match self.attach_resolved(resolved, switching) {
                 Ok(AttachResult::Done) => return Ok(()),
                 Ok(AttachResult::Switch(s)) => maybe_switch = s,
                 Err(e) => return Err(e),
             }
+            switching = true;
 
             let var_map = maybe_switch.vars.iter().cloned().collect();
             resolved = self.tmpls.apply(&var_map);
@@ -137,7 +140,15 @@ impl Attach {
 
     /// Attach with the given resolved name. This will run until exit or until
     /// we need to reconnect due to
-    pub fn attach_resolved(&self, resolved: ResolvedTemplates) -> anyhow::Result<AttachResult> {
+    ///
+    /// When switching, we might be coming back to a session that we (or another
+    /// client that follows the same variables) have left so recently that the
+    /// daemon is yet to notice, so don't give up on a busy one right away.
+    pub fn attach_resolved(
+        &self,
+        resolved: ResolvedTemplates,
+        switching: bool,
+    ) -> anyhow::Result<AttachResult> {
         if resolved.session_name.is_empty() {
             eprintln!("blank session names are not allowed");
             return Ok(AttachResult::Done);
@@ -161,6 +172,10 @@ impl Attach {
             match self.dial_attach(&resolved) {
                 Ok(client) => break client,
                 Err(err) => match err.downcast() {
+                    Ok(BusyError) if !self.force && switching && tries < MAX_SWITCH_RETRIES => {
+                        thread::sleep(time::Duration::from_millis(100));
+                        tries += 1;
+                    }
                     Ok(BusyError) if !self.force => {
                         eprintln!(
                             "session '{}' already has a terminal attached",
-- 
2.43.0


From b32b6e49bce28e8747d3d9f66a212098a0bf1673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:53 +0000
Subject: [PATCH 33/49] fix: let sessions of a daemon a command started keep
 the user's umask

---
 libshpool/src/daemonize.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/libshpool/src/daemonize.rs b/libshpool/src/daemonize.rs
index 2184431..990e0e2 100644
--- a/libshpool/src/daemonize.rs
+++ b/libshpool/src/daemonize.rs
@@ -147,9 +147,6 @@ impl std::ops::Drop for PidFileGuard {
 ///
 /// Safety: see nix::unistd::fork for preconditions.
 pub unsafe fn daemonize(pid_path: PathBuf) -> anyhow::Result<PidFileGuard> {
-    let old_mask = nix::sys::stat::umask(nix::sys::stat::Mode::empty());
-    info!("set empty umask (old mask: {:?})", old_mask);
-
     // `cd /` in order to avoid holding open the directory the user
     // happened to launch `shpool attach` in so that we don't block
     // deletes of that directory the whole time that the daemon
-- 
2.43.0


From c603962356fbe97a1520d3054f3e2ecffe776be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:53 +0000
Subject: [PATCH 34/49] fix: hold the pid file's lock while the daemon runs,
 and leave a stale socket to it

---
 libshpool/src/daemonize.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/libshpool/src/daemonize.rs b/libshpool/src/daemonize.rs
index 990e0e2..2bba389 100644
--- a/libshpool/src/daemonize.rs
+++ b/libshpool/src/daemonize.rs
@@ -56,16 +56,10 @@ where
             // don't need to do anything.
             return Ok(());
         }
-        Err(e) if e.kind() == std::io::ErrorKind::ConnectionRefused => {
-            // The socket file exists but nothing is listening (stale socket).
-            // Remove it so the new daemon can bind successfully.
-            info!("stale socket at {:?}, removing before autodaemonizing", control_sock);
-            std::fs::remove_file(control_sock)
-                .with_context(|| format!("removing stale socket at {:?}", control_sock))?;
-        }
         Err(_) => {
             // Socket file does not exist or other error; fall through to spawn
-            // daemon.
+            // daemon. If it is stale it is up to the daemon, which knows that it
+            // is the only one, to remove it. By now it might be someone else's.
         }
     }
     info!("no daemon running on {:?}, autodaemonizing", control_sock);
@@ -125,6 +119,9 @@ where
 
 pub struct PidFileGuard {
     p: PathBuf,
+    // Held for as long as the daemon runs, so that nobody else takes the
+    // pid file to be stale.
+    _lock: fcntl::Flock<fs::File>,
 }
 
 impl PidFileGuard {
@@ -196,7 +193,7 @@ pub unsafe fn daemonize(pid_path: PathBuf) -> anyhow::Result<PidFileGuard> {
     // now.
     unsafe { redirect_std_fds_to_null()? };
 
-    Ok(PidFileGuard { p: pid_path })
+    Ok(PidFileGuard { p: pid_path, _lock: pid_file })
 }
 
 // Safety: callers MUST NOT call this when the std file descriptors are
-- 
2.43.0


From f3e12395fd98541efdd18d1b20accfa173cc5d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:32 +0000
Subject: [PATCH 35/49] fix: don't take the events socket from the daemon that
 has the control socket

---
 libshpool/src/daemon/mod.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/libshpool/src/daemon/mod.rs b/libshpool/src/daemon/mod.rs
index 034146c..39b5e8f 100644
--- a/libshpool/src/daemon/mod.rs
+++ b/libshpool/src/daemon/mod.rs
@@ -68,12 +68,6 @@ pub fn run(
 
     info!("\n\n======================== STARTING DAEMON ============================\n\n");
 
-    let events_socket = events::socket_path(&socket);
-    let (events_bus, _events_handle) =
-        events::EventBus::start(events_socket.clone()).context("starting events bus")?;
-    let server =
-        server::Server::new(config_manager, hooks, runtime_dir, log_level_handle, events_bus)?;
-
     let (cleanup_socket, listener) = match systemd::activation_socket() {
         Ok(l) => {
             info!("using systemd activation socket");
@@ -93,6 +87,14 @@ pub fn run(
         }
     };
 
+    // Only once we have the control socket: if another daemon is listening on
+    // it, the events socket is that daemon's as well.
+    let events_socket = events::socket_path(&socket);
+    let (events_bus, _events_handle) =
+        events::EventBus::start(events_socket.clone()).context("starting events bus")?;
+    let server =
+        server::Server::new(config_manager, hooks, runtime_dir, log_level_handle, events_bus)?;
+
     // spawn the signal handler thread in the background. Both sockets need
     // explicit cleanup on signal exit because the process exits before any
     // RAII guard can run -- the signal path bypasses the sink's RAII socket
-- 
2.43.0


From 5331bf0b2eb09a544ea1a13ebeaca18406e292d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:51 +0000
Subject: [PATCH 36/49] fix: launch the daemon with absolute paths, it changes
 its working directory

---
 libshpool/src/daemonize.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libshpool/src/daemonize.rs b/libshpool/src/daemonize.rs
index 2bba389..32b6bcc 100644
--- a/libshpool/src/daemonize.rs
+++ b/libshpool/src/daemonize.rs
@@ -64,10 +64,14 @@ where
     }
     info!("no daemon running on {:?}, autodaemonizing", control_sock);
 
+    // The daemon changes its working directory, so it can't do with relative
+    // paths.
+    let control_sock = std::path::absolute(control_sock).context("resolving socket path")?;
     let log_file = control_sock.with_file_name("daemonized-shpool.log");
 
     let mut cmd = process::Command::new(shpool_bin);
     if let Some(config_file) = &args.config_file {
+        let config_file = std::path::absolute(config_file).context("resolving config path")?;
         cmd.arg("--config-file").arg(config_file);
     }
     cmd.arg("--log-file")
@@ -88,7 +92,7 @@ where
         let mut sleep_ms = 10;
         let max_sleep_ms = 2000;
         loop {
-            if UnixStream::connect(control_sock).is_ok() {
+            if UnixStream::connect(&control_sock).is_ok() {
                 info!("connected to freshly launched background daemon");
                 return Ok(());
             }
@@ -104,7 +108,7 @@ where
         // `sum(10*(2**x) for x in range(9))` = 5110 ms = ~5 s
         let mut sleep_ms = 10;
         for _ in 0..9 {
-            if UnixStream::connect(control_sock).is_ok() {
+            if UnixStream::connect(&control_sock).is_ok() {
                 info!("connected to freshly launched background daemon");
                 return Ok(());
             }
-- 
2.43.0


From 1e1ab3ec3b8ceb32f95f2892511af850d3935ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:47 +0000
Subject: [PATCH 37/49] fix: daemonize before starting the config watcher, so
 that it comes along

The config manager starts its watcher threads when it is made, and fork() takes only the calling thread along: a daemon that a command launched never noticed changes to its config file, and could deadlock on a lock a lost thread held.
---
 libshpool/src/daemon/mod.rs | 49 +++++++++++++++++++++++--------------
 libshpool/src/lib.rs        |  9 +++++++
 2 files changed, 39 insertions(+), 19 deletions(-)

diff --git a/libshpool/src/daemon/mod.rs b/libshpool/src/daemon/mod.rs
index 39b5e8f..34165b6 100644
--- a/libshpool/src/daemon/mod.rs
+++ b/libshpool/src/daemon/mod.rs
@@ -12,7 +12,11 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
-use std::{env, os::unix::net::UnixListener, path::PathBuf};
+use std::{
+    env,
+    os::unix::net::UnixListener,
+    path::{Path, PathBuf},
+};
 
 use anyhow::Context;
 use tracing::{info, instrument};
@@ -33,18 +37,14 @@ mod systemd;
 mod trie;
 mod ttl_reaper;
 
-#[instrument(skip_all)]
-pub fn run(
-    config_manager: config::Manager,
-    runtime_dir: PathBuf,
-    hooks: Box<dyn hooks::Hooks + Send + Sync>,
-    log_level_handle: tracing_subscriber::reload::Handle<
-        tracing_subscriber::filter::LevelFilter,
-        tracing_subscriber::registry::Registry,
-    >,
-    socket: PathBuf,
-) -> anyhow::Result<()> {
-    let pid_guard = if let Ok(daemonize) = env::var(consts::AUTODAEMONIZE_VAR) {
+/// Move to the background if a command launched this process to be its
+/// daemon.
+///
+/// # Safety
+///
+/// This forks, so it must be called while there is just one thread.
+pub unsafe fn maybe_daemonize(socket: &Path) -> anyhow::Result<Option<daemonize::PidFileGuard>> {
+    if let Ok(daemonize) = env::var(consts::AUTODAEMONIZE_VAR) {
         if daemonize == "true" {
             // Safety: this is executing before we have forked any threads,
             // so we are still in single-threaded mode, therefore it is safe
@@ -58,14 +58,25 @@ pub fn run(
             info!("daemonizing with pid_file={:?}", pid_file);
             // Safety: we are calling this before having forked any threads,
             // which is sufficient to meet the safety requirements for fork().
-            Some(unsafe { daemonize::daemonize(pid_file) }.context("daemonizing")?)
-        } else {
-            None
+            return Ok(Some(unsafe { daemonize::daemonize(pid_file) }.context("daemonizing")?));
         }
-    } else {
-        None
-    };
+    }
 
+    Ok(None)
+}
+
+#[instrument(skip_all)]
+pub fn run(
+    config_manager: config::Manager,
+    runtime_dir: PathBuf,
+    hooks: Box<dyn hooks::Hooks + Send + Sync>,
+    log_level_handle: tracing_subscriber::reload::Handle<
+        tracing_subscriber::filter::LevelFilter,
+        tracing_subscriber::registry::Registry,
+    >,
+    socket: PathBuf,
+    pid_guard: Option<daemonize::PidFileGuard>,
+) -> anyhow::Result<()> {
     info!("\n\n======================== STARTING DAEMON ============================\n\n");
 
     let (cleanup_socket, listener) = match systemd::activation_socket() {
diff --git a/libshpool/src/lib.rs b/libshpool/src/lib.rs
index 7558a0a..0fa830d 100644
--- a/libshpool/src/lib.rs
+++ b/libshpool/src/lib.rs
@@ -442,6 +442,14 @@ pub unsafe fn run(
         None => runtime_dir.join("shpool.socket"),
     };
 
+    // Before the config manager starts its watcher, because we need to have just
+    // one thread to daemonize, and others would not come along.
+    let pid_guard = match args.command {
+        // Safety: no threads have been started yet, our caller has started none.
+        Commands::Daemon => unsafe { daemon::maybe_daemonize(&socket)? },
+        _ => None,
+    };
+
     let config_manager = config::Manager::new(args.config_file.as_deref())?;
 
     if !config_manager.get().nodaemonize.unwrap_or(false) || args.daemonize {
@@ -470,6 +478,7 @@ pub unsafe fn run(
             hooks.unwrap_or(Box::new(NoopHooks {})),
             log_level_handle,
             socket,
+            pid_guard,
         ),
         Commands::Attach { force, background, ttl, cmd, dir, start_cmd, name } => {
             attach::run(socket, config_manager, name, force, background, ttl, cmd, dir, start_cmd)
-- 
2.43.0


From 71b09ad723e23f63a2a8a3117480d9d77c5d36cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:31 +0000
Subject: [PATCH 38/49] fix: let go of events subscribers that hang up while
 nothing happens

A subscriber that had nothing pending was not polled, so its descriptor
stayed open until the next event. Enough of them (a script that keeps
reconnecting) used up the daemon's descriptors, and with those gone no
client could connect to cause an event.
---
 libshpool/src/daemon/events.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/libshpool/src/daemon/events.rs b/libshpool/src/daemon/events.rs
index 078d398..533e0b6 100644
--- a/libshpool/src/daemon/events.rs
+++ b/libshpool/src/daemon/events.rs
@@ -239,7 +239,7 @@ impl Sink {
 
         // Fixed positions in the poll set: 0 = wake fd, 1 = listener fd
         // (revents ignored -- see below), 2 = shutdown fd, 3.. =
-        // subscribers wanting POLLOUT.
+        // subscribers.
         const WAKE_FD_IDX: usize = 0;
         const SHUTDOWN_FD_IDX: usize = 2;
         const SUB_FDS_START: usize = 3;
@@ -249,16 +249,18 @@ impl Sink {
             sub_revents.clear();
 
             // Build the poll set fresh each iteration: wake fd (POLLIN),
-            // listener fd (POLLIN), each subscriber that wants POLLOUT.
+            // listener fd (POLLIN), each subscriber. One that doesn't want
+            // POLLOUT is there for its hangup, which is reported anyway: we
+            // must not hold on to its fd until the next event.
             let mut fds: Vec<PollFd> = Vec::with_capacity(SUB_FDS_START + subs.len());
             fds.push(PollFd::new(wake_rx.as_fd(), PollFlags::POLLIN));
             fds.push(PollFd::new(listener.as_fd(), PollFlags::POLLIN));
             fds.push(PollFd::new(shutdown_rx.as_fd(), PollFlags::POLLIN));
             for (i, sub) in subs.iter().enumerate() {
-                if sub.wants_pollout() {
-                    fds.push(PollFd::new(sub.as_fd(), PollFlags::POLLOUT));
-                    sub_pollfd_idx.push(i);
-                }
+                let flags =
+                    if sub.wants_pollout() { PollFlags::POLLOUT } else { PollFlags::empty() };
+                fds.push(PollFd::new(sub.as_fd(), flags));
+                sub_pollfd_idx.push(i);
             }
 
             match poll::poll(&mut fds, PollTimeout::NONE) {
-- 
2.43.0


From d16c7fc11123362a64d5cb500f78ce0a5c7c29cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:17 +0000
Subject: [PATCH 39/49] fix: tell an event to everyone who connected before it
 was published

---
 libshpool/src/daemon/events.rs | 38 ++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/libshpool/src/daemon/events.rs b/libshpool/src/daemon/events.rs
index 533e0b6..3dd036d 100644
--- a/libshpool/src/daemon/events.rs
+++ b/libshpool/src/daemon/events.rs
@@ -296,21 +296,8 @@ impl Sink {
             // listener POLLIN can lag behind `connect(2)` returning, and if
             // we were woken by the wake-fd alone we still want to catch any
             // queued connections so the same iteration's broadcast reaches
-            // them. The accept syscall is cheap (returns WouldBlock
-            // immediately when the queue is empty).
-            loop {
-                match listener.accept() {
-                    Ok((stream, _addr)) => match SubscriberWriter::new(stream) {
-                        Ok(sub) => subs.push(sub),
-                        Err(e) => warn!("registering events subscriber: {:?}", e),
-                    },
-                    Err(e) if e.kind() == io::ErrorKind::WouldBlock => break,
-                    Err(e) => {
-                        error!("events listener accept: {:?}", e);
-                        break;
-                    }
-                }
-            }
+            // them.
+            accept_pending(&listener, &mut subs);
 
             // POLLHUP on wake_rx fires when the bus is dropped (write end
             // closes); falling through without entering the drain branch
@@ -337,6 +324,9 @@ impl Sink {
                 // would overflow even healthy subs because broadcast enqueues
                 // every event before any drive runs.
                 while let Ok(line) = event_rx.try_recv() {
+                    // This event might be younger than the accepts above, and
+                    // whoever connected before it was published is to get it.
+                    accept_pending(&listener, &mut subs);
                     for sub in subs.iter_mut() {
                         if sub.dropped {
                             continue;
@@ -385,6 +375,24 @@ impl Sink {
     }
 }
 
+/// Register everyone who is waiting in the listener's queue. The accept
+/// syscall is cheap (returns WouldBlock immediately when the queue is empty).
+fn accept_pending(listener: &UnixListener, subs: &mut Vec<SubscriberWriter>) {
+    loop {
+        match listener.accept() {
+            Ok((stream, _addr)) => match SubscriberWriter::new(stream) {
+                Ok(sub) => subs.push(sub),
+                Err(e) => warn!("registering events subscriber: {:?}", e),
+            },
+            Err(e) if e.kind() == io::ErrorKind::WouldBlock => break,
+            Err(e) => {
+                error!("events listener accept: {:?}", e);
+                break;
+            }
+        }
+    }
+}
+
 /// Per-subscriber state owned by the sink. Exposes an event-shaped surface
 /// (`enqueue`, `drive`, `wants_pollout`); the partial-write state machine
 /// (offset into `pending.front()`) is hidden from the sink loop.
-- 
2.43.0


From aaaacbf917139ed2a13a0b6298bbb43228caeb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:14 +0000
Subject: [PATCH 40/49] fix: have the signal handler in place before the events
 socket shows that we are up

---
 libshpool/src/daemon/mod.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/libshpool/src/daemon/mod.rs b/libshpool/src/daemon/mod.rs
index 34165b6..407c93c 100644
--- a/libshpool/src/daemon/mod.rs
+++ b/libshpool/src/daemon/mod.rs
@@ -98,14 +98,10 @@ pub fn run(
         }
     };
 
-    // Only once we have the control socket: if another daemon is listening on
-    // it, the events socket is that daemon's as well.
+    // Only now that we have the control socket: if another daemon is listening
+    // on it, the events socket is that daemon's as well. But before anyone can
+    // see that we are up: signals are to find the handler in place.
     let events_socket = events::socket_path(&socket);
-    let (events_bus, _events_handle) =
-        events::EventBus::start(events_socket.clone()).context("starting events bus")?;
-    let server =
-        server::Server::new(config_manager, hooks, runtime_dir, log_level_handle, events_bus)?;
-
     // spawn the signal handler thread in the background. Both sockets need
     // explicit cleanup on signal exit because the process exits before any
     // RAII guard can run -- the signal path bypasses the sink's RAII socket
@@ -117,6 +113,11 @@ pub fn run(
     }
     signals::Handler::new(socks_to_clean).spawn().context("spawning signal handler")?;
 
+    let (events_bus, _events_handle) =
+        events::EventBus::start(events_socket.clone()).context("starting events bus")?;
+    let server =
+        server::Server::new(config_manager, hooks, runtime_dir, log_level_handle, events_bus)?;
+
     server::Server::serve(server, listener)?;
 
     if let Some(sock) = cleanup_socket {
-- 
2.43.0


From 0d2ca5c5db4bc1c41d60df3c3fbe712923931670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:23 +0000
Subject: [PATCH 41/49] fix: keep forwarding for a shell that closed its
 terminal but still runs

---
 libshpool/src/daemon/shell.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/libshpool/src/daemon/shell.rs b/libshpool/src/daemon/shell.rs
index 137c3cd..7f22ec0 100644
--- a/libshpool/src/daemon/shell.rs
+++ b/libshpool/src/daemon/shell.rs
@@ -45,8 +45,6 @@ use crate::{
 
 const SHELL_KILL_TIMEOUT: time::Duration = time::Duration::from_millis(500);
 
-const SHELL_EXIT_WAIT_DUR: time::Duration = time::Duration::from_millis(500);
-
 const SUPERVISOR_POLL_DUR: time::Duration = time::Duration::from_millis(300);
 
 // Chosen experimentally. This value is small enough that no human will likely
@@ -586,19 +584,26 @@ impl SessionInner {
                     })
                     .unwrap_or(false);
                 if hangup {
-                    info!("pty master hung up, exiting shell->client thread");
                     if pending_exit.is_some() {
+                        info!("pty master hung up, exiting shell->client thread");
                         return Self::finish_exit(client_conn, pending_exit);
                     }
 
+                    // The shell might have closed its terminal but still be running, in
+                    // which case clients can still come and go.
+                    let exit_status = match args
+                        .child_exit_notifier
+                        .wait(Some(time::Duration::from_millis(SHELL_TO_CLIENT_POLL_MS.into())))
+                    {
+                        Some(status) => status,
+                        None => continue,
+                    };
+                    info!("pty master hung up, exiting shell->client thread");
+
                     // If we have an attached client conn, make a best effort attempt
                     // to forward the exit status.
                     if let ClientConnectionMsg::New(mut conn) = client_conn {
-                        if let Some(exit_status) =
-                            args.child_exit_notifier.wait(Some(SHELL_EXIT_WAIT_DUR))
-                        {
-                            Self::write_exit_chunk(&mut conn.sink, exit_status);
-                        }
+                        Self::write_exit_chunk(&mut conn.sink, exit_status);
                     }
                     return Ok(());
                 }
-- 
2.43.0


From 2e3c2a4c71117706f21341263a0c1e94e13edd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:23 +0000
Subject: [PATCH 42/49] fix: do not call a session busy that nothing can serve
 any more, and end its shell when it is replaced

---
 libshpool/src/daemon/server.rs | 3 +++
 libshpool/src/daemon/shell.rs  | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 0a1b1c1..eac33db 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -521,6 +521,9 @@ impl Server {
                                 warn!(
                                     "child_exited chan unclosed, but shell->client thread has exited, clobbering with new subshell"
                                 );
+                                if let Err(err) = session.kill() {
+                                    error!("killing unreachable shell proc: {:?}", err);
+                                }
                             } else {
                                 inner.client_stream = Some(stream.try_clone()?);
                                 session.lifecycle.record_attached(Attachment {
diff --git a/libshpool/src/daemon/shell.rs b/libshpool/src/daemon/shell.rs
index 7f22ec0..052157d 100644
--- a/libshpool/src/daemon/shell.rs
+++ b/libshpool/src/daemon/shell.rs
@@ -129,7 +129,7 @@ impl Session {
         // whoever holds the lock is still using the session
         match self.inner.try_lock() {
             Some(inner) => {
-                inner.shell_to_client_join_h.as_ref().map(|h| h.is_finished()).unwrap_or(false)
+                inner.shell_to_client_join_h.as_ref().map(|h| h.is_finished()).unwrap_or(true)
             }
             None => false,
         }
-- 
2.43.0


From 05362a799470648c584e00cb0862920071f70afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:06 +0000
Subject: [PATCH 43/49] fix: let a client go even if the shell does not read
 what it typed

---
 libshpool/src/daemon/shell.rs | 37 ++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/libshpool/src/daemon/shell.rs b/libshpool/src/daemon/shell.rs
index 052157d..bcfbd39 100644
--- a/libshpool/src/daemon/shell.rs
+++ b/libshpool/src/daemon/shell.rs
@@ -61,6 +61,13 @@ const SHELL_TO_CLIENT_POLL_MS: u16 = 50;
 // shell->client thread.
 const SHELL_TO_CLIENT_CTL_TIMEOUT: time::Duration = time::Duration::from_millis(300);
 
+// How long to wait for the shell to make room for more input before checking
+// if there is still a client to forward it for.
+const PTY_WRITE_POLL_MS: u16 = 50;
+
+// The pty takes this much at once without blocking whenever it has any room.
+const PTY_WRITE_MAX: usize = 1024;
+
 /// Lifecycle state tracking when sessions were last connected/disconnected and
 /// by whom. The fields update in lockstep, so they live behind a single private
 /// lock that only this type's methods take, exactly once per update or read.
@@ -225,6 +232,34 @@ struct ResizeCmd {
     when: time::Instant,
 }
 
+/// Writes to the pty as soon as there is room, but gives up when there is none
+/// and the threads serving the client have been told to stop. A shell which does
+/// not read its input must not keep its session busy.
+struct StoppableWriter<'a> {
+    master: shpool_pty::fork::Master,
+    stop: &'a AtomicBool,
+}
+
+impl io::Write for StoppableWriter<'_> {
+    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
+        loop {
+            let mut poll_fds = [poll::PollFd::new(self.master.borrow_fd(), PollFlags::POLLOUT)];
+            if poll::poll(&mut poll_fds, PTY_WRITE_POLL_MS)? > 0 {
+                break;
+            }
+            if self.stop.load(Ordering::Relaxed) {
+                return Err(io::Error::new(io::ErrorKind::TimedOut, "the shell takes no input"));
+            }
+        }
+        let len = std::cmp::min(buf.len(), PTY_WRITE_MAX);
+        self.master.write(&buf[..len])
+    }
+
+    fn flush(&mut self) -> io::Result<()> {
+        self.master.flush()
+    }
+}
+
 fn log_if_error<T, E>(ctx: &str, res: Result<T, E>) -> Result<T, E>
 where
     E: std::fmt::Debug,
@@ -899,7 +934,7 @@ impl SessionInner {
                     span!(Level::INFO, "client->shell", s = self.name, cid = conn_id).entered();
                 let mut bindings = bindings.context("compiling keybindings engine")?;
 
-                let mut master_writer = pty_master.clone();
+                let mut master_writer = StoppableWriter { master: pty_master.clone(), stop };
 
                 let mut snip_sections = vec![]; // (<len>, <end offset>)
                 let mut keep_sections = vec![]; // (<start offset>, <end offset>)
-- 
2.43.0


From 166022aa156770c7998bc3b55af65b699c578c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:49 +0000
Subject: [PATCH 44/49] fix: detach a client that does not read what it is sent
 without blocking the daemon

---
 libshpool/src/daemon/server.rs | 23 ++----------
 libshpool/src/daemon/shell.rs  | 68 ++++++++++++++++++++++++++++++++--
 2 files changed, 68 insertions(+), 23 deletions(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index eac33db..006949e 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -717,18 +717,7 @@ impl Server {
                 if let Some(s) = shells.get(&session) {
                     let _s = span!(Level::INFO, "lock(shell_to_client_ctl)", s = session).entered();
                     let shell_to_client_ctl = s.shell_to_client_ctl.lock();
-                    // If the shell->client thread is gone there can be no client,
-                    // which must not keep us from detaching the other sessions.
-                    let sent = shell_to_client_ctl
-                        .client_connection
-                        .send(shell::ClientConnectionMsg::Disconnect);
-                    let status = match sent {
-                        Ok(()) => shell_to_client_ctl
-                            .client_connection_ack
-                            .recv()
-                            .unwrap_or(shell::ClientConnectionStatus::DetachNone),
-                        Err(_) => shell::ClientConnectionStatus::DetachNone,
-                    };
+                    let status = shell_to_client_ctl.disconnect_client();
                     info!("detached session({}), status = {:?}", session, status);
                     if let shell::ClientConnectionStatus::DetachNone = status {
                         not_attached_sessions.push(session);
@@ -982,14 +971,7 @@ impl Server {
                 let _s = span!(Level::INFO, "lock(shell_to_client_ctl)").entered();
                 let shell_to_client_ctl = shell_to_client_ctl.lock();
 
-                shell_to_client_ctl
-                    .client_connection
-                    .send_timeout(shell::ClientConnectionMsg::Disconnect, SESSION_MSG_TIMEOUT)
-                    .context("sending client detach to shell->client")?;
-                let status = shell_to_client_ctl
-                    .client_connection_ack
-                    .recv_timeout(SESSION_MSG_TIMEOUT)
-                    .context("getting client conn ack")?;
+                let status = shell_to_client_ctl.disconnect_client();
                 info!("detached session({}), status = {:?}", header.session_name, status);
                 Ok(SessionMessageReply::Detach(SessionMessageDetachReply::Ok))
             }
@@ -1241,6 +1223,7 @@ impl Server {
             heartbeat: heartbeat_tx,
             heartbeat_ack: heartbeat_ack_rx,
             maybe_switch: maybe_switch_tx,
+            client_stream: None,
         }));
 
         let mut session_inner = shell::SessionInner {
diff --git a/libshpool/src/daemon/shell.rs b/libshpool/src/daemon/shell.rs
index bcfbd39..e8e0971 100644
--- a/libshpool/src/daemon/shell.rs
+++ b/libshpool/src/daemon/shell.rs
@@ -776,10 +776,12 @@ impl SessionInner {
             client_stream.try_clone().context("creating shell->client client stream handle")?;
         let output_sink =
             io::BufWriter::new(client_stream.try_clone().context("wrapping stream in bufwriter")?);
+        let detach_client_stream =
+            client_stream.try_clone().context("creating client stream handle to detach with")?;
 
         {
             let _s = span!(Level::INFO, "initial_attach_lock(shell_to_client_ctl)").entered();
-            let shell_to_client_ctl = self.shell_to_client_ctl.lock();
+            let mut shell_to_client_ctl = self.shell_to_client_ctl.lock();
             shell_to_client_ctl
                 .client_connection
                 .send_timeout(
@@ -796,6 +798,7 @@ impl SessionInner {
                 .recv_timeout(SHELL_TO_CLIENT_CTL_TIMEOUT)
                 .context("waiting for client connection ack (1)")?;
             info!("client connection status={:?}", status);
+            shell_to_client_ctl.client_stream = Some(detach_client_stream);
         }
         on_connected();
 
@@ -807,7 +810,7 @@ impl SessionInner {
         // A flag to indicate if the child shell has exited
         let child_done = AtomicBool::new(false);
 
-        thread::scope(|s| -> anyhow::Result<()> {
+        let served = thread::scope(|s| -> anyhow::Result<()> {
             // Spawn the main data transport threads
             let client_to_shell_h = self.spawn_client_to_shell(
                 s, conn_id, &stop, &pty_master, &mut client_to_shell_client_stream)?;
@@ -892,7 +895,17 @@ impl SessionInner {
             debug!("joined all threads");
 
             Ok(())
-        }).context("outer thread scope")?;
+        }).context("outer thread scope");
+
+        // There is nobody to detach any more. Our handle must go in any
+        // case, since the client only sees the end of the stream once
+        // the last one is closed.
+        {
+            let _s = span!(Level::INFO, "clear_lock(shell_to_client_ctl)").entered();
+            let mut shell_to_client_ctl = self.shell_to_client_ctl.lock();
+            shell_to_client_ctl.client_stream = None;
+        }
+        served?;
 
         let c_done = child_done.load(Ordering::Acquire);
         if c_done {
@@ -1235,6 +1248,55 @@ pub struct ShellToClientCtl {
     /// because we just blast this out and the caller doesn't need
     /// to know about completion.
     pub maybe_switch: crossbeam_channel::Sender<MaybeSwitch>,
+
+    /// The connection of the attached client, if there is one. Only
+    /// used to hang up on it if the shell->client thread can't do so.
+    pub client_stream: Option<UnixStream>,
+}
+
+impl ShellToClientCtl {
+    /// Disconnect the attached client, without waiting for a shell->client
+    /// thread that is busy (it is stuck in a write for as long as the client
+    /// does not read what it is sent).
+    pub fn disconnect_client(&self) -> ClientConnectionStatus {
+        match self
+            .client_connection
+            .send_timeout(ClientConnectionMsg::Disconnect, SHELL_TO_CLIENT_CTL_TIMEOUT)
+        {
+            Ok(()) => {}
+            Err(crossbeam_channel::SendTimeoutError::Timeout(_)) => return self.hang_up(),
+            // If the shell->client thread is gone there can be no client.
+            Err(crossbeam_channel::SendTimeoutError::Disconnected(_)) => {
+                return ClientConnectionStatus::DetachNone
+            }
+        }
+        match self.client_connection_ack.recv_timeout(SHELL_TO_CLIENT_CTL_TIMEOUT) {
+            Ok(status) => status,
+            Err(crossbeam_channel::RecvTimeoutError::Timeout) => {
+                // Once nobody reads its output any more it does get around to
+                // the ack, which must not be left for the next one to find.
+                self.hang_up();
+                self.client_connection_ack.recv().unwrap_or(ClientConnectionStatus::DetachNone)
+            }
+            Err(crossbeam_channel::RecvTimeoutError::Disconnected) => {
+                ClientConnectionStatus::DetachNone
+            }
+        }
+    }
+
+    /// Close the connection of the attached client. The threads that serve
+    /// it will notice.
+    fn hang_up(&self) -> ClientConnectionStatus {
+        match &self.client_stream {
+            Some(stream) => {
+                if let Err(err) = shutdown_socket(stream, net::Shutdown::Both) {
+                    error!("hanging up on client: {:?}", err);
+                }
+                ClientConnectionStatus::Detached
+            }
+            None => ClientConnectionStatus::DetachNone,
+        }
+    }
 }
 
 /// Given a buffer, a length after which the data is not valid, a list of
-- 
2.43.0


From 8ce3028c66ff31334562383599da2e88691ab3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:54 +0000
Subject: [PATCH 45/49] fix: show everything the motd pager writes before it
 exits

Pager::display returned as soon as it noticed that the pager had exited, without
reading what was still in its pty, so the end of what the pager wrote got lost.
---
 libshpool/src/daemon/pager.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libshpool/src/daemon/pager.rs b/libshpool/src/daemon/pager.rs
index 2bb95e2..d82b98a 100644
--- a/libshpool/src/daemon/pager.rs
+++ b/libshpool/src/daemon/pager.rs
@@ -219,8 +219,12 @@ impl Pager {
                 poll::PollFd::new(watchable_master.borrow_fd(), poll::PollFlags::POLLIN),
                 poll::PollFd::new(watchable_client_stream.as_fd(), poll::PollFlags::POLLIN),
             ];
+            // check for the exit before looking at the pty, so that we know to have
+            // everything the pager wrote if there is nothing there then.
+            let exited = pager_exited.load(Ordering::Relaxed);
             let nready = poll::poll(&mut poll_fds, POLL_MS).context("polling both streams")?;
-            if pager_exited.load(Ordering::Relaxed) {
+            let pager_readable = poll_fds[0].any().unwrap_or(false);
+            if exited && !pager_readable {
                 let tty_size = tty_size.lock();
                 return Ok(tty_size.clone());
             }
@@ -254,10 +258,9 @@ impl Pager {
             } else {
                 // -1 case should have been turned into an error already
                 assert!(nready > 0);
-                let pty_master_poll_fd = &poll_fds[0];
                 let client_stream_poll_fd = &poll_fds[1];
 
-                if pty_master_poll_fd.any().unwrap_or(false) {
+                if pager_readable {
                     // the pager process has some data for us
                     let len = pty_master.read(&mut buf).context("reading chunk from pty master")?;
                     if len == 0 {
-- 
2.43.0


From fc80bac4db5459d1781da6b7a4d118b61bd65b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:54 +0000
Subject: [PATCH 46/49] fix: start with any motd show_every duration

The daemon panicked on start if twice the duration, or the time that far back, could
not be represented.
---
 libshpool/src/daemon/show_motd.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/libshpool/src/daemon/show_motd.rs b/libshpool/src/daemon/show_motd.rs
index e5831ff..769d7ab 100644
--- a/libshpool/src/daemon/show_motd.rs
+++ b/libshpool/src/daemon/show_motd.rs
@@ -175,21 +175,26 @@ impl DailyMessenger {
 
 #[derive(Debug, Clone)]
 struct Debouncer {
-    last_fired: Arc<Mutex<time::SystemTime>>,
+    // None until it fires for the first time
+    last_fired: Arc<Mutex<Option<time::SystemTime>>>,
     dur: time::Duration,
 }
 
 impl Debouncer {
     fn new(dur: time::Duration) -> Self {
-        Debouncer { last_fired: Arc::new(Mutex::new(time::SystemTime::now() - (dur * 2))), dur }
+        Debouncer { last_fired: Arc::new(Mutex::new(None)), dur }
     }
 
     #[instrument(skip_all)]
     fn should_fire(&self) -> anyhow::Result<bool> {
         let mut last_fired = self.last_fired.lock();
-        if last_fired.elapsed()? >= self.dur {
-            let old: time::SystemTime = *last_fired;
-            *last_fired = time::SystemTime::now();
+        let fire = match *last_fired {
+            Some(at) => at.elapsed()? >= self.dur,
+            None => true,
+        };
+        if fire {
+            let old: Option<time::SystemTime> = *last_fired;
+            *last_fired = Some(time::SystemTime::now());
             info!("last_fired: old = {:?}, new = {:?}", old, *last_fired);
             Ok(true)
         } else {
-- 
2.43.0


From c07ec57caf6c824c326d9b6c739e4a24f180fb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:55 +0000
Subject: [PATCH 47/49] fix: attach after the clock has been set back

Once the motd had been shown in the pager, setting the clock back made every attach
fail until the clock had caught up.
---
 libshpool/src/daemon/show_motd.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/libshpool/src/daemon/show_motd.rs b/libshpool/src/daemon/show_motd.rs
index 769d7ab..695026e 100644
--- a/libshpool/src/daemon/show_motd.rs
+++ b/libshpool/src/daemon/show_motd.rs
@@ -101,7 +101,7 @@ impl DailyMessenger {
         shell_env: &[(OsString, OsString)],
     ) -> anyhow::Result<Option<TtySize>> {
         if let Some(debouncer) = &self.debouncer {
-            if !debouncer.should_fire()? {
+            if !debouncer.should_fire() {
                 return Ok(None);
             }
         }
@@ -186,20 +186,22 @@ impl Debouncer {
     }
 
     #[instrument(skip_all)]
-    fn should_fire(&self) -> anyhow::Result<bool> {
+    fn should_fire(&self) -> bool {
         let mut last_fired = self.last_fired.lock();
         let fire = match *last_fired {
-            Some(at) => at.elapsed()? >= self.dur,
+            // if the clock was set back to before we last fired, there is no telling
+            // how long ago that was.
+            Some(at) => at.elapsed().map_or(true, |elapsed| elapsed >= self.dur),
             None => true,
         };
         if fire {
             let old: Option<time::SystemTime> = *last_fired;
             *last_fired = Some(time::SystemTime::now());
             info!("last_fired: old = {:?}, new = {:?}", old, *last_fired);
-            Ok(true)
+            true
         } else {
             info!("not firing yet (last_fired = {:?})", *last_fired);
-            Ok(false)
+            false
         }
     }
 }
-- 
2.43.0


From a801ca73b56d71c64a2aa552099a6c1166fe8ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:55 +0000
Subject: [PATCH 48/49] fix: do not panic if the motd mode changes before the
 motd is dumped

Whether a session dumps the motd is decided when it is created. If the config was
reloaded with another mode before its prompt showed up, the thread that forwards the
session's output panicked, and the session was lost.
---
 libshpool/src/daemon/show_motd.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/libshpool/src/daemon/show_motd.rs b/libshpool/src/daemon/show_motd.rs
index 695026e..ac45ae4 100644
--- a/libshpool/src/daemon/show_motd.rs
+++ b/libshpool/src/daemon/show_motd.rs
@@ -60,11 +60,6 @@ impl DailyMessenger {
         mut stream: W,
         term_db: &termini::TermInfo,
     ) -> anyhow::Result<()> {
-        assert!(matches!(
-            self.config.get().motd.clone().unwrap_or_default(),
-            config::MotdDisplayMode::Dump
-        ));
-
         let raw_motd_value = self.raw_motd_value(term_db)?;
 
         // The client only accepts frames of up to BUF_SIZE bytes, so a long
-- 
2.43.0


From bf6a38cfc1cadfc99e9fd069a5576ee170d5976d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:55 +0000
Subject: [PATCH 49/49] fix: attach even if the motd cannot be shown in the
 pager

If the motd could not be resolved, or the pager not be started, every attach to every
session failed.
---
 libshpool/src/daemon/server.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 006949e..f164298 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -341,19 +341,19 @@ impl Server {
                         info!("not time to show the motd in the pager yet");
                         header.local_tty_size.clone()
                     }
-                    Err(e) => {
-                        inner.client_stream = None;
-                        self.note_client_disconnect(&header.name, &our_notifier);
-                        match e.downcast::<PagerError>() {
-                            Ok(PagerError::ClientHangup) => {
-                                info!("client hung up while talking to pager, bailing");
-                                return Ok(());
-                            }
-                            Err(e) => {
-                                return Err(e).context("showing motd in pager")?;
-                            }
+                    Err(e) => match e.downcast::<PagerError>() {
+                        Ok(PagerError::ClientHangup) => {
+                            info!("client hung up while talking to pager, bailing");
+                            inner.client_stream = None;
+                            self.note_client_disconnect(&header.name, &our_notifier);
+                            return Ok(());
                         }
-                    }
+                        Err(e) => {
+                            // no motd is no reason to keep the user from their session
+                            warn!("showing motd in pager: {:?}", e);
+                            header.local_tty_size.clone()
+                        }
+                    },
                 }
             } else {
                 header.local_tty_size.clone()
-- 
2.43.0

