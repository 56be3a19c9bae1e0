From cb25d54b4d45fa3a6251c0ebbb0f08ff4403229c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:30 +0000
Subject: [PATCH 01/21] fix: Replace files atomically with --write

Files were truncated in place, so a failed or interrupted write left an empty
or partial document.  The formatted content now goes to a temporary file next
to the target, which then takes its place.
---
 src/config.rs | 11 +++++++-
 src/main.rs   | 70 ++++++++++++++++++++++++++++++++++++++++++++++++---
 2 files changed, 76 insertions(+), 5 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index d060f9b..b59adf4 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -13,6 +13,11 @@ use serde::Deserialize;
 /// The default configuration file name.
 pub const CONFIG_FILE_NAME: &str = ".hongdown.toml";
 
+/// The prefix of the names of the temporary files that `--write` puts next to
+/// the files it replaces.  Such files are never selected by include patterns,
+/// in case an interrupted run left one behind.
+pub const TEMP_FILE_PREFIX: &str = ".hongdown-tmp-";
+
 /// Default value for `git_aware` (true).
 fn default_git_aware() -> bool {
     true
@@ -1113,7 +1118,11 @@ impl Config {
         for entry in walker {
             let entry = entry.map_err(ConfigError::Ignore)?;
             let path = entry.path();
-            if path.is_file() {
+            let is_temp_file = entry
+                .file_name()
+                .to_string_lossy()
+                .starts_with(TEMP_FILE_PREFIX);
+            if path.is_file() && !is_temp_file {
                 files.push(path.to_path_buf());
             }
         }
diff --git a/src/main.rs b/src/main.rs
index 1d59371..45048bb 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,13 +1,13 @@
 //! Hongdown CLI - A Markdown formatter for Hong Minhee's style conventions.
 
 use std::fs;
-use std::io::{self, Read};
+use std::io::{self, Read, Write};
 use std::path::{Path, PathBuf};
 use std::process::ExitCode;
-use std::sync::atomic::{AtomicBool, Ordering};
+use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
 
 use clap::Parser;
-use hongdown::config::Config;
+use hongdown::config::{Config, TEMP_FILE_PREFIX};
 use hongdown::{CodeFormatter, LineWidth, Options, format_with_warnings, validate_dash_settings};
 use rayon::prelude::*;
 use similar::{ChangeTag, TextDiff};
@@ -224,7 +224,7 @@ fn process_files_parallel(
                         all_formatted.store(false, Ordering::Relaxed);
                     }
                 } else if write && input != result.output {
-                    match fs::write(file, &result.output) {
+                    match write_file(file, &result.output) {
                         Ok(()) => {
                             println!("{}", file.display());
                         }
@@ -249,6 +249,68 @@ fn process_files_parallel(
     }
 }
 
+/// Replace the content of a file in one step.
+///
+/// The content goes to a temporary file next to the target first, which then
+/// takes the target's place, so the file is never seen truncated or incomplete,
+/// even if writing fails or the process dies.  Symbolic links are followed.
+fn write_file(path: &Path, content: &str) -> io::Result<()> {
+    static COUNTER: AtomicUsize = AtomicUsize::new(0);
+
+    // Opening the file itself keeps read-only files from being replaced.
+    let target = fs::canonicalize(path)?;
+    let metadata = fs::OpenOptions::new()
+        .write(true)
+        .open(&target)?
+        .metadata()?;
+    let Some(dir) = target.parent().filter(|_| metadata.is_file()) else {
+        return fs::write(&target, content);
+    };
+
+    let (temp_path, mut temp) = loop {
+        let temp_path = dir.join(format!(
+            "{}{}-{}",
+            TEMP_FILE_PREFIX,
+            std::process::id(),
+            COUNTER.fetch_add(1, Ordering::Relaxed)
+        ));
+        match fs::OpenOptions::new()
+            .write(true)
+            .create_new(true)
+            .open(&temp_path)
+        {
+            Ok(temp) => break (temp_path, temp),
+            Err(e) if e.kind() == io::ErrorKind::AlreadyExists => continue,
+            Err(e) => return Err(e),
+        }
+    };
+    let result = (|| {
+        temp.write_all(content.as_bytes())?;
+        #[cfg(unix)]
+        keep_owner(&temp, &metadata);
+        temp.set_permissions(metadata.permissions())?;
+        temp.sync_all()?;
+        fs::rename(&temp_path, &target)
+    })();
+    if result.is_err() {
+        let _ = fs::remove_file(&temp_path);
+    }
+    result
+}
+
+/// Give a file the owner of the file it replaces, as far as that is allowed.
+#[cfg(unix)]
+fn keep_owner(file: &fs::File, replaced: &fs::Metadata) {
+    use std::os::unix::fs::{MetadataExt, fchown};
+
+    let Ok(metadata) = file.metadata() else {
+        return;
+    };
+    if (metadata.uid(), metadata.gid()) != (replaced.uid(), replaced.gid()) {
+        let _ = fchown(file, Some(replaced.uid()), Some(replaced.gid()));
+    }
+}
+
 /// Process files sequentially (for stdout mode where order matters).
 fn process_files_sequential(files: &[PathBuf], options: &Options) -> ExitCode {
     for file in files {
-- 
2.43.0


From 5f8857e2d8de265ad8053c9d2dc0c94f38ef935b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:21 +0000
Subject: [PATCH 02/21] fix: Never block on a code formatter's streams or leave
 it behind

The code was written in full before anything was read, and the time limit was
only enforced afterwards, so a formatter that does not read its input, or one
that writes while reading, blocked forever.  A formatter that does not read all
of its input was reported as failed, one with more output than fits in a pipe
timed out, and a formatter that timed out became a zombie.
---
 src/serializer/formatter.rs | 155 ++++++++++++++++++++++++++++--------
 1 file changed, 122 insertions(+), 33 deletions(-)

diff --git a/src/serializer/formatter.rs b/src/serializer/formatter.rs
index 4fb1b56..58cb9eb 100644
--- a/src/serializer/formatter.rs
+++ b/src/serializer/formatter.rs
@@ -4,8 +4,10 @@
 //! on code block contents. It handles process spawning, timeout management,
 //! and error handling.
 
-use std::io::Write;
-use std::process::{Command, Stdio};
+use std::io::{self, Read, Write};
+use std::process::{Child, ChildStdin, Command, Stdio};
+use std::sync::mpsc::{self, Receiver};
+use std::sync::{Arc, Mutex};
 use std::thread;
 use std::time::{Duration, Instant};
 
@@ -65,8 +67,17 @@ impl std::error::Error for FormatterError {
     }
 }
 
+/// How often to check whether the process has finished.
+const POLL_INTERVAL: Duration = Duration::from_millis(50);
+
+/// How long to wait at least for the rest of the output of a finished process.
+/// It ends later only if another process inherited the output streams.
+const DRAIN_TIMEOUT: Duration = Duration::from_secs(1);
+
 /// Run an external formatter command with the given code as stdin.
 ///
+/// The process has terminated by the time this function returns.
+///
 /// # Arguments
 ///
 /// * `command` - Command and arguments as a slice of strings.
@@ -95,43 +106,121 @@ pub fn run_formatter(
         .spawn()
         .map_err(FormatterError::Spawn)?;
 
-    // Write code to stdin
-    if let Some(mut stdin) = child.stdin.take() {
-        stdin
-            .write_all(code.as_bytes())
-            .map_err(FormatterError::Stdin)?;
-        // stdin is dropped here, closing it
-    }
+    let result = communicate(&mut child, code, Duration::from_secs(timeout_secs));
 
-    // Wait with timeout using polling
-    let timeout = Duration::from_secs(timeout_secs);
+    // Whatever happened, leave no process behind (no effect if it is gone)
+    let _ = child.kill();
+    let _ = child.wait();
+    result
+}
+
+/// Feed a formatter process with the given code and collect its output.
+fn communicate(child: &mut Child, code: &str, timeout: Duration) -> Result<String, FormatterError> {
     let start = Instant::now();
-    let poll_interval = Duration::from_millis(50);
 
-    loop {
+    // Each stream is served by its own thread, so that neither this process nor
+    // the formatter ever waits for the other one to read or write first
+    let stdin_error = write_in_background(child.stdin.take(), code)?;
+    let stdout = read_in_background(child.stdout.take())?;
+    let stderr = read_in_background(child.stderr.take())?;
+
+    // Wait with timeout using polling
+    let status = loop {
+        let timed_out = start.elapsed() >= timeout;
         match child.try_wait() {
-            Ok(Some(status)) => {
-                // Process finished
-                let output = child.wait_with_output().map_err(FormatterError::Spawn)?;
-                if status.success() {
-                    return String::from_utf8(output.stdout).map_err(FormatterError::InvalidUtf8);
-                } else {
-                    return Err(FormatterError::NonZeroExit {
-                        code: status.code(),
-                        stderr: String::from_utf8_lossy(&output.stderr).to_string(),
-                    });
-                }
-            }
-            Ok(None) => {
-                // Still running
-                if start.elapsed() >= timeout {
-                    let _ = child.kill();
-                    return Err(FormatterError::Timeout);
-                }
-                thread::sleep(poll_interval);
-            }
+            // Process finished
+            Ok(Some(status)) => break status,
+            // Still running
+            Ok(None) if timed_out => return Err(FormatterError::Timeout),
+            Ok(None) => thread::sleep(POLL_INTERVAL),
             Err(e) => return Err(FormatterError::Spawn(e)),
         }
+    };
+
+    let drain_start = Instant::now();
+    let drain_timeout = timeout.saturating_sub(start.elapsed()).max(DRAIN_TIMEOUT);
+    let stdout = stdout.finish(drain_timeout);
+    let stderr = stderr.finish(drain_timeout.saturating_sub(drain_start.elapsed()));
+
+    if !status.success() {
+        return Err(FormatterError::NonZeroExit {
+            code: status.code(),
+            stderr: String::from_utf8_lossy(&stderr.unwrap_or_default()).to_string(),
+        });
+    }
+    if let Ok(e) = stdin_error.try_recv() {
+        return Err(FormatterError::Stdin(e));
+    }
+    String::from_utf8(stdout.map_err(FormatterError::Spawn)?).map_err(FormatterError::InvalidUtf8)
+}
+
+/// Write the code to a process in a new thread, and close its stdin.
+///
+/// Returns the receiver of the error that occurred, if any.
+fn write_in_background(
+    stdin: Option<ChildStdin>,
+    code: &str,
+) -> Result<Receiver<io::Error>, FormatterError> {
+    let (sender, receiver) = mpsc::channel();
+    if let Some(mut stdin) = stdin {
+        let code = code.to_owned();
+        thread::Builder::new()
+            .spawn(move || match stdin.write_all(code.as_bytes()) {
+                // A formatter does not have to read all of its input
+                Err(e) if e.kind() != io::ErrorKind::BrokenPipe => {
+                    let _ = sender.send(e);
+                }
+                _ => {} // stdin is dropped here, closing it
+            })
+            .map_err(FormatterError::Spawn)?;
+    }
+    Ok(receiver)
+}
+
+/// Output of a process that is being read by another thread.
+struct BackgroundReader {
+    buffer: Arc<Mutex<Vec<u8>>>,
+    end: Receiver<io::Result<()>>,
+}
+
+/// Read the output of a process in a new thread.
+fn read_in_background(
+    stream: Option<impl Read + Send + 'static>,
+) -> Result<BackgroundReader, FormatterError> {
+    let buffer = Arc::new(Mutex::new(Vec::new()));
+    let (sender, end) = mpsc::channel();
+    if let Some(mut stream) = stream {
+        let buffer = Arc::downgrade(&buffer);
+        thread::Builder::new()
+            .spawn(move || {
+                let mut chunk = [0; 8192];
+                let result = loop {
+                    match stream.read(&mut chunk) {
+                        Ok(0) => break Ok(()),
+                        Ok(n) => match buffer.upgrade() {
+                            Some(buffer) => buffer.lock().unwrap().extend_from_slice(&chunk[..n]),
+                            None => break Ok(()),
+                        },
+                        Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
+                        Err(e) => break Err(e),
+                    }
+                };
+                let _ = sender.send(result);
+            })
+            .map_err(FormatterError::Spawn)?;
+    }
+    Ok(BackgroundReader { buffer, end })
+}
+
+impl BackgroundReader {
+    /// Wait for the end of the output, but no longer than the given time, and
+    /// return what has been read.
+    fn finish(self, timeout: Duration) -> io::Result<Vec<u8>> {
+        if let Ok(result) = self.end.recv_timeout(timeout) {
+            result?;
+        }
+        let mut buffer = self.buffer.lock().unwrap();
+        Ok(std::mem::take(&mut *buffer))
     }
 }
 
-- 
2.43.0


From be7a9e609251d6d51a0769b28b1da05aea1a0e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:47 +0000
Subject: [PATCH 03/21] fix: Resolve patterns of a bare --config file name
 against the working directory

The parent of a bare file name is the empty path, which cannot be walked.
---
 src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.rs b/src/main.rs
index 45048bb..855fca4 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -462,6 +462,7 @@ fn load_config(args: &Args) -> (Config, PathBuf) {
             Ok(config) => {
                 let config_dir = config_path
                     .parent()
+                    .filter(|p| !p.as_os_str().is_empty())
                     .map(|p| p.to_path_buf())
                     .unwrap_or_else(|| cwd.clone());
                 return (config, config_dir);
-- 
2.43.0


From 09fbd96d104e56edbdc3e2d25cd367b0acad94a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:47 +0000
Subject: [PATCH 04/21] fix: Do not let include patterns override .gitignore

Include patterns took precedence over .gitignore files, and files in .git
directories were selected too, although git_aware is documented to skip both.
Ignore files and links that cannot be read are reported now, since the files to
process are not known without them.
---
 src/config.rs | 78 +++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 70 insertions(+), 8 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index b59adf4..d9ddab8 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -1085,16 +1085,18 @@ impl Config {
             return Ok(Vec::new());
         }
 
-        // Build override patterns: include patterns are whitelist,
-        // exclude patterns are prefixed with ! to negate them
-        let mut override_builder = OverrideBuilder::new(base_dir);
-
-        // Add include patterns
+        // Build include patterns: whatever matches none of them is skipped.
+        // They must not be passed to the walker, because its overrides take
+        // precedence over .gitignore files.
+        let mut include_builder = OverrideBuilder::new(base_dir);
         for pattern in &self.include {
-            override_builder.add(pattern).map_err(ConfigError::Ignore)?;
+            include_builder.add(pattern).map_err(ConfigError::Ignore)?;
         }
+        let includes = include_builder.build().map_err(ConfigError::Ignore)?;
 
-        // Add exclude patterns with ! prefix (negation)
+        // Build override patterns: exclude patterns are prefixed with ! to
+        // negate them
+        let mut override_builder = OverrideBuilder::new(base_dir);
         for pattern in &self.exclude {
             override_builder
                 .add(&format!("!{}", pattern))
@@ -1105,24 +1107,42 @@ impl Config {
 
         // Build walker with overrides
         // This efficiently skips directories that don't match patterns
+        let git_aware = self.git_aware;
+        let dir_includes = includes.clone();
         let walker = WalkBuilder::new(base_dir)
             .hidden(false) // Don't automatically ignore hidden files
             .git_ignore(self.git_aware) // Respect .gitignore if git_aware is enabled
             .git_global(false) // Don't use global gitignore (for consistency)
             .git_exclude(self.git_aware) // Respect .git/info/exclude if git_aware is enabled
             .overrides(overrides)
+            .filter_entry(move |entry| {
+                if entry.depth() == 0 || !entry.file_type().is_some_and(|t| t.is_dir()) {
+                    return true;
+                }
+                // Skip the .git directory if git_aware is enabled, and
+                // directories negated by include patterns
+                !(git_aware && entry.file_name() == ".git")
+                    && !dir_includes.matched(entry.path(), true).is_ignore()
+            })
             .build();
 
         // Collect matching files
         let mut files = Vec::new();
         for entry in walker {
             let entry = entry.map_err(ConfigError::Ignore)?;
+            if let Some(e) = entry.error().filter(|e| has_io_error(e)) {
+                // Without its ignore files a directory's selection is unknown
+                return Err(ConfigError::Ignore(e.clone()));
+            }
             let path = entry.path();
             let is_temp_file = entry
                 .file_name()
                 .to_string_lossy()
                 .starts_with(TEMP_FILE_PREFIX);
-            if path.is_file() && !is_temp_file {
+            if includes.matched(path, false).is_whitelist()
+                && !is_temp_file
+                && is_file(&entry).map_err(|e| ConfigError::Io(path.to_path_buf(), e))?
+            {
                 files.push(path.to_path_buf());
             }
         }
@@ -1134,6 +1154,48 @@ impl Config {
     }
 }
 
+/// Determine whether an entry is a regular file or a symbolic link to one.
+fn is_file(entry: &ignore::DirEntry) -> std::io::Result<bool> {
+    match entry.file_type() {
+        Some(file_type) if !file_type.is_symlink() => Ok(file_type.is_file()),
+        _ => match std::fs::metadata(entry.path()) {
+            Ok(metadata) => Ok(metadata.is_file()),
+            Err(e) if is_broken_link(&e) => Ok(false),
+            Err(e) => Err(e),
+        },
+    }
+}
+
+/// Determine whether following a symbolic link failed because it leads nowhere.
+fn is_broken_link(error: &std::io::Error) -> bool {
+    use std::io::ErrorKind;
+
+    /// "Too many levels of symbolic links", for which there is no stable
+    /// `ErrorKind` yet.
+    const ELOOP: i32 = if cfg!(windows) {
+        1921 // ERROR_CANT_RESOLVE_FILENAME
+    } else if cfg!(target_os = "linux") {
+        40
+    } else {
+        62
+    };
+
+    matches!(error.kind(), ErrorKind::NotFound | ErrorKind::NotADirectory)
+        || error.raw_os_error() == Some(ELOOP)
+}
+
+/// Determine whether an error from the ignore crate involves an I/O error.
+fn has_io_error(error: &ignore::Error) -> bool {
+    match error {
+        ignore::Error::Io(_) => true,
+        ignore::Error::Partial(errors) => errors.iter().any(has_io_error),
+        ignore::Error::WithLineNumber { err, .. }
+        | ignore::Error::WithPath { err, .. }
+        | ignore::Error::WithDepth { err, .. } => has_io_error(err),
+        _ => false,
+    }
+}
+
 /// Errors that can occur when loading configuration.
 #[derive(Debug)]
 pub enum ConfigError {
-- 
2.43.0


From 7b4a4ed3cdf2b3a916e4b87597d2eb7b060affcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 05/21] fix: Do not format anything if the configuration cannot
 be loaded

Files were rewritten with default settings if a configuration file was invalid
or unreadable.  Configuration files that no_inherit discards are not read at
all, so they do not have to be valid.
---
 src/config.rs | 68 +++++++++++++++++++++++++++++++--------------------
 src/main.rs   | 50 ++++++++++++++++---------------------
 2 files changed, 62 insertions(+), 56 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index d9ddab8..09bd542 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -961,8 +961,7 @@ impl Config {
         let mut current = start_dir.to_path_buf();
         loop {
             let config_path = current.join(CONFIG_FILE_NAME);
-            if config_path.exists() {
-                let config = Self::from_file(&config_path)?;
+            if let Some(config) = if_exists(Self::from_file(&config_path))? {
                 return Ok(Some((config_path, config)));
             }
             if !current.pop() {
@@ -987,30 +986,33 @@ impl Config {
         let mut layers = Vec::new();
         let mut project_config_path = None;
 
-        // 1. Try system-wide config: /etc/hongdown/config.toml
-        if let Some(layer) = Self::load_system_config()? {
-            layers.push(layer);
-        }
+        // The project config comes last, but it decides about the others
+        let project_config = Self::discover_project_config(start_dir)?;
+        let no_inherit = project_config
+            .as_ref()
+            .is_some_and(|(_, layer)| layer.no_inherit);
+
+        // If no_inherit is true, skip all parent layers
+        if !no_inherit {
+            // 1. Try system-wide config: /etc/hongdown/config.toml
+            if let Some(layer) = Self::load_system_config()? {
+                layers.push(layer);
+            }
 
-        // 2. Try user legacy config: ~/.hongdown.toml
-        if let Some(layer) = Self::load_user_legacy_config()? {
-            layers.push(layer);
-        }
+            // 2. Try user legacy config: ~/.hongdown.toml
+            if let Some(layer) = Self::load_user_legacy_config()? {
+                layers.push(layer);
+            }
 
-        // 3. Try XDG user config: $XDG_CONFIG_HOME/hongdown/config.toml
-        if let Some(layer) = Self::load_user_xdg_config()? {
-            layers.push(layer);
+            // 3. Try XDG user config: $XDG_CONFIG_HOME/hongdown/config.toml
+            if let Some(layer) = Self::load_user_xdg_config()? {
+                layers.push(layer);
+            }
         }
 
-        // 4. Try project config: search upward from start_dir
-        if let Some((path, layer)) = Self::discover_project_config(start_dir)? {
+        // 4. Add project config: found upward from start_dir
+        if let Some((path, layer)) = project_config {
             project_config_path = Some(path);
-
-            // If no_inherit is true, skip all parent layers
-            if layer.no_inherit {
-                layers.clear();
-            }
-
             layers.push(layer);
         }
 
@@ -1053,8 +1055,7 @@ impl Config {
         let mut current = start_dir.to_path_buf();
         loop {
             let config_path = current.join(CONFIG_FILE_NAME);
-            if config_path.exists() {
-                let layer = ConfigLayer::from_file(&config_path)?;
+            if let Some(layer) = if_exists(ConfigLayer::from_file(&config_path))? {
                 return Ok(Some((config_path, layer)));
             }
             if !current.pop() {
@@ -1066,10 +1067,7 @@ impl Config {
 
     /// Try to load a config layer from a path. Returns None if file doesn't exist.
     fn try_load_layer(path: &Path) -> Result<Option<ConfigLayer>, ConfigError> {
-        if !path.exists() {
-            return Ok(None);
-        }
-        ConfigLayer::from_file(path).map(Some)
+        if_exists(ConfigLayer::from_file(path))
     }
 
     /// Collect files matching the include patterns, excluding those matching
@@ -1154,6 +1152,22 @@ impl Config {
     }
 }
 
+/// Turn the error of a file that does not exist into `None`.
+///
+/// A file that exists but cannot be read is still an error.
+fn if_exists<T>(result: Result<T, ConfigError>) -> Result<Option<T>, ConfigError> {
+    use std::io::ErrorKind;
+
+    match result {
+        Err(ConfigError::Io(_, e))
+            if matches!(e.kind(), ErrorKind::NotFound | ErrorKind::NotADirectory) =>
+        {
+            Ok(None)
+        }
+        result => result.map(Some),
+    }
+}
+
 /// Determine whether an entry is a regular file or a symbolic link to one.
 fn is_file(entry: &ignore::DirEntry) -> std::io::Result<bool> {
     match entry.file_type() {
diff --git a/src/main.rs b/src/main.rs
index 855fca4..2af3120 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -7,7 +7,7 @@ use std::process::ExitCode;
 use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
 
 use clap::Parser;
-use hongdown::config::{Config, TEMP_FILE_PREFIX};
+use hongdown::config::{Config, ConfigError, TEMP_FILE_PREFIX};
 use hongdown::{CodeFormatter, LineWidth, Options, format_with_warnings, validate_dash_settings};
 use rayon::prelude::*;
 use similar::{ChangeTag, TextDiff};
@@ -51,7 +51,13 @@ fn main() -> ExitCode {
     let args = Args::parse();
 
     // Load configuration
-    let (config, config_dir) = load_config(&args);
+    let (config, config_dir) = match load_config(&args) {
+        Ok(loaded) => loaded,
+        Err(e) => {
+            eprintln!("Error: {}", e);
+            return ExitCode::FAILURE;
+        }
+    };
 
     // Build options, with CLI args overriding config file
     let options = Options {
@@ -453,38 +459,24 @@ fn collect_md_files(dir: &Path) -> Vec<PathBuf> {
 ///    - User XDG config: `$XDG_CONFIG_HOME/hongdown/config.toml`
 ///    - Project config: `.hongdown.toml` in current or parent directories
 /// 3. Default configuration
-fn load_config(args: &Args) -> (Config, PathBuf) {
+fn load_config(args: &Args) -> Result<(Config, PathBuf), ConfigError> {
     let cwd = std::env::current_dir().unwrap_or_else(|_| PathBuf::from("."));
 
     // If explicit config path is provided, use it without cascading
     if let Some(config_path) = &args.config {
-        match Config::from_file(config_path) {
-            Ok(config) => {
-                let config_dir = config_path
-                    .parent()
-                    .filter(|p| !p.as_os_str().is_empty())
-                    .map(|p| p.to_path_buf())
-                    .unwrap_or_else(|| cwd.clone());
-                return (config, config_dir);
-            }
-            Err(e) => {
-                eprintln!("Warning: {}", e);
-                return (Config::default(), cwd);
-            }
-        }
+        let config = Config::from_file(config_path)?;
+        let config_dir = config_path
+            .parent()
+            .filter(|p| !p.as_os_str().is_empty())
+            .map(|p| p.to_path_buf())
+            .unwrap_or_else(|| cwd.clone());
+        return Ok((config, config_dir));
     }
 
     // Use cascading config loading from all sources
-    match Config::load_cascading(&cwd) {
-        Ok((config, maybe_project_path)) => {
-            let config_dir = maybe_project_path
-                .and_then(|p| p.parent().map(|p| p.to_path_buf()))
-                .unwrap_or_else(|| cwd.clone());
-            (config, config_dir)
-        }
-        Err(e) => {
-            eprintln!("Warning: {}", e);
-            (Config::default(), cwd)
-        }
-    }
+    let (config, maybe_project_path) = Config::load_cascading(&cwd)?;
+    let config_dir = maybe_project_path
+        .and_then(|p| p.parent().map(|p| p.to_path_buf()))
+        .unwrap_or_else(|| cwd.clone());
+    Ok((config, config_dir))
 }
-- 
2.43.0


From aabbe6c6e752d888ce656c669cff2c447e322483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:15 +0000
Subject: [PATCH 06/21] fix: Report directories that cannot be read

Parts of a directory argument that could not be read were skipped silently, and
the run succeeded without having processed the files in them.
---
 src/config.rs |  2 +-
 src/main.rs   | 39 ++++++++++++++++++++++++++++++---------
 2 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 09bd542..014a0fc 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -1181,7 +1181,7 @@ fn is_file(entry: &ignore::DirEntry) -> std::io::Result<bool> {
 }
 
 /// Determine whether following a symbolic link failed because it leads nowhere.
-fn is_broken_link(error: &std::io::Error) -> bool {
+pub fn is_broken_link(error: &std::io::Error) -> bool {
     use std::io::ErrorKind;
 
     /// "Too many levels of symbolic links", for which there is no stable
diff --git a/src/main.rs b/src/main.rs
index 2af3120..dbb4254 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -7,7 +7,7 @@ use std::process::ExitCode;
 use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
 
 use clap::Parser;
-use hongdown::config::{Config, ConfigError, TEMP_FILE_PREFIX};
+use hongdown::config::{Config, ConfigError, TEMP_FILE_PREFIX, is_broken_link};
 use hongdown::{CodeFormatter, LineWidth, Options, format_with_warnings, validate_dash_settings};
 use rayon::prelude::*;
 use similar::{ChangeTag, TextDiff};
@@ -124,6 +124,7 @@ fn main() -> ExitCode {
     let stdin_requested = args.stdin || args.files.iter().any(|f| f.to_str() == Some("-"));
 
     // Determine files to process
+    let mut has_walk_error = false;
     let files: Vec<PathBuf> = if args.files.is_empty() && !stdin_requested {
         // No files specified and stdin not requested, try to use include patterns from config
         if !config.include.is_empty() {
@@ -149,12 +150,12 @@ fn main() -> ExitCode {
             .filter(|f| f.to_str() != Some("-"))
             .cloned()
             .collect();
-        expand_paths(&filtered)
+        expand_paths(&filtered, &mut has_walk_error)
     } else {
-        expand_paths(&args.files)
+        expand_paths(&args.files, &mut has_walk_error)
     };
 
-    if stdin_requested {
+    let exit_code = if stdin_requested {
         // Read from stdin
         let mut input = String::new();
         if let Err(e) = io::stdin().read_to_string(&mut input) {
@@ -189,6 +190,12 @@ fn main() -> ExitCode {
     } else {
         // Sequential processing for stdout mode (order matters)
         process_files_sequential(&files, &options)
+    };
+
+    if has_walk_error {
+        ExitCode::FAILURE
+    } else {
+        exit_code
     }
 }
 
@@ -416,11 +423,13 @@ fn print_diff(filename: &str, original: &str, formatted: &str) {
 ///
 /// If a path is a directory, recursively finds all `.md` files within it.
 /// If a path is a file, it is included as-is.
-fn expand_paths(paths: &[PathBuf]) -> Vec<PathBuf> {
+///
+/// `has_error` is set if some part of a directory cannot be read.
+fn expand_paths(paths: &[PathBuf], has_error: &mut bool) -> Vec<PathBuf> {
     let mut result = Vec::new();
     for path in paths {
         if path.is_dir() {
-            result.extend(collect_md_files(path));
+            result.extend(collect_md_files(path, has_error));
         } else {
             result.push(path.clone());
         }
@@ -429,12 +438,24 @@ fn expand_paths(paths: &[PathBuf]) -> Vec<PathBuf> {
 }
 
 /// Recursively collect all Markdown files (`.md` and `.markdown`) from a directory.
-fn collect_md_files(dir: &Path) -> Vec<PathBuf> {
+///
+/// `has_error` is set if some part of the directory cannot be read.
+fn collect_md_files(dir: &Path, has_error: &mut bool) -> Vec<PathBuf> {
     let mut files = Vec::new();
     for entry in WalkDir::new(dir).follow_links(true) {
-        let Ok(entry) = entry else { continue };
+        let entry = match entry {
+            Ok(entry) => entry,
+            Err(e) => {
+                let is_loop = e.loop_ancestor().is_some();
+                if !is_loop && !e.io_error().is_some_and(is_broken_link) {
+                    eprintln!("Error: {}", e);
+                    *has_error = true;
+                }
+                continue;
+            }
+        };
         let path = entry.path();
-        if path.is_file() {
+        if entry.file_type().is_file() {
             let is_markdown = path.extension().is_some_and(|ext| {
                 ext.eq_ignore_ascii_case("md") || ext.eq_ignore_ascii_case("markdown")
             });
-- 
2.43.0


From 994c52c9c0285001ca993e2168c268e7d90f9bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:59 +0000
Subject: [PATCH 07/21] fix: Exit with a failure if the output cannot be
 written

A full or closed standard output or standard error caused a panic, which also
kept the remaining files from being processed, and output that was still
buffered could get lost without notice.
---
 src/main.rs | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index dbb4254..a058ce2 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -13,6 +13,34 @@ use rayon::prelude::*;
 use similar::{ChangeTag, TextDiff};
 use walkdir::WalkDir;
 
+/// Whether writing to the standard output has failed.
+static OUTPUT_FAILED: AtomicBool = AtomicBool::new(false);
+
+/// Like [`std::print!`], but a failure is noted instead of causing a panic.
+macro_rules! print {
+    ($($arg:tt)*) => { print_output(format_args!($($arg)*)) };
+}
+
+/// Like [`std::println!`], but a failure is noted instead of causing a panic.
+macro_rules! println {
+    () => { print_output(format_args!("\n")) };
+    ($($arg:tt)*) => { print_output(format_args!("{}\n", format_args!($($arg)*))) };
+}
+
+/// Like [`std::eprintln!`], but a failure is ignored instead of causing a panic.
+macro_rules! eprintln {
+    ($($arg:tt)*) => {{
+        let _ = io::stderr().write_fmt(format_args!("{}\n", format_args!($($arg)*)));
+    }};
+}
+
+/// Write to the standard output, unless that has failed before.
+fn print_output(output: std::fmt::Arguments) {
+    if !OUTPUT_FAILED.load(Ordering::Relaxed) && io::stdout().write_fmt(output).is_err() {
+        OUTPUT_FAILED.store(true, Ordering::Relaxed);
+    }
+}
+
 /// A Markdown formatter that enforces Hong Minhee's Markdown style conventions.
 #[derive(Parser, Debug)]
 #[command(name = "hongdown")]
@@ -48,6 +76,15 @@ struct Args {
 }
 
 fn main() -> ExitCode {
+    let exit_code = run();
+    if io::stdout().flush().is_err() || OUTPUT_FAILED.load(Ordering::Relaxed) {
+        eprintln!("Error: failed to write to the standard output");
+        return ExitCode::FAILURE;
+    }
+    exit_code
+}
+
+fn run() -> ExitCode {
     let args = Args::parse();
 
     // Load configuration
-- 
2.43.0


From aff39230add06ed0526fbed8e238935e71de335c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:02 +0000
Subject: [PATCH 08/21] fix: Check the standard input with --check

The combination printed the formatted document and always succeeded.
---
 src/main.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index a058ce2..3d74f63 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -208,6 +208,11 @@ fn run() -> ExitCode {
                 }
                 if args.diff {
                     print_diff("<stdin>", &input, &result.output);
+                } else if args.check {
+                    if input != result.output {
+                        eprintln!("<stdin>: not formatted");
+                        return ExitCode::FAILURE;
+                    }
                 } else {
                     print!("{}", result.output);
                 }
-- 
2.43.0


From 5ba84359089903998e05cfe85b0668677883c067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:05 +0000
Subject: [PATCH 09/21] fix: Report an invalid --line-width instead of
 panicking

---
 src/main.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 3d74f63..d27dd7d 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -96,12 +96,17 @@ fn run() -> ExitCode {
         }
     };
 
+    let line_width = match args.line_width.map(LineWidth::new).transpose() {
+        Ok(line_width) => line_width.unwrap_or(config.line_width),
+        Err(e) => {
+            eprintln!("Error: {}", e);
+            return ExitCode::FAILURE;
+        }
+    };
+
     // Build options, with CLI args overriding config file
     let options = Options {
-        line_width: args
-            .line_width
-            .map(|w| LineWidth::new(w).expect("Invalid line width"))
-            .unwrap_or(config.line_width),
+        line_width,
         setext_h1: config.heading.setext_h1,
         setext_h2: config.heading.setext_h2,
         heading_sentence_case: config.heading.sentence_case,
-- 
2.43.0


From 55c537b6234277b3a7224da3a3164dcb32673ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:08 +0000
Subject: [PATCH 10/21] fix: Process a file once if it is given more than once

Overlapping arguments and links made several workers rewrite the same file at
the same time, and it was listed once or several times depending on timing.
---
 src/main.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index d27dd7d..1a3c1e5 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,5 +1,6 @@
 //! Hongdown CLI - A Markdown formatter for Hong Minhee's style conventions.
 
+use std::collections::HashSet;
 use std::fs;
 use std::io::{self, Read, Write};
 use std::path::{Path, PathBuf};
@@ -256,6 +257,13 @@ fn process_files_parallel(
     let has_error = AtomicBool::new(false);
     let all_formatted = AtomicBool::new(true);
 
+    // Process each file once, even if the arguments or links overlap
+    let mut seen = HashSet::new();
+    let files: Vec<&PathBuf> = files
+        .iter()
+        .filter(|file| fs::canonicalize(file).map_or(true, |path| seen.insert(path)))
+        .collect();
+
     files.par_iter().for_each(|file| {
         let input = match fs::read_to_string(file) {
             Ok(content) => content,
-- 
2.43.0


From a1ed9ebf5db6726bd1c4a35aaf136084c25241ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:28 +0000
Subject: [PATCH 11/21] fix: Retry loading the WASM module after a failure

A failed attempt was kept forever, so that all later calls failed too.
---
 packages/wasm/src/index.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/wasm/src/index.ts b/packages/wasm/src/index.ts
index ec06e9c..0cf5905 100644
--- a/packages/wasm/src/index.ts
+++ b/packages/wasm/src/index.ts
@@ -46,6 +46,10 @@ async function ensureInitialized(): Promise<void> {
       await init({ module_or_path: buffer });
       initialized = true;
     })();
+    initPromise.catch(() => {
+      // Let a later call try again
+      initPromise = null;
+    });
   }
 
   await initPromise;
-- 
2.43.0


From 20b9e2ebb040e72daae8860859c3e4c00c57f078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:12 +0000
Subject: [PATCH 12/21] fix: Fail if an ignore file cannot be read

---
 src/config.rs | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/config.rs b/src/config.rs
index 014a0fc..75b9d96 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -1124,6 +1124,10 @@ impl Config {
             })
             .build();
 
+        if git_aware {
+            check_parent_ignore_files(base_dir)?;
+        }
+
         // Collect matching files
         let mut files = Vec::new();
         for entry in walker {
@@ -1133,6 +1137,9 @@ impl Config {
                 return Err(ConfigError::Ignore(e.clone()));
             }
             let path = entry.path();
+            if git_aware && entry.file_type().is_some_and(|t| t.is_dir()) {
+                check_ignore_file(path.join(".gitignore"))?;
+            }
             let is_temp_file = entry
                 .file_name()
                 .to_string_lossy()
@@ -1168,6 +1175,37 @@ fn if_exists<T>(result: Result<T, ConfigError>) -> Result<Option<T>, ConfigError
     }
 }
 
+/// Make sure that the ignore files above a directory can be read.
+fn check_parent_ignore_files(dir: &Path) -> Result<(), ConfigError> {
+    let Ok(dir) = dir.canonicalize() else {
+        return Ok(()); // The walker reports it
+    };
+    let Some(root) = dir.ancestors().find(|d| d.join(".git").exists()) else {
+        return Ok(());
+    };
+    for parent in dir.ancestors().skip(1) {
+        if parent.starts_with(root) {
+            check_ignore_file(parent.join(".gitignore"))?;
+        }
+    }
+    check_ignore_file(root.join(".git").join("info").join("exclude"))
+}
+
+/// Make sure that an ignore file can be read if it exists.
+///
+/// The walker treats an ignore file it cannot read like a missing one, which
+/// would select files that are meant to be ignored.
+fn check_ignore_file(path: PathBuf) -> Result<(), ConfigError> {
+    use std::io::ErrorKind;
+
+    match std::fs::read(&path) {
+        Err(e) if e.kind() != ErrorKind::IsADirectory && !is_broken_link(&e) => {
+            Err(ConfigError::Io(path, e))
+        }
+        _ => Ok(()),
+    }
+}
+
 /// Determine whether an entry is a regular file or a symbolic link to one.
 fn is_file(entry: &ignore::DirEntry) -> std::io::Result<bool> {
     match entry.file_type() {
-- 
2.43.0


From df90709ff07f424adac93cca3efc99892df409fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:07 +0000
Subject: [PATCH 13/21] fix: Report why the npm launcher cannot start the
 binary

spawnSync() does not throw if the binary cannot be started: the launcher
exited with status 1 without a word.
---
 packages/hongdown/bin/hongdown.js | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/hongdown/bin/hongdown.js b/packages/hongdown/bin/hongdown.js
index c657b80..18d9c36 100644
--- a/packages/hongdown/bin/hongdown.js
+++ b/packages/hongdown/bin/hongdown.js
@@ -27,6 +27,7 @@ try {
   const result = spawnSync(binPath, process.argv.slice(2), {
     stdio: "inherit",
   });
+  if (result.error) throw result.error;
   process.exit(result.status ?? 1);
 } catch (e) {
   console.error(`Failed to run hongdown: ${e.message}`);
-- 
2.43.0


From 23b608c9863bca95b7b9ff66f33305ee94c90168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:29 +0000
Subject: [PATCH 14/21] fix: Do not add an empty line to formatted code in
 description lists

A code formatter's output that does not end with a newline got an empty
line appended if its code block is in a description list.
---
 src/serializer/code.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/serializer/code.rs b/src/serializer/code.rs
index bbf81e6..89178c4 100644
--- a/src/serializer/code.rs
+++ b/src/serializer/code.rs
@@ -128,10 +128,6 @@ impl<'a> Serializer<'a> {
             }
             self.output.push('\n');
         }
-        // Handle trailing newline in literal
-        if !literal.ends_with('\n') && !literal.is_empty() {
-            self.output.push('\n');
-        }
         self.output.push_str(indent);
         self.output.push_str(fence);
         self.output.push('\n');
-- 
2.43.0


From 047aa1bf87b65ecaa077aef3b7727cbc69f7915a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:13 +0000
Subject: [PATCH 15/21] fix: Count the lines of a diff hunk correctly

The diff library derives the line counts in a hunk's header from the
positions of its first and last operation.  These are off if it has
rearranged the operations, so that patch(1) rejected the diff as malformed.
---
 src/main.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 1a3c1e5..f15fb91 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -11,7 +11,7 @@ use clap::Parser;
 use hongdown::config::{Config, ConfigError, TEMP_FILE_PREFIX, is_broken_link};
 use hongdown::{CodeFormatter, LineWidth, Options, format_with_warnings, validate_dash_settings};
 use rayon::prelude::*;
-use similar::{ChangeTag, TextDiff};
+use similar::{ChangeTag, DiffOp, TextDiff};
 use walkdir::WalkDir;
 
 /// Whether writing to the standard output has failed.
@@ -459,7 +459,7 @@ fn print_diff(filename: &str, original: &str, formatted: &str) {
     println!("+++ {}", filename);
 
     for hunk in diff.unified_diff().iter_hunks() {
-        println!("{}", hunk.header());
+        println!("{}", hunk_header(hunk.ops()));
         for change in hunk.iter_changes() {
             let sign = match change.tag() {
                 ChangeTag::Delete => '-',
@@ -474,6 +474,29 @@ fn print_diff(filename: &str, original: &str, formatted: &str) {
     }
 }
 
+/// Make the header line of a hunk of a unified diff.
+///
+/// The header `similar` makes relies on the positions of the first and the
+/// last operation, which may be off after it has rearranged the operations.
+fn hunk_header(ops: &[DiffOp]) -> String {
+    let range = |ranges: &mut dyn Iterator<Item = std::ops::Range<usize>>| {
+        let (start, len) = ranges.fold((usize::MAX, 0), |(start, len), range| {
+            (start.min(range.start), len + range.len())
+        });
+        match len {
+            // Empty ranges begin at the line just before
+            0 => format!("{},0", start),
+            1 => format!("{}", start + 1),
+            _ => format!("{},{}", start + 1, len),
+        }
+    };
+    format!(
+        "@@ -{} +{} @@",
+        range(&mut ops.iter().map(DiffOp::old_range)),
+        range(&mut ops.iter().map(DiffOp::new_range))
+    )
+}
+
 /// Expand paths, converting directories to their contained `.md` files.
 ///
 /// If a path is a directory, recursively finds all `.md` files within it.
-- 
2.43.0


From 6a289ac90f707faa22d306b2d0d3445ac428c4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:47 +0000
Subject: [PATCH 16/21] fix: Refuse documents nested too deeply instead of
 overflowing the stack

A document with thousands of nested block quotes or emphases aborted the
whole run, including the processing of every other file.
---
 src/lib.rs  | 26 ++++++++++++++++++++++++++
 src/wasm.rs |  1 +
 2 files changed, 27 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index db6ec38..ef48807 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -26,6 +26,8 @@ pub use config::{
 pub use serializer::Warning;
 pub use serializer::punctuation::{PunctuationError, validate_dash_settings};
 
+use comrak::arena_tree::NodeEdge;
+use comrak::nodes::AstNode;
 use comrak::{Arena, Options as ComrakOptions, parse_document};
 
 /// External code formatter configuration.
@@ -219,6 +221,7 @@ pub fn format(input: &str, options: &Options) -> Result<String, FormatError> {
     comrak_options.extension.tasklist = true;
 
     let root = parse_document(&arena, input, &comrak_options);
+    check_nesting(root)?;
     let output = serializer::serialize_with_source(root, options, Some(input));
 
     Ok(output)
@@ -264,6 +267,7 @@ pub fn format_with_warnings(input: &str, options: &Options) -> Result<FormatResu
     comrak_options.extension.tasklist = true;
 
     let root = parse_document(&arena, input, &comrak_options);
+    check_nesting(root)?;
     let result = serializer::serialize_with_source_and_warnings(root, options, Some(input));
 
     Ok(FormatResult {
@@ -272,6 +276,28 @@ pub fn format_with_warnings(input: &str, options: &Options) -> Result<FormatResu
     })
 }
 
+/// The deepest nesting of blocks and inlines that is formatted.
+const MAX_NESTING: usize = 500;
+
+/// Refuses documents nested so deeply that the recursive serializer would
+/// exhaust the stack.
+pub(crate) fn check_nesting<'a>(root: &'a AstNode<'a>) -> Result<(), FormatError> {
+    let mut depth = 0;
+    for edge in root.traverse() {
+        match edge {
+            NodeEdge::Start(_) => depth += 1,
+            NodeEdge::End(_) => depth -= 1,
+        }
+        if depth > MAX_NESTING {
+            return Err(FormatError::ParseError(format!(
+                "the document is nested more than {} levels deep",
+                MAX_NESTING
+            )));
+        }
+    }
+    Ok(())
+}
+
 /// Errors that can occur during formatting.
 #[derive(Debug)]
 pub enum FormatError {
diff --git a/src/wasm.rs b/src/wasm.rs
index cbaeaf4..8cda4e7 100644
--- a/src/wasm.rs
+++ b/src/wasm.rs
@@ -366,6 +366,7 @@ pub fn format_with_code_formatter(
     comrak_options.extension.tasklist = true;
 
     let root = parse_document(&arena, input, &comrak_options);
+    crate::check_nesting(root).map_err(|e| JsError::new(&e.to_string()))?;
 
     // Create callback closure if provided
     let callback: crate::serializer::CodeFormatterCallback = code_formatter.map(|func| {
-- 
2.43.0


From 54577d87df2faca6cd18f4eb7a67d9de7e2b7bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:17 +0000
Subject: [PATCH 17/21] fix: Refuse files given together with stdin instead of
 ignoring them

Files besides `-` or `--stdin` were skipped without a word, and the run
succeeded.
---
 src/main.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index f15fb91..93b7440 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -166,6 +166,12 @@ fn run() -> ExitCode {
     // Check if stdin is explicitly requested via --stdin or `-` as filename
     let stdin_requested = args.stdin || args.files.iter().any(|f| f.to_str() == Some("-"));
 
+    // Do not leave files unprocessed silently
+    if stdin_requested && args.files.iter().any(|f| f.to_str() != Some("-")) {
+        eprintln!("Error: stdin cannot be combined with files.");
+        return ExitCode::FAILURE;
+    }
+
     // Determine files to process
     let mut has_walk_error = false;
     let files: Vec<PathBuf> = if args.files.is_empty() && !stdin_requested {
@@ -186,14 +192,7 @@ fn run() -> ExitCode {
             return ExitCode::FAILURE;
         }
     } else if stdin_requested {
-        // Filter out `-` from files list since we'll handle stdin separately
-        let filtered: Vec<PathBuf> = args
-            .files
-            .iter()
-            .filter(|f| f.to_str() != Some("-"))
-            .cloned()
-            .collect();
-        expand_paths(&filtered, &mut has_walk_error)
+        Vec::new()
     } else {
         expand_paths(&args.files, &mut has_walk_error)
     };
-- 
2.43.0


From 7f9f389811f64420594736fb4ccb4822175a3bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:46 +0000
Subject: [PATCH 18/21] fix: Fence code in description lists longer than any
 fence in it

---
 src/serializer/code.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/serializer/code.rs b/src/serializer/code.rs
index 89178c4..4047461 100644
--- a/src/serializer/code.rs
+++ b/src/serializer/code.rs
@@ -79,8 +79,6 @@ impl<'a> Serializer<'a> {
     pub(super) fn serialize_code_block_with_indent(&mut self, code: &NodeCodeBlock, indent: &str) {
         let fence_char = self.options.fence_char.as_char();
         let min_len = self.options.min_fence_length.get();
-        let base_fence: String = std::iter::repeat_n(fence_char, min_len).collect();
-        let long_fence: String = std::iter::repeat_n(fence_char, min_len + 1).collect();
 
         // Parse info to get language and check for no-format flag
         let (parsed_lang, info_output, skip_format) = parse_code_info(&code.info);
@@ -107,12 +105,18 @@ impl<'a> Serializer<'a> {
         };
         let literal = formatted_literal.as_deref().unwrap_or(&code.literal);
 
-        let fence = if literal.contains(&base_fence) {
-            &long_fence
-        } else {
-            &base_fence
-        };
-        self.output.push_str(fence);
+        // The fence must be longer than any fence in the content
+        let max_fence_in_content = literal
+            .lines()
+            .map(|line| {
+                let trimmed = line.trim_start();
+                trimmed.chars().take_while(|&c| c == fence_char).count()
+            })
+            .max()
+            .unwrap_or(0);
+        let fence_length = std::cmp::max(min_len, max_fence_in_content + 1);
+        let fence: String = std::iter::repeat_n(fence_char, fence_length).collect();
+        self.output.push_str(&fence);
         if !output_info.is_empty() {
             if self.options.space_after_fence {
                 self.output.push(' ');
@@ -129,7 +133,7 @@ impl<'a> Serializer<'a> {
             self.output.push('\n');
         }
         self.output.push_str(indent);
-        self.output.push_str(fence);
+        self.output.push_str(&fence);
         self.output.push('\n');
     }
 
-- 
2.43.0


From fb3cbe33dca10b2ebccf1183fd5a65f7e5ebb037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:22 +0000
Subject: [PATCH 19/21] fix: Make diffs applicable if the last line or other
 lines end unusually

A missing line feed at the end of the document is marked as usual, and lone
carriage returns no longer count as line ends.
---
 src/main.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 93b7440..d3d4563 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -452,7 +452,10 @@ fn print_diff(filename: &str, original: &str, formatted: &str) {
         return;
     }
 
-    let diff = TextDiff::from_lines(original, formatted);
+    // Only a line feed ends a line for the tools that read diffs
+    let original: Vec<&str> = original.split_inclusive('\n').collect();
+    let formatted: Vec<&str> = formatted.split_inclusive('\n').collect();
+    let diff = TextDiff::from_slices(&original, &formatted);
 
     println!("--- {}", filename);
     println!("+++ {}", filename);
@@ -467,7 +470,7 @@ fn print_diff(filename: &str, original: &str, formatted: &str) {
             };
             print!("{}{}", sign, change.value());
             if !change.value().ends_with('\n') {
-                println!();
+                println!("\n\\ No newline at end of file");
             }
         }
     }
-- 
2.43.0


From b442bb15b2d38b46fc674988a0b9e95e61f3a1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:11 +0000
Subject: [PATCH 20/21] fix: Complain about the same invalid formatter in every
 run

Formatters are kept in a hash map, whose order changes from run to run.
---
 src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index d3d4563..a6c7b2a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -149,8 +149,10 @@ fn run() -> ExitCode {
             .collect(),
     };
 
-    // Validate formatter configurations
-    for (lang, cfg) in &config.code_block.formatters {
+    // Validate formatter configurations, in the same order in every run
+    let mut formatters: Vec<_> = config.code_block.formatters.iter().collect();
+    formatters.sort_by_key(|(lang, _)| lang.as_str());
+    for (lang, cfg) in formatters {
         if let Err(msg) = cfg.validate() {
             eprintln!("Error: formatter for '{}': {}", lang, msg);
             return ExitCode::FAILURE;
-- 
2.43.0


From 0d08a22bd813c991366bb2c90e61fdd59613661f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:11 +0000
Subject: [PATCH 21/21] fix: Report the same error whatever order a directory
 is read in

Collecting files by patterns ends with the first error, so directories have to
be visited in a fixed order.
---
 src/config.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/config.rs b/src/config.rs
index 75b9d96..863ae79 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -1113,6 +1113,7 @@ impl Config {
             .git_global(false) // Don't use global gitignore (for consistency)
             .git_exclude(self.git_aware) // Respect .git/info/exclude if git_aware is enabled
             .overrides(overrides)
+            .sort_by_file_name(|a, b| a.cmp(b)) // The first error does not depend on chance
             .filter_entry(move |entry| {
                 if entry.depth() == 0 || !entry.file_type().is_some_and(|t| t.is_dir()) {
                     return true;
-- 
2.43.0

