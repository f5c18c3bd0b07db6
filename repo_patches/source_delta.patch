From 8eb70904d87b7f0653cc2d2eb5cbed6d06eb58e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:27 +0000
Subject: [PATCH 01/47] fix: only one worker sees the last file of a batch

The counter was read and decremented in two steps: two workers finishing
together could both miss the last file, and the batch never ended.
---
 src/dumper.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index 8466b68..6600d91 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -432,7 +432,7 @@ fn consumer(
             }
         }
 
-        if counter.load(Ordering::SeqCst) == 1 {
+        if counter.fetch_sub(1, Ordering::SeqCst) == 1 {
             // it was the last file: so we just have to add jobs to dump & store
             // and then poison the queue
             let mut results = results.lock().unwrap();
@@ -444,8 +444,6 @@ fn consumer(
                 check_cfi,
                 collect_inlines,
             )?;
-        } else {
-            counter.fetch_sub(1, Ordering::SeqCst);
         }
     }
 
-- 
2.43.0


From 163eac626627d739c20691c58a7f66de64c2d8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:30 +0000
Subject: [PATCH 02/47] fix: workers no longer block on their own full queue

A worker sends the store jobs and the poison items into the queue which only
the workers empty: with more modules than room in it all of them waited forever.
---
 src/dumper.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index 6600d91..d27b241 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -3,7 +3,7 @@
 // http://opensource.org/licenses/MIT>, at your option. This file may not be
 // copied, modified, or distributed except according to those terms.
 
-use crossbeam::channel::{bounded, Receiver, Sender};
+use crossbeam::channel::{unbounded, Receiver, Sender};
 use hashbrown::HashMap;
 use log::{error, info};
 use std::fmt;
@@ -463,7 +463,8 @@ pub fn several_files(config: &Config, filenames: &[&str]) -> common::Result<()>
     let num_jobs = config.num_jobs.min(filenames.len());
     let counter = Arc::new(AtomicUsize::new(filenames.len()));
 
-    let (sender, receiver) = bounded(num_jobs + 1);
+    // Unbounded: the workers send jobs too and must never wait for each other
+    let (sender, receiver) = unbounded();
 
     let mut receivers = Vec::with_capacity(num_jobs);
     for i in 0..num_jobs {
-- 
2.43.0


From 4dab3e690fbe564b60873e339a34bf9b68ece2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:31 +0000
Subject: [PATCH 03/47] fix: -j 0 no longer waits forever without any worker

---
 src/dumper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index d27b241..33c7932 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -460,7 +460,7 @@ pub fn several_files(config: &Config, filenames: &[&str]) -> common::Result<()>
     .map(Arc::new);
     let arch = Arch::from_str(config.arch)?;
     let results = Arc::new(Mutex::new(HashMap::default()));
-    let num_jobs = config.num_jobs.min(filenames.len());
+    let num_jobs = config.num_jobs.max(1).min(filenames.len());
     let counter = Arc::new(AtomicUsize::new(filenames.len()));
 
     // Unbounded: the workers send jobs too and must never wait for each other
-- 
2.43.0


From ca8f09eacbbfcfcbf83ae804d8c0e97616cd9682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:59 +0000
Subject: [PATCH 04/47] fix: a failing file of a batch ends the batch with an
 error

The worker which failed just went away: the others waited forever for the last
file, and if they did not the run still exited with 0.
---
 src/dumper.rs | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index 33c7932..fd92381 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -384,6 +384,22 @@ fn poison_queue(sender: &Sender<Option<JobItem>>, num_threads: usize) {
     }
 }
 
+/// Poisons the queue when a worker ends early, because of an error or of a panic:
+/// the other workers must not wait for jobs which will never come.
+struct PoisonOnFailure<'a> {
+    sender: &'a Sender<Option<JobItem>>,
+    num_threads: usize,
+    done: bool,
+}
+
+impl Drop for PoisonOnFailure<'_> {
+    fn drop(&mut self) {
+        if !self.done {
+            poison_queue(self.sender, self.num_threads);
+        }
+    }
+}
+
 #[allow(clippy::too_many_arguments)]
 fn consumer(
     arch: Arch,
@@ -395,8 +411,15 @@ fn consumer(
     output: Output,
     check_cfi: bool,
 ) -> common::Result<()> {
+    let mut poison = PoisonOnFailure {
+        sender: &sender,
+        num_threads,
+        done: false,
+    };
+
     while let Ok(job) = receiver.recv() {
         if job.is_none() {
+            poison.done = true;
             return Ok(());
         }
 
@@ -418,9 +441,7 @@ fn consumer(
 
                 let mut results = results.lock().unwrap();
                 let info = if let Some(prev) = results.remove(info.get_debug_id()) {
-                    ObjectInfo::merge(info, prev).inspect_err(|_e| {
-                        poison_queue(&sender, num_threads);
-                    })?
+                    ObjectInfo::merge(info, prev)?
                 } else {
                     info
                 };
@@ -499,11 +520,17 @@ pub fn several_files(config: &Config, filenames: &[&str]) -> common::Result<()>
             .unwrap();
     }
 
+    let mut result = Ok(());
     for receiver in receivers {
-        if let Err(e) = receiver.join().unwrap() {
-            error!("{e}");
+        match receiver.join() {
+            Ok(Ok(())) => {}
+            Ok(Err(e)) => {
+                error!("{e}");
+                result = Err(e);
+            }
+            Err(_) => result = Err(anyhow::anyhow!("A worker thread panicked")),
         }
     }
 
-    Ok(())
+    result
 }
-- 
2.43.0


From cb374847604973e99128da878575057565c85897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:01 +0000
Subject: [PATCH 05/47] fix: modules written to the standard output at once no
 longer interleave

---
 src/dumper.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index fd92381..ee31e77 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -188,8 +188,9 @@ fn get_pe_object_info(buf: &[u8], path: &Path, filename: &str) -> common::Result
 #[inline]
 pub fn get_writer_for_sym(fo: &FileOutput) -> std::io::BufWriter<Box<dyn std::io::Write>> {
     let output: Box<dyn std::io::Write> = match fo {
-        FileOutput::Stdout => Box::new(std::io::stdout()),
-        FileOutput::Stderr => Box::new(std::io::stderr()),
+        // Locked for as long as the module is written: several threads may dump at once
+        FileOutput::Stdout => Box::new(std::io::stdout().lock()),
+        FileOutput::Stderr => Box::new(std::io::stderr().lock()),
         FileOutput::Path(path) => {
             let output = std::fs::File::create(path)
                 .unwrap_or_else(|_| panic!("Cannot open file {} for writing", path.display()));
-- 
2.43.0


From 8a22ea5b14053400d3425eacdfe66a700b772d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:02 +0000
Subject: [PATCH 06/47] fix: report an error when the end of the symbols cannot
 be written

The last part of the output was only written when the buffered writer was
dropped, which ignores errors: on a full disk the run exited with 0.
---
 src/object_info.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/object_info.rs b/src/object_info.rs
index 8a0cc5e..fbf7fa5 100644
--- a/src/object_info.rs
+++ b/src/object_info.rs
@@ -293,6 +293,7 @@ impl ObjectInfo {
 
     pub fn dump<W: Write>(&self, mut writer: W) -> common::Result<()> {
         write!(writer, "{self}")?;
+        writer.flush()?;
         Ok(())
     }
 
-- 
2.43.0


From 7dc6ad255872d213385444881072d9e229c4f0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:32 +0000
Subject: [PATCH 07/47] fix: merge the files of a batch in the order they are
 given

They were merged in the order in which the threads happened to finish, so the
result changed from one run to the next.
---
 src/dumper.rs | 47 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index ee31e77..318545b 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -344,27 +344,52 @@ enum JobType {
 }
 
 struct JobItem {
+    /// Position of the file in the list of inputs
+    index: usize,
     file: String,
     typ: JobType,
     mapping: Option<Arc<PathMappings>>,
     collect_inlines: bool,
 }
 
+/// Merges the files which belong together. This happens in the order of the inputs, whatever
+/// the order in which the workers finished them, so that the result is always the same.
+fn merge_results(results: &mut Vec<(usize, ObjectInfo)>) -> common::Result<Vec<ObjectInfo>> {
+    results.sort_by_key(|(index, _)| *index);
+
+    let mut position = HashMap::new();
+    let mut merged: Vec<Option<ObjectInfo>> = Vec::new();
+    for (_, info) in results.drain(..) {
+        let i = *position
+            .entry(info.get_debug_id().to_string())
+            .or_insert(merged.len());
+        if i == merged.len() {
+            merged.push(Some(info));
+        } else if let Some(prev) = merged[i].take() {
+            merged[i] = Some(ObjectInfo::merge(info, prev)?);
+        }
+    }
+
+    Ok(merged.into_iter().flatten().collect())
+}
+
 fn send_store_jobs(
     sender: &Sender<Option<JobItem>>,
-    results: &mut HashMap<String, ObjectInfo>,
+    results: &mut Vec<(usize, ObjectInfo)>,
     num_threads: usize,
     output: Output,
     check_cfi: bool,
     collect_inlines: bool,
 ) -> common::Result<()> {
+    let mut results = merge_results(results)?;
     if results.len() == 1 {
-        let (_, d) = results.drain().take(1).next().unwrap();
+        let d = results.pop().unwrap();
         self::store(&output, check_cfi, d)?;
     } else {
-        for (_, d) in results.drain() {
+        for (index, d) in results.into_iter().enumerate() {
             sender
                 .send(Some(JobItem {
+                    index,
                     file: "".to_string(),
                     typ: JobType::Dump(d),
                     mapping: None,
@@ -406,7 +431,7 @@ fn consumer(
     arch: Arch,
     sender: Sender<Option<JobItem>>,
     receiver: Receiver<Option<JobItem>>,
-    results: Arc<Mutex<HashMap<String, ObjectInfo>>>,
+    results: Arc<Mutex<Vec<(usize, ObjectInfo)>>>,
     counter: Arc<AtomicUsize>,
     num_threads: usize,
     output: Output,
@@ -425,6 +450,7 @@ fn consumer(
         }
 
         let JobItem {
+            index,
             file,
             typ,
             mapping,
@@ -440,13 +466,7 @@ fn consumer(
                 let info =
                     get_object_info(buf, &path, &filename, mapping, arch, None, collect_inlines)?;
 
-                let mut results = results.lock().unwrap();
-                let info = if let Some(prev) = results.remove(info.get_debug_id()) {
-                    ObjectInfo::merge(info, prev)?
-                } else {
-                    info
-                };
-                results.insert(info.get_debug_id().to_string(), info);
+                results.lock().unwrap().push((index, info));
             }
             JobType::Dump(d) => {
                 self::store(&output, check_cfi, d)?;
@@ -481,7 +501,7 @@ pub fn several_files(config: &Config, filenames: &[&str]) -> common::Result<()>
     )?
     .map(Arc::new);
     let arch = Arch::from_str(config.arch)?;
-    let results = Arc::new(Mutex::new(HashMap::default()));
+    let results = Arc::new(Mutex::new(Vec::with_capacity(filenames.len())));
     let num_jobs = config.num_jobs.max(1).min(filenames.len());
     let counter = Arc::new(AtomicUsize::new(filenames.len()));
 
@@ -510,9 +530,10 @@ pub fn several_files(config: &Config, filenames: &[&str]) -> common::Result<()>
         receivers.push(t);
     }
 
-    for f in filenames {
+    for (index, f) in filenames.iter().enumerate() {
         sender
             .send(Some(JobItem {
+                index,
                 file: f.to_string(),
                 typ: JobType::Get,
                 mapping: file_mapping.clone(),
-- 
2.43.0


From 631ab14c15f02aa553fe275b35d11583d5af9c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:13 +0000
Subject: [PATCH 08/47] fix: --symbol-server is used for several files too

It was ignored as soon as there was more than one file.
---
 src/dumper.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index 318545b..1fc800b 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -434,6 +434,7 @@ fn consumer(
     results: Arc<Mutex<Vec<(usize, ObjectInfo)>>>,
     counter: Arc<AtomicUsize>,
     num_threads: usize,
+    symbol_server: Option<String>,
     output: Output,
     check_cfi: bool,
 ) -> common::Result<()> {
@@ -463,8 +464,15 @@ fn consumer(
                 let filename = utils::get_filename(&path);
                 let buf = utils::read_file(&path);
 
-                let info =
-                    get_object_info(buf, &path, &filename, mapping, arch, None, collect_inlines)?;
+                let info = get_object_info(
+                    buf,
+                    &path,
+                    &filename,
+                    mapping,
+                    arch,
+                    symbol_server.as_deref(),
+                    collect_inlines,
+                )?;
 
                 results.lock().unwrap().push((index, info));
             }
@@ -514,6 +522,7 @@ pub fn several_files(config: &Config, filenames: &[&str]) -> common::Result<()>
         let receiver = receiver.clone();
         let results = Arc::clone(&results);
         let counter = Arc::clone(&counter);
+        let symbol_server = config.symbol_server.map(ToOwned::to_owned);
         let output = config.output.clone();
 
         let check_cfi = config.check_cfi;
@@ -522,7 +531,15 @@ pub fn several_files(config: &Config, filenames: &[&str]) -> common::Result<()>
             .name(format!("dump-syms {i}"))
             .spawn(move || {
                 consumer(
-                    arch, sender, receiver, results, counter, num_jobs, output, check_cfi,
+                    arch,
+                    sender,
+                    receiver,
+                    results,
+                    counter,
+                    num_jobs,
+                    symbol_server,
+                    output,
+                    check_cfi,
                 )
             })
             .unwrap();
-- 
2.43.0


From 2911aaf29cec7655b1d605009a552c5c019594a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:15 +0000
Subject: [PATCH 09/47] fix: section placeholders are relative to the image
 base

Like any other symbol: they were put at the absolute address of the section, so
in a non-PIE executable they hid nothing and pointed nowhere.
---
 src/symbol.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/symbol.rs b/src/symbol.rs
index 53cbae5..8686401 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -100,6 +100,7 @@ pub(super) fn add_executable_section_symbols(
     name: &str,
     object: &Object,
 ) -> Symbols {
+    let load_address = object.load_address();
     let object = goblin::Object::parse(object.data());
     match object {
         Ok(goblin::Object::Elf(elf)) => {
@@ -108,7 +109,7 @@ pub(super) fn add_executable_section_symbols(
                     let name = if name.is_empty() { "unknown" } else { name };
                     let section_name = elf.shdr_strtab.get_at(header.sh_name).unwrap_or("unknown");
                     let symbol_name = format!("<{section_name} ELF section in {name}>");
-                    let rva = header.sh_addr as u32;
+                    let rva = header.sh_addr.wrapping_sub(load_address) as u32;
                     syms.entry(rva).or_insert(Symbol {
                         name: symbol_name,
                         is_public: true,
-- 
2.43.0


From cbfc3c63e1f8e96da267e18a72360a64dd341806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:17 +0000
Subject: [PATCH 10/47] fix: no panic on a Windows symbol which starts with a
 non-ASCII character

---
 src/symbol.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbol.rs b/src/symbol.rs
index 8686401..224e7f0 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -224,7 +224,7 @@ impl ParsedWinFuncName {
 
         // Parse the other three.
         if !c_decorated_name.is_empty() {
-            if let ("@" | "_", rest) = c_decorated_name.split_at(1) {
+            if let Some(rest) = c_decorated_name.strip_prefix(['@', '_']) {
                 if let Some((name, param_size)) = rest.rsplit_once('@') {
                     if let Ok(param_size) = param_size.parse::<u32>() {
                         // __stdcall or __fastcall
-- 
2.43.0


From 0ff98a13575ae03a1dad1062a0f61bcf15db3c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:18 +0000
Subject: [PATCH 11/47] fix: no panic on a file name which ends with a
 non-ASCII character

---
 src/cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cache.rs b/src/cache.rs
index feaa640..17f1f22 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -183,7 +183,7 @@ fn get_jobs(servers: &[SymbolServer], id: &str, base: &Path, file_name: &str) ->
                     server.server,
                     file_name,
                     id,
-                    &file_name[..file_name.len() - 1]
+                    file_name.strip_suffix(|_| true).unwrap_or_default()
                 ),
             )
             .unwrap_or_else(|e| panic!("{}", e));
-- 
2.43.0


From 9fefa9d6e9cccd65578fd80d3e24f96a737080b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:57 +0000
Subject: [PATCH 12/47] fix: no placeholder for a section below the image base

---
 src/symbol.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/symbol.rs b/src/symbol.rs
index 224e7f0..ffbb4f4 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -109,7 +109,10 @@ pub(super) fn add_executable_section_symbols(
                     let name = if name.is_empty() { "unknown" } else { name };
                     let section_name = elf.shdr_strtab.get_at(header.sh_name).unwrap_or("unknown");
                     let symbol_name = format!("<{section_name} ELF section in {name}>");
-                    let rva = header.sh_addr.wrapping_sub(load_address) as u32;
+                    let Some(rva) = header.sh_addr.checked_sub(load_address) else {
+                        continue;
+                    };
+                    let rva = rva as u32;
                     syms.entry(rva).or_insert(Symbol {
                         name: symbol_name,
                         is_public: true,
-- 
2.43.0


From 6e4875d17ea93e5ee3fbbf1681d04a74f1fefce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:59 +0000
Subject: [PATCH 13/47] fix: an absolute file name in the debug information is
 used as it is

It was appended to its directory and compilation directory.
---
 src/source.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/source.rs b/src/source.rs
index f80105a..035a0cb 100644
--- a/src/source.rs
+++ b/src/source.rs
@@ -77,7 +77,11 @@ impl SourceFiles {
             let comp_dir = Self::path_to_string(compilation_dir);
             dir = platform.join_paths(&comp_dir, &dir);
         };
-        let path = platform.join_paths(&dir, &name);
+        let path = if !name.is_empty() && platform.is_absolute_path(&name) {
+            name.to_string()
+        } else {
+            platform.join_paths(&dir, &name)
+        };
 
         if canonicalize {
             // Try to get the real path and in case we're on the machine where the files have been compiled
-- 
2.43.0


From 4d533740afed3cab81979c374aaf7913714cdea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:01 +0000
Subject: [PATCH 14/47] fix: files whose names are not valid UTF-8 are no
 longer mixed up

The cache was keyed by the addresses of temporary strings, which the next
string of the same length can get too.
---
 src/source.rs | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/source.rs b/src/source.rs
index 035a0cb..ee743c2 100644
--- a/src/source.rs
+++ b/src/source.rs
@@ -14,8 +14,6 @@ use crate::mapping::PathMappings;
 use crate::platform::Platform;
 use crate::utils;
 
-type SliceRef = (*const u8, usize);
-
 #[derive(Debug)]
 pub struct SourceFiles {
     platform: Platform,
@@ -23,7 +21,7 @@ pub struct SourceFiles {
     ref_to_id: HashMap<String, u32>,
     fake_id_to_ref: Vec<(Option<u32>, String)>,
     id_to_ref: Vec<String>,
-    cache: HashMap<(SliceRef, SliceRef, SliceRef), u32>,
+    cache: HashMap<(Vec<u8>, String, String), u32>,
     mapping: Option<Arc<PathMappings>>,
 }
 
@@ -50,11 +48,6 @@ impl SourceFiles {
         }
     }
 
-    #[inline(always)]
-    fn cast_ptr(name: &[u8]) -> SliceRef {
-        (name.as_ptr(), name.len())
-    }
-
     #[inline(always)]
     fn path_to_string(name: &[u8]) -> String {
         // Strings in DWARF are encoded either in latin-1 or in utf-8 (likely)
@@ -97,12 +90,12 @@ impl SourceFiles {
 
     /// For a given compilation_dir, file return the index in self.ref_to_id
     pub(super) fn get_id(&mut self, compilation_dir: &[u8], file: &FileInfo) -> u32 {
-        // A lot of paths are a slice on the same string in the debug file
-        // so just use a cache based on the string pointers.
+        // A lot of lines are in the same file so use a cache. Its key has to own the strings:
+        // those which are not valid utf-8 are temporaries.
         let cache_key = (
-            Self::cast_ptr(compilation_dir),
-            Self::cast_ptr(file.dir_str().as_bytes()),
-            Self::cast_ptr(file.name_str().as_bytes()),
+            compilation_dir.to_vec(),
+            file.dir_str().into_owned(),
+            file.name_str().into_owned(),
         );
 
         match self.cache.entry(cache_key) {
-- 
2.43.0


From 6c5bb2821384ac0cbf5e282de826b956f5dd258e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:04 +0000
Subject: [PATCH 15/47] fix: merge the source files of two objects correctly

The ids used to look up a path were not those of the output when some files had
no line, the new files were added in random order, and were added again by the
next merge.
---
 src/source.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/source.rs b/src/source.rs
index ee743c2..7416ec2 100644
--- a/src/source.rs
+++ b/src/source.rs
@@ -144,8 +144,16 @@ impl SourceFiles {
     }
 
     pub(super) fn get_mapping(self) -> SourceMap {
+        // Only the files which are really used have an id in the output
+        let fake_id_to_ref = self.fake_id_to_ref;
+        let ref_to_id = self
+            .ref_to_id
+            .into_iter()
+            .filter_map(|(path, id)| Some((path, fake_id_to_ref[id as usize].0?)))
+            .collect();
+
         SourceMap {
-            ref_to_id: self.ref_to_id,
+            ref_to_id,
             id_to_ref: self.id_to_ref,
         }
     }
@@ -174,7 +182,10 @@ impl SourceMap {
         let mut remapping = vec![0; other.id_to_ref.len()];
         self.id_to_ref.reserve(other.id_to_ref.len());
 
-        for (path, id) in other.ref_to_id.iter() {
+        let mut other_paths: Vec<_> = other.ref_to_id.iter().collect();
+        other_paths.sort_by_key(|(_, id)| **id);
+
+        for (path, id) in other_paths {
             let id = *id as usize;
             if let Some(an_id) = self.ref_to_id.get(path) {
                 // self has already this path so map the id to the existing one
@@ -183,6 +194,7 @@ impl SourceMap {
                 let new_id = self.id_to_ref.len() as u32;
                 remapping[id] = new_id;
                 self.id_to_ref.push(other.id_to_ref[id].clone());
+                self.ref_to_id.insert(path.clone(), new_id);
             }
         }
 
-- 
2.43.0


From ffd9dd1b8d0c5a1b9f28bd980f3aad4a802f2c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:38 +0000
Subject: [PATCH 16/47] fix: no control characters and no empty name in FUNC
 and PUBLIC records

A line break in a symbol name produced broken records. INLINE_ORIGIN records were
already protected.
---
 src/common.rs | 15 +++++++++++++++
 src/symbol.rs |  5 +++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index 9cf3402..4a055c1 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -35,6 +35,21 @@ pub fn get_compile_time_arch() -> &'static str {
     .name()
 }
 
+/// Removes the control characters, such as line breaks, which mess up the .sym format.
+pub(crate) fn remove_control_chars(text: &str) -> String {
+    text.chars().filter(|c| !c.is_ascii_control()).collect()
+}
+
+/// The text to print for a symbol name: without control characters and never empty.
+pub(crate) fn printable_name(name: &str) -> String {
+    let name = remove_control_chars(name);
+    if name.trim().is_empty() {
+        String::from("<name omitted>")
+    } else {
+        name
+    }
+}
+
 pub(crate) fn normalize_anonymous_namespace(text: &str) -> String {
     let fixed = text.replace("`anonymous namespace'", "(anonymous namespace)");
     String::from(&fixed)
diff --git a/src/symbol.rs b/src/symbol.rs
index ffbb4f4..cc3db35 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -8,6 +8,7 @@ use std::fmt::{Display, Formatter};
 use std::ops::Bound::{Excluded, Included};
 use symbolic::debuginfo::Object;
 
+use crate::common;
 use crate::line::Lines;
 
 const PDB_MAGIC: u64 = 7381245236781214029;
@@ -46,7 +47,7 @@ impl Display for Symbol {
                 if self.is_multiple { "m " } else { "" },
                 self.rva,
                 self.parameter_size,
-                self.name,
+                common::printable_name(&self.name),
             )?;
         } else {
             writeln!(
@@ -56,7 +57,7 @@ impl Display for Symbol {
                 self.rva,
                 self.len,
                 self.parameter_size,
-                self.name,
+                common::printable_name(&self.name),
             )?;
 
             write!(f, "{}", self.source)?;
-- 
2.43.0


From 9f37519bb22643288a3990570e4a3768ce3145cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:39 +0000
Subject: [PATCH 17/47] fix: no control characters in FILE records

---
 src/source.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/source.rs b/src/source.rs
index 7416ec2..4365b62 100644
--- a/src/source.rs
+++ b/src/source.rs
@@ -10,6 +10,7 @@ use std::path::PathBuf;
 use std::sync::Arc;
 use symbolic::debuginfo::FileInfo;
 
+use crate::common;
 use crate::mapping::PathMappings;
 use crate::platform::Platform;
 use crate::utils;
@@ -102,6 +103,7 @@ impl SourceFiles {
             hash_map::Entry::Occupied(e) => *e.get(),
             hash_map::Entry::Vacant(e) => {
                 let path = Self::get_path(self.platform, self.canonicalize, compilation_dir, file);
+                let path = common::remove_control_chars(&path);
                 let id = match self.ref_to_id.entry(path.clone()) {
                     hash_map::Entry::Occupied(e) => *e.get(),
                     hash_map::Entry::Vacant(e) => {
@@ -117,7 +119,7 @@ impl SourceFiles {
                         } else {
                             None
                         };
-                        let path = new_path.unwrap_or(path);
+                        let path = new_path.map_or(path, |p| common::remove_control_chars(&p));
                         e.insert(id);
                         self.fake_id_to_ref.push((None, path));
                         id
-- 
2.43.0


From d7373f9192ed65d68b2c0e1e60f387837cfffadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:42 +0000
Subject: [PATCH 18/47] fix: the module name is never empty, "." or ".." and
 has no control characters

It comes from the input and is used as a directory name in the symbol store:
with the name ".." the symbols were written outside of the store.
---
 src/object_info.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/object_info.rs b/src/object_info.rs
index fbf7fa5..2351dc2 100644
--- a/src/object_info.rs
+++ b/src/object_info.rs
@@ -171,8 +171,12 @@ impl ObjectInfo {
             symbols,
             files: source.get_mapping(),
             inline_origins: inline_origins.get_list(),
-            file_name: Self::file_name_only(file_name).to_string(),
-            pe_name: pe_file_name.map(ToOwned::to_owned),
+            file_name: Self::module_name(&[
+                file_name,
+                main_file_name,
+                pe_file_name.unwrap_or_default(),
+            ]),
+            pe_name: pe_file_name.map(common::remove_control_chars),
             cpu,
             debug_id,
             code_id,
@@ -199,6 +203,16 @@ impl ObjectInfo {
         file_name.rsplit('/').next().unwrap_or(file_name)
     }
 
+    /// The first of the given names which is usable in the MODULE record and as a directory
+    /// name in a symbol store.
+    fn module_name(names: &[&str]) -> String {
+        names
+            .iter()
+            .map(|name| common::remove_control_chars(Self::file_name_only(name)))
+            .find(|name| !matches!(name.trim(), "" | "." | ".."))
+            .unwrap_or_else(|| String::from("unknown"))
+    }
+
     pub fn merge(left: ObjectInfo, right: ObjectInfo) -> common::Result<ObjectInfo> {
         anyhow::ensure!(
             left.debug_id == right.debug_id,
-- 
2.43.0


From 769317c95b08dc1bb6a7ca65ba9860c6f6def8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:43 +0000
Subject: [PATCH 19/47] fix: refuse line breaks and other control characters in
 --extra-info

Only the first line was checked, the others could be anything.
---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index bf774e0..f9a9b59 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -250,7 +250,8 @@ fn to_vec(values: clap::parser::ValuesRef<'_, String>) -> Vec<&str> {
 }
 
 fn get_extra_info(matches: &clap::ArgMatches) {
-    static INFO_LINE_RE: Lazy<Regex> = Lazy::new(|| Regex::new(r"^[A-Z_]+ .*").unwrap());
+    static INFO_LINE_RE: Lazy<Regex> =
+        Lazy::new(|| Regex::new(r"^[A-Z_]+ [^[:cntrl:]]*$").unwrap());
 
     let mut extra_info: Vec<String> = matches.get_many::<String>("extra_info").map(|values| {
         values
-- 
2.43.0


From 63c524725c7cbd2aada29a4610e76301bd37b396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:46 +0000
Subject: [PATCH 20/47] fix: look for the pdb in the current directory, not in
 its parent

---
 src/windows/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/windows/utils.rs b/src/windows/utils.rs
index 57a1b93..31f24bd 100644
--- a/src/windows/utils.rs
+++ b/src/windows/utils.rs
@@ -24,7 +24,7 @@ fn try_to_find_pdb(path: &Path, pdb_filename: &str) -> Option<Vec<u8>> {
 
     // We try in CWD
     let mut pdb = std::env::current_dir().expect("Unable to get the current working directory");
-    pdb.set_file_name(pdb_filename);
+    pdb.push(pdb_filename);
     if pdb.is_file() {
         Some(utils::read_file(pdb))
     } else {
-- 
2.43.0


From c32867e9e70735574a0924949445005c082e6149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:48 +0000
Subject: [PATCH 21/47] fix: use a pdb found for an executable only if it
 belongs to it

The debug id was not compared, so that an old or foreign pdb with the right name
gave wrong symbols. A candidate which can't be read is no reason to fail.
---
 src/windows/utils.rs | 50 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 10 deletions(-)

diff --git a/src/windows/utils.rs b/src/windows/utils.rs
index 31f24bd..f679459 100644
--- a/src/windows/utils.rs
+++ b/src/windows/utils.rs
@@ -3,22 +3,44 @@
 // http://opensource.org/licenses/MIT>, at your option. This file may not be
 // copied, modified, or distributed except according to those terms.
 
+use std::fs;
 use std::path::Path;
+#[cfg(feature = "http")]
+use symbolic::debuginfo::pdb::PdbObject;
 use symbolic::{common::DebugId, debuginfo::pe::PeObject};
 
 #[cfg(feature = "http")]
 use crate::cache::{self, SymbolServer};
 use crate::utils;
 
+/// Reads a file which may belong to the one being dumped. It's not an error if it can't be read.
+fn read_candidate(path: &Path) -> Option<Vec<u8>> {
+    let buf = fs::read(path).ok()?;
+    utils::read_cabinet(buf, path.to_path_buf())
+}
+
+/// Reads a pdb, provided that it's the one with the given debug id.
+#[cfg(feature = "http")]
+fn read_matching_pdb(path: &Path, debug_id: &DebugId) -> Option<Vec<u8>> {
+    read_candidate(path).filter(|buf| is_matching_pdb(buf, debug_id))
+}
+
 #[cfg(feature = "http")]
-fn try_to_find_pdb(path: &Path, pdb_filename: &str) -> Option<Vec<u8>> {
+fn is_matching_pdb(buf: &[u8], debug_id: &DebugId) -> bool {
+    PdbObject::parse(buf).is_ok_and(|pdb| &pdb.debug_id() == debug_id)
+}
+
+#[cfg(feature = "http")]
+fn try_to_find_pdb(path: &Path, pdb_filename: &str, debug_id: &DebugId) -> Option<Vec<u8>> {
     // Just check that the file is in the same directory as the PE one
     let pdb = path.with_file_name(pdb_filename);
     let pdb_cab = pdb.with_extension("pd_");
 
     for pdb in vec![pdb, pdb_cab].into_iter() {
         if pdb.is_file() {
-            return Some(utils::read_file(pdb));
+            if let Some(buf) = read_matching_pdb(&pdb, debug_id) {
+                return Some(buf);
+            }
         }
     }
 
@@ -26,14 +48,18 @@ fn try_to_find_pdb(path: &Path, pdb_filename: &str) -> Option<Vec<u8>> {
     let mut pdb = std::env::current_dir().expect("Unable to get the current working directory");
     pdb.push(pdb_filename);
     if pdb.is_file() {
-        Some(utils::read_file(pdb))
+        read_matching_pdb(&pdb, debug_id)
     } else {
         None
     }
 }
 
 #[cfg(feature = "http")]
-fn os_specific_try_to_find_pdb(path: &Path, pdb_filename: &str) -> (Option<Vec<u8>>, String) {
+fn os_specific_try_to_find_pdb(
+    path: &Path,
+    pdb_filename: &str,
+    debug_id: &DebugId,
+) -> (Option<Vec<u8>>, String) {
     // We may have gotten either an OS native path, or a Windows path.
     // On Windows, they're both the same. On Unix, they are different, and in that case,
     // we change backslashes to forward slashes for `file_name()` to do its job.
@@ -43,11 +69,12 @@ fn os_specific_try_to_find_pdb(path: &Path, pdb_filename: &str) -> (Option<Vec<u
     let pdb_path = Path::new(&pdb_filename);
     if let Some(file_name) = pdb_path.file_name() {
         let pdb_name = file_name.to_str().unwrap().to_string();
+        let mut pdb = None;
         if pdb_path.is_file() {
-            (Some(utils::read_file(pdb_path)), pdb_name)
-        } else {
-            (try_to_find_pdb(path, &pdb_name), pdb_name)
+            pdb = read_matching_pdb(pdb_path, debug_id);
         }
+        let pdb = pdb.or_else(|| try_to_find_pdb(path, &pdb_name, debug_id));
+        (pdb, pdb_name)
     } else {
         (None, "".to_string())
     }
@@ -63,7 +90,7 @@ pub fn get_pe_pdb_buf<'a>(
         .unwrap_or_else(|_| panic!("Unable to parse the PE file {}", path.to_str().unwrap()));
     if let Some(pdb_filename) = pe.debug_file_name() {
         let pdb_filename = pdb_filename.into_owned();
-        let (pdb, pdb_name) = os_specific_try_to_find_pdb(path, &pdb_filename);
+        let (pdb, pdb_name) = os_specific_try_to_find_pdb(path, &pdb_filename, &pe.debug_id());
         if pdb_name.is_empty() {
             log::warn!("Invalid pdb filename in PE file: \"{pdb_filename}\"");
             None
@@ -73,7 +100,8 @@ pub fn get_pe_pdb_buf<'a>(
             // Not here so try symbol server (or cache)
             let debug_id = pe.debug_id().breakpad().to_string();
             let (pdb, pdb_name) = cache::search_file(pdb_name, &debug_id, symbol_server);
-            pdb.map(|pdb_buf| (pe, pdb_buf, pdb_name))
+            pdb.filter(|pdb_buf| is_matching_pdb(pdb_buf, &pe.debug_id()))
+                .map(|pdb_buf| (pe, pdb_buf, pdb_name))
         }
     } else {
         None
@@ -95,7 +123,9 @@ pub(crate) fn find_pe_for_pdb(path: &Path, pdb_debug_id: &DebugId) -> Option<(St
     for ext in vec!["dll", "dl_", "exe", "ex_"].drain(..) {
         path.set_extension(ext);
         if path.is_file() {
-            let buf = utils::read_file(&path);
+            let Some(buf) = read_candidate(&path) else {
+                continue;
+            };
             if let Ok(pe) = PeObject::parse(&buf) {
                 if ext.ends_with('_') {
                     path.set_extension(fix_extension(ext));
-- 
2.43.0


From 79bb74d01638a12e119e65f5b755a664f109dc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:14 +0000
Subject: [PATCH 22/47] fix: the body of an HTTP error is not a symbol file

Only the status of the HEAD request was checked: an error page got for the GET
request was used and stored in the cache.
---
 src/cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cache.rs b/src/cache.rs
index 17f1f22..90cc8e6 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -237,7 +237,7 @@ fn fetch_data(jobs: Vec<Job>) -> Option<Vec<u8>> {
             .get(&job.url)
             .header(USER_AGENT, DEFAULT_USER_AGENT)
             .send();
-        if let Ok(mut resp) = resp {
+        if let Ok(mut resp) = resp.and_then(|resp| resp.error_for_status()) {
             if resp.copy_to(&mut buf).is_err() {
                 None
             } else if copy_in_cache(job.cache, &buf) {
-- 
2.43.0


From 3e135bd69f3ea452618ca496d0641c5bf3f4993a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:16 +0000
Subject: [PATCH 23/47] fix: a file in the cache is always complete

It was written in place: killed or out of space in the middle, or while another
instance was writing, the truncated file was used by all later runs.
---
 src/cache.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index 90cc8e6..908e18b 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -7,8 +7,9 @@ use dirs::home_dir;
 use futures::{stream, StreamExt};
 use reqwest::{blocking, header::USER_AGENT, Client};
 use std::fs::{self, File};
-use std::io::{BufWriter, Read, Write};
+use std::io::Read;
 use std::path::{Path, PathBuf};
+use std::sync::atomic::{AtomicUsize, Ordering};
 use std::sync::{Arc, Mutex};
 use tokio::runtime::Runtime;
 use url::Url;
@@ -136,12 +137,20 @@ fn copy_in_cache(path: Option<PathBuf>, data: &[u8]) -> bool {
         }
     }
 
-    let output = File::create(&path)
-        .unwrap_or_else(|_| panic!("Cannot open file {} for writing", path.to_str().unwrap()));
-    let mut output = BufWriter::new(output);
-    output
-        .write_all(data)
-        .unwrap_or_else(|_| panic!("Cannot write file {}", path.to_str().unwrap()));
+    // Write a temporary file and rename it: whatever happens, a file which is in the cache is
+    // complete.
+    static COUNTER: AtomicUsize = AtomicUsize::new(0);
+    let mut tmp = path.clone().into_os_string();
+    let n = COUNTER.fetch_add(1, Ordering::Relaxed);
+    tmp.push(format!(".{}.{n}.tmp", std::process::id()));
+
+    if fs::write(&tmp, data)
+        .and_then(|_| fs::rename(&tmp, &path))
+        .is_err()
+    {
+        let _ = fs::remove_file(&tmp);
+        panic!("Cannot write file {}", path.to_str().unwrap());
+    }
 
     true
 }
-- 
2.43.0


From 49c87c811f31f8417b4538e1e1b04883513c725b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:15 +0000
Subject: [PATCH 24/47] fix: only the status 200 delivers a file, as for the
 HEAD request

---
 src/cache.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index 908e18b..cd2c803 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -246,8 +246,8 @@ fn fetch_data(jobs: Vec<Job>) -> Option<Vec<u8>> {
             .get(&job.url)
             .header(USER_AGENT, DEFAULT_USER_AGENT)
             .send();
-        if let Ok(mut resp) = resp.and_then(|resp| resp.error_for_status()) {
-            if resp.copy_to(&mut buf).is_err() {
+        if let Ok(mut resp) = resp {
+            if resp.status() != 200 || resp.copy_to(&mut buf).is_err() {
                 None
             } else if copy_in_cache(job.cache, &buf) {
                 Some(buf)
-- 
2.43.0


From 4bb25353db9fa2f6c538ca1c6c1ae9fc7032bba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:18 +0000
Subject: [PATCH 25/47] fix: ask the symbol servers in order and go on when one
 fails to deliver

The first server to answer the HEAD request was the only one asked for the file:
the result depended on the timing, and a server which answers but cannot deliver
hid all the others.
---
 src/cache.rs | 42 +++++++++++++++++-------------------------
 1 file changed, 17 insertions(+), 25 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index cd2c803..40857b4 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -10,7 +10,6 @@ use std::fs::{self, File};
 use std::io::Read;
 use std::path::{Path, PathBuf};
 use std::sync::atomic::{AtomicUsize, Ordering};
-use std::sync::{Arc, Mutex};
 use tokio::runtime::Runtime;
 use url::Url;
 
@@ -203,7 +202,7 @@ fn get_jobs(servers: &[SymbolServer], id: &str, base: &Path, file_name: &str) ->
     jobs
 }
 
-async fn check_if_file_exists(results: Arc<Mutex<Vec<Job>>>, client: &Client, job: Job) {
+async fn check_if_file_exists(client: &Client, job: Job) -> Option<Job> {
     if let Ok(res) = client
         .head(&job.url)
         .header(USER_AGENT, DEFAULT_USER_AGENT)
@@ -211,55 +210,48 @@ async fn check_if_file_exists(results: Arc<Mutex<Vec<Job>>>, client: &Client, jo
         .await
     {
         if res.status() == 200 {
-            let mut results = results.lock().unwrap();
-            results.push(job);
+            return Some(job);
         }
     }
+    None
 }
 
-fn check_data(jobs: Vec<Job>) -> Option<Job> {
+/// Returns the queries which look successful, in the order of the servers
+fn check_data(jobs: Vec<Job>) -> Vec<Job> {
     let client = Client::new();
     let n_queries = jobs.len();
-    let results = Arc::new(Mutex::new(Vec::new()));
-
-    Runtime::new().unwrap().block_on(async {
+    let results = Runtime::new().unwrap().block_on(async {
         stream::iter(jobs)
             .map({
-                let results = &results;
                 let client = &client;
-                move |job| check_if_file_exists(Arc::clone(results), client, job)
+                move |job| check_if_file_exists(client, job)
             })
-            .buffer_unordered(n_queries)
-            .collect::<Vec<()>>()
+            .buffered(n_queries)
+            .collect::<Vec<_>>()
             .await
     });
 
-    let results = Arc::try_unwrap(results).unwrap().into_inner().unwrap();
-    results.first().cloned()
+    results.into_iter().flatten().collect()
 }
 
 fn fetch_data(jobs: Vec<Job>) -> Option<Vec<u8>> {
-    if let Some(job) = check_data(jobs) {
+    let client = blocking::Client::new();
+    for job in check_data(jobs) {
         let mut buf = Vec::new();
-        let client = blocking::Client::new();
         let resp = client
             .get(&job.url)
             .header(USER_AGENT, DEFAULT_USER_AGENT)
             .send();
         if let Ok(mut resp) = resp {
             if resp.status() != 200 || resp.copy_to(&mut buf).is_err() {
-                None
-            } else if copy_in_cache(job.cache, &buf) {
-                Some(buf)
-            } else {
-                None
+                continue;
+            }
+            if copy_in_cache(job.cache, &buf) {
+                return Some(buf);
             }
-        } else {
-            None
         }
-    } else {
-        None
     }
+    None
 }
 
 pub fn search_file(
-- 
2.43.0


From bad29c4e737e592db458a3714454eadf5dd687a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:47 +0000
Subject: [PATCH 26/47] fix: no overflow and no out of range access for damaged
 symbols and sections

---
 src/symbol.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/symbol.rs b/src/symbol.rs
index cc3db35..df5cdf4 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -34,7 +34,7 @@ pub trait ContainsSymbol {
 impl ContainsSymbol for Symbols {
     fn is_inside_symbol(&self, rva: u32) -> bool {
         let last = self.range((Included(0), Excluded(rva))).next_back();
-        last.is_some_and(|last| rva < (last.1.rva + last.1.len))
+        last.is_some_and(|last| rva - last.1.rva < last.1.len)
     }
 }
 
@@ -142,7 +142,9 @@ fn append_dummy_symbol_pe_pdb(mut syms: Symbols, name: &str) -> Symbols {
         return syms;
     };
 
-    let rva = if len == 0 { rva + 1 } else { rva + len };
+    let Some(rva) = rva.checked_add(len.max(1)) else {
+        return syms;
+    };
 
     let name = if name.is_empty() {
         String::from("<unknown>")
@@ -174,7 +176,7 @@ pub(super) fn get_compressed_minidebuginfo(object: &Object) -> Option<Vec<u8>> {
             if let Some(section_name) = elf.shdr_strtab.get_at(header.sh_name) {
                 if section_name == ".gnu_debugdata" {
                     let (start, length) = (header.sh_offset as usize, header.sh_size as usize);
-                    let mut buf: &[u8] = &data[start..(start + length)];
+                    let mut buf = data.get(start..start.checked_add(length)?)?;
                     let mut out: Vec<u8> = Vec::new();
                     lzma_rs::xz_decompress(&mut buf, &mut out).ok()?;
                     return Some(out);
-- 
2.43.0


From f98ee3c25ffae3810825ca7348115ad8e85d1a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:12 +0000
Subject: [PATCH 27/47] fix: path mappings and inlines for executables with
 DWARF debug information

---
 src/dumper.rs      | 14 ++++++++++----
 src/windows/pdb.rs | 14 ++++++++++++--
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index 1fc800b..9e2e317 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -178,10 +178,16 @@ fn get_pe_pdb_object_info<'a>(
     anyhow::bail!("HTTP symbol retrieval not enabled")
 }
 
-fn get_pe_object_info(buf: &[u8], path: &Path, filename: &str) -> common::Result<ObjectInfo> {
+fn get_pe_object_info(
+    buf: &[u8],
+    path: &Path,
+    filename: &str,
+    mapping: Option<Arc<PathMappings>>,
+    emit_inlines: bool,
+) -> common::Result<ObjectInfo> {
     let pe = PeObject::parse(buf)
         .unwrap_or_else(|_| panic!("Unable to parse the PE file {}", path.to_str().unwrap()));
-    let pe = ObjectInfo::from_pe(filename, pe)?;
+    let pe = ObjectInfo::from_pe_with_options(filename, pe, mapping, emit_inlines)?;
     Ok(pe)
 }
 
@@ -320,13 +326,13 @@ fn get_object_info(
                 &buf,
                 path,
                 filename,
-                file_mapping,
+                file_mapping.clone(),
                 symbol_server,
                 emit_inlines,
             ) {
                 pdb_info
             } else {
-                get_pe_object_info(&buf, path, filename)?
+                get_pe_object_info(&buf, path, filename, file_mapping, emit_inlines)?
             }
         }
         FileFormat::MachO => {
diff --git a/src/windows/pdb.rs b/src/windows/pdb.rs
index d624ac6..fc223d1 100644
--- a/src/windows/pdb.rs
+++ b/src/windows/pdb.rs
@@ -35,6 +35,16 @@ impl ObjectInfo {
     }
 
     pub fn from_pe(pe_name: &str, pe: PeObject) -> common::Result<Self> {
+        Self::from_pe_with_options(pe_name, pe, None, false)
+    }
+
+    /// A PE may carry its own (DWARF) debug information
+    pub fn from_pe_with_options(
+        pe_name: &str,
+        pe: PeObject,
+        mapping: Option<Arc<PathMappings>>,
+        collect_inlines: bool,
+    ) -> common::Result<Self> {
         let pdb_name = pe.debug_file_name().unwrap_or(pe_name.into()).to_string();
         let pe = Object::Pe(pe);
         let pdb_name = win_path_file_name(&pdb_name).to_string();
@@ -44,8 +54,8 @@ impl ObjectInfo {
             None,
             Some(pe_name),
             Platform::Win,
-            None,
-            false,
+            mapping,
+            collect_inlines,
         )
     }
 }
-- 
2.43.0


From 77855c493de38be0f6067bfcd20cf7869b5d0a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:43 +0000
Subject: [PATCH 28/47] fix: no stack overflow in the workers on a deeply
 nested mangled name

---
 src/dumper.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dumper.rs b/src/dumper.rs
index 9e2e317..7d8cfad 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -343,6 +343,9 @@ fn get_object_info(
     Ok(object_info)
 }
 
+/// Same as the usual size for the main thread: demangling a name is deeply recursive
+const WORKER_STACK_SIZE: usize = 8 << 20;
+
 #[allow(clippy::large_enum_variant)]
 enum JobType {
     Get,
@@ -535,6 +538,7 @@ pub fn several_files(config: &Config, filenames: &[&str]) -> common::Result<()>
 
         let t = thread::Builder::new()
             .name(format!("dump-syms {i}"))
+            .stack_size(WORKER_STACK_SIZE)
             .spawn(move || {
                 consumer(
                     arch,
-- 
2.43.0


From 90a18fdce4f21ba56b47221ad0edf108ca39c763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:58 +0000
Subject: [PATCH 29/47] fix: no FILE record without a name

---
 src/common.rs | 2 +-
 src/source.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index 4a055c1..d741431 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -40,7 +40,7 @@ pub(crate) fn remove_control_chars(text: &str) -> String {
     text.chars().filter(|c| !c.is_ascii_control()).collect()
 }
 
-/// The text to print for a symbol name: without control characters and never empty.
+/// The text to print for the name of a symbol or file: without control characters and never empty.
 pub(crate) fn printable_name(name: &str) -> String {
     let name = remove_control_chars(name);
     if name.trim().is_empty() {
diff --git a/src/source.rs b/src/source.rs
index 4365b62..5cd0a06 100644
--- a/src/source.rs
+++ b/src/source.rs
@@ -103,7 +103,7 @@ impl SourceFiles {
             hash_map::Entry::Occupied(e) => *e.get(),
             hash_map::Entry::Vacant(e) => {
                 let path = Self::get_path(self.platform, self.canonicalize, compilation_dir, file);
-                let path = common::remove_control_chars(&path);
+                let path = common::printable_name(&path);
                 let id = match self.ref_to_id.entry(path.clone()) {
                     hash_map::Entry::Occupied(e) => *e.get(),
                     hash_map::Entry::Vacant(e) => {
@@ -119,7 +119,7 @@ impl SourceFiles {
                         } else {
                             None
                         };
-                        let path = new_path.map_or(path, |p| common::remove_control_chars(&p));
+                        let path = new_path.map_or(path, |p| common::printable_name(&p));
                         e.insert(id);
                         self.fake_id_to_ref.push((None, path));
                         id
-- 
2.43.0


From ad911011c6e211bf0a8e0532d9000e950f9f1d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:46 +0000
Subject: [PATCH 30/47] fix: merge into the object with the debug information,
 whatever the number of symbols

---
 src/object_info.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/object_info.rs b/src/object_info.rs
index 2351dc2..91fb2d5 100644
--- a/src/object_info.rs
+++ b/src/object_info.rs
@@ -221,8 +221,14 @@ impl ObjectInfo {
             right.debug_id
         );
 
-        // Just to avoid to iterate on the bigger
-        let (mut left, mut right) = if left.symbols.len() > right.symbols.len() {
+        // The symbols of left take precedence, so prefer the one with the debug information.
+        // Else just avoid to iterate on the bigger.
+        let keep_order = match (&left.bin_type, &right.bin_type) {
+            (Type::DebugInfo, Type::Stripped) => true,
+            (Type::Stripped, Type::DebugInfo) => false,
+            _ => left.symbols.len() > right.symbols.len(),
+        };
+        let (mut left, mut right) = if keep_order {
             (left, right)
         } else {
             (right, left)
-- 
2.43.0


From 8a07901ed8fd26451b34a382160c18880ca9f918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:48 +0000
Subject: [PATCH 31/47] fix: a merged symbol is marked as multiple only when
 there are several

---
 src/object_info.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/object_info.rs b/src/object_info.rs
index 91fb2d5..2d69f63 100644
--- a/src/object_info.rs
+++ b/src/object_info.rs
@@ -267,9 +267,10 @@ impl ObjectInfo {
                         if e.get().is_synthetic {
                             // Always replace a synthetic symbol
                             e.insert(sym.clone());
-                        } else if e.get().name != sym.name {
+                        } else if e.get().is_public {
                             // We already have one so just discard this one
-                            e.get_mut().is_multiple = true;
+                            let a_sym = e.get_mut();
+                            a_sym.is_multiple |= sym.is_multiple || a_sym.name != sym.name;
                         }
                     }
                     btree_map::Entry::Vacant(e) => {
@@ -283,14 +284,17 @@ impl ObjectInfo {
             match left.symbols.entry(*addr) {
                 btree_map::Entry::Occupied(mut e) => {
                     let a_sym = e.get_mut();
-                    if a_sym.is_public {
-                        // FUNC is more interesting than the PUBLIC
+                    if a_sym.is_public || (a_sym.is_synthetic && !sym.is_synthetic) {
+                        // FUNC is more interesting than the PUBLIC or than a placeholder
                         // so just keep the FUNC
                         sym.remap_lines(file_remapping.as_deref());
                         sym.remap_inlines(file_remapping.as_deref(), &inline_origin_remapping);
                         std::mem::swap(a_sym, sym);
+                    } else if !sym.is_synthetic {
+                        // As when they are in the same file: several functions at one address
+                        a_sym.is_multiple |=
+                            sym.is_multiple || a_sym.name != sym.name || a_sym.len != sym.len;
                     }
-                    a_sym.is_multiple = true;
                 }
                 btree_map::Entry::Vacant(e) => {
                     sym.remap_lines(file_remapping.as_deref());
-- 
2.43.0


From 10ac6558b05975ffe0226672666e07feeeea00bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:50 +0000
Subject: [PATCH 32/47] fix: a symbol in several tables is not marked as
 multiple

---
 src/collector.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/collector.rs b/src/collector.rs
index 4cca6f2..af4b2c1 100644
--- a/src/collector.rs
+++ b/src/collector.rs
@@ -378,11 +378,18 @@ impl Collector {
                 None
             };
 
+            let sym_name = match (&parsed_win_name, sym.name()) {
+                (Some(name), _) => Self::demangle_str(&name.name),
+                (None, Some(name)) => Self::demangle_str(name),
+                _ => "<name omitted>".to_string(),
+            };
+
             match self.syms.entry(sym.address as u32) {
                 btree_map::Entry::Occupied(mut e) => {
                     let sym = e.get_mut();
                     if sym.is_public {
-                        sym.is_multiple = true;
+                        // The same symbol may be in several tables
+                        sym.is_multiple |= sym.name != sym_name;
                     } else if let Some(parsed_win_name) = parsed_win_name {
                         // If we have both a symbol and a function at the same address, the function
                         // may not have parameters but the symbol's mangled name might.
@@ -397,11 +404,6 @@ impl Collector {
                     }
                 }
                 btree_map::Entry::Vacant(e) => {
-                    let sym_name = match (&parsed_win_name, sym.name) {
-                        (Some(name), _) => Self::demangle_str(&name.name),
-                        (None, Some(name)) => Self::demangle_str(&name),
-                        _ => "<name omitted>".to_string(),
-                    };
                     let parameter_size = parsed_win_name
                         .and_then(|n| n.param_size)
                         .unwrap_or_default();
-- 
2.43.0


From 7058148781bd49a4c70eb5eb2f2196ee92441d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:39 +0000
Subject: [PATCH 33/47] fix: keep the name of the stripped file when merging
 more than two files

---
 src/object_info.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/object_info.rs b/src/object_info.rs
index 2d69f63..b465aae 100644
--- a/src/object_info.rs
+++ b/src/object_info.rs
@@ -37,6 +37,8 @@ pub struct ObjectInfo {
     pe_name: Option<String>,
     stack: String,
     bin_type: Type,
+    // file_name is the one of a stripped file
+    is_stripped_name: bool,
     platform: Platform,
 }
 
@@ -181,6 +183,7 @@ impl ObjectInfo {
             debug_id,
             code_id,
             stack,
+            is_stripped_name: bin_type == Type::Stripped,
             bin_type,
             platform,
         })
@@ -308,8 +311,9 @@ impl ObjectInfo {
             left.code_id = right.code_id;
         }
 
-        if right.bin_type == Type::Stripped {
+        if right.is_stripped_name {
             left.file_name = right.file_name;
+            left.is_stripped_name = true;
         }
 
         Ok(left)
-- 
2.43.0


From 7100795881c7aa417466dfac21e2a78538e1be92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:21 +0000
Subject: [PATCH 34/47] fix: no repeated unwind records when both merged files
 have them

---
 src/object_info.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/object_info.rs b/src/object_info.rs
index b465aae..011958f 100644
--- a/src/object_info.rs
+++ b/src/object_info.rs
@@ -4,7 +4,7 @@
 // copied, modified, or distributed except according to those terms.
 
 use log::error;
-use std::collections::btree_map;
+use std::collections::{btree_map, HashSet};
 use std::fmt::{Display, Formatter};
 use std::io::Write;
 use std::sync::Arc;
@@ -102,6 +102,21 @@ fn get_stack_info(pdb: Option<&Object>, pe: Option<&Object>) -> String {
     String::from_utf8(buf).unwrap()
 }
 
+/// Split the unwind records in entries: a STACK CFI INIT with its STACK CFI, or a STACK WIN.
+fn stack_entries(stack: &str) -> Vec<&str> {
+    let mut entries = Vec::new();
+    let (mut start, mut pos) = (0, 0);
+    for line in stack.split_inclusive('\n') {
+        if pos != start && (line.starts_with("STACK CFI INIT ") || line.starts_with("STACK WIN ")) {
+            entries.push(&stack[start..pos]);
+            start = pos;
+        }
+        pos += line.len();
+    }
+    entries.push(&stack[start..]);
+    entries
+}
+
 impl ObjectInfo {
     pub fn from_object(
         main_object: &Object,
@@ -244,7 +259,16 @@ impl ObjectInfo {
             if *left.stack.as_bytes().last().unwrap() != b'\n' {
                 left.stack.push('\n');
             }
-            left.stack.push_str(&right.stack);
+            // The two files may have some unwind entries in common
+            let known: HashSet<String> = stack_entries(&left.stack)
+                .into_iter()
+                .map(String::from)
+                .collect();
+            for entry in stack_entries(&right.stack) {
+                if !known.contains(entry) {
+                    left.stack.push_str(entry);
+                }
+            }
         }
 
         // If the two files contains some FUNC they may have differents FILE number associated with
-- 
2.43.0


From 496f118daa9fe58e87877f6910ca33cf8cb016fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:52 +0000
Subject: [PATCH 35/47] fix: a broken cabinet in the symbol cache or on a
 server is like a missing file

---
 src/cache.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index 40857b4..b4cd295 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -272,20 +272,16 @@ pub fn search_file(
 
     // Start with the caches
     if let Some(path) = search_in_cache(servers, id, &base, &file_name) {
-        return (Some(utils::read_file(path)), file_name);
+        let buf = fs::read(&path).ok();
+        let buf = buf.and_then(|buf| utils::read_cabinet(buf, path));
+        return (buf, file_name);
     }
 
     // Try the symbol servers
     // Each job contains the path where to cache data (if one) and a query url
     let jobs = get_jobs(servers, id, &base, &file_name);
     let buf = fetch_data(jobs);
+    let buf = buf.and_then(|buf| utils::read_cabinet(buf, PathBuf::from(&file_name)));
 
-    if let Some(buf) = buf {
-        let path = PathBuf::from(&file_name);
-        let buf = utils::read_cabinet(buf, path)
-            .unwrap_or_else(|| panic!("Unable to read the file {} from the server", file_name));
-        (Some(buf), file_name)
-    } else {
-        (None, file_name)
-    }
+    (buf, file_name)
 }
-- 
2.43.0


From 0ec30b201f54146981f5e9f6f379394fa7878951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:43 +0000
Subject: [PATCH 36/47] fix: a source file whose digest can't be computed is a
 mapping error, not a panic

---
 src/utils.rs | 18 +-----------------
 1 file changed, 1 insertion(+), 17 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 67da975..f2b25d1 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -203,21 +203,5 @@ pub fn get_filename(path: &Path) -> String {
 }
 
 pub fn read<P: AsRef<Path>>(path: P) -> common::Result<Vec<u8>> {
-    let file_size = fs::metadata(&path)?.len() as usize;
-    let mut file = File::open(&path).unwrap_or_else(|_| {
-        panic!(
-            "Unable to open the file {}",
-            path.as_ref().to_str().unwrap()
-        )
-    });
-
-    let mut buf = Vec::with_capacity(file_size + 1);
-    file.read_to_end(&mut buf).unwrap_or_else(|_| {
-        panic!(
-            "Unable to read the file {}",
-            path.as_ref().to_str().unwrap()
-        )
-    });
-
-    Ok(buf)
+    Ok(fs::read(path)?)
 }
-- 
2.43.0


From 83d580193a5f93d3a790282c3583620aa3af361a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:26 +0000
Subject: [PATCH 37/47] fix: an empty directory entry of a Windows module is
 relative to the compilation directory

---
 src/platform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/platform.rs b/src/platform.rs
index e881c9f..86fc48d 100644
--- a/src/platform.rs
+++ b/src/platform.rs
@@ -30,7 +30,7 @@ impl Platform {
                     Some(first_fragment_len) => &path[..first_fragment_len],
                     None => path,
                 };
-                first_fragment.is_empty() || first_fragment.ends_with(':')
+                (first_fragment.is_empty() && !path.is_empty()) || first_fragment.ends_with(':')
             }
         }
     }
-- 
2.43.0


From 4ad43d78d928c20187da8f476571b4831465848c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:28 +0000
Subject: [PATCH 38/47] fix: don't look for relative source paths in the
 working directory

---
 src/source.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/source.rs b/src/source.rs
index 5cd0a06..2027bd6 100644
--- a/src/source.rs
+++ b/src/source.rs
@@ -81,7 +81,11 @@ impl SourceFiles {
             // Try to get the real path and in case we're on the machine where the files have been compiled
             // else fallback on the basic way to normalize a path
             let path = PathBuf::from(path);
-            let path = fs::canonicalize(&path).unwrap_or_else(|_| utils::normalize_path(&path));
+            // A relative path has nothing to do with our working directory.
+            let real_path = path.is_absolute().then(|| fs::canonicalize(&path).ok());
+            let path = real_path
+                .flatten()
+                .unwrap_or_else(|| utils::normalize_path(&path));
             path.to_string_lossy().to_string()
         } else {
             // Don't attempt to normalize the path if we're on a different platform.
-- 
2.43.0


From a488dd42dee66d6d30d14122cd5476bbe87e3a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:35 +0000
Subject: [PATCH 39/47] fix: escape file names in symbol server urls

---
 src/cache.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index b4cd295..e10a5c9 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -169,9 +169,18 @@ fn search_in_cache(
     None
 }
 
+/// In an url these characters would end the path or be taken for an escape sequence
+fn escape_for_url(name: &str) -> String {
+    name.replace('%', "%25")
+        .replace('#', "%23")
+        .replace('?', "%3F")
+}
+
 fn get_jobs(servers: &[SymbolServer], id: &str, base: &Path, file_name: &str) -> Vec<Job> {
     // The query urls are: https://symbols.mozilla.org/xul.pdb/DEBUG_ID/xul.pd_
     let mut jobs = Vec::new();
+    let url_name = escape_for_url(file_name);
+    let url_cab_name = escape_for_url(file_name.strip_suffix(|_| true).unwrap_or_default());
     for server in servers.iter() {
         let path = server
             .cache
@@ -179,20 +188,14 @@ fn get_jobs(servers: &[SymbolServer], id: &str, base: &Path, file_name: &str) ->
             .map(|cache| PathBuf::from(cache).join(base).join(id).join(file_name));
         let job = Job::new(
             path.clone(),
-            format!("{}/{}/{}/{}", server.server, file_name, id, file_name),
+            format!("{}/{}/{}/{}", server.server, url_name, id, url_name),
         )
         .unwrap_or_else(|e| panic!("{}", e));
         jobs.push(job);
         if !file_name.ends_with('_') {
             let job = Job::new(
                 path,
-                format!(
-                    "{}/{}/{}/{}_",
-                    server.server,
-                    file_name,
-                    id,
-                    file_name.strip_suffix(|_| true).unwrap_or_default()
-                ),
+                format!("{}/{}/{}/{}_", server.server, url_name, id, url_cab_name),
             )
             .unwrap_or_else(|e| panic!("{}", e));
             jobs.push(job);
-- 
2.43.0


From ccf9bf38590edf9c85aa9a8eff4c4de0c7eea5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:56 +0000
Subject: [PATCH 40/47] fix: keep the lines of an inlined call whose code is in
 several pieces

---
 src/collector.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/collector.rs b/src/collector.rs
index af4b2c1..9d358f1 100644
--- a/src/collector.rs
+++ b/src/collector.rs
@@ -336,6 +336,15 @@ impl Collector {
             while next_line.is_some() && next_line.as_ref().unwrap().address < current_address {
                 next_line = line_iter.next();
             }
+
+            // The code of an inlined call may be in several pieces. The code in between has its
+            // own lines, so the next piece needs a line record even if the line is the same.
+            if next_line
+                .as_ref()
+                .is_some_and(|line| line.address != current_address)
+            {
+                prev_line_info = None;
+            }
         }
     }
 
-- 
2.43.0


From 4e0664ec5337d5e7ad8d0e75637de91c84f74396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:24 +0000
Subject: [PATCH 41/47] fix: leave incomplete unwind records out

---
 src/object_info.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/object_info.rs b/src/object_info.rs
index 011958f..19b1120 100644
--- a/src/object_info.rs
+++ b/src/object_info.rs
@@ -99,7 +99,25 @@ fn get_stack_info(pdb: Option<&Object>, pe: Option<&Object>) -> String {
         error!("CFI: {e:?}");
     }
 
-    String::from_utf8(buf).unwrap()
+    keep_complete_records(&String::from_utf8(buf).unwrap())
+}
+
+/// The writer leaves an incomplete line behind when it fails, and the program of a STACK WIN record
+/// is any text, or none, in a damaged file.
+fn keep_complete_records(stack: &str) -> String {
+    let mut records = String::with_capacity(stack.len());
+    for line in stack.split_inclusive('\n') {
+        let Some(line) = line.strip_suffix('\n') else {
+            break;
+        };
+        let line = common::remove_control_chars(line);
+        let has_program = !line.starts_with("STACK WIN ") || !line.ends_with(' ');
+        if line.starts_with("STACK ") && has_program {
+            records.push_str(&line);
+            records.push('\n');
+        }
+    }
+    records
 }
 
 /// Split the unwind records in entries: a STACK CFI INIT with its STACK CFI, or a STACK WIN.
-- 
2.43.0


From a200e757a52c3f0e4350012bb60bc2d09271b841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:31 +0000
Subject: [PATCH 42/47] fix: refuse damaged thin Mach-O files and cabinets with
 unnamed entries without an internal error

---
 src/mac.rs   | 2 +-
 src/utils.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mac.rs b/src/mac.rs
index 76b5e10..7efc191 100644
--- a/src/mac.rs
+++ b/src/mac.rs
@@ -25,7 +25,7 @@ impl ObjectInfo {
         // and if several then we use arch (by default it's compile-time arch).
         let archive = Archive::parse(buf)?;
         let object = if archive.object_count() == 1 {
-            archive.object_by_index(0).unwrap()
+            archive.object_by_index(0)?
         } else {
             archive
                 .objects()
diff --git a/src/utils.rs b/src/utils.rs
index f2b25d1..8d58f55 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -161,7 +161,7 @@ fn get_cabinet_files(cab: &Cabinet<Cursor<&Vec<u8>>>, path: PathBuf) -> Option<(
         for file in folder.file_entries() {
             let file_size = file.uncompressed_size() as usize;
             let path = PathBuf::from(file.name());
-            if path.file_name().unwrap() == file_name {
+            if path.file_name() == Some(file_name) {
                 return Some((file.name().to_string(), file_size));
             }
         }
-- 
2.43.0


From eb73a76eb2be6f23df6fa78d2cf6be88f385407b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:06 +0000
Subject: [PATCH 43/47] fix: no failed unwrap or overflow for damaged fat files
 and inline ranges

---
 src/line.rs | 4 +++-
 src/mac.rs  | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/line.rs b/src/line.rs
index af8a13e..3ee53e0 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -236,7 +236,9 @@ impl Lines {
         for ranges in self.inlines.values_mut() {
             ranges.sort_by_key(|range| range.rva);
             ranges.dedup_by(|next, current| {
-                if current.rva.checked_add(current.len) == Some(next.rva) {
+                if current.rva.checked_add(current.len) == Some(next.rva)
+                    && current.len.checked_add(next.len).is_some()
+                {
                     current.len += next.len;
                     true
                 } else {
diff --git a/src/mac.rs b/src/mac.rs
index 7efc191..3b49a2d 100644
--- a/src/mac.rs
+++ b/src/mac.rs
@@ -58,8 +58,8 @@ pub fn print_macho_architectures(buf: &[u8], file_name: String) -> common::Resul
     let archive = Archive::parse(buf)?;
     let archs = archive
         .objects()
-        .map(|o| o.unwrap().arch().name())
-        .collect::<Vec<_>>();
+        .map(|o| Ok(o?.arch().name()))
+        .collect::<common::Result<Vec<_>>>()?;
     println!(
         "{} contains the following architecture{}:",
         file_name,
-- 
2.43.0


From 78c2250a80d26a6c4304c24d95e936601b7c85a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:44 +0000
Subject: [PATCH 44/47] fix: no stack overflow on a deeply nested Microsoft
 name

---
 src/collector.rs      |  6 +++---
 src/common.rs         | 29 +++++++++++++++++++++++++++--
 src/inline_origins.rs |  3 +--
 3 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/collector.rs b/src/collector.rs
index 9d358f1..08785a3 100644
--- a/src/collector.rs
+++ b/src/collector.rs
@@ -12,7 +12,7 @@ use symbolic::demangle::Demangle;
 
 use super::source::SourceFiles;
 use super::symbol::{should_skip_symbol, ContainsSymbol, ParsedWinFuncName, Symbol, Symbols};
-use crate::common::{self, demangle_options};
+use crate::common;
 use crate::inline_origins::InlineOrigins;
 use crate::line::{InlineAddressRange, InlineSite, Lines};
 use crate::platform::Platform;
@@ -59,7 +59,7 @@ impl Collector {
             return name.as_str().to_string();
         }
 
-        match name.demangle(demangle_options()) {
+        match common::demangle(&name) {
             Some(demangled) => demangled,
             None => {
                 let aname = name.as_str();
@@ -78,7 +78,7 @@ impl Collector {
         let name = Name::new(name, NameMangling::Mangled, lang);
         let name = common::fix_symbol_name(&name);
 
-        match name.demangle(demangle_options()) {
+        match common::demangle(&name) {
             Some(demangled) => demangled,
             None => {
                 warn!("Didn't manage to demangle {name}");
diff --git a/src/common.rs b/src/common.rs
index d741431..4260fea 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -6,9 +6,9 @@
 use once_cell::sync::{Lazy, OnceCell};
 use regex::Regex;
 use std::env::consts::ARCH;
-use std::result;
+use std::{result, thread};
 use symbolic::common::{Arch, Name};
-use symbolic::demangle::DemangleOptions;
+use symbolic::demangle::{Demangle, DemangleOptions};
 
 pub type Result<T> = result::Result<T, anyhow::Error>;
 
@@ -18,6 +18,31 @@ pub fn demangle_options() -> DemangleOptions {
     DemangleOptions::complete().return_type(false)
 }
 
+/// Demangles the name. The demangler of the Microsoft names recurses as deep as a name is nested,
+/// so the long ones need a stack of their own, and those which no compiler emits are left as they are.
+pub(crate) fn demangle(name: &Name) -> Option<String> {
+    const SHORT_NAME: usize = 256;
+    const LONGEST_MSVC_NAME: usize = 4096;
+    const STACK_SIZE: usize = 128 << 20;
+
+    let is_msvc = name.as_str().starts_with('?') || name.as_str().starts_with("@?");
+    if !is_msvc || name.as_str().len() <= SHORT_NAME {
+        return name.demangle(demangle_options());
+    }
+    if name.as_str().len() > LONGEST_MSVC_NAME {
+        return None;
+    }
+
+    thread::scope(|scope| {
+        thread::Builder::new()
+            .stack_size(STACK_SIZE)
+            .spawn_scoped(scope, || name.demangle(demangle_options()))
+            .ok()?
+            .join()
+            .ok()?
+    })
+}
+
 pub fn get_compile_time_arch() -> &'static str {
     use Arch::*;
 
diff --git a/src/inline_origins.rs b/src/inline_origins.rs
index 5db50c8..2c3cf93 100644
--- a/src/inline_origins.rs
+++ b/src/inline_origins.rs
@@ -1,6 +1,5 @@
 use log::warn;
 use symbolic::common::{Language, Name};
-use symbolic::demangle::Demangle;
 
 use std::collections::HashMap;
 
@@ -44,7 +43,7 @@ impl<'a> InlineOrigins<'a> {
             return name.as_str().to_string();
         }
 
-        match name.demangle(common::demangle_options()) {
+        match common::demangle(&name) {
             Some(demangled) => demangled,
             None => {
                 let aname = name.as_str();
-- 
2.43.0


From 68e83ff3448c828d21c4a67860eb9bd45acda7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:57 +0000
Subject: [PATCH 45/47] fix: a cabinet may have a file name without extension

---
 src/utils.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 8d58f55..8f0ab78 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -139,7 +139,9 @@ pub fn read_cabinet(buf: Vec<u8>, path: PathBuf) -> Option<Vec<u8>> {
 }
 
 fn get_corrected_path(path: PathBuf) -> PathBuf {
-    let e = path.extension().unwrap().to_str().unwrap();
+    let Some(e) = path.extension().and_then(|e| e.to_str()) else {
+        return path;
+    };
     if e.starts_with("pd") {
         path.with_extension("pdb")
     } else if e.starts_with("dl") {
-- 
2.43.0


From 4ad1ce75c20d59c686645a9d56f877084cb621d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:57 +0000
Subject: [PATCH 46/47] fix: a merge keeps the name of the executable with its
 code id

---
 src/object_info.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/object_info.rs b/src/object_info.rs
index 19b1120..6b00929 100644
--- a/src/object_info.rs
+++ b/src/object_info.rs
@@ -351,6 +351,7 @@ impl ObjectInfo {
 
         if left.code_id.is_none() && right.code_id.is_some() {
             left.code_id = right.code_id;
+            left.pe_name = right.pe_name;
         }
 
         if right.is_stripped_name {
-- 
2.43.0


From 918b064395a316ac984f404e4197a1ded2404b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:52 +0000
Subject: [PATCH 47/47] fix: write to a symbol store whose path is not UTF-8

Nothing was written and success reported.
---
 src/dumper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index 7d8cfad..a1819ef 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -211,7 +211,7 @@ fn store(output: &Output, check_cfi: bool, object_info: ObjectInfo) -> common::R
     anyhow::ensure!(!check_cfi || object_info.has_stack(), "No CFI data");
 
     let sym_store_path = |dir: &Path| -> Option<PathBuf> {
-        if dir.to_str()?.is_empty() {
+        if dir.as_os_str().is_empty() {
             return None;
         }
 
-- 
2.43.0

