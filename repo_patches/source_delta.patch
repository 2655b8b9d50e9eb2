From 01665faecbc6d130a81a25e491ce86c1eaf9803f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 01/33] fix: frequency --reverse no longer stops at the first
 row below --threshold

---
 crates/pica-cli/src/commands/frequency.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/crates/pica-cli/src/commands/frequency.rs b/crates/pica-cli/src/commands/frequency.rs
index e53ae8f..6a5fd6f 100644
--- a/crates/pica-cli/src/commands/frequency.rs
+++ b/crates/pica-cli/src/commands/frequency.rs
@@ -200,8 +200,10 @@ impl Frequency {
             writer.write_record(header.split(',').map(str::trim))?;
         }
 
-        let mut ftable_sorted: Vec<(&Vec<BString>, &u64)> =
-            ftable.iter().collect();
+        let mut ftable_sorted: Vec<(&Vec<BString>, &u64)> = ftable
+            .iter()
+            .filter(|(_, freq)| **freq >= self.threshold)
+            .collect();
 
         if self.reverse {
             ftable_sorted.sort_by(|a, b| match a.1.cmp(b.1) {
@@ -221,10 +223,6 @@ impl Frequency {
                 break;
             }
 
-            if **freq < self.threshold {
-                break;
-            }
-
             let mut record = values
                 .iter()
                 .map(ToString::to_string)
-- 
2.43.0


From 5d72150f23736777359d2897225b15e425e65317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 02/33] fix: convert --to xml reports write errors instead of
 losing output or panicking

---
 crates/pica-cli/src/commands/convert/xml.rs | 38 ++++++++-------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/crates/pica-cli/src/commands/convert/xml.rs b/crates/pica-cli/src/commands/convert/xml.rs
index 27bead9..2441069 100644
--- a/crates/pica-cli/src/commands/convert/xml.rs
+++ b/crates/pica-cli/src/commands/convert/xml.rs
@@ -23,13 +23,11 @@ impl XmlWriter {
             };
 
         let mut writer = Writer::new_with_indent(inner, b' ', 4);
-        writer
-            .write_event(Event::Decl(BytesDecl::new(
-                "1.0",
-                Some("UTF-8"),
-                None,
-            )))
-            .unwrap();
+        writer.write_event(Event::Decl(BytesDecl::new(
+            "1.0",
+            Some("UTF-8"),
+            None,
+        )))?;
 
         let attributes = [
             ("targetNamespace", "info:srw/schema/5/picaXML-v1.0"),
@@ -37,12 +35,10 @@ impl XmlWriter {
             ("xmlns", "info:srw/schema/5/picaXML-v1.0"),
         ];
 
-        writer
-            .write_event(Event::Start(
-                BytesStart::from_content("collection", 0)
-                    .with_attributes(attributes),
-            ))
-            .unwrap();
+        writer.write_event(Event::Start(
+            BytesStart::from_content("collection", 0)
+                .with_attributes(attributes),
+        ))?;
 
         Ok(Self { writer })
     }
@@ -76,27 +72,23 @@ impl ByteRecordWrite for XmlWriter {
                                         subfield
                                             .value()
                                             .to_str()
-                                            .unwrap(),
-                                    ))
-                                    .unwrap();
+                                            .map_err(io::Error::other)?,
+                                    ))?;
                             }
 
                             Ok::<(), std::io::Error>(())
-                        })
-                        .unwrap();
+                        })?;
                 }
 
                 Ok::<(), std::io::Error>(())
-            })
-            .unwrap();
+            })?;
 
         Ok(())
     }
 
     fn finish(&mut self) -> io::Result<()> {
         self.writer
-            .write_event(Event::End(BytesEnd::new("collection")))
-            .unwrap();
-        Ok(())
+            .write_event(Event::End(BytesEnd::new("collection")))?;
+        self.writer.get_mut().flush()
     }
 }
-- 
2.43.0


From 5a8fdfb07bde1f3b9d38719b1c430a6372a956f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 03/33] fix: read every member of a gzip file, as written by
 --append

---
 crates/pica-cli/src/commands/invalid.rs | 4 ++--
 src/reader.rs                           | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/pica-cli/src/commands/invalid.rs b/crates/pica-cli/src/commands/invalid.rs
index d93fe15..13882b8 100644
--- a/crates/pica-cli/src/commands/invalid.rs
+++ b/crates/pica-cli/src/commands/invalid.rs
@@ -7,7 +7,7 @@ use std::path::{Path, PathBuf};
 use std::process::ExitCode;
 
 use clap::Parser;
-use flate2::read::GzDecoder;
+use flate2::read::MultiGzDecoder;
 use pica_record::ByteRecord;
 
 use crate::config::Config;
@@ -38,7 +38,7 @@ fn reader(filename: &OsString) -> io::Result<BufReader<Box<dyn Read>>> {
     let path = PathBuf::from(filename);
     let ext = path.extension().and_then(OsStr::to_str);
     let inner: Box<dyn Read> = match ext {
-        Some("gz") => Box::new(GzDecoder::new(File::open(path)?)),
+        Some("gz") => Box::new(MultiGzDecoder::new(File::open(path)?)),
         _ => {
             if path.to_str() != Some("-") {
                 Box::new(File::open(path)?)
diff --git a/src/reader.rs b/src/reader.rs
index 8bb8952..634c449 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -4,7 +4,7 @@ use std::io::{self, BufRead, BufReader, Read, stdin};
 use std::path::Path;
 use std::str::Utf8Error;
 
-use flate2::read::GzDecoder;
+use flate2::read::MultiGzDecoder;
 
 use crate::primitives::ParsePicaError;
 use crate::{ByteRecord, StringRecord};
@@ -105,7 +105,7 @@ impl ReaderBuilder {
             .extension()
             .and_then(OsStr::to_str)
         {
-            Some("gz") => Box::new(GzDecoder::new(File::open(path)?)),
+            Some("gz") => Box::new(MultiGzDecoder::new(File::open(path)?)),
             _ => {
                 if path.to_str() != Some("-") {
                     Box::new(File::open(path)?)
-- 
2.43.0


From 5a0d2f45a16847e3ac8ad3e5fa0078bebca96406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:31 +0000
Subject: [PATCH 04/33] fix: slice counts skipped invalid records as positions
 and keeps --length exact

---
 crates/pica-cli/src/commands/slice.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/pica-cli/src/commands/slice.rs b/crates/pica-cli/src/commands/slice.rs
index a5d9372..a23bea4 100644
--- a/crates/pica-cli/src/commands/slice.rs
+++ b/crates/pica-cli/src/commands/slice.rs
@@ -116,9 +116,13 @@ impl Slice {
                 match result {
                     Err(e) if e.skip_parse_err(skip_invalid) => {
                         progress.update(true);
-                        if self.length > 0 && range.end < usize::MAX {
+                        if self.length > 0
+                            && range.contains(&i)
+                            && range.end < usize::MAX
+                        {
                             range.end += 1;
                         }
+                        i += 1;
                         continue;
                     }
                     Err(e) => return Err(e.into()),
-- 
2.43.0


From 426bb30f105b1f00cce7d11eaf70165e50c71d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 05/33] fix: count honours --limit

---
 crates/pica-cli/src/commands/count.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/pica-cli/src/commands/count.rs b/crates/pica-cli/src/commands/count.rs
index 7e99f11..853efef 100644
--- a/crates/pica-cli/src/commands/count.rs
+++ b/crates/pica-cli/src/commands/count.rs
@@ -86,7 +86,7 @@ impl Count {
         let mut fields = 0;
         let mut subfields = 0;
 
-        for filename in self.filenames {
+        'outer: for filename in self.filenames {
             let mut reader =
                 ReaderBuilder::new().from_path(filename)?;
 
@@ -117,6 +117,12 @@ impl Count {
                             .iter()
                             .map(|field| field.subfields().len())
                             .sum::<usize>();
+
+                        if self.filter_opts.limit > 0
+                            && records >= self.filter_opts.limit
+                        {
+                            break 'outer;
+                        }
                     }
                 }
             }
-- 
2.43.0


From fd22e8a0709972cbba1fcc2885cef70ef7c7226e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 06/33] fix: concat --unique no longer panics on a record
 without PPN

---
 crates/pica-cli/src/commands/concat.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/pica-cli/src/commands/concat.rs b/crates/pica-cli/src/commands/concat.rs
index 69da18a..af327a5 100644
--- a/crates/pica-cli/src/commands/concat.rs
+++ b/crates/pica-cli/src/commands/concat.rs
@@ -76,7 +76,9 @@ pub(crate) enum Strategy {
 #[inline]
 fn record_key(record: &ByteRecord, strategy: &Strategy) -> String {
     match strategy {
-        Strategy::Idn => record.ppn().expect("ppn").to_string(),
+        Strategy::Idn => {
+            record.ppn().map(ToString::to_string).unwrap_or_default()
+        },
         Strategy::Hash => {
             record.sha256().iter().fold(String::new(), |mut out, b| {
                 let _ = write!(out, "{b:02x}");
-- 
2.43.0


From 95e8aec3e135a725260b0df34ae8466175b7a819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 07/33] fix: print no longer panics on values that are not
 valid UTF-8

---
 crates/pica-cli/src/commands/print.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/pica-cli/src/commands/print.rs b/crates/pica-cli/src/commands/print.rs
index 0e80e67..fce578d 100644
--- a/crates/pica-cli/src/commands/print.rs
+++ b/crates/pica-cli/src/commands/print.rs
@@ -3,7 +3,6 @@ use std::fs::File;
 use std::io::{self, BufWriter, Write};
 use std::process::ExitCode;
 
-use bstr::ByteSlice;
 use clap::Parser;
 use pica_record::prelude::*;
 
@@ -89,7 +88,7 @@ impl Print {
                                 write!(writer, " ${code}")?;
 
                                 let value = translit(
-                                    subfield.value().to_str().unwrap(),
+                                    subfield.value().to_string(),
                                 );
                                 write!(writer, " {value}")?;
                             }
-- 
2.43.0


From 3dd9e60d5e4e66e90b021e166bd0c4b25ae1dbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 08/33] fix: report the right line number for records that are
 not valid UTF-8

---
 src/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index 634c449..07c645a 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -258,7 +258,7 @@ impl<R: Read> RecordsIter for Reader<R> {
     /// # Ok::<(), Box<dyn std::error::Error>>(())
     /// ```
     fn next_string_record(&mut self) -> Option<Self::StringItem<'_>> {
-        let line = self.line;
+        let line = self.line + 1;
         match self.next_byte_record() {
             Some(Ok(record)) => match StringRecord::try_from(record) {
                 Ok(record) => Some(Ok(record)),
-- 
2.43.0


From f2b2426f6efdd437e4dd5236324d8743232f61d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 09/33] fix: compare values of different byte length when case
 is ignored

---
 src/matcher/subfield/mod.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/matcher/subfield/mod.rs b/src/matcher/subfield/mod.rs
index 5bd6da9..447a492 100644
--- a/src/matcher/subfield/mod.rs
+++ b/src/matcher/subfield/mod.rs
@@ -232,10 +232,6 @@ impl RelationMatcher {
     /// # Ok::<(), Box<dyn std::error::Error>>(())
     /// ```
     fn compare(&self, value: &[u8], options: &MatcherOptions) -> bool {
-        if value.len() != self.value.len() {
-            return false;
-        }
-
         if options.case_ignore {
             self.value.to_lowercase() == value.to_lowercase()
         } else {
-- 
2.43.0


From 69574a4524456459b44bcef6111f06547410c261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 10/33] fix: a closed pipe ends select, hash and frequency like
 other commands

---
 crates/pica-cli/src/main.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/pica-cli/src/main.rs b/crates/pica-cli/src/main.rs
index a530bd4..a8ed112 100644
--- a/crates/pica-cli/src/main.rs
+++ b/crates/pica-cli/src/main.rs
@@ -47,6 +47,13 @@ fn run() -> CliResult {
     }
 }
 
+fn is_broken_pipe(err: &csv::Error) -> bool {
+    matches!(
+        err.kind(),
+        csv::ErrorKind::Io(e) if e.kind() == ErrorKind::BrokenPipe
+    )
+}
+
 fn main() -> ExitCode {
     match run() {
         Ok(code) => code,
@@ -55,6 +62,9 @@ fn main() -> ExitCode {
         {
             ExitCode::SUCCESS
         }
+        Err(CliError::Csv(err)) if is_broken_pipe(&err) => {
+            ExitCode::SUCCESS
+        }
         Err(err) => {
             eprintln!("error: {err}");
             ExitCode::from(2)
-- 
2.43.0


From 9019f2887d4b7df60d58a25b8b2c023df8a43f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 11/33] fix: parse boolean connectives by precedence, without
 exponential backtracking

---
 src/matcher/field/parser.rs    | 73 ++++++++++------------------------
 src/matcher/subfield/parser.rs | 67 ++++++++++---------------------
 2 files changed, 40 insertions(+), 100 deletions(-)

diff --git a/src/matcher/field/parser.rs b/src/matcher/field/parser.rs
index 7581149..f135ed0 100644
--- a/src/matcher/field/parser.rs
+++ b/src/matcher/field/parser.rs
@@ -259,13 +259,7 @@ fn parse_field_group_matcher(
 ) -> ModalResult<FieldMatcher> {
     delimited(
         terminated(ws('('), group_level_inc),
-        alt((
-            parse_field_composite_matcher,
-            parse_field_singleton_matcher,
-            parse_field_not_matcher,
-            parse_field_cardinality_matcher,
-            parse_field_group_matcher,
-        )),
+        parse_field_composite_matcher,
         ws(')').map(|_| group_level_dec()),
     )
     .map(|matcher| FieldMatcher::Group(Box::new(matcher)))
@@ -290,20 +284,10 @@ fn parse_field_not_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
 }
 
 fn parse_field_or_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
-    let atom = |i: &mut &[u8]| -> ModalResult<FieldMatcher> {
-        ws(alt((
-            parse_field_and_matcher,
-            parse_field_xor_matcher,
-            parse_field_group_matcher,
-            parse_field_cardinality_matcher,
-            parse_field_singleton_matcher,
-            parse_field_not_matcher,
-            parse_field_exists_matcher,
-        )))
-        .parse_next(i)
-    };
-
-    (atom, repeat(1.., preceded(ws("||"), atom)))
+    (
+        parse_field_xor_matcher,
+        repeat(0.., preceded(ws("||"), parse_field_xor_matcher)),
+    )
         .map(|(head, tail): (_, Vec<_>)| {
             tail.into_iter().fold(head, |prev, next| prev | next)
         })
@@ -311,19 +295,13 @@ fn parse_field_or_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
 }
 
 fn parse_field_xor_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
-    let atom = |i: &mut &[u8]| -> ModalResult<FieldMatcher> {
-        ws(alt((
-            parse_field_and_matcher,
-            parse_field_group_matcher,
-            parse_field_cardinality_matcher,
-            parse_field_singleton_matcher,
-            parse_field_not_matcher,
-            parse_field_exists_matcher,
-        )))
-        .parse_next(i)
-    };
-
-    (atom, repeat(1.., preceded(alt(("^", "XOR")), atom)))
+    (
+        parse_field_and_matcher,
+        repeat(
+            0..,
+            preceded(ws(alt(("^", "XOR"))), parse_field_and_matcher),
+        ),
+    )
         .map(|(head, tail): (_, Vec<_>)| {
             tail.into_iter().fold(head, |prev, next| prev ^ next)
         })
@@ -342,7 +320,7 @@ fn parse_field_and_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
         .parse_next(i)
     };
 
-    (atom, repeat(1.., preceded(ws("&&"), atom)))
+    (atom, repeat(0.., preceded(ws("&&"), atom)))
         .map(|(head, tail): (_, Vec<_>)| {
             tail.into_iter().fold(head, |prev, next| prev & next)
         })
@@ -353,30 +331,19 @@ fn parse_field_and_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
 fn parse_field_composite_matcher(
     i: &mut &[u8],
 ) -> ModalResult<FieldMatcher> {
-    alt((
-        parse_field_or_matcher,
-        parse_field_xor_matcher,
-        parse_field_and_matcher,
-    ))
-    .parse_next(i)
+    parse_field_or_matcher.parse_next(i)
 }
 
 /// Parse a [FieldMatcher] expression.
 pub(crate) fn parse_field_matcher(
     i: &mut &[u8],
 ) -> ModalResult<FieldMatcher> {
-    ws(alt((
-        parse_field_composite_matcher,
-        parse_field_group_matcher,
-        parse_field_not_matcher,
-        parse_field_singleton_matcher,
-        parse_field_cardinality_matcher,
-    )))
-    .map(|matcher| {
-        group_level_reset();
-        matcher
-    })
-    .parse_next(i)
+    ws(parse_field_composite_matcher)
+        .map(|matcher| {
+            group_level_reset();
+            matcher
+        })
+        .parse_next(i)
 }
 
 #[cfg(test)]
diff --git a/src/matcher/subfield/parser.rs b/src/matcher/subfield/parser.rs
index 6ee7d52..dd1a4a8 100644
--- a/src/matcher/subfield/parser.rs
+++ b/src/matcher/subfield/parser.rs
@@ -312,12 +312,7 @@ fn parse_subfield_group_matcher(
 ) -> ModalResult<SubfieldMatcher> {
     delimited(
         terminated(ws('('), group_level_inc),
-        alt((
-            parse_subfield_composite_matcher,
-            parse_subfield_singleton_matcher,
-            parse_subfield_not_matcher,
-            parse_subfield_group_matcher,
-        )),
+        parse_subfield_composite_matcher,
         ws(')').map(|_| group_level_dec),
     )
     .map(|m| SubfieldMatcher::Group(Box::new(m)))
@@ -353,18 +348,10 @@ fn parse_subfield_not_matcher(
 fn parse_subfield_or_matcher(
     i: &mut &[u8],
 ) -> ModalResult<SubfieldMatcher> {
-    let atom = |i: &mut &[u8]| -> ModalResult<SubfieldMatcher> {
-        ws(alt((
-            parse_subfield_and_matcher,
-            parse_subfield_xor_matcher,
-            parse_subfield_group_matcher,
-            parse_subfield_singleton_matcher,
-            parse_subfield_not_matcher,
-        )))
-        .parse_next(i)
-    };
-
-    (atom, repeat(1.., preceded("||", atom)))
+    (
+        parse_subfield_xor_matcher,
+        repeat(0.., preceded("||", parse_subfield_xor_matcher)),
+    )
         .map(|(head, tail): (_, Vec<_>)| {
             tail.into_iter().fold(head, |prev, next| prev | next)
         })
@@ -374,17 +361,13 @@ fn parse_subfield_or_matcher(
 fn parse_subfield_xor_matcher(
     i: &mut &[u8],
 ) -> ModalResult<SubfieldMatcher> {
-    let atom = |i: &mut &[u8]| -> ModalResult<SubfieldMatcher> {
-        ws(alt((
-            parse_subfield_and_matcher,
-            parse_subfield_group_matcher,
-            parse_subfield_singleton_matcher,
-            parse_subfield_not_matcher,
-        )))
-        .parse_next(i)
-    };
-
-    (atom, repeat(1.., preceded(alt(("^", "XOR")), atom)))
+    (
+        parse_subfield_and_matcher,
+        repeat(
+            0..,
+            preceded(alt(("^", "XOR")), parse_subfield_and_matcher),
+        ),
+    )
         .map(|(head, tail): (_, Vec<_>)| {
             tail.into_iter().fold(head, |prev, next| prev ^ next)
         })
@@ -403,7 +386,7 @@ fn parse_subfield_and_matcher(
         .parse_next(i)
     };
 
-    (atom, repeat(1.., preceded("&&", atom)))
+    (atom, repeat(0.., preceded("&&", atom)))
         .map(|(head, tail): (_, Vec<_>)| {
             tail.into_iter().fold(head, |prev, next| prev & next)
         })
@@ -414,28 +397,18 @@ fn parse_subfield_and_matcher(
 fn parse_subfield_composite_matcher(
     i: &mut &[u8],
 ) -> ModalResult<SubfieldMatcher> {
-    alt((
-        parse_subfield_or_matcher,
-        parse_subfield_xor_matcher,
-        parse_subfield_and_matcher,
-    ))
-    .parse_next(i)
+    parse_subfield_or_matcher.parse_next(i)
 }
 
 pub(crate) fn parse_subfield_matcher(
     i: &mut &[u8],
 ) -> ModalResult<SubfieldMatcher> {
-    alt((
-        parse_subfield_composite_matcher,
-        parse_subfield_singleton_matcher,
-        parse_subfield_group_matcher,
-        parse_subfield_not_matcher,
-    ))
-    .map(|matcher| {
-        group_level_reset();
-        matcher
-    })
-    .parse_next(i)
+    parse_subfield_composite_matcher
+        .map(|matcher| {
+            group_level_reset();
+            matcher
+        })
+        .parse_next(i)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 04b5fcfe424ef0a441af0650cf33fe9deaea5b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:54 +0000
Subject: [PATCH 12/33] fix: matcher group nesting counts depth only,
 independent of earlier parses

---
 src/matcher/field/parser.rs    | 23 ++++++++---------------
 src/matcher/subfield/parser.rs | 23 ++++++++---------------
 2 files changed, 16 insertions(+), 30 deletions(-)

diff --git a/src/matcher/field/parser.rs b/src/matcher/field/parser.rs
index f135ed0..c107a2c 100644
--- a/src/matcher/field/parser.rs
+++ b/src/matcher/field/parser.rs
@@ -232,14 +232,11 @@ thread_local! {
         = const { RefCell::new(0) };
 }
 
-fn group_level_reset() {
-    FIELD_MATCHER_GROUP_LEVEL.with(|level| *level.borrow_mut() = 0);
-}
-
 fn group_level_inc(i: &mut &[u8]) -> ModalResult<()> {
     FIELD_MATCHER_GROUP_LEVEL.with(|level| {
         *level.borrow_mut() += 1;
         if *level.borrow() >= 256 {
+            *level.borrow_mut() -= 1;
             Err(winnow::error::ErrMode::from_input(i))
         } else {
             Ok(())
@@ -257,13 +254,13 @@ fn group_level_dec() {
 fn parse_field_group_matcher(
     i: &mut &[u8],
 ) -> ModalResult<FieldMatcher> {
-    delimited(
-        terminated(ws('('), group_level_inc),
-        parse_field_composite_matcher,
-        ws(')').map(|_| group_level_dec()),
-    )
-    .map(|matcher| FieldMatcher::Group(Box::new(matcher)))
-    .parse_next(i)
+    terminated(ws('('), group_level_inc).parse_next(i)?;
+    let result = terminated(parse_field_composite_matcher, ws(')'))
+        .map(|matcher| FieldMatcher::Group(Box::new(matcher)))
+        .parse_next(i);
+
+    group_level_dec();
+    result
 }
 
 #[inline]
@@ -339,10 +336,6 @@ pub(crate) fn parse_field_matcher(
     i: &mut &[u8],
 ) -> ModalResult<FieldMatcher> {
     ws(parse_field_composite_matcher)
-        .map(|matcher| {
-            group_level_reset();
-            matcher
-        })
         .parse_next(i)
 }
 
diff --git a/src/matcher/subfield/parser.rs b/src/matcher/subfield/parser.rs
index dd1a4a8..d679dca 100644
--- a/src/matcher/subfield/parser.rs
+++ b/src/matcher/subfield/parser.rs
@@ -285,14 +285,11 @@ thread_local! {
         = const { RefCell::new(0) };
 }
 
-fn group_level_reset() {
-    SUBFIELD_MATCHER_GROUP_LEVEL.with(|level| *level.borrow_mut() = 0);
-}
-
 fn group_level_inc(i: &mut &[u8]) -> ModalResult<()> {
     SUBFIELD_MATCHER_GROUP_LEVEL.with(|level| {
         *level.borrow_mut() += 1;
         if *level.borrow() >= 256 {
+            *level.borrow_mut() -= 1;
             Err(winnow::error::ErrMode::from_input(i))
         } else {
             Ok(())
@@ -310,13 +307,13 @@ fn group_level_dec() {
 fn parse_subfield_group_matcher(
     i: &mut &[u8],
 ) -> ModalResult<SubfieldMatcher> {
-    delimited(
-        terminated(ws('('), group_level_inc),
-        parse_subfield_composite_matcher,
-        ws(')').map(|_| group_level_dec),
-    )
-    .map(|m| SubfieldMatcher::Group(Box::new(m)))
-    .parse_next(i)
+    terminated(ws('('), group_level_inc).parse_next(i)?;
+    let result = terminated(parse_subfield_composite_matcher, ws(')'))
+        .map(|m| SubfieldMatcher::Group(Box::new(m)))
+        .parse_next(i);
+
+    group_level_dec();
+    result
 }
 
 #[inline(always)]
@@ -404,10 +401,6 @@ pub(crate) fn parse_subfield_matcher(
     i: &mut &[u8],
 ) -> ModalResult<SubfieldMatcher> {
     parse_subfield_composite_matcher
-        .map(|matcher| {
-            group_level_reset();
-            matcher
-        })
         .parse_next(i)
 }
 
-- 
2.43.0


From 0f5f34329e628863dad23c7a18799b34432ccc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 13/33] fix: the format parser's nesting limit no longer
 depends on earlier parses

---
 src/fmt/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fmt/parser.rs b/src/fmt/parser.rs
index 8882592..201c002 100644
--- a/src/fmt/parser.rs
+++ b/src/fmt/parser.rs
@@ -16,6 +16,7 @@ use crate::matcher::tag::parse_tag_matcher;
 use crate::parser::{parse_string, parse_subfield_codes, ws};
 
 pub(crate) fn parse_format(i: &mut &[u8]) -> ModalResult<Format> {
+    group_level_reset();
     (
         parse_tag_matcher,
         parse_occurrence_matcher,
@@ -55,6 +56,10 @@ thread_local! {
     pub static GROUP_LEVEL: RefCell<u32> = const { RefCell::new(0) };
 }
 
+fn group_level_reset() {
+    GROUP_LEVEL.with(|level| *level.borrow_mut() = 0);
+}
+
 fn group_level_inc(i: &mut &[u8]) -> ModalResult<()> {
     GROUP_LEVEL.with(|level| {
         *level.borrow_mut() += 1;
-- 
2.43.0


From 7395550016ee65ad515c2718618115c8a71a3da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:53 +0000
Subject: [PATCH 14/33] fix: options missing in a config file take their
 defaults instead of panicking

---
 crates/pica-cli/src/config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/pica-cli/src/config.rs b/crates/pica-cli/src/config.rs
index 9905247..63b08f6 100644
--- a/crates/pica-cli/src/config.rs
+++ b/crates/pica-cli/src/config.rs
@@ -7,7 +7,7 @@ use serde::{Deserialize, Serialize};
 use crate::prelude::*;
 
 #[derive(Debug, Default, Serialize, Deserialize)]
-#[serde(rename_all = "kebab-case")]
+#[serde(rename_all = "kebab-case", default)]
 pub(crate) struct Config {
     /// The path of the config.
     #[serde(skip)]
-- 
2.43.0


From d6d0f2b36a67c5ca3834237ab6fcb9dd607b375d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:24 +0000
Subject: [PATCH 15/33] fix: slice refuses --append with --gzip instead of
 panicking

---
 crates/pica-cli/src/commands/slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/pica-cli/src/commands/slice.rs b/crates/pica-cli/src/commands/slice.rs
index a23bea4..b9606f9 100644
--- a/crates/pica-cli/src/commands/slice.rs
+++ b/crates/pica-cli/src/commands/slice.rs
@@ -58,7 +58,7 @@ pub(crate) struct Slice {
     gzip: bool,
 
     /// Append to the given file, do not overwrite
-    #[arg(long, short)]
+    #[arg(long, short, conflicts_with = "gzip")]
     append: bool,
 
     /// Show progress bar (requires `-o`/`--output`).
-- 
2.43.0


From 0796b255c94637383cd6a5c1f6ffc556277ace42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:17 +0000
Subject: [PATCH 16/33] fix: report a single empty value in the allow,
 iso639-2b, jelc and link checks

---
 crates/pica-cli/src/commands/check/checks/allow.rs  | 9 ++++-----
 crates/pica-cli/src/commands/check/checks/iso639.rs | 9 ++++-----
 crates/pica-cli/src/commands/check/checks/jelc.rs   | 9 ++++-----
 crates/pica-cli/src/commands/check/checks/link.rs   | 9 ++++-----
 4 files changed, 16 insertions(+), 20 deletions(-)

diff --git a/crates/pica-cli/src/commands/check/checks/allow.rs b/crates/pica-cli/src/commands/check/checks/allow.rs
index 9a8032d..8eb9ee9 100644
--- a/crates/pica-cli/src/commands/check/checks/allow.rs
+++ b/crates/pica-cli/src/commands/check/checks/allow.rs
@@ -54,15 +54,14 @@ impl Allow {
             .strsim_threshold(self.strsim_threshold)
             .case_ignore(self.case_ignore);
 
-        let message = record
+        let values = record
             .path(&self.path, &options)
             .filter(|value| !self.values.contains(value.as_bstr()))
             .map(ToString::to_string)
-            .collect::<Vec<_>>()
-            .join(", ");
+            .collect::<Vec<_>>();
 
-        if !message.is_empty() {
-            (true, Some(message))
+        if !values.is_empty() {
+            (true, Some(values.join(", ")))
         } else {
             (false, None)
         }
diff --git a/crates/pica-cli/src/commands/check/checks/iso639.rs b/crates/pica-cli/src/commands/check/checks/iso639.rs
index ae39956..f073cb5 100644
--- a/crates/pica-cli/src/commands/check/checks/iso639.rs
+++ b/crates/pica-cli/src/commands/check/checks/iso639.rs
@@ -90,15 +90,14 @@ impl Iso639 {
             .strsim_threshold(self.strsim_threshold)
             .case_ignore(self.case_ignore);
 
-        let message = record
+        let values = record
             .path(&self.path, &options)
             .filter(|value| !CODES.contains(value.as_bstr()))
             .map(ToString::to_string)
-            .collect::<Vec<_>>()
-            .join(", ");
+            .collect::<Vec<_>>();
 
-        if !message.is_empty() {
-            (true, Some(message))
+        if !values.is_empty() {
+            (true, Some(values.join(", ")))
         } else {
             (false, None)
         }
diff --git a/crates/pica-cli/src/commands/check/checks/jelc.rs b/crates/pica-cli/src/commands/check/checks/jelc.rs
index aa09efa..f5ec209 100644
--- a/crates/pica-cli/src/commands/check/checks/jelc.rs
+++ b/crates/pica-cli/src/commands/check/checks/jelc.rs
@@ -149,15 +149,14 @@ impl Jel {
             .strsim_threshold(self.strsim_threshold)
             .case_ignore(self.case_ignore);
 
-        let message = record
+        let values = record
             .path(&self.path, &options)
             .filter(|value| !CODES.contains(value.as_bstr()))
             .map(ToString::to_string)
-            .collect::<Vec<_>>()
-            .join(", ");
+            .collect::<Vec<_>>();
 
-        if !message.is_empty() {
-            (true, Some(message))
+        if !values.is_empty() {
+            (true, Some(values.join(", ")))
         } else {
             (false, None)
         }
diff --git a/crates/pica-cli/src/commands/check/checks/link.rs b/crates/pica-cli/src/commands/check/checks/link.rs
index ed5f14b..a3433c6 100644
--- a/crates/pica-cli/src/commands/check/checks/link.rs
+++ b/crates/pica-cli/src/commands/check/checks/link.rs
@@ -87,15 +87,14 @@ impl Link {
         let mut result = vec![];
 
         for (ppn, values) in self.unseen.iter() {
-            let message = values
+            let values = values
                 .iter()
                 .filter(|k| !self.seen.contains(k.as_bstr()))
                 .map(ToString::to_string)
-                .collect::<Vec<_>>()
-                .join(", ");
+                .collect::<Vec<_>>();
 
-            if !message.is_empty() {
-                result.push((ppn.to_owned(), Some(message)));
+            if !values.is_empty() {
+                result.push((ppn.to_owned(), Some(values.join(", "))));
             }
         }
 
-- 
2.43.0


From 7a8fd08587aa6976bc1042a176a563c1b9332a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:37 +0000
Subject: [PATCH 17/33] fix: do not take other characters for digits in the
 isni check

---
 crates/pica-cli/src/commands/check/checks/isni.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/pica-cli/src/commands/check/checks/isni.rs b/crates/pica-cli/src/commands/check/checks/isni.rs
index 9dc8a9d..630e704 100644
--- a/crates/pica-cli/src/commands/check/checks/isni.rs
+++ b/crates/pica-cli/src/commands/check/checks/isni.rs
@@ -42,7 +42,9 @@ impl Isni {
                 })
                 .collect();
 
-            if digits.len() != 16 {
+            if digits.len() != 16
+                || digits[0..15].iter().any(|digit| *digit > 9)
+            {
                 messages.push(value.to_string());
                 retval = true;
                 continue;
-- 
2.43.0


From 9275ff3432793aa0932c849b02d2674a0b213f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:39 +0000
Subject: [PATCH 18/33] fix: check ends quietly when its output pipe is closed

---
 crates/pica-cli/src/main.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/pica-cli/src/main.rs b/crates/pica-cli/src/main.rs
index a8ed112..338c976 100644
--- a/crates/pica-cli/src/main.rs
+++ b/crates/pica-cli/src/main.rs
@@ -3,6 +3,7 @@ use std::process::ExitCode;
 
 use clap::{CommandFactory, Parser};
 use cli::{Args, Command};
+use commands::check::writer::Error as CheckError;
 use config::Config;
 use error::{CliError, CliResult};
 
@@ -54,6 +55,13 @@ fn is_broken_pipe(err: &csv::Error) -> bool {
     )
 }
 
+fn is_check_broken_pipe(err: &CheckError) -> bool {
+    match err {
+        CheckError::IO(e) => e.kind() == ErrorKind::BrokenPipe,
+        CheckError::Csv(e) => is_broken_pipe(e),
+    }
+}
+
 fn main() -> ExitCode {
     match run() {
         Ok(code) => code,
@@ -65,6 +73,9 @@ fn main() -> ExitCode {
         Err(CliError::Csv(err)) if is_broken_pipe(&err) => {
             ExitCode::SUCCESS
         }
+        Err(CliError::Check(err)) if is_check_broken_pipe(&err) => {
+            ExitCode::SUCCESS
+        }
         Err(err) => {
             eprintln!("error: {err}");
             ExitCode::from(2)
-- 
2.43.0


From 1f8bd9a9e0c951351761b259c2426372400d3ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:50 +0000
Subject: [PATCH 19/33] fix: completions reports a failing output instead of
 panicking

---
 crates/pica-cli/src/commands/completions.rs | 22 ++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/crates/pica-cli/src/commands/completions.rs b/crates/pica-cli/src/commands/completions.rs
index 38272ce..f92abe1 100644
--- a/crates/pica-cli/src/commands/completions.rs
+++ b/crates/pica-cli/src/commands/completions.rs
@@ -23,20 +23,24 @@ impl Completions {
     pub(crate) fn execute(self, cmd: &mut Command) -> CliResult {
         use Shell::*;
 
-        let mut wtr: Box<dyn Write> = match self.output {
-            Some(filename) => Box::new(File::create(filename)?),
-            None => Box::new(io::stdout().lock()),
-        };
+        // `generate` panics when its writer fails.
+        let mut buf = Vec::new();
 
         match self.shell {
-            Bash => generate(Bash, cmd, "pica", &mut wtr),
-            Elvish => generate(Elvish, cmd, "pica", &mut wtr),
-            Fish => generate(Fish, cmd, "pica", &mut wtr),
-            PowerShell => generate(PowerShell, cmd, "pica", &mut wtr),
-            Zsh => generate(Zsh, cmd, "pica", &mut wtr),
+            Bash => generate(Bash, cmd, "pica", &mut buf),
+            Elvish => generate(Elvish, cmd, "pica", &mut buf),
+            Fish => generate(Fish, cmd, "pica", &mut buf),
+            PowerShell => generate(PowerShell, cmd, "pica", &mut buf),
+            Zsh => generate(Zsh, cmd, "pica", &mut buf),
             _ => unreachable!(),
         }
 
+        let mut wtr: Box<dyn Write> = match self.output {
+            Some(filename) => Box::new(File::create(filename)?),
+            None => Box::new(io::stdout().lock()),
+        };
+
+        wtr.write_all(&buf)?;
         wtr.flush()?;
 
         Ok(ExitCode::SUCCESS)
-- 
2.43.0


From 80b073d803bb732439d26a71b71d3500d4eaeb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:50 +0000
Subject: [PATCH 20/33] fix: config and describe report a failing standard
 output instead of panicking

---
 crates/pica-cli/src/commands/config.rs   | 12 +++++++-----
 crates/pica-cli/src/commands/describe.rs |  3 ++-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/pica-cli/src/commands/config.rs b/crates/pica-cli/src/commands/config.rs
index 49a3c86..f525f75 100644
--- a/crates/pica-cli/src/commands/config.rs
+++ b/crates/pica-cli/src/commands/config.rs
@@ -1,3 +1,4 @@
+use std::io::{self, Write};
 use std::process::ExitCode;
 
 use clap::Parser;
@@ -28,14 +29,15 @@ pub(crate) struct Config {
 }
 
 #[inline]
-fn print_option<T: ToString>(value: Option<T>) {
-    println!(
+fn print_option<T: ToString>(value: Option<T>) -> io::Result<()> {
+    writeln!(
+        io::stdout(),
         "{}",
         match value {
             Some(value) => value.to_string(),
             None => "None".to_string(),
         }
-    );
+    )
 }
 
 impl Config {
@@ -88,10 +90,10 @@ impl Config {
         } else if self.get || (!self.unset && !self.set) {
             match name {
                 "skip-invalid" => {
-                    print_option(Some(&config.skip_invalid));
+                    print_option(Some(&config.skip_invalid))?;
                 }
                 "normalization" => {
-                    print_option(config.normalization.as_ref())
+                    print_option(config.normalization.as_ref())?;
                 }
                 _ => unreachable!(),
             }
diff --git a/crates/pica-cli/src/commands/describe.rs b/crates/pica-cli/src/commands/describe.rs
index bcd0803..504d798 100644
--- a/crates/pica-cli/src/commands/describe.rs
+++ b/crates/pica-cli/src/commands/describe.rs
@@ -1,5 +1,6 @@
 use std::ffi::OsString;
 use std::fs::File;
+use std::io::{self, Write};
 use std::process::ExitCode;
 
 use clap::Parser;
@@ -164,7 +165,7 @@ impl Describe {
                     tmp_env::set_var("POLARS_FMT_MAX_ROWS", "50"),
                 );
 
-                println!("{df}");
+                writeln!(io::stdout(), "{df}")?;
             }
             Some(path)
                 if path.to_string_lossy().ends_with(".tsv")
-- 
2.43.0


From c4101a05511cff3c8cd45f25cab259dc347e1c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:25 +0000
Subject: [PATCH 21/33] fix: report output lost when finishing a gzip stream on
 stdout

GzipWriter::finish wrote the gzip trailer but left the bytes in the
buffer of the inner writer, so that a failing stdout went unnoticed
and 'filter -g' or 'slice -g' ended with exit code 0.
---
 src/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/writer.rs b/src/writer.rs
index 0ed8669..2edc310 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -220,6 +220,6 @@ impl<W: Write> ByteRecordWrite for GzipWriter<W> {
     #[inline(always)]
     fn finish(&mut self) -> io::Result<()> {
         self.0.try_finish()?;
-        Ok(())
+        self.0.get_mut().flush()
     }
 }
-- 
2.43.0


From e2d67f97e21c112defd017380ef870e45c36e4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:42 +0000
Subject: [PATCH 22/33] fix: reject regular expressions that cannot be compiled
 as they are used

A set of patterns was accepted if every single pattern compiles, but
the matcher compiles them as a set, and ignoring case on demand: a set
beyond the size limit of the regex crate panicked on the first record.
---
 src/matcher/subfield/parser.rs | 39 +++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/matcher/subfield/parser.rs b/src/matcher/subfield/parser.rs
index d679dca..328a7ca 100644
--- a/src/matcher/subfield/parser.rs
+++ b/src/matcher/subfield/parser.rs
@@ -2,7 +2,7 @@ use std::cell::RefCell;
 
 use bstr::ByteSlice;
 use hashbrown::HashSet;
-use regex::bytes::Regex;
+use regex::bytes::{RegexBuilder, RegexSetBuilder};
 use winnow::ascii::{digit1, multispace1};
 use winnow::combinator::{
     alt, delimited, opt, preceded, repeat, separated, terminated,
@@ -117,6 +117,27 @@ pub(crate) fn parse_contains_matcher(
 }
 
 /// Parse a [RegexMatcher] expression.
+/// Whether the pattern can be compiled, with and without ignoring case.
+fn is_regex(pattern: &str) -> bool {
+    [false, true].into_iter().all(|case_ignore| {
+        RegexBuilder::new(pattern)
+            .case_insensitive(case_ignore)
+            .build()
+            .is_ok()
+    })
+}
+
+/// Whether the patterns can be compiled into a set, with and without
+/// ignoring case.
+fn is_regex_set(patterns: &[String]) -> bool {
+    [false, true].into_iter().all(|case_ignore| {
+        RegexSetBuilder::new(patterns)
+            .case_insensitive(case_ignore)
+            .build()
+            .is_ok()
+    })
+}
+
 pub(crate) fn parse_regex_matcher(
     i: &mut &[u8],
 ) -> ModalResult<RegexMatcher> {
@@ -124,9 +145,9 @@ pub(crate) fn parse_regex_matcher(
         opt(ws(parse_quantifier)).map(Option::unwrap_or_default),
         ws(parse_subfield_codes),
         ws(alt(("=~".value(false), "!~".value(true)))),
-        parse_string.verify_map(|re| {
-            String::from_utf8(re).ok().filter(|s| Regex::new(s).is_ok())
-        }),
+        parse_string
+            .verify_map(|re| String::from_utf8(re).ok())
+            .verify(|re: &str| is_regex(re)),
     )
         .with_taken()
         .map(|((quantifier, codes, invert, re), raw_data)| {
@@ -155,13 +176,11 @@ pub(crate) fn parse_regex_set_matcher(
             terminated(
                 separated(
                     1..,
-                    parse_string.verify_map(|re| {
-                        String::from_utf8(re)
-                            .ok()
-                            .filter(|s| Regex::new(s).is_ok())
-                    }),
+                    parse_string
+                        .verify_map(|re| String::from_utf8(re).ok()),
                     ws(','),
-                ),
+                )
+                .verify(|set: &Vec<String>| is_regex_set(set)),
                 opt(ws(',')),
             ),
             ws(']'),
-- 
2.43.0


From bb5071d2fb197589ca994700137eb57918aa02e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:14 +0000
Subject: [PATCH 23/33] fix: read a quantifier in front of a negated exists
 matcher

---
 src/matcher/field/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matcher/field/parser.rs b/src/matcher/field/parser.rs
index c107a2c..2f2a113 100644
--- a/src/matcher/field/parser.rs
+++ b/src/matcher/field/parser.rs
@@ -191,7 +191,7 @@ fn parse_field_exists_matcher(
             FieldMatcher::Singleton(SingletonMatcher::Exists(matcher))
         }),
         (
-            opt(parse_quantifier).map(Option::unwrap_or_default),
+            opt(ws(parse_quantifier)).map(Option::unwrap_or_default),
             parse_tag_matcher,
             parse_occurrence_matcher,
             alt((
-- 
2.43.0


From 74ada0105fdff61d6ca263f3b4f225273a36dfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:55 +0000
Subject: [PATCH 24/33] fix: forget the cached bytes of a record when its
 fields are borrowed mutably

---
 src/record.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/record.rs b/src/record.rs
index b9776d9..c5fb60a 100644
--- a/src/record.rs
+++ b/src/record.rs
@@ -222,6 +222,7 @@ impl<'a> Deref for ByteRecord<'a> {
 impl DerefMut for ByteRecord<'_> {
     #[inline]
     fn deref_mut(&mut self) -> &mut Self::Target {
+        self.raw_data = None;
         &mut self.record
     }
 }
-- 
2.43.0


From 6555916d2e8374f17978ee5ca87b9573a1cde3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:05 +0000
Subject: [PATCH 25/33] fix: count, explode, check, filter: read the
 expressions and lists before the output is created

A mistyped expression, a missing list, rule set or expression file ended
these commands only after they had truncated the output file (or, with
gzip, had begun a stream on stdout).
---
 crates/pica-cli/src/commands/check/mod.rs |  3 ++-
 crates/pica-cli/src/commands/count.rs     | 12 ++++-----
 crates/pica-cli/src/commands/explode.rs   |  8 +++---
 crates/pica-cli/src/commands/filter.rs    | 30 +++++++++++------------
 4 files changed, 27 insertions(+), 26 deletions(-)

diff --git a/crates/pica-cli/src/commands/check/mod.rs b/crates/pica-cli/src/commands/check/mod.rs
index 1c71cc2..9c9098a 100644
--- a/crates/pica-cli/src/commands/check/mod.rs
+++ b/crates/pica-cli/src/commands/check/mod.rs
@@ -51,7 +51,6 @@ impl Check {
         let skip_invalid =
             self.filter_opts.skip_invalid || config.skip_invalid;
         let mut progress = Progress::new(self.progress);
-        let mut writer = Writer::from_path(self.output)?;
         let mut count = 0;
 
         let filter_set = FilterSet::try_from(&self.filter_opts)?;
@@ -99,6 +98,8 @@ impl Check {
 
         rulesets.retain(|rs| !rs.rules.is_empty());
 
+        let mut writer = Writer::from_path(self.output)?;
+
         'outer: for filename in self.filenames {
             let mut reader =
                 ReaderBuilder::new().from_path(filename)?;
diff --git a/crates/pica-cli/src/commands/count.rs b/crates/pica-cli/src/commands/count.rs
index 853efef..a7dd90c 100644
--- a/crates/pica-cli/src/commands/count.rs
+++ b/crates/pica-cli/src/commands/count.rs
@@ -64,6 +64,12 @@ impl Count {
             self.filter_opts.skip_invalid || config.skip_invalid;
         let mut progress = Progress::new(self.progress);
 
+        let filter_set = FilterSet::try_from(&self.filter_opts)?;
+        let options = MatcherOptions::from(&self.filter_opts);
+        let matcher = self
+            .filter_opts
+            .matcher(config.normalization.clone(), None)?;
+
         let mut writer: Box<dyn Write> = match self.output {
             Some(path) => Box::new(
                 OpenOptions::new()
@@ -76,12 +82,6 @@ impl Count {
             None => Box::new(io::stdout().lock()),
         };
 
-        let filter_set = FilterSet::try_from(&self.filter_opts)?;
-        let options = MatcherOptions::from(&self.filter_opts);
-        let matcher = self
-            .filter_opts
-            .matcher(config.normalization.clone(), None)?;
-
         let mut records = 0;
         let mut fields = 0;
         let mut subfields = 0;
diff --git a/crates/pica-cli/src/commands/explode.rs b/crates/pica-cli/src/commands/explode.rs
index 94736ee..5e3e986 100644
--- a/crates/pica-cli/src/commands/explode.rs
+++ b/crates/pica-cli/src/commands/explode.rs
@@ -152,16 +152,16 @@ impl Explode {
         let mut data = Vec::<u8>::new();
         let mut count = 0;
 
-        let mut writer = WriterBuilder::new()
-            .gzip(self.gzip)
-            .from_path_or_stdout(self.output)?;
-
         let filter_set = FilterSet::try_from(&self.filter_opts)?;
         let options = MatcherOptions::from(&self.filter_opts);
         let matcher = self
             .filter_opts
             .matcher(config.normalization.clone(), None)?;
 
+        let mut writer = WriterBuilder::new()
+            .gzip(self.gzip)
+            .from_path_or_stdout(self.output)?;
+
         let process = match self.level {
             Level::Main => process_main,
             Level::Local => process_local,
diff --git a/crates/pica-cli/src/commands/filter.rs b/crates/pica-cli/src/commands/filter.rs
index 531177e..9cf1e1f 100644
--- a/crates/pica-cli/src/commands/filter.rs
+++ b/crates/pica-cli/src/commands/filter.rs
@@ -172,21 +172,6 @@ impl Filter {
             .deny(&self.deny)
             .build()?;
 
-        let mut writer = WriterBuilder::new()
-            .append(self.append)
-            .gzip(self.gzip)
-            .from_path_or_stdout(self.output)?;
-
-        let mut tee_writer = match self.tee {
-            Some(path) => Some(
-                WriterBuilder::new()
-                    .append(self.append)
-                    .gzip(self.gzip)
-                    .from_path(path)?,
-            ),
-            None => None,
-        };
-
         let mut filenames = self.filenames;
         let filter_str = if let Some(filename) = self.expr_file {
             // This "hack" is necessary, because it's not possible to
@@ -217,6 +202,21 @@ impl Filter {
             .strsim_threshold(self.strsim_threshold as f64 / 100.0)
             .case_ignore(self.ignore_case);
 
+        let mut writer = WriterBuilder::new()
+            .append(self.append)
+            .gzip(self.gzip)
+            .from_path_or_stdout(self.output)?;
+
+        let mut tee_writer = match self.tee {
+            Some(path) => Some(
+                WriterBuilder::new()
+                    .append(self.append)
+                    .gzip(self.gzip)
+                    .from_path(path)?,
+            ),
+            None => None,
+        };
+
         let mut count = 0;
 
         'outer: for path in filenames {
-- 
2.43.0


From e8255d65fe50e4f820628db7fe2aa959449c5234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:05 +0000
Subject: [PATCH 26/33] fix: sample: do not allocate the whole sample in
 advance

A large sample size aborted the program although the input was small.
---
 crates/pica-cli/src/commands/sample.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/pica-cli/src/commands/sample.rs b/crates/pica-cli/src/commands/sample.rs
index d764f8d..4e88c51 100644
--- a/crates/pica-cli/src/commands/sample.rs
+++ b/crates/pica-cli/src/commands/sample.rs
@@ -66,8 +66,7 @@ impl Sample {
             None => StdRng::from_rng(&mut rng()),
         };
 
-        let mut reservoir: Vec<Vec<u8>> =
-            Vec::with_capacity(sample_size);
+        let mut reservoir: Vec<Vec<u8>> = Vec::new();
 
         'outer: for filename in self.filenames {
             let mut reader =
-- 
2.43.0


From 325ce4998a1b30b0c294319581b9b3331c4e2323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:40 +0000
Subject: [PATCH 27/33] fix: partition: name files by the bytes of the value
 and open each file once

Values that are not valid UTF-8 were turned into replacement characters
for the file name, so different values, or any values with a template
without {}, shared one file that was opened and truncated several times
and lost records.
---
 crates/pica-cli/src/commands/partition.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/crates/pica-cli/src/commands/partition.rs b/crates/pica-cli/src/commands/partition.rs
index cf60513..d710b32 100644
--- a/crates/pica-cli/src/commands/partition.rs
+++ b/crates/pica-cli/src/commands/partition.rs
@@ -3,6 +3,7 @@ use std::fs;
 use std::path::PathBuf;
 use std::process::ExitCode;
 
+use bstr::ByteSlice;
 use clap::Parser;
 use hashbrown::hash_map::{Entry, HashMap};
 use pica_record::prelude::*;
@@ -110,18 +111,21 @@ impl Partition {
                         values.sort_unstable();
                         values.dedup();
 
-                        for value in values {
-                            let mut entry =
-                                writers.entry(value.to_vec());
+                        let mut names: Vec<_> = values
+                            .into_iter()
+                            .map(|value| {
+                                template.as_bytes().replace("{}", value)
+                            })
+                            .collect();
+                        names.dedup();
+
+                        for name in names {
+                            let mut entry = writers.entry(name);
                             let writer = match entry {
                                 Entry::Vacant(vacant) => {
-                                    let filename = template.replace(
-                                        "{}",
-                                        &value.to_string(),
+                                    let path = self.outdir.join(
+                                        vacant.key().to_path_lossy(),
                                     );
-
-                                    let path =
-                                        self.outdir.join(filename);
                                     let writer = WriterBuilder::new()
                                         .gzip(self.gzip)
                                         .from_path(path)?;
-- 
2.43.0


From a3e5880f45de031e4259c78b60807af225719822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:40 +0000
Subject: [PATCH 28/33] fix: concat: compare identifiers byte by byte

Different identifiers that are not valid UTF-8 became equal by their
replacement characters, and the later record was lost.
---
 crates/pica-cli/src/commands/concat.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/crates/pica-cli/src/commands/concat.rs b/crates/pica-cli/src/commands/concat.rs
index af327a5..ae60704 100644
--- a/crates/pica-cli/src/commands/concat.rs
+++ b/crates/pica-cli/src/commands/concat.rs
@@ -1,5 +1,4 @@
 use std::ffi::OsString;
-use std::fmt::Write;
 use std::process::ExitCode;
 
 use clap::{Parser, ValueEnum};
@@ -74,17 +73,12 @@ pub(crate) enum Strategy {
 }
 
 #[inline]
-fn record_key(record: &ByteRecord, strategy: &Strategy) -> String {
+fn record_key(record: &ByteRecord, strategy: &Strategy) -> Vec<u8> {
     match strategy {
         Strategy::Idn => {
-            record.ppn().map(ToString::to_string).unwrap_or_default()
-        },
-        Strategy::Hash => {
-            record.sha256().iter().fold(String::new(), |mut out, b| {
-                let _ = write!(out, "{b:02x}");
-                out
-            })
+            record.ppn().map(|ppn| ppn.to_vec()).unwrap_or_default()
         }
+        Strategy::Hash => record.sha256(),
     }
 }
 
-- 
2.43.0


From e7fc55bab1ed8d94469817181dbb980cd6ad7f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:55 +0000
Subject: [PATCH 29/33] fix: partition: do not write outside of OUTDIR

A value like ../x put the partition into another directory.
---
 crates/pica-cli/src/commands/partition.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/crates/pica-cli/src/commands/partition.rs b/crates/pica-cli/src/commands/partition.rs
index d710b32..860d104 100644
--- a/crates/pica-cli/src/commands/partition.rs
+++ b/crates/pica-cli/src/commands/partition.rs
@@ -1,6 +1,6 @@
 use std::ffi::OsString;
 use std::fs;
-use std::path::PathBuf;
+use std::path::{Component, PathBuf};
 use std::process::ExitCode;
 
 use bstr::ByteSlice;
@@ -56,6 +56,14 @@ pub(crate) struct Partition {
     filter_opts: FilterOpts,
 }
 
+/// Whether the file name leads out of the directory it is put in.
+#[inline]
+fn is_outside(name: &[u8]) -> bool {
+    name.to_path_lossy()
+        .components()
+        .any(|component| !matches!(component, Component::Normal(_)))
+}
+
 impl Partition {
     pub(crate) fn execute(self, config: &Config) -> CliResult {
         let skip_invalid =
@@ -123,6 +131,17 @@ impl Partition {
                             let mut entry = writers.entry(name);
                             let writer = match entry {
                                 Entry::Vacant(vacant) => {
+                                    if is_outside(vacant.key())
+                                        && !is_outside(
+                                            template.as_bytes(),
+                                        )
+                                    {
+                                        bail!(
+                                            "invalid partition name `{}`",
+                                            vacant.key().as_bstr()
+                                        );
+                                    }
+
                                     let path = self.outdir.join(
                                         vacant.key().to_path_lossy(),
                                     );
-- 
2.43.0


From dd2f4c54ee29484408fbbd64f1c55cd66285e3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:34 +0000
Subject: [PATCH 30/33] fix: config: keep the old configuration if the new one
 cannot be written

The file was truncated before it was written, so all options were lost
when writing failed or the run was interrupted.
---
 crates/pica-cli/src/config.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/crates/pica-cli/src/config.rs b/crates/pica-cli/src/config.rs
index 63b08f6..7ed514c 100644
--- a/crates/pica-cli/src/config.rs
+++ b/crates/pica-cli/src/config.rs
@@ -83,8 +83,7 @@ impl Config {
 
     /// Saves the config.
     pub(crate) fn save(&self) -> io::Result<()> {
-        use std::fs::{File, create_dir_all};
-        use std::io::Write;
+        use std::fs::create_dir_all;
 
         if let Some(parent) = self.path.parent()
             && !parent.is_dir()
@@ -93,8 +92,26 @@ impl Config {
         }
 
         let content = toml::to_string(self).unwrap();
-        let mut out = File::create(&self.path)?;
-        out.write_all(content.as_bytes())?;
-        Ok(())
+
+        // The file is replaced as a whole, so that the old configuration
+        // is still there if writing the new one fails.
+        let path =
+            fs::canonicalize(&self.path).unwrap_or(self.path.clone());
+        if !path.is_file() && path.exists() {
+            return fs::write(&path, content);
+        }
+
+        let mut tmp = path.clone().into_os_string();
+        tmp.push(format!(".{}.tmp", std::process::id()));
+
+        fs::write(&tmp, content)
+            .and_then(|_| match fs::metadata(&path) {
+                Ok(m) => fs::set_permissions(&tmp, m.permissions()),
+                Err(_) => Ok(()),
+            })
+            .and_then(|_| fs::rename(&tmp, &path))
+            .inspect_err(|_| {
+                let _ = fs::remove_file(&tmp);
+            })
     }
 }
-- 
2.43.0


From 7d852042c17d9a637fb02d9adbc925804a05e998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:36 +0000
Subject: [PATCH 31/33] fix: matcher: count negations towards the nesting limit

Thousands of consecutive ! overflowed the stack.
---
 src/matcher/field/parser.rs    | 25 +++++++++++++------------
 src/matcher/subfield/parser.rs | 19 ++++++++++---------
 2 files changed, 23 insertions(+), 21 deletions(-)

diff --git a/src/matcher/field/parser.rs b/src/matcher/field/parser.rs
index 2f2a113..6e7795c 100644
--- a/src/matcher/field/parser.rs
+++ b/src/matcher/field/parser.rs
@@ -265,19 +265,20 @@ fn parse_field_group_matcher(
 
 #[inline]
 fn parse_field_not_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
-    preceded(
-        ws('!'),
-        alt((
-            parse_field_group_matcher,
-            parse_subfields_matcher_bracket
-                .map(SingletonMatcher::Subfields)
-                .map(FieldMatcher::Singleton),
-            parse_field_exists_matcher,
-            parse_field_not_matcher,
-        )),
-    )
+    terminated(ws('!'), group_level_inc).parse_next(i)?;
+    let result = alt((
+        parse_field_group_matcher,
+        parse_subfields_matcher_bracket
+            .map(SingletonMatcher::Subfields)
+            .map(FieldMatcher::Singleton),
+        parse_field_exists_matcher,
+        parse_field_not_matcher,
+    ))
     .map(|matcher| FieldMatcher::Not(Box::new(matcher)))
-    .parse_next(i)
+    .parse_next(i);
+
+    group_level_dec();
+    result
 }
 
 fn parse_field_or_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
diff --git a/src/matcher/subfield/parser.rs b/src/matcher/subfield/parser.rs
index 328a7ca..1bed9ea 100644
--- a/src/matcher/subfield/parser.rs
+++ b/src/matcher/subfield/parser.rs
@@ -349,16 +349,17 @@ fn parse_subfield_exists_matcher(
 fn parse_subfield_not_matcher(
     i: &mut &[u8],
 ) -> ModalResult<SubfieldMatcher> {
-    preceded(
-        ws('!'),
-        alt((
-            parse_subfield_group_matcher,
-            parse_subfield_exists_matcher,
-            parse_subfield_not_matcher,
-        )),
-    )
+    terminated(ws('!'), group_level_inc).parse_next(i)?;
+    let result = alt((
+        parse_subfield_group_matcher,
+        parse_subfield_exists_matcher,
+        parse_subfield_not_matcher,
+    ))
     .map(|matcher| SubfieldMatcher::Not(Box::new(matcher)))
-    .parse_next(i)
+    .parse_next(i);
+
+    group_level_dec();
+    result
 }
 
 fn parse_subfield_or_matcher(
-- 
2.43.0


From 87656a76a0d29c98b9f1fb1d3050affc8051a176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:48 +0000
Subject: [PATCH 32/33] fix: describe: write CSV if --csv is given, whatever
 the file is called

---
 crates/pica-cli/src/commands/describe.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/pica-cli/src/commands/describe.rs b/crates/pica-cli/src/commands/describe.rs
index 504d798..4bc1e35 100644
--- a/crates/pica-cli/src/commands/describe.rs
+++ b/crates/pica-cli/src/commands/describe.rs
@@ -168,8 +168,9 @@ impl Describe {
                 writeln!(io::stdout(), "{df}")?;
             }
             Some(path)
-                if path.to_string_lossy().ends_with(".tsv")
-                    || self.tsv =>
+                if self.tsv
+                    || (!self.csv
+                        && path.to_string_lossy().ends_with(".tsv")) =>
             {
                 let mut writer = CsvWriter::new(File::create(path)?)
                     .with_separator(b'\t');
-- 
2.43.0


From 3038f9f91b29cfa0f44a179865fc9b2b75e5f923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:35 +0000
Subject: [PATCH 33/33] fix: matcher: compare the similarity with the threshold
 exactly

1.0 - distance / max is rounded twice, so that a similarity equal to the
threshold could exceed it: 'abcdefghij' and a value that differs in seven
letters matched with a threshold of 30.
---
 src/matcher/subfield/mod.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/matcher/subfield/mod.rs b/src/matcher/subfield/mod.rs
index 447a492..df4dfb2 100644
--- a/src/matcher/subfield/mod.rs
+++ b/src/matcher/subfield/mod.rs
@@ -15,7 +15,7 @@ use parser::{
 };
 use regex::bytes::{RegexBuilder, RegexSetBuilder};
 use smallvec::SmallVec;
-use strsim::normalized_levenshtein;
+use strsim::levenshtein;
 use winnow::Parser;
 
 use super::{
@@ -349,13 +349,19 @@ impl RelationMatcher {
         let lhs = self.value.to_str_lossy();
         let rhs = rhs.to_str_lossy();
 
-        let score = if options.case_ignore {
-            normalized_levenshtein(
-                &lhs.to_lowercase(),
-                &rhs.to_lowercase(),
-            )
+        let (lhs, rhs) = if options.case_ignore {
+            (lhs.to_lowercase().into(), rhs.to_lowercase().into())
         } else {
-            normalized_levenshtein(&lhs, &rhs)
+            (lhs, rhs)
+        };
+
+        // `1.0 - distance / max` is subject to two roundings, which lets
+        // a similarity equal to the threshold exceed it (7 of 10 edits
+        // and a threshold of 0.3). The quotient below is rounded once.
+        let max = lhs.chars().count().max(rhs.chars().count());
+        let score = match max {
+            0 => 1.0,
+            _ => (max - levenshtein(&lhs, &rhs)) as f64 / max as f64,
         };
 
         score > options.strsim_threshold
-- 
2.43.0

