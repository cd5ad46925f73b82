From 4f7fa46f7af09d588e8d1c56b65d93eeb5ac6b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:23 +0000
Subject: [PATCH 01/23] fix: stop the expression loop at a token no infix rule
 consumes

`1 !2` looped forever: `!` has a precedence but no infix rule, so the loop
kept the left operand without advancing. Any response body containing such a
sequence (for example `Hello world!!`) hung the request.
---
 lib/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parser.rs b/lib/src/parser.rs
index bd473eb..38944e7 100644
--- a/lib/src/parser.rs
+++ b/lib/src/parser.rs
@@ -142,7 +142,7 @@ impl Parser {
                     self.next_token();
                     self.parse_field_expr(left)?
                 }
-                _ => left,
+                _ => break,
             };
         }
         Ok(left)
-- 
2.43.0


From 165f9586c58580b7517641bac7dc3c2a45d93a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:24 +0000
Subject: [PATCH 02/23] fix: leave the repl when standard input ends

At end of input (or on a read error) the loop spun forever.
---
 cmd/src/command.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index 3f67921..91079a3 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -25,6 +25,8 @@ pub fn repl() {
                 continue;
             }
             context = eval(text, Some(context));
+        } else {
+            break;
         }
     }
 }
-- 
2.43.0


From a97bb8b262478817222656a224e78ca26ce93b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:25 +0000
Subject: [PATCH 03/23] fix: report integer overflow and division by zero as
 errors

Integer +, -, *, /, %, <<, >> and unary - panicked (or wrapped in release
builds) on operands the result of which does not fit.
---
 lib/src/evaluator.rs |  5 ++++-
 lib/src/value.rs     | 35 ++++++++++++++++++++++++++++-------
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/lib/src/evaluator.rs b/lib/src/evaluator.rs
index f638c12..0e7f693 100644
--- a/lib/src/evaluator.rs
+++ b/lib/src/evaluator.rs
@@ -117,7 +117,10 @@ fn eval_unary_expr(token: &Token, right: &Expr, context: &mut Context) -> Result
         (Kind::Not, Value::Boolean(false)) | (Kind::Not, Value::Null) => Ok(Value::Boolean(true)),
         (Kind::Not, Value::Integer(integer)) => Ok(Value::Integer(!integer)),
         (Kind::Not, _) => Ok(Value::Boolean(false)),
-        (Kind::Sub, Value::Integer(integer)) => Ok(Value::Integer(-integer)),
+        (Kind::Sub, Value::Integer(integer)) => match integer.checked_neg() {
+            Some(value) => Ok(Value::Integer(value)),
+            None => Err(format!("integer overflow: -({})", integer)),
+        },
         (Kind::Sub, Value::Float(float)) => Ok(Value::Float(-float)),
         (_, right) => Err(format!("unknown operator: {}{:?}", token, right)),
     }
diff --git a/lib/src/value.rs b/lib/src/value.rs
index f3b8d00..16a02b4 100644
--- a/lib/src/value.rs
+++ b/lib/src/value.rs
@@ -42,7 +42,10 @@ impl Add for Value {
     type Output = std::result::Result<Self, String>;
     fn add(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left + right)),
+            (Value::Integer(left), Value::Integer(right)) => match left.checked_add(right) {
+                Some(value) => Ok(Value::Integer(value)),
+                None => Err(format!("integer overflow: {} + {}", left, right)),
+            },
             (Value::Float(left), Value::Float(right)) => Ok(Value::Float(left + right)),
             (Value::Integer(left), Value::Float(right)) => Ok(Value::Float(left as f64 + right)),
             (Value::Float(left), Value::Integer(right)) => Ok(Value::Float(left + right as f64)),
@@ -56,7 +59,10 @@ impl Sub for Value {
     type Output = std::result::Result<Self, String>;
     fn sub(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left - right)),
+            (Value::Integer(left), Value::Integer(right)) => match left.checked_sub(right) {
+                Some(value) => Ok(Value::Integer(value)),
+                None => Err(format!("integer overflow: {} - {}", left, right)),
+            },
             (Value::Float(left), Value::Float(right)) => Ok(Value::Float(left - right)),
             (Value::Integer(left), Value::Float(right)) => Ok(Value::Float(left as f64 - right)),
             (Value::Float(left), Value::Integer(right)) => Ok(Value::Float(left - right as f64)),
@@ -69,7 +75,10 @@ impl Mul for Value {
     type Output = std::result::Result<Self, String>;
     fn mul(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left * right)),
+            (Value::Integer(left), Value::Integer(right)) => match left.checked_mul(right) {
+                Some(value) => Ok(Value::Integer(value)),
+                None => Err(format!("integer overflow: {} * {}", left, right)),
+            },
             (Value::Float(left), Value::Float(right)) => Ok(Value::Float(left * right)),
             (Value::Integer(left), Value::Float(right)) => Ok(Value::Float(left as f64 * right)),
             (Value::Float(left), Value::Integer(right)) => Ok(Value::Float(left * right as f64)),
@@ -82,7 +91,10 @@ impl Div for Value {
     type Output = std::result::Result<Self, String>;
     fn div(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left / right)),
+            (Value::Integer(left), Value::Integer(right)) => match left.checked_div(right) {
+                Some(value) => Ok(Value::Integer(value)),
+                None => Err(format!("integer out of range: {} / {}", left, right)),
+            },
             (Value::Float(left), Value::Float(right)) => Ok(Value::Float(left / right)),
             (Value::Integer(left), Value::Float(right)) => Ok(Value::Float(left as f64 / right)),
             (Value::Float(left), Value::Integer(right)) => Ok(Value::Float(left / right as f64)),
@@ -95,7 +107,10 @@ impl Rem for Value {
     type Output = std::result::Result<Self, String>;
     fn rem(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left % right)),
+            (Value::Integer(left), Value::Integer(right)) => match left.checked_rem(right) {
+                Some(value) => Ok(Value::Integer(value)),
+                None => Err(format!("integer out of range: {} % {}", left, right)),
+            },
             (Value::Float(left), Value::Float(right)) => Ok(Value::Float(left % right)),
             (Value::Integer(left), Value::Float(right)) => Ok(Value::Float(left as f64 % right)),
             (Value::Float(left), Value::Integer(right)) => Ok(Value::Float(left % right as f64)),
@@ -138,7 +153,10 @@ impl Shl for Value {
     type Output = std::result::Result<Self, String>;
     fn shl(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left << right)),
+            (Value::Integer(left), Value::Integer(right)) => match u32::try_from(right).ok().and_then(|right| left.checked_shl(right)) {
+                Some(value) => Ok(Value::Integer(value)),
+                None => Err(format!("integer overflow: {} << {}", left, right)),
+            },
             (left, right) => Err(format!("type mismatch: {} << {}", left, right)),
         }
     }
@@ -148,7 +166,10 @@ impl Shr for Value {
     type Output = std::result::Result<Self, String>;
     fn shr(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left >> right)),
+            (Value::Integer(left), Value::Integer(right)) => match u32::try_from(right).ok().and_then(|right| left.checked_shr(right)) {
+                Some(value) => Ok(Value::Integer(value)),
+                None => Err(format!("integer overflow: {} >> {}", left, right)),
+            },
             (left, right) => Err(format!("type mismatch: {} >> {}", left, right)),
         }
     }
-- 
2.43.0


From e935d2aa24682cef448fed31a8b0c146b465dde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:50 +0000
Subject: [PATCH 04/23] fix: terminate the arrays of a record

An Avro array ends with a block of zero items. Without it a record with a
header or an assertion made the rest of the record file unreadable.
---
 lib/src/writer.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/src/writer.rs b/lib/src/writer.rs
index f2b191b..9eb4143 100644
--- a/lib/src/writer.rs
+++ b/lib/src/writer.rs
@@ -92,7 +92,9 @@ impl<W: Write> Writer<W> {
                 encode_long(2, &mut data);
                 encode_bytes(header.name.as_bytes(), &mut data);
                 encode_bytes(header.value.as_bytes(), &mut data);
+                encode_long(0, &mut data);
             }
+            encode_end(record.request.headers.len(), &mut data);
             encode_bytes(record.request.body.as_bytes(), &mut data);
             encode_bytes(record.response.version.as_bytes(), &mut data);
             encode_long(record.response.status as i64, &mut data);
@@ -102,7 +104,9 @@ impl<W: Write> Writer<W> {
                 encode_long(2, &mut data);
                 encode_bytes(header.name.as_bytes(), &mut data);
                 encode_bytes(header.value.as_bytes(), &mut data);
+                encode_long(0, &mut data);
             }
+            encode_end(record.response.headers.len(), &mut data);
             encode_bytes(record.response.body.as_bytes(), &mut data);
             encode_long(record.asserts.len() as i64, &mut data);
             for assert in record.asserts.iter() {
@@ -112,6 +116,7 @@ impl<W: Write> Writer<W> {
                 encode_bytes(assert.right.as_bytes(), &mut data);
                 encode_bool(assert.result, &mut data);
             }
+            encode_end(record.asserts.len(), &mut data);
             encode_bytes(record.error.as_bytes(), &mut data);
         }
         let mut buffer = Vec::new();
@@ -136,6 +141,13 @@ fn header() -> Vec<u8> {
     header
 }
 
+/// Ends an array: a non-empty one needs a final block of zero items.
+fn encode_end(len: usize, buffer: &mut Vec<u8>) {
+    if len > 0 {
+        encode_long(0, buffer);
+    }
+}
+
 fn encode_bool(b: bool, buffer: &mut Vec<u8>) {
     buffer.push(u8::from(b));
 }
-- 
2.43.0


From df81d14051d8444e63f8115638a09463b9d5bc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:51 +0000
Subject: [PATCH 05/23] fix: report a request that failed with an error as FAIL

Without assertions, or with assertions which hold on an empty response, a
request that never got a response was printed as PASS and its error was not.
---
 lib/src/context.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/context.rs b/lib/src/context.rs
index 7059e40..93029be 100644
--- a/lib/src/context.rs
+++ b/lib/src/context.rs
@@ -101,7 +101,10 @@ impl Display for Assert {
 impl Display for Record {
     fn fmt(&self, f: &mut Formatter<'_>) -> Result {
         writeln!(f, "=== TEST  {}", self.name)?;
-        let mut flag = true;
+        let mut flag = self.error.is_empty();
+        if !flag {
+            writeln!(f, "error: {}", self.error)?
+        }
         for assert in self.asserts.iter() {
             flag &= assert.result;
             writeln!(
-- 
2.43.0


From 1348b99eb3928ff6e54cc51d61bd32e1152693e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:53 +0000
Subject: [PATCH 06/23] fix: write records completely and report write errors

A short write truncated the record file and an error went unnoticed.
---
 lib/src/writer.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/src/writer.rs b/lib/src/writer.rs
index 9eb4143..ab2391a 100644
--- a/lib/src/writer.rs
+++ b/lib/src/writer.rs
@@ -64,7 +64,7 @@ pub struct Writer<W> {
 
 impl<W: Write> Writer<W> {
     pub fn new(mut w: W) -> Self {
-        let _ = w.write(&header());
+        report(w.write_all(&header()));
         Writer { w }
     }
 
@@ -124,7 +124,13 @@ impl<W: Write> Writer<W> {
         encode_long(data.len() as i64, &mut buffer);
         buffer.extend_from_slice(&data);
         buffer.extend_from_slice(MARKER);
-        let _ = self.w.write(&buffer);
+        report(self.w.write_all(&buffer));
+    }
+}
+
+fn report(result: std::io::Result<()>) {
+    if let Err(error) = result {
+        eprintln!("write record error: {}", error);
     }
 }
 
-- 
2.43.0


From a7cc6e69aa85c047b9fc08e74f6853b803df139d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:54 +0000
Subject: [PATCH 07/23] fix: keep the records of an iteration that ends with an
 error

When a named test failed, the requests it had already sent were neither
printed nor recorded nor counted (they are when all tests run).
---
 cmd/src/command.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index 91079a3..692eee9 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -95,13 +95,13 @@ pub fn test(
                         handles.push(std::thread::spawn(move || {
                             let mut number = u32::default();
                             while continuous.load(Ordering::Relaxed) && number < maximun {
-                                match eval_block(test.as_ref(), &mut context) {
-                                    Ok(_) => {}
+                                let failed = match eval_block(test.as_ref(), &mut context) {
+                                    Ok(_) => false,
                                     Err(error) => {
                                         println!("{}", error);
-                                        break;
+                                        true
                                     }
-                                }
+                                };
                                 let records = context.records();
                                 records.iter().for_each(|record| println!("{}", record));
                                 if let Some(ref mut writer) = writer {
@@ -109,6 +109,9 @@ pub fn test(
                                 }
                                 stat.then(|| sender.send(records));
                                 number += 1;
+                                if failed {
+                                    break;
+                                }
                             }
                         }));
                     }
-- 
2.43.0


From 5b34b2d1262fa7c5152b3e3629fd14feaad81869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:55 +0000
Subject: [PATCH 08/23] fix: collect statistics when all tests run

The records were sent to the statistics thread only for a named test.
---
 cmd/src/command.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index 692eee9..3704d61 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -130,6 +130,7 @@ pub fn test(
         }
         None => {
             for (thread, (name, test)) in tests.into_iter().enumerate() {
+                let sender = sender.to_owned();
                 let mut writer = writer(record.as_ref(), thread as u32);
                 let mut context = context.to_owned();
                 handles.push(std::thread::spawn(move || {
@@ -144,6 +145,7 @@ pub fn test(
                     if let Some(ref mut writer) = writer {
                         writer.write(&records, &name, thread as u32, u32::default())
                     }
+                    stat.then(|| sender.send(records));
                 }));
             }
         }
-- 
2.43.0


From 479fc23672e811120ee5d3a88f4cc70f2e02444b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:56 +0000
Subject: [PATCH 09/23] fix: run a named test exactly the requested number of
 times

number / threads lost the remainder (no run at all for fewer runs than
threads) and divided by zero for zero threads.
---
 cmd/src/command.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index 3704d61..e36470c 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -84,8 +84,10 @@ pub fn test(
                     let name = Arc::new(name);
                     let test = Arc::new(test);
                     let continuous = Arc::new(AtomicBool::new(true));
-                    let maximun = number / threads;
+                    let threads = threads.max(1);
                     for thread in 0..threads {
+                        // the first threads take one more when number is not a multiple of threads
+                        let maximun = number / threads + u32::from(thread < number % threads);
                         let sender = sender.to_owned();
                         let continuous = continuous.to_owned();
                         let name = name.to_owned();
-- 
2.43.0


From 4c85ee89252cd9aa60de876665b227a65dd003f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:09 +0000
Subject: [PATCH 10/23] fix: tell the server where a request body ends

A body was sent without Content-Length, so a server took it to be empty, and
a multipart body without the boundary its parts are separated by.
---
 lib/src/http/content.rs |  8 ++++++++
 lib/src/http/request.rs | 21 ++++++++++++++++++---
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/lib/src/http/content.rs b/lib/src/http/content.rs
index 8a67b98..03c6cbf 100644
--- a/lib/src/http/content.rs
+++ b/lib/src/http/content.rs
@@ -8,6 +8,14 @@ pub enum Content<'a> {
 }
 
 impl Content<'_> {
+    /// Boundary between the parts of the body, if it has parts.
+    pub fn boundary(&self) -> Option<&str> {
+        match self {
+            Content::Multipart(prepared) => Some(prepared.boundary()),
+            _ => None,
+        }
+    }
+
     pub fn write<W: Write>(&mut self, writer: &mut W) -> Result<(), Error> {
         match self {
             Content::Empty => Ok(()),
diff --git a/lib/src/http/request.rs b/lib/src/http/request.rs
index f0cb496..256e4e4 100644
--- a/lib/src/http/request.rs
+++ b/lib/src/http/request.rs
@@ -74,7 +74,8 @@ impl Request {
                         }
                     }
                     match parts.prepare() {
-                        Ok(parts) => content = Content::Multipart(parts),
+                        Ok(parts) if !body.is_empty() => content = Content::Multipart(parts),
+                        Ok(_) => content = Content::Empty,
                         Err(_) => content = Content::Empty,
                     }
                 }
@@ -103,13 +104,27 @@ impl Request {
     }
 
     pub fn write<W: Write>(&mut self, writer: W, mut content: Content) -> Result<(), Error> {
+        let mut body = Vec::new();
+        content.write(&mut body)?;
         let mut writer = BufWriter::new(writer);
         write!(writer, "{} {} {}\r\n", self.method, self.url.path, self.version).map_err(Error::WriteFailed)?;
+        let mut framed = body.is_empty();
         for header in self.headers.iter() {
-            write!(writer, "{}: {}\r\n", header.name, header.value).map_err(Error::WriteFailed)?;
+            write!(writer, "{}: {}", header.name, header.value).map_err(Error::WriteFailed)?;
+            match content.boundary() {
+                Some(boundary) if header.name.eq_ignore_ascii_case("content-type") => {
+                    write!(writer, "; boundary={}", boundary).map_err(Error::WriteFailed)?;
+                }
+                _ => {}
+            }
+            write!(writer, "\r\n").map_err(Error::WriteFailed)?;
+            framed |= header.name.eq_ignore_ascii_case("content-length") || header.name.eq_ignore_ascii_case("transfer-encoding");
+        }
+        if !framed {
+            write!(writer, "Content-Length: {}\r\n", body.len()).map_err(Error::WriteFailed)?;
         }
         write!(writer, "\r\n").map_err(Error::WriteFailed)?;
-        content.write(&mut writer)?;
+        writer.write_all(&body).map_err(Error::WriteFailed)?;
         writer.flush().map_err(|_e| Error::WriteFlushFailed)?;
         Ok(())
     }
-- 
2.43.0


From 1972748ee06cbac813d605a637db9ec0f5b0b780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:10 +0000
Subject: [PATCH 11/23] fix: report a multipart file that cannot be read

The request was sent with an empty body instead.
---
 lib/src/http/content.rs | 2 ++
 lib/src/http/request.rs | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/http/content.rs b/lib/src/http/content.rs
index 03c6cbf..68325ea 100644
--- a/lib/src/http/content.rs
+++ b/lib/src/http/content.rs
@@ -4,6 +4,7 @@ use std::io::Write;
 pub enum Content<'a> {
     Empty,
     Byte(Vec<u8>),
+    Failed(std::io::Error),
     Multipart(multipart::client::lazy::PreparedFields<'a>),
 }
 
@@ -19,6 +20,7 @@ impl Content<'_> {
     pub fn write<W: Write>(&mut self, writer: &mut W) -> Result<(), Error> {
         match self {
             Content::Empty => Ok(()),
+            Content::Failed(error) => Err(Error::ReadFailed(std::io::Error::new(error.kind(), error.to_string()))),
             Content::Byte(bytes) => Ok(writer.write_all(bytes).map_err(Error::WriteFailed)?),
             Content::Multipart(ref mut prepared) => {
                 std::io::copy(prepared, writer).map_err(Error::WriteFailed)?;
diff --git a/lib/src/http/request.rs b/lib/src/http/request.rs
index 256e4e4..d85a3f0 100644
--- a/lib/src/http/request.rs
+++ b/lib/src/http/request.rs
@@ -76,7 +76,7 @@ impl Request {
                     match parts.prepare() {
                         Ok(parts) if !body.is_empty() => content = Content::Multipart(parts),
                         Ok(_) => content = Content::Empty,
-                        Err(_) => content = Content::Empty,
+                        Err(error) => content = Content::Failed(error.error),
                     }
                 }
                 _ => {
-- 
2.43.0


From e15a2c9502d23e252eb69a5b6be781c86c4b5f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:12 +0000
Subject: [PATCH 12/23] fix: keep a url whose query contains another url

http://host/r?u=http://other was sent as /r?u=http.
---
 lib/src/http/url.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/http/url.rs b/lib/src/http/url.rs
index bba5999..3919aec 100644
--- a/lib/src/http/url.rs
+++ b/lib/src/http/url.rs
@@ -9,7 +9,7 @@ pub struct Url {
 
 impl std::convert::From<&str> for Url {
     fn from(str: &str) -> Self {
-        let mut splits = str.split("://");
+        let mut splits = str.splitn(2, "://");
         let scheme = Scheme::from(splits.next());
         let (host, port, path) = match splits.next() {
             Some(str) => {
-- 
2.43.0


From f69432116760e0e389627cf78346ecb2e41624b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:14 +0000
Subject: [PATCH 13/23] fix: record the port of a url

The recorded url named a different server than the one the request went to.
---
 lib/src/http/url.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/http/url.rs b/lib/src/http/url.rs
index 3919aec..ede096a 100644
--- a/lib/src/http/url.rs
+++ b/lib/src/http/url.rs
@@ -60,7 +60,10 @@ impl Default for Url {
 
 impl std::fmt::Display for Url {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        write!(f, "{}://{}{}", self.scheme, self.host, self.path)
+        match (&self.scheme, self.port) {
+            (Scheme::Http, 80) | (Scheme::Https, 443) => write!(f, "{}://{}{}", self.scheme, self.host, self.path),
+            _ => write!(f, "{}://{}:{}{}", self.scheme, self.host, self.port, self.path),
+        }
     }
 }
 
-- 
2.43.0


From 9f2d0032b25ba2ba66e616f69e5368bc823064ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:15 +0000
Subject: [PATCH 14/23] fix: keep the whole reason phrase of a response

Only its first word was kept: Not for 404 Not Found.
---
 lib/src/http/response.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/http/response.rs b/lib/src/http/response.rs
index 2e9224d..96a6ec8 100644
--- a/lib/src/http/response.rs
+++ b/lib/src/http/response.rs
@@ -37,7 +37,7 @@ impl Response {
         let mut splits = line.split_whitespace();
         let version = parse::<String>(splits.next());
         let status = parse::<u16>(splits.next());
-        let reason = parse::<String>(splits.next());
+        let reason = splits.collect::<Vec<&str>>().join(" ");
         // headers
         let mut headers = Headers::default();
         loop {
-- 
2.43.0


From 0c97d228845118c622114cb7897a60562409d2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:17 +0000
Subject: [PATCH 15/23] fix: report a connection closed without a response as
 an error

It was taken for a response with status 0.
---
 lib/src/http/response.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/src/http/response.rs b/lib/src/http/response.rs
index 96a6ec8..9028870 100644
--- a/lib/src/http/response.rs
+++ b/lib/src/http/response.rs
@@ -34,6 +34,9 @@ impl Response {
         }
         let mut line = String::from_utf8(buf).unwrap_or_default();
         reader.read_line(&mut line).map_err(Error::ReadFailed)?;
+        if line.is_empty() {
+            return Err(Error::ReadFailed(std::io::ErrorKind::UnexpectedEof.into()));
+        }
         let mut splits = line.split_whitespace();
         let version = parse::<String>(splits.next());
         let status = parse::<u16>(splits.next());
-- 
2.43.0


From caa989a2a95a63d6a99d30e04cf02ee725ce81b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:18 +0000
Subject: [PATCH 16/23] fix: keep the line breaks of a request body

The lines of a body were sent joined together.
---
 lib/src/http/request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/http/request.rs b/lib/src/http/request.rs
index d85a3f0..b8f9d62 100644
--- a/lib/src/http/request.rs
+++ b/lib/src/http/request.rs
@@ -80,7 +80,7 @@ impl Request {
                     }
                 }
                 _ => {
-                    body = String::from_iter(lines);
+                    body = lines.collect::<Vec<&str>>().join("\n");
                     if body.trim().is_empty() {
                         content = Content::Empty;
                     } else {
-- 
2.43.0


From ce222942a372606bff6f8d8f0ea830fb4ada49ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:20 +0000
Subject: [PATCH 17/23] fix: trim the fields of a form body

As in headers and multipart bodies: `a: b` sent the value ` b`.
---
 lib/src/http/request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/http/request.rs b/lib/src/http/request.rs
index b8f9d62..0c0c98d 100644
--- a/lib/src/http/request.rs
+++ b/lib/src/http/request.rs
@@ -54,7 +54,7 @@ impl Request {
                     let mut serializer = form_urlencoded::Serializer::new(String::default());
                     for line in lines.by_ref() {
                         if let Some((name, value)) = line.trim().split_once(':') {
-                            serializer.append_pair(name, value);
+                            serializer.append_pair(name.trim(), value.trim());
                             body.push_str(line);
                         }
                     }
-- 
2.43.0


From cfb908cef5bb51ec51b8e9bc541e46a339912e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:21 +0000
Subject: [PATCH 18/23] fix: separate the source files of a directory

The last token of a file without a final line break merged with the first
token of the next file.
---
 cmd/src/command.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index e36470c..9e4ef02 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -185,7 +185,8 @@ fn read(path: PathBuf, text: &mut String) -> std::io::Result<()> {
             read(entry, text)?;
         }
     } else if path.is_file() && path.extension() == Some(std::ffi::OsStr::new("fan")) {
-        text.push_str(&std::fs::read_to_string(path)?)
+        text.push_str(&std::fs::read_to_string(path)?);
+        text.push_str("\n");
     }
     Ok(())
 }
-- 
2.43.0


From 859b800fd7e847935b6881f571b7457946f844ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:22 +0000
Subject: [PATCH 19/23] fix: reject a duration that overflows

It panicked, or in a release build wrapped to a different duration.
---
 cmd/src/main.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/cmd/src/main.rs b/cmd/src/main.rs
index 05b06c5..691df5e 100644
--- a/cmd/src/main.rs
+++ b/cmd/src/main.rs
@@ -77,12 +77,15 @@ fn parse_duration(s: &str) -> Result<Duration, String> {
         Ok(value) => value,
         Err(_) => return Err(format!("Invalid number: {}", chars.as_str())),
     };
-    let duration = match last {
-        Some('s') => Duration::from_secs(value),
-        Some('m') => Duration::from_secs(value * 60),
-        Some('h') => Duration::from_secs(value * 3600),
+    let unit = match last {
+        Some('s') => 1,
+        Some('m') => 60,
+        Some('h') => 3600,
         Some(c) => return Err(format!("Unknown time unit: {}, supported units: s, m, h", c)),
         None => return Err("Time unit needed, for example 1s or 2m".to_string()),
     };
-    Ok(duration)
+    match value.checked_mul(unit) {
+        Some(seconds) => Ok(Duration::from_secs(seconds)),
+        None => Err(format!("Number too large: {}", s)),
+    }
 }
-- 
2.43.0


From 24aad64bcc9c6c6f5933d97ea71bf5cfc26da37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:24 +0000
Subject: [PATCH 20/23] fix: keep negative numbers of a json body

They were mapped to null.
---
 lib/src/syntax.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/syntax.rs b/lib/src/syntax.rs
index 9356670..9f66501 100644
--- a/lib/src/syntax.rs
+++ b/lib/src/syntax.rs
@@ -1,3 +1,4 @@
+use crate::Kind;
 use crate::Token;
 use crate::Value;
 use std::collections::HashMap;
@@ -44,6 +45,11 @@ impl Expr {
                     .map(|(k, v)| (k.eval().to_string(), v.eval()))
                     .collect::<HashMap<String, Value>>(),
             ),
+            Expr::Unary(token, right) if token.kind == Kind::Sub => match right.eval() {
+                Value::Integer(integer) => integer.checked_neg().map(Value::Integer).unwrap_or(Value::Null),
+                Value::Float(float) => Value::Float(-float),
+                _ => Value::Null,
+            },
             _ => Value::Null,
         }
     }
-- 
2.43.0


From 99f78293ce3e5008ff50fa8189d90b27267fcc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:51 +0000
Subject: [PATCH 21/23] fix: evaluate assertions that are not a comparison

An assertion such as `status == 200 || status == 201` was silently dropped,
so it could never fail.
---
 lib/src/evaluator.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/lib/src/evaluator.rs b/lib/src/evaluator.rs
index 0e7f693..15fcece 100644
--- a/lib/src/evaluator.rs
+++ b/lib/src/evaluator.rs
@@ -189,7 +189,9 @@ fn eval_call_expr(name: &str, arguments: &[Expr], context: &mut Context) -> Resu
             let asserts = asserts
                 .iter()
                 .filter_map(|assert| match assert {
-                    Expr::Binary(token, left, right) => {
+                    Expr::Binary(token, left, right)
+                        if matches!(token.kind, Kind::Lt | Kind::Gt | Kind::Le | Kind::Ge | Kind::Eq | Kind::Ne) =>
+                    {
                         let expr = format!("{} {} {}", left, token, right);
                         let left = eval_expr(left, &mut local).unwrap_or(Value::Null);
                         let right = eval_expr(right, &mut local).unwrap_or(Value::Null);
@@ -210,7 +212,17 @@ fn eval_call_expr(name: &str, arguments: &[Expr], context: &mut Context) -> Resu
                             result,
                         })
                     }
-                    _ => None,
+                    // any other assertion holds if its value is true as the condition of an if
+                    _ => {
+                        let value = eval_expr(assert, &mut local).unwrap_or(Value::Null);
+                        Some(Assert {
+                            expr: assert.to_string(),
+                            left: value.to_string(),
+                            compare: "is".to_string(),
+                            right: true.to_string(),
+                            result: !matches!(value, Value::Boolean(false) | Value::Null),
+                        })
+                    }
                 })
                 .collect::<Vec<Assert>>();
             context.push(Record {
-- 
2.43.0


From cc707e6b15d5ab190857cfb3f14c855ab9855bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:31 +0000
Subject: [PATCH 22/23] fix: report source files that cannot be read

A path that does not exist, a broken link with extension fan and a
directory whose entries cannot be looked at were skipped silently.
---
 cmd/src/command.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index 9e4ef02..d5c1752 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -171,12 +171,15 @@ pub fn test(
 
 fn read_to_string(path: PathBuf) -> String {
     let mut text = String::new();
-    read(path, &mut text).expect("Could not read source file");
+    std::fs::metadata(&path)
+        .and_then(|_| read(path, &mut text))
+        .expect("Could not read source file");
     text
 }
 
 fn read(path: PathBuf, text: &mut String) -> std::io::Result<()> {
-    if path.is_dir() {
+    // only a broken link is no error here, it may be no source file
+    if path.try_exists()? && path.is_dir() {
         let mut entries = std::fs::read_dir(path)?
             .map(|r| r.map(|e| e.path()))
             .collect::<Result<Vec<PathBuf>, std::io::Error>>()?;
@@ -184,7 +187,7 @@ fn read(path: PathBuf, text: &mut String) -> std::io::Result<()> {
         for entry in entries {
             read(entry, text)?;
         }
-    } else if path.is_file() && path.extension() == Some(std::ffi::OsStr::new("fan")) {
+    } else if path.extension() == Some(std::ffi::OsStr::new("fan")) {
         text.push_str(&std::fs::read_to_string(path)?);
         text.push_str("\n");
     }
-- 
2.43.0


From d4521820e574b8fbf1f96785f471a3eb5118287d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:15 +0000
Subject: [PATCH 23/23] fix: keep the lines of a form apart in the recorded
 body

---
 lib/src/http/request.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/src/http/request.rs b/lib/src/http/request.rs
index 0c0c98d..c996437 100644
--- a/lib/src/http/request.rs
+++ b/lib/src/http/request.rs
@@ -55,7 +55,7 @@ impl Request {
                     for line in lines.by_ref() {
                         if let Some((name, value)) = line.trim().split_once(':') {
                             serializer.append_pair(name.trim(), value.trim());
-                            body.push_str(line);
+                            push_line(&mut body, line);
                         }
                     }
                     content = Content::Byte(serializer.finish().into_bytes());
@@ -70,7 +70,7 @@ impl Request {
                             } else {
                                 parts.add_text(name, value);
                             }
-                            body.push_str(line);
+                            push_line(&mut body, line);
                         }
                     }
                     match parts.prepare() {
@@ -130,6 +130,14 @@ impl Request {
     }
 }
 
+/// Adds a line to the body, which is kept apart from the lines before.
+fn push_line(body: &mut String, line: &str) {
+    if !body.is_empty() {
+        body.push('\n');
+    }
+    body.push_str(line);
+}
+
 #[test]
 fn test_from_message_get() {
     let message = r#"
-- 
2.43.0

