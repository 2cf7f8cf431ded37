From b2bd5e8c9abde6acc3cd7453742b16b81dceebd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:34 +0000
Subject: [PATCH 01/26] fix: finish the wrapped sink when deserializing an
 Option

The sink of Option<T> did not forward finish, so every type that only
produces its value there (Vec, maps, structs, Box, ...) became None.
---
 deser/src/de/impls.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/deser/src/de/impls.rs b/deser/src/de/impls.rs
index 014365c..7910f1e 100644
--- a/deser/src/de/impls.rs
+++ b/deser/src/de/impls.rs
@@ -528,7 +528,10 @@ where
         let sink = Deserialize::deserialize_into(out.as_mut().unwrap());
         match sink {
             SinkHandle::Null(_) => sink,
-            sink => SinkHandle::boxed(NullIgnoringSink { sink }),
+            sink => SinkHandle::boxed(NullIgnoringSink {
+                sink,
+                received: false,
+            }),
         }
     }
 
@@ -539,21 +542,29 @@ where
 
 struct NullIgnoringSink<'a> {
     sink: SinkHandle<'a>,
+    // set once the wrapped sink received a value, as it must only be
+    // finished in that case.
+    received: bool,
 }
 
 impl<'a> Sink for NullIgnoringSink<'a> {
     fn atom(&mut self, atom: Atom, state: &DeserializerState) -> Result<(), Error> {
         match atom {
             Atom::Null => Ok(()),
-            other => self.sink.atom(other, state),
+            other => {
+                self.received = true;
+                self.sink.atom(other, state)
+            }
         }
     }
 
     fn map(&mut self, state: &DeserializerState) -> Result<(), Error> {
+        self.received = true;
         self.sink.map(state)
     }
 
     fn seq(&mut self, state: &DeserializerState) -> Result<(), Error> {
+        self.received = true;
         self.sink.seq(state)
     }
 
@@ -565,6 +576,14 @@ impl<'a> Sink for NullIgnoringSink<'a> {
         self.sink.next_value(state)
     }
 
+    fn finish(&mut self, state: &DeserializerState) -> Result<(), Error> {
+        if self.received {
+            self.sink.finish(state)
+        } else {
+            Ok(())
+        }
+    }
+
     fn descriptor(&self) -> &dyn Descriptor {
         self.sink.descriptor()
     }
-- 
2.43.0


From 49986017b1887642e24ce37f9bd4346c9194b215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:35 +0000
Subject: [PATCH 02/26] fix: accept maps when deserializing a HashMap

The sink did not implement map and always failed with an unexpected map.
---
 deser/src/de/impls.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deser/src/de/impls.rs b/deser/src/de/impls.rs
index 7910f1e..8a99c89 100644
--- a/deser/src/de/impls.rs
+++ b/deser/src/de/impls.rs
@@ -388,6 +388,10 @@ where
                 &DESCRIPTOR
             }
 
+            fn map(&mut self, _state: &DeserializerState) -> Result<(), Error> {
+                Ok(())
+            }
+
             fn next_key(&mut self, _state: &DeserializerState) -> Result<SinkHandle, Error> {
                 self.flush();
                 Ok(Deserialize::deserialize_into(&mut self.key))
-- 
2.43.0


From 60fdc6626e2315c3e44312e9179d25e3c58e0b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:35 +0000
Subject: [PATCH 03/26] fix: reject integers that do not fit the target type

The cast round trip let values wrap around for 64 bit targets, for
instance u64::MAX became -1i64 and -1 became u64::MAX.
---
 deser/src/de/impls.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/deser/src/de/impls.rs b/deser/src/de/impls.rs
index 8a99c89..2e6d71e 100644
--- a/deser/src/de/impls.rs
+++ b/deser/src/de/impls.rs
@@ -87,9 +87,8 @@ macro_rules! int_sink {
             fn atom(&mut self, atom: Atom, state: &DeserializerState) -> Result<(), Error> {
                 match atom {
                     Atom::U64(value) => {
-                        let truncated = value as $ty;
-                        if truncated as u64 == value {
-                            **self = Some(truncated);
+                        if let Ok(value) = <$ty>::try_from(value) {
+                            **self = Some(value);
                             Ok(())
                         } else {
                             Err(Error::new(
@@ -99,9 +98,8 @@ macro_rules! int_sink {
                         }
                     }
                     Atom::I64(value) => {
-                        let truncated = value as $ty;
-                        if truncated as i64 == value {
-                            **self = Some(truncated);
+                        if let Ok(value) = <$ty>::try_from(value) {
+                            **self = Some(value);
                             Ok(())
                         } else {
                             Err(Error::new(
-- 
2.43.0


From f6b38e5a3d8bd5fff202fd8fb55e9aeaef2195f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:36 +0000
Subject: [PATCH 04/26] fix: reject trailing commas in JSON arrays instead of
 panicking

A closing bracket after a comma ran into unreachable!().
---
 deser-json/src/de.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/deser-json/src/de.rs b/deser-json/src/de.rs
index afc9cae..58ca5f7 100644
--- a/deser-json/src/de.rs
+++ b/deser-json/src/de.rs
@@ -92,6 +92,12 @@ impl<'a> Deserializer<'a> {
                             return Err(Error::new(ErrorKind::Unexpected, "expected a comma"));
                         }
                         token = self.next_token()?;
+                        if matches!(token, Token::MapEnd | Token::SeqEnd) {
+                            return Err(Error::new(
+                                ErrorKind::Unexpected,
+                                "unexpected trailing comma",
+                            ));
+                        }
                     }
 
                     // handle keys
-- 
2.43.0


From 19ebf7cdf7e87351de53f8febbf549fd7412a7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:36 +0000
Subject: [PATCH 05/26] fix: reject JSON objects with a missing value

The closing brace was accepted directly after the colon.
---
 deser-json/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deser-json/src/de.rs b/deser-json/src/de.rs
index 58ca5f7..c38f9cd 100644
--- a/deser-json/src/de.rs
+++ b/deser-json/src/de.rs
@@ -67,7 +67,7 @@ impl<'a> Deserializer<'a> {
             // try to exit containers first
             match token {
                 Token::MapEnd => {
-                    if !matches!(stack.pop(), Some(ContainerState::Map { .. })) {
+                    if !matches!(stack.pop(), Some(ContainerState::Map { key_pos: true, .. })) {
                         return Err(Error::new(ErrorKind::Unexpected, "unexpected end of map"));
                     }
                     driver.emit(Event::MapEnd)?;
-- 
2.43.0


From f70bc92a923bd1913861cb3d50e6fb3c42351a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:36 +0000
Subject: [PATCH 06/26] fix: parse JSON floats to the nearest representable
 value

Multiplying with an inexact power of ten was off for about a third of all
floats, rejected values close to the maximum, and panicked for an exponent
of -2147483648.
---
 deser-json/src/de.rs | 114 ++++++++++++++++++-------------------------
 1 file changed, 48 insertions(+), 66 deletions(-)

diff --git a/deser-json/src/de.rs b/deser-json/src/de.rs
index c38f9cd..0df21c9 100644
--- a/deser-json/src/de.rs
+++ b/deser-json/src/de.rs
@@ -30,6 +30,7 @@ macro_rules! overflow {
 pub struct Deserializer<'a> {
     input: &'a [u8],
     pos: usize,
+    number_start: usize,
     buffer: Vec<u8>,
 }
 
@@ -44,6 +45,7 @@ impl<'a> Deserializer<'a> {
         Deserializer {
             input,
             pos: 0,
+            number_start: 0,
             buffer: Vec::new(),
         }
     }
@@ -437,7 +439,7 @@ impl<'a> Deserializer<'a> {
                     return self.parse_exponent(nonnegative, significand, exponent);
                 }
                 _ => {
-                    return f64_from_parts(nonnegative, significand, exponent);
+                    return self.f64_from_parts(nonnegative, significand, exponent);
                 }
             }
         }
@@ -501,7 +503,7 @@ impl<'a> Deserializer<'a> {
 
         match self.peek_or_nul() {
             b'e' | b'E' => self.parse_exponent(nonnegative, significand, exponent),
-            _ => f64_from_parts(nonnegative, significand, exponent),
+            _ => self.f64_from_parts(nonnegative, significand, exponent),
         }
     }
 
@@ -552,7 +554,7 @@ impl<'a> Deserializer<'a> {
             starting_exp.saturating_sub(exp)
         };
 
-        f64_from_parts(nonnegative, significand, final_exp)
+        self.f64_from_parts(nonnegative, significand, final_exp)
     }
 
     // This cold code should not be inlined into the middle of the hot
@@ -576,11 +578,46 @@ impl<'a> Deserializer<'a> {
         Ok(if nonnegative { 0.0 } else { -0.0 })
     }
 
+    /// Makes a float from the number that was just consumed.
+    fn f64_from_parts(
+        &self,
+        nonnegative: bool,
+        significand: u64,
+        exponent: i32,
+    ) -> Result<f64, Error> {
+        let f = if significand <= MAX_EXACT_SIGNIFICAND
+            && exponent.unsigned_abs() <= MAX_EXACT_POW10
+        {
+            // both operands are exact so there is only a single rounding
+            let pow = POW10[exponent.unsigned_abs() as usize];
+            let f = significand as f64;
+            let f = if exponent >= 0 { f * pow } else { f / pow };
+            if nonnegative {
+                f
+            } else {
+                -f
+            }
+        } else {
+            // the scanned number only consists of ASCII and follows a grammar
+            // which is a subset of what the standard library accepts.
+            str::from_utf8(&self.input[self.number_start..self.pos])
+                .ok()
+                .and_then(|x| x.parse::<f64>().ok())
+                .ok_or_else(|| Error::new(ErrorKind::Unexpected, "unexpected float"))?
+        };
+        if f.is_infinite() {
+            Err(Error::new(ErrorKind::OutOfRange, "infinite float"))
+        } else {
+            Ok(f)
+        }
+    }
+
     fn next_token(&mut self) -> Result<Token, Error> {
         let peek = match self.parse_whitespace() {
             Some(b) => b,
             None => return Err(Error::new(ErrorKind::EndOfFile, "unexpected end of file")),
         };
+        self.number_start = self.pos;
         self.bump();
         match peek {
             b'"' => self.parse_str().map(Token::Str),
@@ -612,70 +649,15 @@ impl<'a> Deserializer<'a> {
     }
 }
 
-fn f64_from_parts(nonnegative: bool, significand: u64, mut exponent: i32) -> Result<f64, Error> {
-    let mut f = significand as f64;
-    loop {
-        match POW10.get(exponent.abs() as usize) {
-            Some(&pow) => {
-                if exponent >= 0 {
-                    f *= pow;
-                    if f.is_infinite() {
-                        return Err(Error::new(ErrorKind::OutOfRange, "infinite float"));
-                    }
-                } else {
-                    f /= pow;
-                }
-                break;
-            }
-            None => {
-                if f == 0.0 {
-                    break;
-                }
-                if exponent >= 0 {
-                    return Err(Error::new(ErrorKind::Unexpected, "unexpected float"));
-                }
-                f /= 1e308;
-                exponent += 308;
-            }
-        }
-    }
-    Ok(if nonnegative { f } else { -f })
-}
+// Integers up to this value and powers of ten up to this exponent can be
+// represented exactly.
+const MAX_EXACT_SIGNIFICAND: u64 = 1 << 53;
+const MAX_EXACT_POW10: u32 = 22;
 
-// Clippy bug: https://github.com/rust-lang/rust-clippy/issues/5201
-#[allow(clippy::excessive_precision)]
-static POW10: [f64; 309] = [
-    1e000, 1e001, 1e002, 1e003, 1e004, 1e005, 1e006, 1e007, 1e008, 1e009, //
-    1e010, 1e011, 1e012, 1e013, 1e014, 1e015, 1e016, 1e017, 1e018, 1e019, //
-    1e020, 1e021, 1e022, 1e023, 1e024, 1e025, 1e026, 1e027, 1e028, 1e029, //
-    1e030, 1e031, 1e032, 1e033, 1e034, 1e035, 1e036, 1e037, 1e038, 1e039, //
-    1e040, 1e041, 1e042, 1e043, 1e044, 1e045, 1e046, 1e047, 1e048, 1e049, //
-    1e050, 1e051, 1e052, 1e053, 1e054, 1e055, 1e056, 1e057, 1e058, 1e059, //
-    1e060, 1e061, 1e062, 1e063, 1e064, 1e065, 1e066, 1e067, 1e068, 1e069, //
-    1e070, 1e071, 1e072, 1e073, 1e074, 1e075, 1e076, 1e077, 1e078, 1e079, //
-    1e080, 1e081, 1e082, 1e083, 1e084, 1e085, 1e086, 1e087, 1e088, 1e089, //
-    1e090, 1e091, 1e092, 1e093, 1e094, 1e095, 1e096, 1e097, 1e098, 1e099, //
-    1e100, 1e101, 1e102, 1e103, 1e104, 1e105, 1e106, 1e107, 1e108, 1e109, //
-    1e110, 1e111, 1e112, 1e113, 1e114, 1e115, 1e116, 1e117, 1e118, 1e119, //
-    1e120, 1e121, 1e122, 1e123, 1e124, 1e125, 1e126, 1e127, 1e128, 1e129, //
-    1e130, 1e131, 1e132, 1e133, 1e134, 1e135, 1e136, 1e137, 1e138, 1e139, //
-    1e140, 1e141, 1e142, 1e143, 1e144, 1e145, 1e146, 1e147, 1e148, 1e149, //
-    1e150, 1e151, 1e152, 1e153, 1e154, 1e155, 1e156, 1e157, 1e158, 1e159, //
-    1e160, 1e161, 1e162, 1e163, 1e164, 1e165, 1e166, 1e167, 1e168, 1e169, //
-    1e170, 1e171, 1e172, 1e173, 1e174, 1e175, 1e176, 1e177, 1e178, 1e179, //
-    1e180, 1e181, 1e182, 1e183, 1e184, 1e185, 1e186, 1e187, 1e188, 1e189, //
-    1e190, 1e191, 1e192, 1e193, 1e194, 1e195, 1e196, 1e197, 1e198, 1e199, //
-    1e200, 1e201, 1e202, 1e203, 1e204, 1e205, 1e206, 1e207, 1e208, 1e209, //
-    1e210, 1e211, 1e212, 1e213, 1e214, 1e215, 1e216, 1e217, 1e218, 1e219, //
-    1e220, 1e221, 1e222, 1e223, 1e224, 1e225, 1e226, 1e227, 1e228, 1e229, //
-    1e230, 1e231, 1e232, 1e233, 1e234, 1e235, 1e236, 1e237, 1e238, 1e239, //
-    1e240, 1e241, 1e242, 1e243, 1e244, 1e245, 1e246, 1e247, 1e248, 1e249, //
-    1e250, 1e251, 1e252, 1e253, 1e254, 1e255, 1e256, 1e257, 1e258, 1e259, //
-    1e260, 1e261, 1e262, 1e263, 1e264, 1e265, 1e266, 1e267, 1e268, 1e269, //
-    1e270, 1e271, 1e272, 1e273, 1e274, 1e275, 1e276, 1e277, 1e278, 1e279, //
-    1e280, 1e281, 1e282, 1e283, 1e284, 1e285, 1e286, 1e287, 1e288, 1e289, //
-    1e290, 1e291, 1e292, 1e293, 1e294, 1e295, 1e296, 1e297, 1e298, 1e299, //
-    1e300, 1e301, 1e302, 1e303, 1e304, 1e305, 1e306, 1e307, 1e308,
+static POW10: [f64; MAX_EXACT_POW10 as usize + 1] = [
+    1e00, 1e01, 1e02, 1e03, 1e04, 1e05, 1e06, 1e07, 1e08, 1e09, //
+    1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, //
+    1e20, 1e21, 1e22,
 ];
 
 const CT: bool = true; // control character \x00..=\x1F
-- 
2.43.0


From 4231a2c4b033211d195f57e3907804bbacb96d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:36 +0000
Subject: [PATCH 07/26] fix: reject invalid UTF-8 in JSON strings

Deserializer::new takes arbitrary bytes, which ended up unchecked in a str.
---
 deser-json/src/de.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/deser-json/src/de.rs b/deser-json/src/de.rs
index 0df21c9..40b0903 100644
--- a/deser-json/src/de.rs
+++ b/deser-json/src/de.rs
@@ -207,10 +207,10 @@ impl<'a> Deserializer<'a> {
     }
 
     fn parse_str(&mut self) -> Result<&str, Error> {
-        fn result(bytes: &[u8]) -> &str {
-            // The input is assumed to be valid UTF-8 and the \u-escapes are
-            // checked along the way, so don't need to check here.
-            unsafe { str::from_utf8_unchecked(bytes) }
+        fn result(bytes: &[u8]) -> Result<&str, Error> {
+            // The input can be arbitrary bytes.
+            str::from_utf8(bytes)
+                .map_err(|err| Error::new(ErrorKind::Unexpected, "invalid utf-8").with_source(err))
         }
 
         // Index of the first byte not yet copied into the scratch space.
@@ -234,11 +234,11 @@ impl<'a> Deserializer<'a> {
                         // copying.
                         let borrowed = &self.input[start..self.pos];
                         self.pos += 1;
-                        return Ok(result(borrowed));
+                        return result(borrowed);
                     } else {
                         self.buffer.extend_from_slice(&self.input[start..self.pos]);
                         self.pos += 1;
-                        return Ok(result(&self.buffer));
+                        return result(&self.buffer);
                     }
                 }
                 b'\\' => {
-- 
2.43.0


From 9b1bb48b0f7b1cf79e2e4f7e34b0d4e89d453bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:37 +0000
Subject: [PATCH 08/26] fix: write chars as strings to JSON

The code point was written as a decimal number in a string, which could not
be read back into a char.
---
 deser-json/src/ser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deser-json/src/ser.rs b/deser-json/src/ser.rs
index a5786de..0352fe5 100644
--- a/deser-json/src/ser.rs
+++ b/deser-json/src/ser.rs
@@ -77,7 +77,7 @@ impl Serializer {
                     match event {
                         Event::Atom(Atom::Str(val)) => self.write_escaped_str(&val),
                         Event::Atom(Atom::Char(c)) => {
-                            self.write_escaped_str(&(c as u32).to_string())
+                            self.write_escaped_str(c.encode_utf8(&mut [0; 4]))
                         }
                         _ => unsupported!("JSON does not support this value for map keys"),
                     }
@@ -93,7 +93,7 @@ impl Serializer {
                     Atom::Bool(false) => self.write_str("false"),
                     Atom::Str(val) => self.write_escaped_str(&val),
                     Atom::Bytes(_val) => unsupported!("JSON doesn't support bytes"),
-                    Atom::Char(c) => self.write_escaped_str(&(c as u32).to_string()),
+                    Atom::Char(c) => self.write_escaped_str(c.encode_utf8(&mut [0; 4])),
                     Atom::U64(val) => {
                         #[cfg(feature = "speedups")]
                         {
-- 
2.43.0


From b375579a910283527aad0a90c340456a2f2e8f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:14 +0000
Subject: [PATCH 09/26] fix: leave the path segment when a container ends
 during deserialization

The segment pushed for a map or sequence was never removed, so everything
that followed a nested container was reported below it.
---
 deser-path/src/de.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/deser-path/src/de.rs b/deser-path/src/de.rs
index 9023b9b..87eecc7 100644
--- a/deser-path/src/de.rs
+++ b/deser-path/src/de.rs
@@ -18,6 +18,7 @@ pub struct PathSink<'a> {
     sink: SinkHandle<'a>,
     container: Container,
     set_segment: Option<PathSegment>,
+    pushed: bool,
 }
 
 impl<'a> PathSink<'a> {
@@ -32,6 +33,7 @@ impl<'a> PathSink<'a> {
             sink,
             container: Container::None,
             set_segment: None,
+            pushed: false,
         }
     }
 
@@ -59,6 +61,7 @@ impl<'a> Sink for PathSink<'a> {
     fn map(&mut self, state: &DeserializerState) -> Result<(), Error> {
         self.set_segment(state);
         state.get_mut::<Path>().segments.push(PathSegment::Unknown);
+        self.pushed = true;
         self.container = Container::Map(Rc::default());
         self.sink.map(state)
     }
@@ -66,6 +69,7 @@ impl<'a> Sink for PathSink<'a> {
     fn seq(&mut self, state: &DeserializerState) -> Result<(), Error> {
         self.set_segment(state);
         state.get_mut::<Path>().segments.push(PathSegment::Unknown);
+        self.pushed = true;
         self.container = Container::Seq(0);
         self.sink.seq(state)
     }
@@ -79,6 +83,7 @@ impl<'a> Sink for PathSink<'a> {
                     _ => unreachable!(),
                 },
                 set_segment: None,
+                pushed: false,
             })
         })
     }
@@ -98,11 +103,16 @@ impl<'a> Sink for PathSink<'a> {
                 sink,
                 container: Container::None,
                 set_segment,
+                pushed: false,
             })
         })
     }
 
     fn finish(&mut self, state: &DeserializerState) -> Result<(), Error> {
+        if self.pushed {
+            state.get_mut::<Path>().segments.pop();
+            self.pushed = false;
+        }
         self.sink.finish(state)
     }
 
-- 
2.43.0


From 7b94b6765ef6a456ba1b73e9c9b654a47c1c9704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:14 +0000
Subject: [PATCH 10/26] fix: report unknown path segments for unsupported keys
 during deserialization

A value below a key that is neither a string nor an unsigned integer kept
the segment of the previous value, and negative keys became huge indexes.
---
 deser-path/src/de.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/deser-path/src/de.rs b/deser-path/src/de.rs
index 87eecc7..bba5893 100644
--- a/deser-path/src/de.rs
+++ b/deser-path/src/de.rs
@@ -51,7 +51,7 @@ impl<'a> Sink for PathSink<'a> {
             *capture.borrow_mut() = match atom {
                 Atom::Str(ref value) => Some(PathSegment::Key(value.to_string())),
                 Atom::U64(value) => Some(PathSegment::Index(value as usize)),
-                Atom::I64(value) => Some(PathSegment::Index(value as usize)),
+                Atom::I64(value) if value >= 0 => Some(PathSegment::Index(value as usize)),
                 _ => None,
             };
         }
@@ -91,7 +91,12 @@ impl<'a> Sink for PathSink<'a> {
     fn next_value(&mut self, state: &DeserializerState) -> Result<SinkHandle, Error> {
         let set_segment = match self.container {
             Container::None => None,
-            Container::Map(ref captured_key) => captured_key.borrow_mut().take(),
+            Container::Map(ref captured_key) => Some(
+                captured_key
+                    .borrow_mut()
+                    .take()
+                    .unwrap_or(PathSegment::Unknown),
+            ),
             Container::Seq(ref mut index) => {
                 let old_index = *index;
                 *index += 1;
-- 
2.43.0


From 68d249686bb1d328fd2790713bf22ef088b25eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:15 +0000
Subject: [PATCH 11/26] fix: forward the whole Serialize interface through
 references, boxes and options

References and boxes lost the descriptor and the optional state of the value
they point to, and like options never called its finish method.
---
 deser/src/ser/impls.rs | 43 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/deser/src/ser/impls.rs b/deser/src/ser/impls.rs
index 18e6642..7e56821 100644
--- a/deser/src/ser/impls.rs
+++ b/deser/src/ser/impls.rs
@@ -323,6 +323,13 @@ where
             None => Ok(Chunk::Atom(Atom::Null)),
         }
     }
+
+    fn finish(&self, state: &SerializerState) -> Result<(), Error> {
+        match self {
+            Some(value) => value.finish(state),
+            None => Ok(()),
+        }
+    }
 }
 
 macro_rules! serialize_for_tuple {
@@ -392,19 +399,55 @@ impl<T: Serialize, const N: usize> Serialize for [T; N] {
 }
 
 impl<'a, T: Serialize> Serialize for &'a T {
+    fn descriptor(&self) -> &dyn Descriptor {
+        Serialize::descriptor(&**self)
+    }
+
+    fn is_optional(&self) -> bool {
+        Serialize::is_optional(&**self)
+    }
+
     fn serialize(&self, state: &SerializerState) -> Result<Chunk, Error> {
         Serialize::serialize(*self, state)
     }
+
+    fn finish(&self, state: &SerializerState) -> Result<(), Error> {
+        Serialize::finish(&**self, state)
+    }
 }
 
 impl<'a, T: Serialize> Serialize for &'a mut T {
+    fn descriptor(&self) -> &dyn Descriptor {
+        Serialize::descriptor(&**self)
+    }
+
+    fn is_optional(&self) -> bool {
+        Serialize::is_optional(&**self)
+    }
+
     fn serialize(&self, state: &SerializerState) -> Result<Chunk, Error> {
         Serialize::serialize(*self, state)
     }
+
+    fn finish(&self, state: &SerializerState) -> Result<(), Error> {
+        Serialize::finish(&**self, state)
+    }
 }
 
 impl<T: Serialize> Serialize for Box<T> {
+    fn descriptor(&self) -> &dyn Descriptor {
+        Serialize::descriptor(&**self)
+    }
+
+    fn is_optional(&self) -> bool {
+        Serialize::is_optional(&**self)
+    }
+
     fn serialize(&self, state: &SerializerState) -> Result<Chunk, Error> {
         Serialize::serialize(&**self, state)
     }
+
+    fn finish(&self, state: &SerializerState) -> Result<(), Error> {
+        Serialize::finish(&**self, state)
+    }
 }
-- 
2.43.0


From 2616aa7f6acb736f17a775c8f711c2ba70b7724e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:15 +0000
Subject: [PATCH 12/26] fix: keep descriptors when serializing with a path

The wrappers hid the descriptor and the optional state of the wrapped value.
---
 deser-path/src/ser.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/deser-path/src/ser.rs b/deser-path/src/ser.rs
index 708ce8b..4a5db22 100644
--- a/deser-path/src/ser.rs
+++ b/deser-path/src/ser.rs
@@ -5,7 +5,7 @@ use std::rc::Rc;
 use deser::ser::{
     Chunk, MapEmitter, SeqEmitter, Serialize, SerializeHandle, SerializerState, StructEmitter,
 };
-use deser::{Atom, Error};
+use deser::{Atom, Descriptor, Error};
 
 use crate::{Path, PathSegment};
 
@@ -27,6 +27,14 @@ impl<'a> PathSerializable<'a> {
 }
 
 impl<'a> Serialize for PathSerializable<'a> {
+    fn descriptor(&self) -> &dyn Descriptor {
+        self.serializable.descriptor()
+    }
+
+    fn is_optional(&self) -> bool {
+        self.serializable.is_optional()
+    }
+
     fn serialize(&self, state: &SerializerState) -> Result<Chunk, Error> {
         match self.serializable.serialize(state)? {
             Chunk::Struct(emitter) => Ok(Chunk::Struct(Box::new(PathStructEmitter { emitter }))),
@@ -125,6 +133,14 @@ struct SegmentPushingSerializable<'a> {
 }
 
 impl<'a> Serialize for SegmentPushingSerializable<'a> {
+    fn descriptor(&self) -> &dyn Descriptor {
+        self.serializable.descriptor()
+    }
+
+    fn is_optional(&self) -> bool {
+        self.serializable.is_optional()
+    }
+
     fn serialize(&self, state: &SerializerState) -> Result<Chunk, Error> {
         {
             let mut path = state.get_mut::<Path>();
@@ -155,6 +171,14 @@ struct SegmentCollectingSerializable<'a> {
 }
 
 impl<'a> Serialize for SegmentCollectingSerializable<'a> {
+    fn descriptor(&self) -> &dyn Descriptor {
+        self.serializable.descriptor()
+    }
+
+    fn is_optional(&self) -> bool {
+        self.serializable.is_optional()
+    }
+
     fn serialize(&self, state: &SerializerState) -> Result<Chunk, Error> {
         match self.serializable.serialize(state)? {
             Chunk::Atom(Atom::Str(key)) => {
-- 
2.43.0


From c63aea4431d8fcd28619ebe536672ca113ed634a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:02 +0000
Subject: [PATCH 13/26] fix: support generic types in derive(Deserialize)

Type parameters were bound by Serialize instead of Deserialize, newtypes
repeated the generics on the field type, and container defaults lost them.
---
 deser-derive/src/de.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/deser-derive/src/de.rs b/deser-derive/src/de.rs
index 13784ad..580374a 100644
--- a/deser-derive/src/de.rs
+++ b/deser-derive/src/de.rs
@@ -122,7 +122,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
 
     let wrapper_generics = with_lifetime_bound(&input.generics, "'__a");
     let (wrapper_impl_generics, wrapper_ty_generics, _) = wrapper_generics.split_for_impl();
-    let bound = syn::parse_quote!(::deser::Serialize);
+    let bound = syn::parse_quote!(::deser::Deserialize);
     let bounded_where_clause = where_clause_with_bound(&input.generics, bound);
 
     let field_stage1_default = attrs
@@ -200,7 +200,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
                 need_container_default.into_iter().unzip();
             let type_default = match container_attrs.default().unwrap() {
                 TypeDefault::Implicit => quote! {
-                    <#ident as ::deser::__derive::Default>::default()
+                    <#ident #ty_generics as ::deser::__derive::Default>::default()
                 },
                 TypeDefault::Explicit(path) => quote! { #path() },
             };
@@ -462,7 +462,7 @@ fn derive_newtype_struct(input: &syn::DeriveInput, field: &syn::Field) -> syn::R
 
     let wrapper_generics = with_lifetime_bound(&input.generics, "'__a");
     let (wrapper_impl_generics, wrapper_ty_generics, _) = wrapper_generics.split_for_impl();
-    let bound = syn::parse_quote!(::deser::Serialize);
+    let bound = syn::parse_quote!(::deser::Deserialize);
     let bounded_where_clause = where_clause_with_bound(&input.generics, bound);
 
     Ok(quote! {
@@ -470,7 +470,7 @@ fn derive_newtype_struct(input: &syn::DeriveInput, field: &syn::Field) -> syn::R
         const #dummy: () = {
             struct __Sink #wrapper_impl_generics #where_clause {
                 slot: &'__a mut ::deser::__derive::Option<#ident #ty_generics>,
-                sink: ::deser::de::OwnedSink<#field_type #ty_generics>,
+                sink: ::deser::de::OwnedSink<#field_type>,
             }
 
             #[automatically_derived]
-- 
2.43.0


From b0cc30ecadb9a7cc2f82d30a7e4bf6140eb84230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:03 +0000
Subject: [PATCH 14/26] fix: support raw identifiers in derives

The r# prefix ended up in the names, and derive(Deserialize) panicked on it.
---
 deser-derive/src/attr.rs | 8 +++++---
 deser-derive/src/de.rs   | 9 +++++----
 deser-derive/src/ser.rs  | 7 ++++---
 3 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/deser-derive/src/attr.rs b/deser-derive/src/attr.rs
index eeb20f0..f314bc6 100644
--- a/deser-derive/src/attr.rs
+++ b/deser-derive/src/attr.rs
@@ -1,5 +1,7 @@
 use std::borrow::Cow;
 
+use syn::ext::IdentExt;
+
 #[derive(Copy, Clone)]
 #[allow(clippy::enum_variant_names)]
 pub enum RenameAll {
@@ -165,12 +167,12 @@ impl<'a> ContainerAttrs<'a> {
     pub fn container_name(&self) -> String {
         match self.rename {
             Some(ref name) => name.clone(),
-            None => self.ident.to_string(),
+            None => self.ident.unraw().to_string(),
         }
     }
 
     pub fn get_field_name(&self, field: &syn::Field) -> String {
-        let name = field.ident.as_ref().unwrap().to_string();
+        let name = field.ident.as_ref().unwrap().unraw().to_string();
         if let Some(rename_all) = self.rename_all {
             match rename_all {
                 RenameAll::LowerCase | RenameAll::SnakeCase => name,
@@ -222,7 +224,7 @@ impl<'a> ContainerAttrs<'a> {
     }
 
     pub fn get_variant_name(&self, variant: &syn::Variant) -> String {
-        let name = variant.ident.to_string();
+        let name = variant.ident.unraw().to_string();
         if let Some(rename_all) = self.rename_all {
             match rename_all {
                 RenameAll::PascalCase => name,
diff --git a/deser-derive/src/de.rs b/deser-derive/src/de.rs
index 580374a..01ecd1d 100644
--- a/deser-derive/src/de.rs
+++ b/deser-derive/src/de.rs
@@ -2,6 +2,7 @@ use std::collections::HashSet;
 
 use proc_macro2::{Span, TokenStream};
 use quote::quote;
+use syn::ext::IdentExt;
 
 use crate::attr::{
     ensure_no_field_attrs, ContainerAttrs, EnumVariantAttrs, FieldAttrs, TypeDefault,
@@ -27,7 +28,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
     let ident = &input.ident;
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
     let dummy = syn::Ident::new(
-        &format!("_DESER_DESERIALIZE_IMPL_FOR_{}", ident),
+        &format!("_DESER_DESERIALIZE_IMPL_FOR_{}", ident.unraw()),
         Span::call_site(),
     );
 
@@ -43,7 +44,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
         .iter()
         .map(|x| {
             syn::Ident::new(
-                &format!("field_{}", x.field().ident.as_ref().unwrap()),
+                &format!("field_{}", x.field().ident.as_ref().unwrap().unraw()),
                 Span::call_site(),
             )
         })
@@ -337,7 +338,7 @@ pub fn derive_enum(
 
     let ident = &input.ident;
     let dummy = syn::Ident::new(
-        &format!("_DESER_DESERIALIZE_IMPL_FOR_{}", ident),
+        &format!("_DESER_DESERIALIZE_IMPL_FOR_{}", ident.unraw()),
         Span::call_site(),
     );
 
@@ -447,7 +448,7 @@ fn derive_newtype_struct(input: &syn::DeriveInput, field: &syn::Field) -> syn::R
     let ident = &input.ident;
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
     let dummy = syn::Ident::new(
-        &format!("_DESER_DESERIALIZE_IMPL_FOR_{}", ident),
+        &format!("_DESER_DESERIALIZE_IMPL_FOR_{}", ident.unraw()),
         Span::call_site(),
     );
 
diff --git a/deser-derive/src/ser.rs b/deser-derive/src/ser.rs
index 79206d8..455eeb0 100644
--- a/deser-derive/src/ser.rs
+++ b/deser-derive/src/ser.rs
@@ -1,5 +1,6 @@
 use proc_macro2::{Span, TokenStream};
 use quote::quote;
+use syn::ext::IdentExt;
 
 use crate::attr::{ensure_no_field_attrs, ContainerAttrs, EnumVariantAttrs, FieldAttrs};
 use crate::bound::{where_clause_with_bound, with_lifetime_bound};
@@ -23,7 +24,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
     let ident = &input.ident;
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
     let dummy = syn::Ident::new(
-        &format!("_DESER_SERIALIZE_IMPL_FOR_{}", ident),
+        &format!("_DESER_SERIALIZE_IMPL_FOR_{}", ident.unraw()),
         Span::call_site(),
     );
 
@@ -210,7 +211,7 @@ fn derive_enum(input: &syn::DeriveInput, enumeration: &syn::DataEnum) -> syn::Re
 
     let ident = &input.ident;
     let dummy = syn::Ident::new(
-        &format!("_DESER_SERIALIZE_IMPL_FOR_{}", ident),
+        &format!("_DESER_SERIALIZE_IMPL_FOR_{}", ident.unraw()),
         Span::call_site(),
     );
 
@@ -261,7 +262,7 @@ fn derive_newtype_struct(input: &syn::DeriveInput, field: &syn::Field) -> syn::R
     let ident = &input.ident;
     let (impl_generics, ty_generics, _) = input.generics.split_for_impl();
     let dummy = syn::Ident::new(
-        &format!("_DESER_SERIALIZE_IMPL_FOR_{}", ident),
+        &format!("_DESER_SERIALIZE_IMPL_FOR_{}", ident.unraw()),
         Span::call_site(),
     );
 
-- 
2.43.0


From f236b7270af575b180a2502feac67dae48d1fd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:04 +0000
Subject: [PATCH 15/26] fix: use the container default for missing optional
 fields

Fields of type Option<T> started out as None and never fell back to the
default of the struct.
---
 deser-derive/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deser-derive/src/de.rs b/deser-derive/src/de.rs
index 01ecd1d..f026ab5 100644
--- a/deser-derive/src/de.rs
+++ b/deser-derive/src/de.rs
@@ -71,7 +71,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
                 quote! {
                     ::deser::de::OwnedSink::deserialize()
                 }
-            } else if f.default().is_some() {
+            } else if f.default().is_some() || container_attrs.default().is_some() {
                 quote! {
                     ::deser::__derive::None
                 }
-- 
2.43.0


From 1c11498eb2745ff716646658110cd7f52a55778c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:46 +0000
Subject: [PATCH 16/26] fix: drop sinks before the sinks they borrow from

The driver held on to the sink of the last value while the parent was used
again or dropped, kept using the root sink after it was finished, and left the
descriptor of a container behind if its finish failed.
---
 deser/src/de/driver.rs | 40 +++++++++++++++-------------------------
 1 file changed, 15 insertions(+), 25 deletions(-)

diff --git a/deser/src/de/driver.rs b/deser/src/de/driver.rs
index 10c18cf..c373c3e 100644
--- a/deser/src/de/driver.rs
+++ b/deser/src/de/driver.rs
@@ -58,7 +58,9 @@ impl<'a> DeserializeDriver<'a> {
         self._emit(event.into())
     }
 
-    fn update_current_sink(&mut self) -> Result<(), Error> {
+    // The returned sink borrows from the topmost sink on the stack, so it has to
+    // be dropped or pushed to the stack before that one is used again.
+    fn next_sink(&mut self) -> Result<SinkHandle<'static>, Error> {
         match self.sink_stack.last_mut() {
             Some((map_sink, Layer::Map(ref mut is_key))) => {
                 let next_sink = if *is_key {
@@ -67,67 +69,55 @@ impl<'a> DeserializeDriver<'a> {
                     map_sink.next_value(&self.state)?
                 };
                 *is_key = !*is_key;
-                self.current_sink = Some(unsafe { extend_lifetime!(next_sink, SinkHandle<'_>) });
+                Ok(unsafe { extend_lifetime!(next_sink, SinkHandle<'_>) })
             }
             Some((seq_sink, Layer::Seq)) => {
-                self.current_sink = Some(unsafe {
-                    extend_lifetime!(seq_sink.next_value(&self.state)?, SinkHandle<'_>)
-                });
+                Ok(unsafe { extend_lifetime!(seq_sink.next_value(&self.state)?, SinkHandle<'_>) })
             }
-            None => {}
+            None => Ok(self.current_sink.take().expect("no active sink")),
         }
-        Ok(())
     }
 
     fn _emit(&mut self, event: Event) -> Result<(), Error> {
-        macro_rules! current_sink {
-            () => {{
-                self.update_current_sink()?;
-                self.current_sink.as_mut().expect("no active sink")
-            }};
-        }
-
         match event {
             Event::Atom(atom) => {
-                let current_sink = current_sink!();
+                let mut current_sink = self.next_sink()?;
                 current_sink.atom(atom, &self.state)?;
                 current_sink.finish(&self.state)?;
             }
             Event::MapStart => {
-                let current_sink = current_sink!();
+                let mut current_sink = self.next_sink()?;
                 current_sink.map(&self.state)?;
                 let descriptor = current_sink.descriptor();
                 self.state
                     .descriptor_stack
                     .push(unsafe { extend_lifetime!(descriptor, &dyn Descriptor) });
-                self.sink_stack
-                    .push((self.current_sink.take().unwrap(), Layer::Map(true)));
+                self.sink_stack.push((current_sink, Layer::Map(true)));
                 return Ok(());
             }
             Event::MapEnd => match self.sink_stack.pop() {
                 Some((mut map_sink, Layer::Map(_))) => {
-                    map_sink.finish(&self.state)?;
+                    let rv = map_sink.finish(&self.state);
                     self.state.descriptor_stack.pop();
-                    self.current_sink = Some(map_sink);
+                    rv?;
                 }
                 _ => panic!("not inside a MapSink"),
             },
             Event::SeqStart => {
-                let current_sink = current_sink!();
+                let mut current_sink = self.next_sink()?;
                 current_sink.seq(&self.state)?;
                 let descriptor = current_sink.descriptor();
                 self.state
                     .descriptor_stack
                     .push(unsafe { extend_lifetime!(descriptor, &dyn Descriptor) });
-                self.sink_stack
-                    .push((self.current_sink.take().unwrap(), Layer::Seq));
+                self.sink_stack.push((current_sink, Layer::Seq));
                 return Ok(());
             }
             Event::SeqEnd => match self.sink_stack.pop() {
                 Some((mut seq_sink, Layer::Seq)) => {
-                    seq_sink.finish(&self.state)?;
+                    let rv = seq_sink.finish(&self.state);
                     self.state.descriptor_stack.pop();
-                    self.current_sink = Some(seq_sink);
+                    rv?;
                 }
                 _ => panic!("not inside a SeqSink"),
             },
-- 
2.43.0


From d46dd1f833bda6352b629a7c9a9eb2e54c4d329d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:46 +0000
Subject: [PATCH 17/26] fix: panic when a map ends while a value is expected

The key without a value was silently dropped.
---
 deser/src/de/driver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deser/src/de/driver.rs b/deser/src/de/driver.rs
index c373c3e..1bdcd23 100644
--- a/deser/src/de/driver.rs
+++ b/deser/src/de/driver.rs
@@ -96,7 +96,7 @@ impl<'a> DeserializeDriver<'a> {
                 return Ok(());
             }
             Event::MapEnd => match self.sink_stack.pop() {
-                Some((mut map_sink, Layer::Map(_))) => {
+                Some((mut map_sink, Layer::Map(true))) => {
                     let rv = map_sink.finish(&self.state);
                     self.state.descriptor_stack.pop();
                     rv?;
-- 
2.43.0


From b32beca3514658554abd9443b0b8ad7d9c8469b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:46 +0000
Subject: [PATCH 18/26] fix: drop serializables before the emitters they borrow
 from

When a driver was dropped half way all emitters were dropped first.
---
 deser/src/ser/driver.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/deser/src/ser/driver.rs b/deser/src/ser/driver.rs
index c420421..3c7e7ff 100644
--- a/deser/src/ser/driver.rs
+++ b/deser/src/ser/driver.rs
@@ -59,11 +59,15 @@ enum Emitter {
 impl<'a> Drop for SerializeDriver<'a> {
     fn drop(&mut self) {
         self.next_event.take();
-        while let Some(_emitter) = self.emitter_stack.pop() {
-            // drop in inverse order
-        }
-        while let Some(_emitter) = self.serializable_stack.pop() {
-            // drop in inverse order
+        // Drop in inverse order: an emitter borrows from the serializable that
+        // created it and is itself borrowed by the serializables it returned.
+        loop {
+            while self.serializable_stack.len() > self.emitter_stack.len() {
+                drop(self.serializable_stack.pop());
+            }
+            if self.emitter_stack.pop().is_none() {
+                break;
+            }
         }
         unsafe {
             ManuallyDrop::drop(&mut self.serializable_stack);
-- 
2.43.0


From 9275496b5a63faee8b788f361f92a38d0d901b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:02 +0000
Subject: [PATCH 19/26] fix: pop the descriptor of a container before its sink
 goes away

If the end callback of a sink panicked, or the end event was not expected,
the sink was dropped while its descriptor stayed visible in the state.
---
 deser/src/de/driver.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/deser/src/de/driver.rs b/deser/src/de/driver.rs
index 1bdcd23..651fa32 100644
--- a/deser/src/de/driver.rs
+++ b/deser/src/de/driver.rs
@@ -95,10 +95,12 @@ impl<'a> DeserializeDriver<'a> {
                 self.sink_stack.push((current_sink, Layer::Map(true)));
                 return Ok(());
             }
-            Event::MapEnd => match self.sink_stack.pop() {
-                Some((mut map_sink, Layer::Map(true))) => {
+            Event::MapEnd => match self.sink_stack.last_mut() {
+                Some((map_sink, Layer::Map(true))) => {
+                    // the descriptor borrows from the sink
                     let rv = map_sink.finish(&self.state);
                     self.state.descriptor_stack.pop();
+                    self.sink_stack.pop();
                     rv?;
                 }
                 _ => panic!("not inside a MapSink"),
@@ -113,10 +115,12 @@ impl<'a> DeserializeDriver<'a> {
                 self.sink_stack.push((current_sink, Layer::Seq));
                 return Ok(());
             }
-            Event::SeqEnd => match self.sink_stack.pop() {
-                Some((mut seq_sink, Layer::Seq)) => {
+            Event::SeqEnd => match self.sink_stack.last_mut() {
+                Some((seq_sink, Layer::Seq)) => {
+                    // the descriptor borrows from the sink
                     let rv = seq_sink.finish(&self.state);
                     self.state.descriptor_stack.pop();
+                    self.sink_stack.pop();
                     rv?;
                 }
                 _ => panic!("not inside a SeqSink"),
-- 
2.43.0


From f572888a51b4f37e095cd34f1e4a16980ed66983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:31 +0000
Subject: [PATCH 20/26] fix: hide the path of the previous value while a map
 key is deserialized

---
 deser-path/src/de.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/deser-path/src/de.rs b/deser-path/src/de.rs
index bba5893..1a3b689 100644
--- a/deser-path/src/de.rs
+++ b/deser-path/src/de.rs
@@ -82,7 +82,9 @@ impl<'a> Sink for PathSink<'a> {
                     Container::Map(ref capture) => Container::Map(capture.clone()),
                     _ => unreachable!(),
                 },
-                set_segment: None,
+                // the key has no location of its own; in particular it must
+                // not show the one of the previous value.
+                set_segment: Some(PathSegment::Unknown),
                 pushed: false,
             })
         })
-- 
2.43.0


From 2c6845304144f6119741e01082a00ae83a4c05b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:36 +0000
Subject: [PATCH 21/26] fix: report malformed deser attributes instead of
 ignoring them

---
 deser-derive/src/attr.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/deser-derive/src/attr.rs b/deser-derive/src/attr.rs
index f314bc6..0041718 100644
--- a/deser-derive/src/attr.rs
+++ b/deser-derive/src/attr.rs
@@ -61,6 +61,15 @@ pub fn get_meta_items(attr: &syn::Attribute) -> syn::Result<Vec<syn::NestedMeta>
     }
 }
 
+/// Collects the items of all `#[deser(...)]` attributes.
+fn get_all_meta_items(attrs: &[syn::Attribute]) -> syn::Result<Vec<syn::NestedMeta>> {
+    let mut rv = Vec::new();
+    for attr in attrs {
+        rv.extend(get_meta_items(attr)?);
+    }
+    Ok(rv)
+}
+
 fn respan(stream: proc_macro2::TokenStream, span: proc_macro2::Span) -> proc_macro2::TokenStream {
     stream
         .into_iter()
@@ -104,7 +113,7 @@ impl<'a> ContainerAttrs<'a> {
             skip_serializing_optionals: false,
         };
 
-        for meta_item in input.attrs.iter().flat_map(get_meta_items).flatten() {
+        for meta_item in get_all_meta_items(&input.attrs)? {
             if let syn::NestedMeta::Meta(meta) = meta_item {
                 match &meta {
                     syn::Meta::NameValue(nv) if nv.path.is_ident("rename_all") => {
@@ -268,7 +277,7 @@ impl<'a> ContainerAttrs<'a> {
 }
 
 pub fn ensure_no_field_attrs(field: &syn::Field) -> syn::Result<()> {
-    if let Some(first) = field.attrs.iter().flat_map(get_meta_items).flatten().next() {
+    if let Some(first) = get_all_meta_items(&field.attrs)?.into_iter().next() {
         Err(syn::Error::new_spanned(first, "unsupported attribute"))
     } else {
         Ok(())
@@ -295,7 +304,7 @@ impl<'a> FieldAttrs<'a> {
             skip_serializing_if: None,
         };
 
-        for meta_item in field.attrs.iter().flat_map(get_meta_items).flatten() {
+        for meta_item in get_all_meta_items(&field.attrs)? {
             if let syn::NestedMeta::Meta(meta) = meta_item {
                 match &meta {
                     syn::Meta::NameValue(nv) if nv.path.is_ident("rename") => {
@@ -408,7 +417,7 @@ impl<'a> EnumVariantAttrs<'a> {
             aliases: Vec::new(),
         };
 
-        for meta_item in variant.attrs.iter().flat_map(get_meta_items).flatten() {
+        for meta_item in get_all_meta_items(&variant.attrs)? {
             if let syn::NestedMeta::Meta(meta) = meta_item {
                 match &meta {
                     syn::Meta::NameValue(nv) if nv.path.is_ident("rename") => {
-- 
2.43.0


From ce7119403fe49bc5732fffe8fa843c7be31502a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:36 +0000
Subject: [PATCH 22/26] fix: do not capitalize fields with leading underscores
 in camelCase

---
 deser-derive/src/attr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deser-derive/src/attr.rs b/deser-derive/src/attr.rs
index 0041718..2fb270f 100644
--- a/deser-derive/src/attr.rs
+++ b/deser-derive/src/attr.rs
@@ -206,7 +206,7 @@ impl<'a> ContainerAttrs<'a> {
                     let mut capitalize = false;
                     for ch in name.chars() {
                         if ch == '_' {
-                            capitalize = true;
+                            capitalize = !camel.is_empty();
                         } else if capitalize {
                             camel.push(ch.to_ascii_uppercase());
                             capitalize = false;
-- 
2.43.0


From 98579b769a26fc3a1098b91faaa56540dcbac3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:36 +0000
Subject: [PATCH 23/26] fix: support non-ASCII variants in camelCase

---
 deser-derive/src/attr.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/deser-derive/src/attr.rs b/deser-derive/src/attr.rs
index 2fb270f..2d71967 100644
--- a/deser-derive/src/attr.rs
+++ b/deser-derive/src/attr.rs
@@ -239,7 +239,11 @@ impl<'a> ContainerAttrs<'a> {
                 RenameAll::PascalCase => name,
                 RenameAll::LowerCase => name.to_ascii_lowercase(),
                 RenameAll::UpperCase => name.to_ascii_uppercase(),
-                RenameAll::CamelCase => name[..1].to_ascii_lowercase() + &name[1..],
+                RenameAll::CamelCase => {
+                    let mut chars = name.chars();
+                    let first = chars.next().unwrap();
+                    first.to_ascii_lowercase().to_string() + chars.as_str()
+                }
                 RenameAll::SnakeCase
                 | RenameAll::ScreamingSnakeCase
                 | RenameAll::KebabCase
-- 
2.43.0


From f681ca2b0126e799fa481ba97a937fac1f70ba8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:52 +0000
Subject: [PATCH 24/26] fix: do not depend on names in scope in derived code

---
 deser-derive/src/de.rs  | 6 +++---
 deser-derive/src/ser.rs | 6 +++---
 deser/src/lib.rs        | 1 +
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/deser-derive/src/de.rs b/deser-derive/src/de.rs
index f026ab5..b9d55de 100644
--- a/deser-derive/src/de.rs
+++ b/deser-derive/src/de.rs
@@ -213,7 +213,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
                 ].iter().any(|x| *x) {
                     let __default = #type_default;
                     #(
-                        #sink_name = #sink_name.or_else(|| Some(__default.#original_name));
+                        #sink_name = #sink_name.or_else(|| ::deser::__derive::Some(__default.#original_name));
                     )*
                 }
             })
@@ -229,7 +229,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
         const #dummy: () = {
             struct __Sink #wrapper_impl_generics #where_clause {
                 slot: &'__a mut ::deser::__derive::Option<#ident #ty_generics>,
-                key: ::deser::__derive::Option<String>,
+                key: ::deser::__derive::Option<::deser::__derive::String>,
                 #(
                     #sink_fieldname: #sink_fieldty,
                 )*
@@ -524,7 +524,7 @@ fn derive_newtype_struct(input: &syn::DeriveInput, field: &syn::Field) -> syn::R
                 fn finish(&mut self, __state: &::deser::de::DeserializerState) -> ::deser::__derive::Result<()> {
                     self.sink.borrow_mut().finish(__state)?;
                     *self.slot = self.sink.take().map(#ident);
-                    Ok(())
+                    ::deser::__derive::Ok(())
                 }
 
                 fn descriptor(&self) -> &dyn ::deser::Descriptor {
diff --git a/deser-derive/src/ser.rs b/deser-derive/src/ser.rs
index 455eeb0..0f2fe92 100644
--- a/deser-derive/src/ser.rs
+++ b/deser-derive/src/ser.rs
@@ -106,7 +106,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
                         if self.nested_emitter_exhausted {
                             self.nested_emitter = match ::deser::ser::Serialize::serialize(&self.data.#name, __state)? {
                                 ::deser::ser::Chunk::Struct(__inner) => {
-                                    Some(__inner)
+                                    ::deser::__derive::Some(__inner)
                                 }
                                 _ => return ::deser::__derive::Err(::deser::Error::new(
                                     ::deser::ErrorKind::Unexpected,
@@ -158,7 +158,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
                     &__Descriptor
                 }
                 fn serialize(&self, __state: &::deser::ser::SerializerState) -> ::deser::__derive::Result<::deser::ser::Chunk> {
-                    ::deser::__derive::Ok(::deser::ser::Chunk::Struct(Box::new(__StructEmitter {
+                    ::deser::__derive::Ok(::deser::ser::Chunk::Struct(::deser::__derive::Box::new(__StructEmitter {
                         data: self,
                         index: 0,
                         #temp_emitter_init
@@ -183,7 +183,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
             #[automatically_derived]
             impl #wrapper_impl_generics ::deser::ser::StructEmitter for __StructEmitter #wrapper_ty_generics #bounded_where_clause {
                 fn next(&mut self, __state: &::deser::ser::SerializerState)
-                    -> ::deser::__derive::Result<::deser::__derive::Option<(deser::__derive::StrCow, ::deser::ser::SerializeHandle)>>
+                    -> ::deser::__derive::Result<::deser::__derive::Option<(::deser::__derive::StrCow, ::deser::ser::SerializeHandle)>>
                 {
                     #[allow(clippy::never_loop)]
                     loop {
diff --git a/deser/src/lib.rs b/deser/src/lib.rs
index f18959b..ee89286 100644
--- a/deser/src/lib.rs
+++ b/deser/src/lib.rs
@@ -77,6 +77,7 @@ pub mod __derive {
     pub use std::default::Default;
     pub use std::option::Option::{self, None, Some};
     pub use std::result::Result::{Err, Ok};
+    pub use std::string::String;
     pub type Result<T> = std::result::Result<T, super::Error>;
     pub type StrCow<'a> = Cow<'a, str>;
 
-- 
2.43.0


From 4a6d3c17739e8cd9d640a8e892c94da341359980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:32 +0000
Subject: [PATCH 25/26] fix: drop the sink before its value is moved out of an
 owned sink

---
 deser-derive/src/de.rs | 13 ++++++++++++-
 deser/src/de/impls.rs  | 14 +++++++++++++-
 deser/src/de/owned.rs  |  8 ++++++++
 deser/src/lib.rs       |  1 +
 4 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/deser-derive/src/de.rs b/deser-derive/src/de.rs
index b9d55de..d0f384a 100644
--- a/deser-derive/src/de.rs
+++ b/deser-derive/src/de.rs
@@ -472,6 +472,16 @@ fn derive_newtype_struct(input: &syn::DeriveInput, field: &syn::Field) -> syn::R
             struct __Sink #wrapper_impl_generics #where_clause {
                 slot: &'__a mut ::deser::__derive::Option<#ident #ty_generics>,
                 sink: ::deser::de::OwnedSink<#field_type>,
+                finished: bool,
+            }
+
+            // the value can only be moved when nothing borrows from the sink any more.
+            impl #wrapper_impl_generics ::deser::__derive::Drop for __Sink #wrapper_ty_generics #where_clause {
+                fn drop(&mut self) {
+                    if self.finished {
+                        *self.slot = self.sink.take().map(#ident);
+                    }
+                }
             }
 
             #[automatically_derived]
@@ -482,6 +492,7 @@ fn derive_newtype_struct(input: &syn::DeriveInput, field: &syn::Field) -> syn::R
                     ::deser::de::SinkHandle::boxed(__Sink {
                         slot: __slot,
                         sink: ::deser::de::OwnedSink::deserialize(),
+                        finished: false,
                     })
                 }
             }
@@ -523,7 +534,7 @@ fn derive_newtype_struct(input: &syn::DeriveInput, field: &syn::Field) -> syn::R
 
                 fn finish(&mut self, __state: &::deser::de::DeserializerState) -> ::deser::__derive::Result<()> {
                     self.sink.borrow_mut().finish(__state)?;
-                    *self.slot = self.sink.take().map(#ident);
+                    self.finished = true;
                     ::deser::__derive::Ok(())
                 }
 
diff --git a/deser/src/de/impls.rs b/deser/src/de/impls.rs
index 2e6d71e..2022ef5 100644
--- a/deser/src/de/impls.rs
+++ b/deser/src/de/impls.rs
@@ -786,6 +786,17 @@ impl<T: Deserialize> Deserialize for Box<T> {
         struct BoxSink<'a, T> {
             out: &'a mut Option<Box<T>>,
             sink: OwnedSink<T>,
+            finished: bool,
+        }
+
+        // the value can only be moved when nothing borrows from the sink any
+        // more, like the descriptor which is used until the sink is dropped.
+        impl<'a, T> Drop for BoxSink<'a, T> {
+            fn drop(&mut self) {
+                if self.finished {
+                    *self.out = self.sink.take().map(Box::new);
+                }
+            }
         }
 
         impl<'a, T: Deserialize> Sink for BoxSink<'a, T> {
@@ -819,7 +830,7 @@ impl<T: Deserialize> Deserialize for Box<T> {
 
             fn finish(&mut self, state: &DeserializerState) -> Result<(), Error> {
                 self.sink.borrow_mut().finish(state)?;
-                *self.out = self.sink.take().map(Box::new);
+                self.finished = true;
                 Ok(())
             }
 
@@ -835,6 +846,7 @@ impl<T: Deserialize> Deserialize for Box<T> {
         SinkHandle::boxed(BoxSink {
             out,
             sink: OwnedSink::deserialize(),
+            finished: false,
         })
     }
 }
diff --git a/deser/src/de/owned.rs b/deser/src/de/owned.rs
index 1667cdf..64e65a8 100644
--- a/deser/src/de/owned.rs
+++ b/deser/src/de/owned.rs
@@ -120,9 +120,17 @@ impl<T: Deserialize> OwnedSink<T> {
     pub fn borrow_mut(&mut self) -> &mut SinkHandle<'_> {
         unsafe { extend_lifetime!(&mut self.sink, &mut SinkHandle<'_>) }
     }
+}
 
+impl<T> OwnedSink<T> {
     /// Takes the value produced by the sink.
+    ///
+    /// This ends the deserialization: the sink is dropped and replaced with
+    /// one that ignores all values.
     pub fn take(&mut self) -> Option<T> {
+        // the sink might borrow from within the value (as the ones of optionals
+        // do), so it has to be gone before the value can be moved.
+        *self.sink = SinkHandle::null();
         self.storage.take()
     }
 }
diff --git a/deser/src/lib.rs b/deser/src/lib.rs
index ee89286..8a0f942 100644
--- a/deser/src/lib.rs
+++ b/deser/src/lib.rs
@@ -75,6 +75,7 @@ pub mod __derive {
     pub use std::borrow::Cow;
     pub use std::boxed::Box;
     pub use std::default::Default;
+    pub use std::ops::Drop;
     pub use std::option::Option::{self, None, Some};
     pub use std::result::Result::{Err, Ok};
     pub use std::string::String;
-- 
2.43.0


From 606cc3ba2c6ead76c78c13a6e29c9d4465a58840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:03 +0000
Subject: [PATCH 26/26] fix: debug rendering hangs when the writer fails

---
 deser-debug/src/lib.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/deser-debug/src/lib.rs b/deser-debug/src/lib.rs
index 648211d..1bf970a 100644
--- a/deser-debug/src/lib.rs
+++ b/deser-debug/src/lib.rs
@@ -87,8 +87,13 @@ fn dump<'a, 'f>(
                     } else {
                         map.value(&inner);
                     }
+                    let consumed = inner.1.load(atomic::Ordering::Relaxed);
+                    if consumed == 0 {
+                        // the writer failed, the error is reported by finish
+                        break;
+                    }
                     is_key = !is_key;
-                    rest = &rest[inner.1.load(atomic::Ordering::Relaxed)..];
+                    rest = &rest[consumed..];
                 }
                 map.finish()?;
             }
@@ -107,7 +112,12 @@ fn dump<'a, 'f>(
                     }
                     let inner = Helper(rest, AtomicUsize::default());
                     list.entry(&inner);
-                    rest = &rest[inner.1.load(atomic::Ordering::Relaxed)..];
+                    let consumed = inner.1.load(atomic::Ordering::Relaxed);
+                    if consumed == 0 {
+                        // the writer failed, the error is reported by finish
+                        break;
+                    }
+                    rest = &rest[consumed..];
                 }
                 list.finish()?;
             }
-- 
2.43.0

