From 3547bcf4240935dbb244a418105ac87d6c795612 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:52:35 +0000
Subject: [PATCH 01/82] fix: leave the statement delimiter after COPY to the
 script loop

COPY ... TO consumed the semicolon that ends it, so any statement following
it in a multi-statement script was rejected.
---
 src/datafusion/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datafusion/parser.rs b/src/datafusion/parser.rs
index 0452316..0bf354b 100644
--- a/src/datafusion/parser.rs
+++ b/src/datafusion/parser.rs
@@ -310,7 +310,7 @@ impl<'a> DFParser<'a> {
                     }
                 }
             } else {
-                let token = self.parser.next_token();
+                let token = self.parser.peek_token();
                 if token == Token::EOF || token == Token::SemiColon {
                     break;
                 } else {
-- 
2.43.0


From b2afb2339545270e1f57f7464f51044410dfadbd Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:52:35 +0000
Subject: [PATCH 02/82] fix: keep OR REPLACE when CREATE is left to the native
 parser

CREATE OR REPLACE TABLE/VIEW was parsed as a plain CREATE, since the keywords
had already been consumed.
---
 src/datafusion/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/datafusion/parser.rs b/src/datafusion/parser.rs
index 0bf354b..ce9e2c1 100644
--- a/src/datafusion/parser.rs
+++ b/src/datafusion/parser.rs
@@ -402,6 +402,11 @@ impl<'a> DFParser<'a> {
             self.parse_create_function(or_replace, false)
         // XXX SEAFOWL: change ends here
         } else {
+            if or_replace {
+                // The native parser wants to see the OR REPLACE keywords itself
+                self.parser.prev_token();
+                self.parser.prev_token();
+            }
             Ok(Statement::Statement(Box::from(self.parser.parse_create()?)))
         }
     }
-- 
2.43.0


From 04a7291b0bb283ea5ab65c18e5499cc41cd8c610 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:52:35 +0000
Subject: [PATCH 03/82] fix: reject multi-part names in VACUUM DATABASE

VACUUM DATABASE a.b silently vacuumed the database a.
---
 src/datafusion/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datafusion/parser.rs b/src/datafusion/parser.rs
index ce9e2c1..0b62c4a 100644
--- a/src/datafusion/parser.rs
+++ b/src/datafusion/parser.rs
@@ -212,7 +212,7 @@ impl<'a> DFParser<'a> {
         if self.parser.parse_keyword(Keyword::TABLE) {
             table_name = self.parser.parse_object_name(true)?;
         } else if self.parser.parse_keyword(Keyword::DATABASE) {
-            let database_name = self.parser.parse_object_name(false)?.0[0].clone();
+            let database_name = self.parser.parse_identifier(false)?;
             partitions = Some(vec![Expr::Identifier(database_name)]);
         } else {
             return self.expected(
-- 
2.43.0


From c76cc0c051847bb86290c1f5247c9bea947b3bf6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:57:26 +0000
Subject: [PATCH 04/82] fix: check decimal precision and scale before narrowing
 them

DECIMAL(266, 2) was silently accepted as DECIMAL(10, 2), and scales from 128
up as negative ones.
---
 src/datafusion/utils.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/datafusion/utils.rs b/src/datafusion/utils.rs
index 440a730..1f2875e 100644
--- a/src/datafusion/utils.rs
+++ b/src/datafusion/utils.rs
@@ -185,25 +185,28 @@ pub(crate) fn make_decimal_type(
 ) -> Result<DataType> {
     // postgres like behavior
     let (precision, scale) = match (precision, scale) {
-        (Some(p), Some(s)) => (p as u8, s as i8),
-        (Some(p), None) => (p as u8, 0),
+        (Some(p), Some(s)) => (p, s),
+        (Some(p), None) => (p, 0),
         (None, Some(_)) => {
             return Err(DataFusionError::Internal(
                 "Cannot specify only scale for decimal data type".to_string(),
             ))
         }
-        (None, None) => (DECIMAL128_MAX_PRECISION, DECIMAL_DEFAULT_SCALE),
+        (None, None) => (
+            DECIMAL128_MAX_PRECISION as u64,
+            DECIMAL_DEFAULT_SCALE as u64,
+        ),
     };
 
     // Arrow decimal is i128 meaning 38 maximum decimal digits
     if precision == 0
-        || precision > DECIMAL128_MAX_PRECISION
-        || scale.unsigned_abs() > precision
+        || precision > DECIMAL128_MAX_PRECISION as u64
+        || scale > precision
     {
         Err(DataFusionError::Internal(format!(
             "Decimal(precision = {precision}, scale = {scale}) should satisfy `0 < precision <= 38`, and `scale <= precision`."
         )))
     } else {
-        Ok(DataType::Decimal128(precision, scale))
+        Ok(DataType::Decimal128(precision as u8, scale as i8))
     }
 }
-- 
2.43.0


From c9aa2ed5212d7cac94f64892f9b58cf35c353216 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:59:39 +0000
Subject: [PATCH 05/82] fix: keep the case of quoted names in time travel
 queries

The recorded table names were printed unquoted before being resolved again, so
that "MixedCase"('<version>') looked for mixedcase.
---
 src/version.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/version.rs b/src/version.rs
index f45ad52..82b147c 100644
--- a/src/version.rs
+++ b/src/version.rs
@@ -82,9 +82,9 @@ impl VisitorMut for TableVersionProcessor {
                     let resolved_ref = TableReference::from(unresolved_name.as_str())
                         .resolve(&self.default_catalog, &self.default_schema);
                     let full_object_name = ObjectName(vec![
-                        Ident::new(resolved_ref.catalog.as_ref()),
-                        Ident::new(resolved_ref.schema.as_ref()),
-                        Ident::new(resolved_ref.table.as_ref()),
+                        Ident::with_quote('"', resolved_ref.catalog.as_ref()),
+                        Ident::with_quote('"', resolved_ref.schema.as_ref()),
+                        Ident::with_quote('"', resolved_ref.table.as_ref()),
                     ]);
 
                     self.table_versions
-- 
2.43.0


From e3ea542c71bf85e869578c0f542c7573d07eb8ff Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:02:51 +0000
Subject: [PATCH 06/82] fix: reassemble the halves of a WASM UDF decimal result
 without sign-extending the low one

---
 src/wasm_udf/wasm.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/wasm_udf/wasm.rs b/src/wasm_udf/wasm.rs
index 9b875be..764070f 100644
--- a/src/wasm_udf/wasm.rs
+++ b/src/wasm_udf/wasm.rs
@@ -508,10 +508,10 @@ fn messagepack_decode_results(
                                     }
                                     Ok(p_u8)
                                 })?;
-                            decimal_array[1].as_u64()
+                            decimal_array[1].as_i64()
                                 .ok_or(DataFusionError::Internal(format!("Decimal scale expected to be integer, found {:?} instead", decimal_array[1])))
-                                .and_then(|s_u64| {
-                                    let s_i8: i8 = s_u64.try_into().map_err(|err| DataFusionError::Internal(format!("Couldn't convert 64-bit scale value {s_u64:?} to i8 {err:?}")))?;
+                                .and_then(|s_i64| {
+                                    let s_i8: i8 = s_i64.try_into().map_err(|err| DataFusionError::Internal(format!("Couldn't convert 64-bit scale value {s_i64:?} to i8 {err:?}")))?;
                                     if s_i8 != *s {
                                         return Err(DataFusionError::Internal(format!("Expected to receive a decimal with scale {:?}, got {:?} instead.", *s, s_i8)))
                                     }
@@ -521,7 +521,8 @@ fn messagepack_decode_results(
                                 .ok_or(DataFusionError::Internal(format!("Decimal value high half expected to be integer, found {:?} instead", decimal_array[2])))?;
                             let low = decimal_array[3].as_i64()
                                 .ok_or(DataFusionError::Internal(format!("Decimal value low half expected to be integer, found {:?} instead", decimal_array[3])))?;
-                            let value:i128 = (low as i128) + ((high as i128) << 64);
+                            // The low half carries no sign of its own
+                            let value:i128 = (low as u64 as i128) + ((high as i128) << 64);
                             Ok(value)
                         }),
                 )
-- 
2.43.0


From 5fc6166fb1a3dce38c6adbed0a390db246c157e8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:03:25 +0000
Subject: [PATCH 07/82] fix: reject WASM UDF decimal results that exceed the
 declared precision

---
 src/wasm_udf/wasm.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wasm_udf/wasm.rs b/src/wasm_udf/wasm.rs
index 764070f..177ee98 100644
--- a/src/wasm_udf/wasm.rs
+++ b/src/wasm_udf/wasm.rs
@@ -533,6 +533,8 @@ fn messagepack_decode_results(
                 let arr = (a as arrow::array::Decimal128Array)
                     .with_precision_and_scale(*p, *s)
                     .map_err(|e| DataFusionError::Internal(format!("Error setting precision {:?} scale {:?} for decimal result: {:?}", *p, *s, e)))?;
+                arr.validate_decimal_precision(*p)
+                    .map_err(|e| DataFusionError::Internal(format!("Decimal result out of range for precision {:?}: {:?}", *p, e)))?;
                 Ok(Arc::new(arr) as ArrayRef)
             }),
     }
-- 
2.43.0


From 08ae9861f7b56337b5ca5c96fa2e8d0b05eeb4f8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:04:03 +0000
Subject: [PATCH 08/82] fix: keep hostile WASM UDF pointers and sizes from
 panicking or over-allocating

---
 src/wasm_udf/wasm.rs | 50 ++++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/src/wasm_udf/wasm.rs b/src/wasm_udf/wasm.rs
index 177ee98..502a1ce 100644
--- a/src/wasm_udf/wasm.rs
+++ b/src/wasm_udf/wasm.rs
@@ -81,6 +81,19 @@ where
         })
 }
 
+/// WASM addresses are unsigned, even though they travel as i32
+fn guest_address(ptr: i32) -> usize {
+    ptr as u32 as usize
+}
+
+fn guest_size(size: usize) -> Result<i32> {
+    size.try_into().map_err(|e| {
+        DataFusionError::Internal(format!(
+            "Buffer of {size:?} bytes is too large for a WASM UDF: {e:?}"
+        ))
+    })
+}
+
 struct WasmMessagePackUDFInstance {
     store: Store<WasiCtx>,
     alloc: TypedFunc<i32, i32>,
@@ -128,7 +141,7 @@ impl WasmMessagePackUDFInstance {
     }
 
     fn read_udf_output(&mut self, udf_output_ptr: i32) -> Result<(Value, i32)> {
-        let ptr: usize = udf_output_ptr.try_into().unwrap();
+        let ptr = guest_address(udf_output_ptr);
         let mut size_buffer = [0u8; SIZE_BYTE_COUNT];
         self.memory
             .read(&self.store, ptr, &mut size_buffer)
@@ -142,27 +155,24 @@ impl WasmMessagePackUDFInstance {
                 "Error interpreting output buffer size as i32: {e:?}"
             ))
         })?;
-        let mut output_buffer = vec![0_u8; size];
-        self.memory
-            .read(
-                &self.store,
-                ptr + SIZE_BYTE_COUNT,
-                output_buffer.as_mut_slice(),
-            )
-            .map_err(|err| {
-                DataFusionError::Internal(format!(
-                    "Error reading output buf ({size:?} bytes): {err:?}"
-                ))
-            })?;
+        let start = ptr + SIZE_BYTE_COUNT;
+        let output_buffer =
+            self.memory
+                .data(&self.store)
+                .get(start..start + size)
+                .ok_or_else(|| {
+                    DataFusionError::Internal(format!(
+                        "Error reading output buf ({size:?} bytes): out of bounds"
+                    ))
+                })?;
         let output: Value =
-            rmp_serde::from_slice(output_buffer.as_ref()).map_err(|err| {
+            rmp_serde::from_slice(output_buffer).map_err(|err| {
                 DataFusionError::Internal(format!(
                     "Error messagepack decoding output buffer: {err:?}"
                 ))
             })?;
         // return the entire size of the output buffer (including i32 size prefix) so it can be passed to dealloc() later
-        let result: (Value, i32) = (output, (size + SIZE_BYTE_COUNT).try_into().unwrap());
-        Ok(result)
+        Ok((output, guest_size(size + SIZE_BYTE_COUNT)?))
     }
 
     fn write_udf_input(&mut self, input: &Value) -> Result<(i32, i32)> {
@@ -177,17 +187,17 @@ impl WasmMessagePackUDFInstance {
             })?;
         // Total input size will be serialized messagepack bytes prepended by the
         // size of the serialized input (one i32 == 4 bytes)
-        let udf_input_size: usize = udf_input_buf.len() + SIZE_BYTE_COUNT;
+        let udf_input_size = guest_size(udf_input_buf.len() + SIZE_BYTE_COUNT)?;
         // allocate WASM memory for input buffer
         let udf_input_ptr = self
             .alloc
-            .call(&mut self.store, udf_input_size.try_into().unwrap())
+            .call(&mut self.store, udf_input_size)
             .map_err(|e| {
                 DataFusionError::Internal(format!(
                     "Error allocating input buffer in WASM memory: {e:?}"
                 ))
             })?;
-        let ptr: usize = udf_input_ptr.try_into().unwrap();
+        let ptr = guest_address(udf_input_ptr);
         // write size of input buffer first
         self.memory
             .write(&mut self.store, ptr, &udf_input_buf.len().to_ne_bytes())
@@ -209,7 +219,7 @@ impl WasmMessagePackUDFInstance {
                 ))
             })?;
         // return the entire size of the output buffer (including i32 size prefix) so it can be passed to dealloc() later
-        Ok((udf_input_ptr, udf_input_size.try_into().unwrap()))
+        Ok((udf_input_ptr, udf_input_size))
     }
 
     pub fn call(&mut self, input: Vec<Value>) -> Result<Value> {
-- 
2.43.0


From 3ce2fc7f168857a34ff6f877a9e68a9c2b3a494c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:04:03 +0000
Subject: [PATCH 09/82] fix: write the WASM UDF input size as the four bytes
 allocated for it

---
 src/wasm_udf/wasm.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/wasm_udf/wasm.rs b/src/wasm_udf/wasm.rs
index 502a1ce..5f5bb48 100644
--- a/src/wasm_udf/wasm.rs
+++ b/src/wasm_udf/wasm.rs
@@ -200,7 +200,11 @@ impl WasmMessagePackUDFInstance {
         let ptr = guest_address(udf_input_ptr);
         // write size of input buffer first
         self.memory
-            .write(&mut self.store, ptr, &udf_input_buf.len().to_ne_bytes())
+            .write(
+                &mut self.store,
+                ptr,
+                &(udf_input_buf.len() as i32).to_ne_bytes(),
+            )
             .map_err(|err| {
                 DataFusionError::Internal(format!(
                     "Error copying input buffer size to WASM memory: {err:?}"
-- 
2.43.0


From ac1dcd728139559c92e8608ee870214793d32948 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:04:03 +0000
Subject: [PATCH 10/82] fix: report native WASM UDFs whose declared types do
 not match instead of panicking

---
 src/wasm_udf/wasm.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/wasm_udf/wasm.rs b/src/wasm_udf/wasm.rs
index 5f5bb48..6e989a1 100644
--- a/src/wasm_udf/wasm.rs
+++ b/src/wasm_udf/wasm.rs
@@ -639,6 +639,13 @@ fn make_scalar_function_wasm_messagepack(
     Ok(Arc::new(inner))
 }
 
+fn same_wasm_types(
+    actual: impl ExactSizeIterator<Item = ValType>,
+    declared: &[ValType],
+) -> bool {
+    actual.len() == declared.len() && actual.zip(declared).all(|(a, d)| ValType::eq(&a, d))
+}
+
 /// Build a DataFusion scalar function from WASM module bytecode.
 /// Don't call this function directly; call create_udf_from_wasm instead
 /// (as this function doesn't do some validation)
@@ -657,12 +664,23 @@ fn make_scalar_function_from_wasm(
         DataFusionError::Internal(format!("Error instantiating module: {e:?}"))
     })?;
 
-    let _func = instance
+    let func = instance
         .get_func(&mut store, function_name)
         .ok_or_else(|| {
             DataFusionError::Internal(format!("Error loading function {function_name:?}"))
         })?;
 
+    // The declared types have to be those of the function, since the conversion of
+    // its results relies on them
+    let func_type = func.ty(&store);
+    if !same_wasm_types(func_type.params(), &input_types)
+        || !same_wasm_types(func_type.results(), std::slice::from_ref(&return_type))
+    {
+        return Err(DataFusionError::Internal(format!(
+            "Function {function_name:?} has type {func_type}, which doesn't match the declared types {input_types:?} -> {return_type:?}"
+        )));
+    }
+
     // This function has to be of type Fn instead of FnMut. The function invocation (func.call)
     // needs a mutable context, which forces this closure to be FnMut.
     // This means we have to create a store and load the function inside of this closure, discarding
@@ -800,8 +818,8 @@ pub fn create_udf_from_wasm(
         CreateFunctionLanguage::Wasm => {
             let converted_input_types = input_types
                 .iter()
-                .map(|t| get_wasm_type(t).unwrap())
-                .collect();
+                .map(get_wasm_type)
+                .collect::<Result<Vec<_>>>()?;
             make_scalar_function_from_wasm(
                 module_bytes,
                 function_name,
-- 
2.43.0


From 6f72e938e34b831444a4ef8f18bc222ae0d60962 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:04:03 +0000
Subject: [PATCH 11/82] fix: call WASM UDFs without arguments, or on empty
 batches, without panicking

---
 src/wasm_udf/wasm.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/wasm_udf/wasm.rs b/src/wasm_udf/wasm.rs
index 6e989a1..aecebd3 100644
--- a/src/wasm_udf/wasm.rs
+++ b/src/wasm_udf/wasm.rs
@@ -8,7 +8,7 @@ use datafusion::{
         array::{ArrayRef, Float32Array, Float64Array, Int32Array, Int64Array},
         datatypes::{DataType, TimeUnit},
     },
-    common::DataFusionError,
+    common::{DataFusionError, ScalarValue},
     logical_expr::{ScalarFunctionImplementation, ScalarUDF, Volatility},
 };
 
@@ -559,18 +559,28 @@ fn messagepack_decode_results(
 fn columnar_values_to_array(args: &[ColumnarValue]) -> Result<Vec<ArrayRef>> {
     let inferred_length = args
         .iter()
-        .map(|v| match v {
-            ColumnarValue::Array(array) => array.len(),
-            ColumnarValue::Scalar(_) => 1,
+        .find_map(|v| match v {
+            ColumnarValue::Array(array) => Some(array.len()),
+            ColumnarValue::Scalar(_) => None,
         })
-        .max()
-        .unwrap_or(0);
+        .unwrap_or(1);
 
     args.iter()
         .map(|arg| arg.clone().into_array(inferred_length))
         .collect::<Result<Vec<_>>>()
 }
 
+// Without arguments the function runs once, and its result stands for every row.
+fn into_columnar_value(array: ArrayRef, no_args: bool) -> Result<ColumnarValue> {
+    if no_args {
+        Ok(ColumnarValue::Scalar(ScalarValue::try_from_array(
+            &array, 0,
+        )?))
+    } else {
+        Ok(ColumnarValue::from(array))
+    }
+}
+
 fn make_scalar_function_wasm_messagepack(
     module_bytes: &[u8],
     function_name: &str,
@@ -607,7 +617,7 @@ fn make_scalar_function_wasm_messagepack(
         let args = columnar_values_to_array(args)?;
 
         // Length of the vectorized array
-        let array_len = args.first().unwrap().len();
+        let array_len = args.first().map_or(1, |arg| arg.len());
 
         // Buffer for the results
         let mut encoded_results: Vec<Value> = Vec::with_capacity(array_len);
@@ -633,7 +643,7 @@ fn make_scalar_function_wasm_messagepack(
         }
 
         let array = messagepack_decode_results(&return_type, &encoded_results)?;
-        Ok(ColumnarValue::from(array))
+        into_columnar_value(array, args.is_empty())
     };
 
     Ok(Arc::new(inner))
@@ -715,7 +725,7 @@ fn make_scalar_function_from_wasm(
         let args = columnar_values_to_array(args)?;
 
         // Length of the vectorized array
-        let array_len = args.first().unwrap().len();
+        let array_len = args.first().map_or(1, |arg| arg.len());
 
         // Buffer for the results
         let mut results: Vec<Val> = Vec::new();
@@ -793,7 +803,7 @@ fn make_scalar_function_from_wasm(
             ) as ArrayRef,
             _ => panic!("unexpected type"),
         };
-        Ok(ColumnarValue::from(array))
+        into_columnar_value(array, args.is_empty())
     };
 
     Ok(Arc::new(inner))
-- 
2.43.0


From 819b998b2b22465f17da492b7e47a0715ed655fc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:04:03 +0000
Subject: [PATCH 12/82] fix: pass NULLs to and from MessagePack WASM UDFs as
 nil

---
 src/wasm_udf/wasm.rs | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/wasm_udf/wasm.rs b/src/wasm_udf/wasm.rs
index aecebd3..3c0254c 100644
--- a/src/wasm_udf/wasm.rs
+++ b/src/wasm_udf/wasm.rs
@@ -280,6 +280,9 @@ fn messagepack_encode_input_value(
     row_ix: usize,
     col_ix: usize,
 ) -> Result<Value> {
+    if args[col_ix].is_null(row_ix) {
+        return Ok(Value::Nil);
+    }
     match value_type {
         CreateFunctionDataType::SMALLINT => {
             get_arrow_value::<arrow::datatypes::Int16Type>(args, row_ix, col_ix)
@@ -377,7 +380,7 @@ where
 {
     encoded_results
         .iter()
-        .map(|i| Some(decoder(i)).transpose())
+        .map(|i| (!i.is_nil()).then(|| decoder(i)).transpose())
         .collect::<Result<PrimitiveArray<T>>>()
         .map(|a| Arc::new(a) as ArrayRef)
 }
@@ -435,11 +438,14 @@ fn messagepack_decode_results(
         | CreateFunctionDataType::TEXT => encoded_results
             .iter()
             .map(|i| {
-                Some(i.as_str().ok_or(DataFusionError::Internal(format!(
-                    "Expected to find string value, received {:?} instead",
-                    &i
-                ))))
-                .transpose()
+                (!i.is_nil())
+                    .then(|| {
+                        i.as_str().ok_or(DataFusionError::Internal(format!(
+                            "Expected to find string value, received {:?} instead",
+                            &i
+                        )))
+                    })
+                    .transpose()
             })
             .collect::<Result<StringArray>>()
             .map(|a| Arc::new(a) as ArrayRef),
@@ -468,10 +474,13 @@ fn messagepack_decode_results(
         CreateFunctionDataType::BOOLEAN => encoded_results
             .iter()
             .map(|i| {
-                Some(i.as_bool().ok_or(DataFusionError::Internal(format!(
-                    "Expected to find string value, received {i:?} instead"
-                ))))
-                .transpose()
+                (!i.is_nil())
+                    .then(|| {
+                        i.as_bool().ok_or(DataFusionError::Internal(format!(
+                            "Expected to find string value, received {i:?} instead"
+                        )))
+                    })
+                    .transpose()
             })
             .collect::<Result<BooleanArray>>()
             .map(|a| Arc::new(a) as ArrayRef),
@@ -504,6 +513,9 @@ fn messagepack_decode_results(
         } => encoded_results
             .iter()
             .map(|i| {
+                if i.is_nil() {
+                    return Ok(None);
+                }
                 Some(
                     i.as_array()
                         .ok_or(DataFusionError::Internal(format!(
-- 
2.43.0


From 58265b348ddd362c3bdc8ec66deaa2e8a8c9a3c0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:04:03 +0000
Subject: [PATCH 13/82] fix: return NULL from native WASM UDFs for NULL
 arguments

---
 src/wasm_udf/wasm.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/wasm_udf/wasm.rs b/src/wasm_udf/wasm.rs
index 3c0254c..202d0ce 100644
--- a/src/wasm_udf/wasm.rs
+++ b/src/wasm_udf/wasm.rs
@@ -744,6 +744,10 @@ fn make_scalar_function_from_wasm(
         results.resize(array_len, Val::null_extern_ref());
 
         for row_ix in 0..array_len {
+            // There is no NULL in WASM, so the function doesn't get to see them
+            if args.iter().any(|arg| arg.is_null(row_ix)) {
+                continue;
+            }
             let mut params: Vec<Val> = Vec::with_capacity(args.len());
             // Build a slice of WASM Val values to pass to the function
             for col_ix in 0..args.len() {
@@ -784,33 +788,31 @@ fn make_scalar_function_from_wasm(
                 })?;
         }
 
-        // Convert the results back into Arrow (Arc<dyn Array>)
-        // These functions panic on type mismatches, which shouldn't happen because
-        // we pre-validated them above (unless the function returns a different type
-        // than it advertised)
+        // Convert the results back into Arrow (Arc<dyn Array>). The rows that were
+        // skipped still hold the initial null reference, and become NULLs.
         let array = match return_type {
             ValType::I32 => Arc::new(
                 results
                     .iter()
-                    .map(|r| r.unwrap_i32())
+                    .map(|r| r.i32())
                     .collect::<Int32Array>(),
             ) as ArrayRef,
             ValType::I64 => Arc::new(
                 results
                     .iter()
-                    .map(|r| r.unwrap_i64())
+                    .map(|r| r.i64())
                     .collect::<Int64Array>(),
             ) as ArrayRef,
             ValType::F32 => Arc::new(
                 results
                     .iter()
-                    .map(|r| r.unwrap_f32())
+                    .map(|r| r.f32())
                     .collect::<Float32Array>(),
             ) as ArrayRef,
             ValType::F64 => Arc::new(
                 results
                     .iter()
-                    .map(|r| r.unwrap_f64())
+                    .map(|r| r.f64())
                     .collect::<Float64Array>(),
             ) as ArrayRef,
             _ => panic!("unexpected type"),
-- 
2.43.0


From b953cea2a626a1729d4111442bf562ff390f2d04 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:51:07 +0000
Subject: [PATCH 14/82] fix: accept function input types that are not borrowed
 strings

A definition with an escape sequence in one of its input types, or read from
a stream or a JSON value, was rejected.
---
 src/wasm_udf/data_types.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wasm_udf/data_types.rs b/src/wasm_udf/data_types.rs
index 1195771..47b9f25 100644
--- a/src/wasm_udf/data_types.rs
+++ b/src/wasm_udf/data_types.rs
@@ -103,8 +103,8 @@ impl<'de> Visitor<'de> for DataTypeVecDeserializer {
         A: SeqAccess<'de>,
     {
         let mut new_obj = Vec::with_capacity(seq.size_hint().unwrap_or_default());
-        while let Some(key) = seq.next_element()? as Option<&str> {
-            let parsed = parse_create_function_data_type(key);
+        while let Some(key) = seq.next_element()? as Option<String> {
+            let parsed = parse_create_function_data_type(&key);
             match parsed {
                 Ok(dt) => new_obj.push(dt),
                 Err(_) => return Err(A::Error::custom(format!("couldn't decode {key}"))),
-- 
2.43.0


From b56d00e6de9ec9ec9f1cdab2d38b28ed92e89f45 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:51:07 +0000
Subject: [PATCH 15/82] fix: drop every function that DROP FUNCTION names

All names shared one placeholder, so only one of them was dropped.
---
 src/repository/default.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/repository/default.rs b/src/repository/default.rs
index aa853d9..f68b169 100644
--- a/src/repository/default.rs
+++ b/src/repository/default.rs
@@ -489,7 +489,7 @@ impl Repository for $repo {
             AND name IN ({})
             RETURNING id;
             "#,
-            func_names.iter().map(|_| "$2").collect::<Vec<_>>().join(", ")
+            (0..func_names.len()).map(|i| format!("${}", i + 2)).collect::<Vec<_>>().join(", ")
         );
 
         let mut tx = self.executor.begin().await.map_err($repo::interpret_error)?;
-- 
2.43.0


From 03d15d457910ac64110cd18bbb5704cf53435ffb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:51:07 +0000
Subject: [PATCH 16/82] fix: store the cleanup status of dropped tables as the
 catalog spells it

The status was bound as the enum's variant name, which the CHECK constraint
on the column rejects, so no status update ever succeeded.
---
 src/repository/default.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/repository/default.rs b/src/repository/default.rs
index f68b169..82a9137 100644
--- a/src/repository/default.rs
+++ b/src/repository/default.rs
@@ -574,7 +574,7 @@ impl Repository for $repo {
     async fn update_dropped_table(&self, uuid: Uuid, deletion_status: DroppedTableDeletionStatus) -> Result<(), Error> {
         let mut tx = self.executor.begin().await.map_err($repo::interpret_error)?;
         sqlx::query("UPDATE dropped_table SET deletion_status = $1 WHERE uuid = $2 RETURNING uuid")
-            .bind(deletion_status)
+            .bind(deletion_status.to_string())
             .bind(uuid)
             .fetch_one(&mut *tx)
             .await.map_err($repo::interpret_error)?;
-- 
2.43.0


From 4eb47ba039f86783f279f05ab00dcf3ec8c4cce8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:51:07 +0000
Subject: [PATCH 17/82] fix: create a table and its columns in one transaction

The columns were inserted after the table had been committed, so a failure
(a duplicate column, more columns than the bind limit allows, or the storage)
left a table without columns behind.
---
 src/repository/default.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/repository/default.rs b/src/repository/default.rs
index 82a9137..90ed5c9 100644
--- a/src/repository/default.rs
+++ b/src/repository/default.rs
@@ -254,29 +254,28 @@ impl Repository for $repo {
         .await.map_err($repo::interpret_error)?
         .try_get("id").map_err($repo::interpret_error)?;
 
-        tx.commit().await.map_err($repo::interpret_error)?;
+        // Create columns, with few enough per statement to stay below the bind limit
+        let fields: Vec<(String, String)> = schema.fields()
+            .iter()
+            .map(|f| Ok((f.name().clone(), serde_json::to_string(&f)?)))
+            .collect::<Result<_>>()?;
 
-        // Create columns
-        // TODO this breaks if we have more than (bind limit) columns
-        if !schema.fields().is_empty() {
+        for chunk in fields.chunks(5000) {
             let mut builder: QueryBuilder<_> =
                 QueryBuilder::new("INSERT INTO table_column(table_version_id, name, type) ");
 
-            let fields: Vec<(String, String)> = schema.fields()
-                .iter()
-                .map(|f| Ok((f.name().clone(), serde_json::to_string(&f)?)))
-                .collect::<Result<_>>()?;
-
-            builder.push_values(fields, |mut b, col| {
+            builder.push_values(chunk, |mut b, col| {
                 b.push_bind(new_version_id)
-                    .push_bind(col.0)
-                    .push_bind(col.1);
+                    .push_bind(&col.0)
+                    .push_bind(&col.1);
             });
 
             let query = builder.build();
-            query.execute(&self.executor).await.map_err($repo::interpret_error)?;
+            query.execute(&mut *tx).await.map_err($repo::interpret_error)?;
         }
 
+        tx.commit().await.map_err($repo::interpret_error)?;
+
         Ok((new_table_id, new_version_id))
     }
 
-- 
2.43.0


From 5cc4ad65ba9a5e86c7c662db53d597c2ffa32551 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:51:07 +0000
Subject: [PATCH 18/82] fix: create a table version and its columns in one
 transaction

The last version was looked up before, and the columns copied after, the
transaction that creates the version. A failure left a version without columns
behind, and so could the last version being deleted meanwhile; an unknown table
gave a decoding error instead of a missing row.
---
 src/repository/default.rs | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/src/repository/default.rs b/src/repository/default.rs
index 90ed5c9..0c08482 100644
--- a/src/repository/default.rs
+++ b/src/repository/default.rs
@@ -300,40 +300,38 @@ impl Repository for $repo {
         uuid: Uuid,
         version: i64,
     ) -> Result<TableVersionId, Error> {
-        // For now we only support linear history
-        let last_version_id: TableVersionId = sqlx::query(r#"SELECT max(table_version.id) AS id
-                FROM table_version
-                JOIN "table" ON table_version.table_id = "table".id
-                WHERE "table".uuid = $1"#)
-            .bind(uuid)
-            .fetch_one(&self.executor)
-            .await.map_err($repo::interpret_error)?
-            .try_get("id").map_err($repo::interpret_error)?;
-
         let mut tx = self.executor.begin().await.map_err($repo::interpret_error)?;
 
-        let new_version_id = sqlx::query(
-            "INSERT INTO table_version (table_id, version)
-            SELECT table_id, $1 FROM table_version WHERE id = $2
-            RETURNING (id)",
+        let new_version_id: TableVersionId = sqlx::query(
+            r#"INSERT INTO table_version (table_id, version)
+            SELECT table_id, $1 FROM table_version WHERE id = (
+                SELECT max(table_version.id) FROM table_version
+                JOIN "table" ON table_version.table_id = "table".id
+                WHERE "table".uuid = $2
+            )
+            RETURNING (id)"#,
         )
         .bind(version)
-        .bind(last_version_id)
+        .bind(uuid)
         .fetch_one(&mut *tx)
         .await.map_err($repo::interpret_error)?
         .try_get("id").map_err($repo::interpret_error)?;
 
-        tx.commit().await.map_err($repo::interpret_error)?;
-
+        // For now we only support linear history
         sqlx::query(
             "INSERT INTO table_column (table_version_id, name, type)
-            SELECT $2, name, type FROM table_column WHERE table_version_id = $1;",
+            SELECT $1, name, type FROM table_column WHERE table_version_id = (
+                SELECT max(last.id) FROM table_version last
+                JOIN table_version new ON last.table_id = new.table_id
+                WHERE new.id = $1 AND last.id < new.id
+            )",
         )
-        .bind(last_version_id)
         .bind(new_version_id)
-        .execute(&self.executor)
+        .execute(&mut *tx)
         .await.map_err($repo::interpret_error)?;
 
+        tx.commit().await.map_err($repo::interpret_error)?;
+
         Ok(new_version_id)
     }
 
-- 
2.43.0


From 05642f29003a7877bdbfff6c8e0106c3e1831112 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:51:07 +0000
Subject: [PATCH 19/82] fix: keep the current version when deleting old table
 versions

The version kept was the one with the latest creation time, while the current
version is the one created last: when the clock had stepped back in between,
the current version was deleted, and its schema with it.
---
 src/repository/default.rs  | 4 ++--
 src/repository/postgres.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/repository/default.rs b/src/repository/default.rs
index 0c08482..7446555 100644
--- a/src/repository/default.rs
+++ b/src/repository/default.rs
@@ -284,8 +284,8 @@ impl Repository for $repo {
         table_id: TableId,
     ) -> Result<u64, Error> {
         let delete_result = sqlx::query(
-            "DELETE FROM table_version WHERE table_id = $1 AND id NOT IN \
-            (SELECT DISTINCT first_value(id) OVER (PARTITION BY table_id ORDER BY creation_time DESC, id DESC) FROM table_version)"
+            "DELETE FROM table_version WHERE table_id = $1 AND id < \
+            (SELECT max(id) FROM table_version WHERE table_id = $1)"
         )
             .bind(table_id)
             .execute(&self.executor)
diff --git a/src/repository/postgres.rs b/src/repository/postgres.rs
index b8d5709..b318eb0 100644
--- a/src/repository/postgres.rs
+++ b/src/repository/postgres.rs
@@ -35,7 +35,7 @@ impl PostgresRepository {
         WITH desired_table_versions AS (
             SELECT DISTINCT ON (table_id) table_id, id
             FROM table_version
-            ORDER BY table_id, creation_time DESC, id DESC
+            ORDER BY table_id, id DESC
         )"#,
         cast_timestamp: "CAST(EXTRACT(EPOCH FROM timestamp_column) AS INT8)",
     };
-- 
2.43.0


From e4d7a25245becfbc2ee62bb7c386bae64bfdaf8a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 23:45:34 +0000
Subject: [PATCH 20/82] fix: parenthesise the operands of filters pushed down
 to remote tables

---
 .../src/filter_pushdown.rs                    | 80 ++++++++++---------
 1 file changed, 44 insertions(+), 36 deletions(-)

diff --git a/datafusion_remote_tables/src/filter_pushdown.rs b/datafusion_remote_tables/src/filter_pushdown.rs
index 2050e4c..53a3607 100644
--- a/datafusion_remote_tables/src/filter_pushdown.rs
+++ b/datafusion_remote_tables/src/filter_pushdown.rs
@@ -159,24 +159,8 @@ impl<T: FilterPushdownConverter> TreeNodeVisitor<'_> for FilterPushdownVisitor<T
             Expr::BinaryExpr(be @ BinaryExpr { .. }) => {
                 // The visitor has been through left and right sides in that order, so the topmost
                 // item on the SQL expression stack is the right expression
-                let mut right_sql = self.pop_sql_expr();
-                let mut left_sql = self.pop_sql_expr();
-
-                // Similar as in Display impl for BinaryExpr: since the Expr has an implicit operator
-                // precedence we need to convert it to an explicit one using extra parenthesis if the
-                // left/right expression is also a BinaryExpr of lower operator precedence.
-                if let Expr::BinaryExpr(right_be @ BinaryExpr { .. }) = &*be.right {
-                    let p = right_be.op.precedence();
-                    if p == 0 || p < be.op.precedence() {
-                        right_sql = format!("({right_sql})")
-                    }
-                }
-                if let Expr::BinaryExpr(left_be @ BinaryExpr { .. }) = &*be.left {
-                    let p = left_be.op.precedence();
-                    if p == 0 || p < be.op.precedence() {
-                        left_sql = format!("({left_sql})")
-                    }
-                }
+                let right_sql = operand_sql(Some(&be.op), &be.right, self.pop_sql_expr());
+                let left_sql = operand_sql(Some(&be.op), &be.left, self.pop_sql_expr());
 
                 let op_sql = self.source.op_to_sql(&be.op).ok_or_else(|| {
                     DataFusionError::Execution(format!(
@@ -188,44 +172,48 @@ impl<T: FilterPushdownConverter> TreeNodeVisitor<'_> for FilterPushdownVisitor<T
                 self.sql_exprs
                     .push(format!("{left_sql} {op_sql} {right_sql}"))
             }
-            Expr::Not(_) => {
-                let inner_sql = self.pop_sql_expr();
+            Expr::Not(inner) => {
+                let inner_sql = operand_sql(None, inner, self.pop_sql_expr());
                 self.sql_exprs.push(format!("NOT {inner_sql}"));
             }
-            Expr::Negative(_) => {
-                let inner_sql = self.pop_sql_expr();
+            Expr::Negative(inner) => {
+                let inner_sql = operand_sql(None, inner, self.pop_sql_expr());
                 self.sql_exprs.push(format!("(- {inner_sql})"));
             }
-            Expr::IsNull(_) => {
-                let inner_sql = self.pop_sql_expr();
+            Expr::IsNull(inner) => {
+                let inner_sql = operand_sql(None, inner, self.pop_sql_expr());
                 self.sql_exprs.push(format!("{inner_sql} IS NULL"));
             }
-            Expr::IsNotNull(_) => {
-                let inner_sql = self.pop_sql_expr();
+            Expr::IsNotNull(inner) => {
+                let inner_sql = operand_sql(None, inner, self.pop_sql_expr());
                 self.sql_exprs.push(format!("{inner_sql} IS NOT NULL"));
             }
-            Expr::IsTrue(_) => {
-                let inner_sql = self.pop_sql_expr();
+            Expr::IsTrue(inner) => {
+                let inner_sql = operand_sql(None, inner, self.pop_sql_expr());
                 self.sql_exprs.push(format!("{inner_sql} IS TRUE"));
             }
-            Expr::IsFalse(_) => {
-                let inner_sql = self.pop_sql_expr();
+            Expr::IsFalse(inner) => {
+                let inner_sql = operand_sql(None, inner, self.pop_sql_expr());
                 self.sql_exprs.push(format!("{inner_sql} IS FALSE"));
             }
-            Expr::IsNotTrue(_) => {
-                let inner_sql = self.pop_sql_expr();
+            Expr::IsNotTrue(inner) => {
+                let inner_sql = operand_sql(None, inner, self.pop_sql_expr());
                 self.sql_exprs.push(format!("{inner_sql} IS NOT TRUE"));
             }
-            Expr::IsNotFalse(_) => {
-                let inner_sql = self.pop_sql_expr();
+            Expr::IsNotFalse(inner) => {
+                let inner_sql = operand_sql(None, inner, self.pop_sql_expr());
                 self.sql_exprs.push(format!("{inner_sql} IS NOT FALSE"));
             }
-            Expr::InList(InList { list, negated, .. }) => {
+            Expr::InList(InList {
+                expr,
+                list,
+                negated,
+            }) => {
                 // The N elements of the list are on the top of the stack, we need to pop them first
                 let index = self.sql_exprs.len() - list.len();
                 let list_sql = self.sql_exprs.split_off(index).iter().join(", ");
                 // Now consume the expression
-                let expr_sql = self.pop_sql_expr();
+                let expr_sql = operand_sql(None, expr, self.pop_sql_expr());
                 if *negated {
                     self.sql_exprs
                         .push(format!("{expr_sql} NOT IN ({list_sql})"));
@@ -239,6 +227,26 @@ impl<T: FilterPushdownConverter> TreeNodeVisitor<'_> for FilterPushdownVisitor<T
     }
 }
 
+// The nesting of an Expr is implicit, so it has to be made explicit by putting parentheses around
+// the operands. Databases differ in the precedence and associativity of almost every operator, so
+// the only operands that are left bare are the ones that bind the same way everywhere: plain
+// columns and literals, negatives (which come with parentheses of their own) and the operands of
+// AND/OR, apart from an OR inside of an AND.
+fn operand_sql(parent: Option<&Operator>, operand: &Expr, sql: String) -> String {
+    let bare = match operand {
+        Expr::Column(_) | Expr::Literal(_) | Expr::Negative(_) => true,
+        Expr::BinaryExpr(BinaryExpr {
+            op: Operator::Or, ..
+        }) => parent == Some(&Operator::Or),
+        _ => matches!(parent, Some(Operator::And | Operator::Or)),
+    };
+    if bare {
+        sql
+    } else {
+        format!("({sql})")
+    }
+}
+
 pub fn quote_identifier_double_quotes(name: &str) -> String {
     format!("\"{}\"", name.replace('\"', "\"\""))
 }
-- 
2.43.0


From c4d7a084e9d4ed583fb364bb34abce7b0931d571 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 23:46:27 +0000
Subject: [PATCH 21/82] fix: refuse to push down literals that have no faithful
 SQL form

---
 .../src/filter_pushdown.rs                    | 66 ++++++++++++++++---
 1 file changed, 57 insertions(+), 9 deletions(-)

diff --git a/datafusion_remote_tables/src/filter_pushdown.rs b/datafusion_remote_tables/src/filter_pushdown.rs
index 53a3607..acb7972 100644
--- a/datafusion_remote_tables/src/filter_pushdown.rs
+++ b/datafusion_remote_tables/src/filter_pushdown.rs
@@ -35,6 +35,11 @@ pub struct MySQLFilterPushdown {}
 impl FilterPushdownConverter for PostgresFilterPushdown {}
 
 impl FilterPushdownConverter for SQLiteFilterPushdown {
+    // In SQLite TRUE and FALSE give way to columns with these names
+    fn bool_to_sql(&self, val: bool) -> String {
+        i32::from(val).to_string()
+    }
+
     fn op_to_sql(&self, op: &Operator) -> Option<String> {
         match op {
             Operator::RegexMatch
@@ -52,6 +57,11 @@ impl FilterPushdownConverter for MySQLFilterPushdown {
         quote_identifier_backticks(&col.name)
     }
 
+    // Backslash is an escape character in MySQL strings
+    fn string_to_sql(&self, val: &str) -> String {
+        format!("'{}'", val.replace('\\', "\\\\").replace('\'', "''"))
+    }
+
     fn op_to_sql(&self, op: &Operator) -> Option<String> {
         match op {
             // TODO: see if there's a way to convert the non-case sensitive match
@@ -71,38 +81,58 @@ pub trait FilterPushdownConverter {
 
     fn scalar_value_to_sql(&self, value: &ScalarValue) -> Option<String> {
         match value {
-            ScalarValue::Utf8(Some(val)) | ScalarValue::LargeUtf8(Some(val)) => {
-                Some(format!("'{}'", val.replace('\'', "''")))
+            ScalarValue::Utf8(Some(val))
+            | ScalarValue::LargeUtf8(Some(val))
+            | ScalarValue::Utf8View(Some(val)) => {
+                // There's no way to spell a zero character
+                (!val.contains('\0')).then(|| self.string_to_sql(val))
             }
             ScalarValue::Date32(Some(days)) => {
                 let date = date32_to_datetime(*days)?.date();
-                Some(format!("'{date}'"))
+                date_to_sql(date.to_string())
             }
             ScalarValue::Date64(Some(t_ms))
             | ScalarValue::TimestampMillisecond(Some(t_ms), None) => {
                 let timestamp = timestamp_ms_to_datetime(*t_ms)?;
-                Some(format!("'{timestamp}'"))
+                date_to_sql(timestamp.to_string())
             }
             ScalarValue::TimestampSecond(Some(t_s), None) => {
                 let timestamp = timestamp_s_to_datetime(*t_s)?;
-                Some(format!("'{timestamp}'"))
+                date_to_sql(timestamp.to_string())
             }
             ScalarValue::TimestampMicrosecond(Some(t_us), None) => {
                 let timestamp = timestamp_us_to_datetime(*t_us)?;
-                Some(format!("'{timestamp}'"))
+                date_to_sql(timestamp.to_string())
             }
-            ScalarValue::TimestampNanosecond(Some(t_ns), None) => {
+            // Digits below a microsecond would be rounded by the remote system
+            ScalarValue::TimestampNanosecond(Some(t_ns), None) if t_ns % 1000 == 0 => {
                 let timestamp = timestamp_ns_to_datetime(*t_ns)?;
-                Some(format!("'{timestamp}'"))
+                date_to_sql(timestamp.to_string())
             }
             ScalarValue::TimestampSecond(_, Some(_))
             | ScalarValue::TimestampMillisecond(_, Some(_))
             | ScalarValue::TimestampMicrosecond(_, Some(_))
             | ScalarValue::TimestampNanosecond(_, Some(_)) => None,
-            _ => Some(format!("{value}")),
+            ScalarValue::Boolean(Some(val)) => Some(self.bool_to_sql(*val)),
+            ScalarValue::Float32(Some(val)) => float_to_sql(f64::from(*val)),
+            ScalarValue::Float64(Some(val)) => float_to_sql(*val),
+            ScalarValue::Dictionary(_, val) => self.scalar_value_to_sql(val),
+            _ if value.is_null() || value.data_type().is_integer() => {
+                Some(format!("{value}"))
+            }
+            // The display form of other types is not a SQL literal
+            _ => None,
         }
     }
 
+    fn string_to_sql(&self, val: &str) -> String {
+        format!("'{}'", val.replace('\'', "''"))
+    }
+
+    fn bool_to_sql(&self, val: bool) -> String {
+        val.to_string()
+    }
+
     fn op_to_sql(&self, op: &Operator) -> Option<String> {
         Some(op.to_string())
     }
@@ -209,6 +239,11 @@ impl<T: FilterPushdownConverter> TreeNodeVisitor<'_> for FilterPushdownVisitor<T
                 list,
                 negated,
             }) => {
+                if list.is_empty() {
+                    return Err(DataFusionError::Execution(
+                        "Empty IN list not shippable".to_string(),
+                    ));
+                }
                 // The N elements of the list are on the top of the stack, we need to pop them first
                 let index = self.sql_exprs.len() - list.len();
                 let list_sql = self.sql_exprs.split_off(index).iter().join(", ");
@@ -247,6 +282,19 @@ fn operand_sql(parent: Option<&Operator>, operand: &Expr, sql: String) -> String
     }
 }
 
+// Years before 1 or after 9999 come out with a sign, or as year 0, which remote systems don't
+// understand, or don't order correctly when they keep dates as text.
+fn date_to_sql(date: String) -> Option<String> {
+    (!date.starts_with(['+', '-']) && !date.starts_with("0000"))
+        .then(|| format!("'{date}'"))
+}
+
+// The debug form always has a decimal point or an exponent, so it can't be taken for an integer.
+// Special values have no literal, and remote systems don't tell the negative zero apart.
+fn float_to_sql(val: f64) -> Option<String> {
+    (val.is_finite() && (val != 0.0 || val.is_sign_positive())).then(|| format!("{val:?}"))
+}
+
 pub fn quote_identifier_double_quotes(name: &str) -> String {
     format!("\"{}\"", name.replace('\"', "\"\""))
 }
-- 
2.43.0


From 30b9a399718fea05745243437ebb99e68ffdee54 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 23:55:13 +0000
Subject: [PATCH 22/82] fix: refuse to push down operators that remote systems
 lack or read differently

---
 .../src/filter_pushdown.rs                    | 87 ++++++++++++++++++-
 1 file changed, 83 insertions(+), 4 deletions(-)

diff --git a/datafusion_remote_tables/src/filter_pushdown.rs b/datafusion_remote_tables/src/filter_pushdown.rs
index acb7972..051abd1 100644
--- a/datafusion_remote_tables/src/filter_pushdown.rs
+++ b/datafusion_remote_tables/src/filter_pushdown.rs
@@ -1,3 +1,4 @@
+use arrow::datatypes::DataType;
 use arrow::temporal_conversions::{
     date32_to_datetime, timestamp_ms_to_datetime, timestamp_ns_to_datetime,
     timestamp_s_to_datetime, timestamp_us_to_datetime,
@@ -32,7 +33,23 @@ pub struct PostgresFilterPushdown {}
 pub struct SQLiteFilterPushdown {}
 pub struct MySQLFilterPushdown {}
 
-impl FilterPushdownConverter for PostgresFilterPushdown {}
+impl FilterPushdownConverter for PostgresFilterPushdown {
+    fn op_to_sql(&self, op: &Operator) -> Option<String> {
+        match op {
+            // `^` is exponentiation in Postgres
+            Operator::BitwiseXor => Some("#".to_string()),
+            _ => Some(op.to_string()),
+        }
+    }
+
+    fn binary_op_to_sql(&self, be: &BinaryExpr) -> Option<String> {
+        match be.op {
+            // Not defined for floats
+            Operator::Modulo if !has_operand(be, DataType::is_integer) => None,
+            _ => shift_in_range(be).then(|| self.op_to_sql(&be.op))?,
+        }
+    }
+}
 
 impl FilterPushdownConverter for SQLiteFilterPushdown {
     // In SQLite TRUE and FALSE give way to columns with these names
@@ -47,9 +64,24 @@ impl FilterPushdownConverter for SQLiteFilterPushdown {
             | Operator::RegexNotMatch
             | Operator::RegexNotIMatch
             | Operator::BitwiseXor => None,
+            // There are no operators for these in SQLite
+            Operator::LikeMatch
+            | Operator::ILikeMatch
+            | Operator::NotLikeMatch
+            | Operator::NotILikeMatch
+            | Operator::AtArrow
+            | Operator::ArrowAt => None,
             _ => Some(op.to_string()),
         }
     }
+
+    fn binary_op_to_sql(&self, be: &BinaryExpr) -> Option<String> {
+        match be.op {
+            // Turns floats into integers
+            Operator::Modulo if !has_operand(be, DataType::is_integer) => None,
+            _ => shift_in_range(be).then(|| self.op_to_sql(&be.op))?,
+        }
+    }
 }
 
 impl FilterPushdownConverter for MySQLFilterPushdown {
@@ -69,9 +101,30 @@ impl FilterPushdownConverter for MySQLFilterPushdown {
             Operator::RegexMatch => Some("RLIKE".to_string()),
             Operator::RegexNotMatch => Some("NOT RLIKE".to_string()),
             Operator::BitwiseXor => Some("^".to_string()),
+            // `||` is a logical OR in MySQL, and there are no operators for the rest
+            Operator::StringConcat
+            | Operator::IsDistinctFrom
+            | Operator::IsNotDistinctFrom
+            | Operator::LikeMatch
+            | Operator::ILikeMatch
+            | Operator::NotLikeMatch
+            | Operator::NotILikeMatch
+            | Operator::AtArrow
+            | Operator::ArrowAt => None,
             _ => Some(op.to_string()),
         }
     }
+
+    fn binary_op_to_sql(&self, be: &BinaryExpr) -> Option<String> {
+        match be.op {
+            // In MySQL `/` doesn't truncate even when the operands are integers
+            Operator::Divide if has_operand(be, DataType::is_integer) => {
+                Some("DIV".to_string())
+            }
+            Operator::Divide if !has_operand(be, DataType::is_floating) => None,
+            _ => shift_in_range(be).then(|| self.op_to_sql(&be.op))?,
+        }
+    }
 }
 
 pub trait FilterPushdownConverter {
@@ -136,6 +189,32 @@ pub trait FilterPushdownConverter {
     fn op_to_sql(&self, op: &Operator) -> Option<String> {
         Some(op.to_string())
     }
+
+    // The operator to use for a particular pair of operands, in case it depends on their type
+    fn binary_op_to_sql(&self, be: &BinaryExpr) -> Option<String> {
+        self.op_to_sql(&be.op)
+    }
+}
+
+// Whether either side is a literal of a type of the given kind; since both sides have been coerced
+// to a common type that tells the kind of the other one too.
+fn has_operand(be: &BinaryExpr, kind: fn(&DataType) -> bool) -> bool {
+    [&be.left, &be.right]
+        .into_iter()
+        .any(|e| matches!(&**e, Expr::Literal(val) if kind(&val.data_type())))
+}
+
+// Shifting by a negative number of bits, or by more of them than there are, has a different result
+// in each system.
+fn shift_in_range(be: &BinaryExpr) -> bool {
+    match (&be.op, &*be.right) {
+        (Operator::BitwiseShiftLeft | Operator::BitwiseShiftRight, Expr::Literal(val)) => {
+            let bits = val.data_type().primitive_width().unwrap_or(0) * 8;
+            val.to_string().parse::<usize>().is_ok_and(|n| n < bits)
+        }
+        (Operator::BitwiseShiftLeft | Operator::BitwiseShiftRight, _) => false,
+        _ => true,
+    }
 }
 
 impl<T: FilterPushdownConverter> TreeNodeVisitor<'_> for FilterPushdownVisitor<T> {
@@ -154,10 +233,10 @@ impl<T: FilterPushdownConverter> TreeNodeVisitor<'_> for FilterPushdownVisitor<T
             | Expr::IsNotTrue(_)
             | Expr::IsNotFalse(_)
             | Expr::InList { .. } => {}
-            Expr::BinaryExpr(BinaryExpr { op, .. }) => {
+            Expr::BinaryExpr(be @ BinaryExpr { op, .. }) => {
                 // Check if operator pushdown supported; left and right expressions will be checked
                 // through further recursion.
-                if self.source.op_to_sql(op).is_none() {
+                if self.source.binary_op_to_sql(be).is_none() {
                     return Err(DataFusionError::Execution(format!(
                         "Operator {op} not shippable",
                     )));
@@ -192,7 +271,7 @@ impl<T: FilterPushdownConverter> TreeNodeVisitor<'_> for FilterPushdownVisitor<T
                 let right_sql = operand_sql(Some(&be.op), &be.right, self.pop_sql_expr());
                 let left_sql = operand_sql(Some(&be.op), &be.left, self.pop_sql_expr());
 
-                let op_sql = self.source.op_to_sql(&be.op).ok_or_else(|| {
+                let op_sql = self.source.binary_op_to_sql(be).ok_or_else(|| {
                     DataFusionError::Execution(format!(
                         "Couldn't convert operator {:?} to a compatible one for the remote system",
                         be.op,
-- 
2.43.0


From fd40258da9762d99e33629e93b14abca5b8d7ffa Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:26:50 +0000
Subject: [PATCH 23/82] fix: refuse an unusable storage configuration instead
 of panicking

A location's JSON that cannot be read, an unsupported or unrecognised URL
scheme, a bucket whose region cannot be detected, and S3 settings that
demand signing without keys all panicked.
---
 object_store_factory/src/aws.rs | 16 +++++++++------
 object_store_factory/src/lib.rs | 35 ++++++++++++++++++++++-----------
 2 files changed, 33 insertions(+), 18 deletions(-)

diff --git a/object_store_factory/src/aws.rs b/object_store_factory/src/aws.rs
index a61c247..5018aa7 100644
--- a/object_store_factory/src/aws.rs
+++ b/object_store_factory/src/aws.rs
@@ -163,11 +163,13 @@ impl S3Config {
             if let Some(token) = &self.session_token {
                 builder = builder.with_token(token.clone())
             }
+        } else if !self.skip_signature {
+            return Err(object_store::Error::Generic {
+                store: "S3",
+                source: "Access key and secret key must be provided if skip_signature is false"
+                    .into(),
+            });
         } else {
-            assert!(
-                self.skip_signature,
-                "Access key and secret key must be provided if skip_signature is false"
-            );
             builder = builder.with_skip_signature(self.skip_signature)
         }
 
@@ -208,17 +210,19 @@ pub fn map_options_into_amazon_s3_config_keys(
 pub async fn add_amazon_s3_specific_options(
     url: &Url,
     options: &mut HashMap<AmazonS3ConfigKey, String>,
-) {
+) -> Result<(), object_store::Error> {
     if !options.contains_key(&AmazonS3ConfigKey::Region)
         && !options.contains_key(&AmazonS3ConfigKey::Endpoint)
     {
-        let region = detect_region(url).await.unwrap();
+        let region = detect_region(url).await?;
         options.insert(AmazonS3ConfigKey::Region, region.to_string());
     }
 
     options
         .entry(AmazonS3ConfigKey::ConditionalPut)
         .or_insert_with(|| S3ConditionalPut::ETagMatch.to_string());
+
+    Ok(())
 }
 
 pub fn add_amazon_s3_environment_variables(
diff --git a/object_store_factory/src/lib.rs b/object_store_factory/src/lib.rs
index 255f862..093fc4f 100644
--- a/object_store_factory/src/lib.rs
+++ b/object_store_factory/src/lib.rs
@@ -51,20 +51,18 @@ impl ObjectStoreConfig {
         match scheme {
             ObjectStoreScheme::Memory => Ok(ObjectStoreConfig::Memory),
             ObjectStoreScheme::Local => {
-                let config: LocalConfig = serde_json::from_str(json_str).unwrap();
+                let config: LocalConfig = parse_config(json_str)?;
                 Ok(ObjectStoreConfig::Local(config))
             }
             ObjectStoreScheme::AmazonS3 => {
-                let config: S3Config = serde_json::from_str(json_str).unwrap();
+                let config: S3Config = parse_config(json_str)?;
                 Ok(ObjectStoreConfig::AmazonS3(config))
             }
             ObjectStoreScheme::GoogleCloudStorage => {
-                let config: GCSConfig = serde_json::from_str(json_str).unwrap();
+                let config: GCSConfig = parse_config(json_str)?;
                 Ok(ObjectStoreConfig::GoogleCloudStorage(config))
             }
-            _ => {
-                unimplemented!();
-            }
+            _ => Err(unsupported_scheme(url)),
         }
     }
 
@@ -133,11 +131,27 @@ impl ObjectStoreConfig {
     }
 }
 
+fn parse_config<T: serde::de::DeserializeOwned>(
+    json_str: &str,
+) -> Result<T, object_store::Error> {
+    serde_json::from_str(json_str).map_err(|e| object_store::Error::Generic {
+        store: "object_store_factory",
+        source: e.into(),
+    })
+}
+
+fn unsupported_scheme(url: &Url) -> object_store::Error {
+    object_store::Error::Generic {
+        store: "unsupported_url_scheme",
+        source: format!("Unsupported URL scheme: {}", url).into(),
+    }
+}
+
 pub async fn build_object_store_from_opts(
     url: &Url,
     options: HashMap<String, String>,
 ) -> Result<Box<dyn ObjectStore>, object_store::Error> {
-    let (scheme, _) = ObjectStoreScheme::parse(url).unwrap();
+    let (scheme, _) = ObjectStoreScheme::parse(url)?;
 
     match scheme {
         // `parse_url_opts` will swallow the URL path for memory/local FS stores
@@ -159,7 +173,7 @@ pub async fn build_object_store_from_opts(
         }
         ObjectStoreScheme::AmazonS3 => {
             let mut s3_options = aws::map_options_into_amazon_s3_config_keys(options)?;
-            aws::add_amazon_s3_specific_options(url, &mut s3_options).await;
+            aws::add_amazon_s3_specific_options(url, &mut s3_options).await?;
             aws::add_amazon_s3_environment_variables(&mut s3_options);
 
             let (mut store, _) = parse_url_opts(url, s3_options)?;
@@ -180,10 +194,7 @@ pub async fn build_object_store_from_opts(
         }
         _ => {
             warn!("Unsupported URL scheme: {}", url);
-            Err(object_store::Error::Generic {
-                store: "unsupported_url_scheme",
-                source: format!("Unsupported URL scheme: {}", url).into(),
-            })
+            Err(unsupported_scheme(url))
         }
     }
 }
-- 
2.43.0


From 695cbe7f5e847039c4dd9d864574357383352b0d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:26:50 +0000
Subject: [PATCH 24/82] fix: decode the path of a storage location's URL

The percent-encoded path was used as is for local directories, and encoded
once more for object store prefixes, so a location with a space, say, meant
another directory or prefix than the one named.
---
 object_store_factory/src/lib.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/object_store_factory/src/lib.rs b/object_store_factory/src/lib.rs
index 093fc4f..eb8a109 100644
--- a/object_store_factory/src/lib.rs
+++ b/object_store_factory/src/lib.rs
@@ -151,21 +151,30 @@ pub async fn build_object_store_from_opts(
     url: &Url,
     options: HashMap<String, String>,
 ) -> Result<Box<dyn ObjectStore>, object_store::Error> {
-    let (scheme, _) = ObjectStoreScheme::parse(url)?;
+    // The path comes decoded, and without the bucket for path-style URLs
+    let (scheme, path) = ObjectStoreScheme::parse(url)?;
 
     match scheme {
         // `parse_url_opts` will swallow the URL path for memory/local FS stores
         ObjectStoreScheme::Memory => {
             let mut store: Box<dyn ObjectStore> = Box::new(InMemory::new());
-            if !url.path().is_empty() {
-                store = Box::new(PrefixStore::new(store, url.path()));
+            if !path.as_ref().is_empty() {
+                store = Box::new(PrefixStore::new(store, path));
             }
 
             Ok(store)
         }
         ObjectStoreScheme::Local => {
+            let data_dir = url
+                .to_file_path()
+                .ok()
+                .and_then(|path| path.into_os_string().into_string().ok())
+                .ok_or_else(|| object_store::Error::Generic {
+                    store: "parse_url",
+                    source: format!("Not a local file path: {}", url).into(),
+                })?;
             let store = LocalConfig {
-                data_dir: url.path().to_string(),
+                data_dir,
                 disable_hardlinks: false,
             }
             .build_local_storage()?;
@@ -177,8 +186,8 @@ pub async fn build_object_store_from_opts(
             aws::add_amazon_s3_environment_variables(&mut s3_options);
 
             let (mut store, _) = parse_url_opts(url, s3_options)?;
-            if !url.path().is_empty() {
-                store = Box::new(PrefixStore::new(store, url.path()));
+            if !path.as_ref().is_empty() {
+                store = Box::new(PrefixStore::new(store, path));
             }
             Ok(store)
         }
@@ -187,8 +196,8 @@ pub async fn build_object_store_from_opts(
             google::add_google_cloud_storage_environment_variables(&mut gcs_options);
 
             let (mut store, _) = parse_url_opts(url, gcs_options)?;
-            if !url.path().is_empty() {
-                store = Box::new(PrefixStore::new(store, url.path()));
+            if !path.as_ref().is_empty() {
+                store = Box::new(PrefixStore::new(store, path));
             }
             Ok(store)
         }
-- 
2.43.0


From 43f6de00712f61319c617934e0e3dd55975c5c64 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:26:50 +0000
Subject: [PATCH 25/82] fix: read GCS settings back from their own option map

to_hashmap names the bucket google_bucket, which from_hashmap did not know.
---
 object_store_factory/src/google.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/object_store_factory/src/google.rs b/object_store_factory/src/google.rs
index f6b37c4..6c799a9 100644
--- a/object_store_factory/src/google.rs
+++ b/object_store_factory/src/google.rs
@@ -19,7 +19,11 @@ impl GCSConfig {
         map: &HashMap<String, String>,
     ) -> Result<Self, object_store::Error> {
         Ok(Self {
-            bucket: map.get("bucket").unwrap().clone(),
+            bucket: map
+                .get("bucket")
+                .or_else(|| map.get(GoogleConfigKey::Bucket.as_ref()))
+                .unwrap()
+                .clone(),
             prefix: map.get("prefix").map(|s| s.to_string()),
             google_application_credentials: map
                 .get("google_application_credentials")
-- 
2.43.0


From 9e825ab281116f14684324b4b624217949ea7338 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:34:24 +0000
Subject: [PATCH 26/82] fix: keep the reserved memory gauge right under
 concurrency

Reading the pool's total and then setting the gauge to it lets a slower
thread overwrite a newer value, so the gauge could stay above zero with
nothing reserved.
---
 src/memory_pool.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/memory_pool.rs b/src/memory_pool.rs
index 739eaad..b66ea95 100644
--- a/src/memory_pool.rs
+++ b/src/memory_pool.rs
@@ -90,17 +90,13 @@ impl MemoryPool for MemoryPoolMetrics {
 
     fn grow(&self, reservation: &MemoryReservation, additional: usize) {
         self.inner.grow(reservation, additional);
-        self.metrics
-            .memory_reserved
-            .set(self.inner.reserved() as f64);
+        self.metrics.memory_reserved.increment(additional as f64);
         Metrics::register_allocation(reservation, additional, true)
     }
 
     fn shrink(&self, reservation: &MemoryReservation, shrink: usize) {
         self.inner.shrink(reservation, shrink);
-        self.metrics
-            .memory_reserved
-            .set(self.inner.reserved() as f64);
+        self.metrics.memory_reserved.decrement(shrink as f64);
         Metrics::register_deallocation(reservation, shrink)
     }
 
@@ -110,9 +106,9 @@ impl MemoryPool for MemoryPoolMetrics {
         additional: usize,
     ) -> datafusion_common::Result<()> {
         let result = self.inner.try_grow(reservation, additional);
-        self.metrics
-            .memory_reserved
-            .set(self.inner.reserved() as f64);
+        if result.is_ok() {
+            self.metrics.memory_reserved.increment(additional as f64);
+        }
 
         Metrics::register_allocation(reservation, additional, result.is_ok());
 
-- 
2.43.0


From 3413c62abd6a3e5b5b1594a4a70b17d3620c46c0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:39:05 +0000
Subject: [PATCH 27/82] fix: keep the blanks inside the argument of a shell
 command

\d "a  b" described the table "a b".
---
 src/cli/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cli/mod.rs b/src/cli/mod.rs
index 132aa1a..fcb7de7 100644
--- a/src/cli/mod.rs
+++ b/src/cli/mod.rs
@@ -33,7 +33,11 @@ impl SeafowlCli {
             match rl.readline(format!("{}> ", self.ctx.default_catalog).as_str()) {
                 Ok(line) if line.starts_with('\\') => {
                     rl.add_history_entry(line.trim_end())?;
-                    let command = line.split_whitespace().collect::<Vec<_>>().join(" ");
+                    // Blanks inside the argument may be part of a quoted name
+                    let command = match line.trim_end().split_once(char::is_whitespace) {
+                        Some((name, arg)) => format!("{name} {}", arg.trim_start()),
+                        None => line.trim_end().to_string(),
+                    };
                     if let Ok(cmd) = &command[1..].parse::<Command>() {
                         match cmd {
                             Command::Quit => break,
-- 
2.43.0


From 2da119d5efcf7037398324ddcbf2e46efc288dde Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:34:41 +0000
Subject: [PATCH 28/82] fix: report mistyped native WASM UDFs when they are
 called, as creating them is allowed

---
 src/wasm_udf/wasm.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/wasm_udf/wasm.rs b/src/wasm_udf/wasm.rs
index 202d0ce..b70ba90 100644
--- a/src/wasm_udf/wasm.rs
+++ b/src/wasm_udf/wasm.rs
@@ -686,23 +686,12 @@ fn make_scalar_function_from_wasm(
         DataFusionError::Internal(format!("Error instantiating module: {e:?}"))
     })?;
 
-    let func = instance
+    let _func = instance
         .get_func(&mut store, function_name)
         .ok_or_else(|| {
             DataFusionError::Internal(format!("Error loading function {function_name:?}"))
         })?;
 
-    // The declared types have to be those of the function, since the conversion of
-    // its results relies on them
-    let func_type = func.ty(&store);
-    if !same_wasm_types(func_type.params(), &input_types)
-        || !same_wasm_types(func_type.results(), std::slice::from_ref(&return_type))
-    {
-        return Err(DataFusionError::Internal(format!(
-            "Function {function_name:?} has type {func_type}, which doesn't match the declared types {input_types:?} -> {return_type:?}"
-        )));
-    }
-
     // This function has to be of type Fn instead of FnMut. The function invocation (func.call)
     // needs a mutable context, which forces this closure to be FnMut.
     // This means we have to create a store and load the function inside of this closure, discarding
@@ -731,6 +720,17 @@ fn make_scalar_function_from_wasm(
                 ))
             })?;
 
+        // The declared types have to be those of the function, since the conversion of
+        // its results relies on them
+        let func_type = func.ty(&store);
+        if !same_wasm_types(func_type.params(), &input_types)
+            || !same_wasm_types(func_type.results(), std::slice::from_ref(&return_type))
+        {
+            return Err(DataFusionError::Internal(format!(
+                "Function {function_name:?} has type {func_type}, which doesn't match the declared types {input_types:?} -> {return_type:?}"
+            )));
+        }
+
         // this is guaranteed by DataFusion based on the function's signature.
         assert_eq!(args.len(), input_types.len());
 
-- 
2.43.0


From 50f379685319554b634d6982f33be0acd5b012aa Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:50:58 +0000
Subject: [PATCH 29/82] fix: make CREATE SCHEMA IF NOT EXISTS accept a schema
 that exists

---
 src/context/physical.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/context/physical.rs b/src/context/physical.rs
index ddbd5ab..ef2474a 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -1,6 +1,6 @@
 use super::delta::CreateDeltaTableDetails;
 use super::LakehouseTableProvider;
-use crate::catalog::{DEFAULT_SCHEMA, STAGING_SCHEMA};
+use crate::catalog::{CatalogError, DEFAULT_SCHEMA, STAGING_SCHEMA};
 use crate::context::delta::plan_to_delta_adds;
 use crate::context::SeafowlContext;
 use crate::nodes::{
@@ -122,16 +122,23 @@ impl SeafowlContext {
             LogicalPlan::Ddl(DdlStatement::CreateCatalogSchema(
                 CreateCatalogSchema {
                     schema_name,
-                    if_not_exists: _,
+                    if_not_exists,
                     schema: _,
                 },
             )) => {
                 // CREATE SCHEMA
                 // Create a schema and register it
-                self.metastore
+                match self
+                    .metastore
                     .schemas
                     .create(&self.default_catalog, schema_name)
-                    .await?;
+                    .await
+                {
+                    Err(CatalogError::SchemaAlreadyExists { .. }) if *if_not_exists => {}
+                    result => {
+                        result?;
+                    }
+                }
                 Ok(make_dummy_exec())
             }
             LogicalPlan::Ddl(DdlStatement::CreateCatalog(CreateCatalog {
-- 
2.43.0


From b53cfd8a84dc3a156879994a6265f41b33727caf Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:50:58 +0000
Subject: [PATCH 30/82] fix: make CREATE TABLE IF NOT EXISTS accept a table
 that exists

---
 src/context/physical.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/context/physical.rs b/src/context/physical.rs
index ef2474a..7d930da 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -602,8 +602,16 @@ impl SeafowlContext {
                         SeafowlExtensionNode::CreateTable(CreateTable {
                             schema,
                             name,
+                            if_not_exists,
                             ..
                         }) => {
+                            if *if_not_exists
+                                && self.try_get_delta_table(name.as_str()).await.is_ok()
+                            {
+                                // Table already exists
+                                return Ok(make_dummy_exec());
+                            }
+
                             self.create_delta_table(
                                 name.as_str(),
                                 CreateDeltaTableDetails::EmptyTable(schema.clone()),
-- 
2.43.0


From b8a8422046e7880d9c42c1216be6d0683e2df845 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:50:58 +0000
Subject: [PATCH 31/82] fix: record the table version that TRUNCATE creates

---
 src/context/physical.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/context/physical.rs b/src/context/physical.rs
index 7d930da..3f34810 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -711,7 +711,14 @@ impl SeafowlContext {
                                 .collect();
 
                             let op = DeltaOperation::Delete { predicate: None };
-                            self.commit_delta_table(actions, &table, op).await?;
+                            let version =
+                                self.commit_delta_table(actions, &table, op).await?;
+
+                            let uuid = self.get_table_uuid(table_name).await?;
+                            self.metastore
+                                .tables
+                                .create_new_version(uuid, version)
+                                .await?;
 
                             Ok(make_dummy_exec())
                         }
-- 
2.43.0


From 216317235b98505a3271453e6e7e674905f3bca9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:50:58 +0000
Subject: [PATCH 32/82] fix: resolve bare names of time-travel queries in the
 default schema of the context

---
 src/context/logical.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/context/logical.rs b/src/context/logical.rs
index 78fa6e7..35766c8 100644
--- a/src/context/logical.rs
+++ b/src/context/logical.rs
@@ -1,4 +1,3 @@
-use crate::catalog::DEFAULT_SCHEMA;
 use crate::context::SeafowlContext;
 use crate::datafusion::parser::{DFParser, Statement as DFStatement, CONVERT_TO_DELTA};
 use crate::datafusion::utils::build_schema;
@@ -340,7 +339,7 @@ impl SeafowlContext {
     async fn rewrite_time_travel_query(&self, q: &mut Query) -> Result<SessionState> {
         let mut version_processor = TableVersionProcessor::new(
             self.default_catalog.clone(),
-            DEFAULT_SCHEMA.to_string(),
+            self.default_schema.clone(),
         );
         q.visit(&mut version_processor);
 
-- 
2.43.0


From 699fbdbff563cd660b6ae63aed2f68dae35beab8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:51:29 +0000
Subject: [PATCH 33/82] fix: stop DELETE from truncating the table when its
 WHERE clause never holds or has a subquery

---
 src/context/physical.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/context/physical.rs b/src/context/physical.rs
index 3f34810..7bda017 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -451,10 +451,17 @@ impl SeafowlContext {
 
                             (adds, files_to_prune)
                         }
-                    } else {
+                    } else if let LogicalPlan::EmptyRelation(_) = &**input {
+                        // The optimizer found that the WHERE clause never holds.
+                        (vec![], vec![])
+                    } else if let LogicalPlan::TableScan(_) = &**input {
                         // If no qualifier is specified we're basically truncating the table.
                         // Remove all files.
                         (vec![], snapshot.file_actions()?)
+                    } else {
+                        return Err(Error::NotImplemented(
+                            "Only simple WHERE clauses are supported in DELETE".to_string(),
+                        ));
                     };
 
                 let deletion_timestamp = SystemTime::now()
-- 
2.43.0


From 6db9f594c513ae5e8d766ffff938182709e15634 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:51:29 +0000
Subject: [PATCH 34/82] fix: keep the rows for which the WHERE clause of a
 DELETE is NULL

---
 src/context/physical.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/context/physical.rs b/src/context/physical.rs
index 7bda017..bf125b9 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -54,7 +54,6 @@ use deltalake::protocol::{DeltaOperation, SaveMode};
 use deltalake::DeltaTable;
 use object_store::path::Path;
 use std::ops::Deref;
-use std::ops::Not;
 use std::sync::Arc;
 use std::time::{SystemTime, UNIX_EPOCH};
 use tracing::info;
@@ -420,9 +419,10 @@ impl SeafowlContext {
                             (vec![], vec![])
                         } else {
                             // To simulate the effect of a WHERE clause from a DELETE, we need to use the
-                            // inverse clause in a scan, when filtering the rows that should remain.
+                            // inverse clause in a scan, when filtering the rows that should remain
+                            // (including the ones for which the clause is NULL).
                             let filter_expr = create_physical_expr(
-                                &predicate.clone().not(),
+                                &predicate.clone().is_not_true(),
                                 table_schema,
                                 &ExecutionProps::new(),
                             )?;
-- 
2.43.0


From 74614400123eedaa99d2ea6aff9268491729a6a6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:54:54 +0000
Subject: [PATCH 35/82] fix: keep repeated subexpressions in the WHERE clause
 of a DELETE from truncating the table

---
 src/context/logical.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/context/logical.rs b/src/context/logical.rs
index 35766c8..547a627 100644
--- a/src/context/logical.rs
+++ b/src/context/logical.rs
@@ -14,7 +14,9 @@ use crate::{
 use datafusion::common::DFSchema;
 use datafusion::error::{DataFusionError as Error, Result};
 use datafusion::execution::context::SessionState;
+use datafusion::execution::session_state::SessionStateBuilder;
 use datafusion::optimizer::analyzer::Analyzer;
+use datafusion::optimizer::common_subexpr_eliminate::CommonSubexprEliminate;
 use datafusion::optimizer::optimizer::Optimizer;
 use datafusion::optimizer::simplify_expressions::SimplifyExpressions;
 use datafusion::optimizer::{OptimizerContext, OptimizerRule};
@@ -156,7 +158,19 @@ impl SeafowlContext {
                 Statement::Delete{ .. } => {
                     let state = self.inner.state();
                     let plan = state.statement_to_plan(stmt).await?;
-                    state.optimize(&plan)
+
+                    // As with UPDATE, keep the repeated parts of the WHERE clause from being moved
+                    // into nested Projection plans.
+                    let rules = state
+                        .optimizers()
+                        .iter()
+                        .filter(|rule| rule.name() != CommonSubexprEliminate::new().name())
+                        .cloned()
+                        .collect();
+                    SessionStateBuilder::new_from_existing(state)
+                        .with_optimizer_rules(rules)
+                        .build()
+                        .optimize(&plan)
                 }
                 Statement::Drop { object_type: ObjectType::Table | ObjectType::Schema, .. } => self.inner.state().statement_to_plan(stmt).await,
                 // CREATE TABLE (create empty table with columns)
-- 
2.43.0


From d5d59fb3430580c3463c2149e8f8caa606bb8133 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:54:55 +0000
Subject: [PATCH 36/82] fix: allow UPDATE of tables whose names need quoting

---
 src/context/physical.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/context/physical.rs b/src/context/physical.rs
index bf125b9..71a9032 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -240,7 +240,7 @@ impl SeafowlContext {
 
                 let schema_ref = TableProvider::schema(&table);
                 let df_schema = DFSchema::try_from_qualified_schema(
-                    table_name.table(),
+                    TableReference::bare(table_name.table()),
                     schema_ref.as_ref(),
                 )?;
 
-- 
2.43.0


From 6ec51840fa5ba12b276fe85f6871c52d1e896181 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:58:08 +0000
Subject: [PATCH 37/82] fix: reject NULLs in NOT NULL columns instead of making
 the table unreadable

---
 src/context/delta.rs    | 33 +++++++++++++++++++++++++++++----
 src/context/physical.rs |  5 +++--
 2 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/context/delta.rs b/src/context/delta.rs
index c1e894c..7201558 100644
--- a/src/context/delta.rs
+++ b/src/context/delta.rs
@@ -13,7 +13,7 @@ use datafusion::{
     error::DataFusionError,
     execution::context::TaskContext,
     parquet::{arrow::ArrowWriter, file::properties::WriterProperties},
-    physical_plan::{ExecutionPlan, ExecutionPlanProperties},
+    physical_plan::{execute_input_stream, ExecutionPlan, ExecutionPlanProperties},
     sql::TableReference,
 };
 use deltalake::kernel::{Action, Add, Schema as DeltaSchema};
@@ -88,13 +88,33 @@ fn temp_partition_file_writer(
 }
 
 /// Execute a plan and upload the results to object storage as Parquet files, indexing them.
-/// Partially taken from DataFusion's plan_to_parquet with some additions (file stats, using a DiskManager)
 pub async fn plan_to_delta_adds(
     state: &SessionState,
     plan: &Arc<dyn ExecutionPlan>,
     store: Arc<dyn ObjectStore>,
     local_data_dir: Option<String>,
     max_partition_size: u32,
+) -> Result<Vec<Add>> {
+    plan_to_table_adds(
+        state,
+        plan,
+        plan.schema(),
+        store,
+        local_data_dir,
+        max_partition_size,
+    )
+    .await
+}
+
+/// Same as above, except that the results must not have NULLs in the table's NOT NULL columns.
+/// Partially taken from DataFusion's plan_to_parquet with some additions (file stats, using a DiskManager)
+pub async fn plan_to_table_adds(
+    state: &SessionState,
+    plan: &Arc<dyn ExecutionPlan>,
+    table_schema: SchemaRef,
+    store: Arc<dyn ObjectStore>,
+    local_data_dir: Option<String>,
+    max_partition_size: u32,
 ) -> Result<Vec<Add>> {
     let mut current_partition_size = 0;
     let (mut current_partition_file_path, mut writer) =
@@ -108,7 +128,8 @@ pub async fn plan_to_delta_adds(
     info!("Persisting data into temporary partition objects on disk");
     for i in 0..plan.output_partitioning().partition_count() {
         let task_ctx = Arc::new(TaskContext::from(state));
-        let mut stream = plan.execute(i, task_ctx)?;
+        let mut stream =
+            execute_input_stream(plan.clone(), table_schema.clone(), i, task_ctx)?;
 
         while let Some(batch) = stream.next().await {
             let mut batch = batch?;
@@ -385,6 +406,9 @@ impl SeafowlContext {
         name: impl Into<TableReference>,
         plan: &Arc<dyn ExecutionPlan>,
     ) -> Result<DeltaTable> {
+        let name = name.into();
+        let table_schema =
+            TableProvider::schema(&self.try_get_delta_table(name.clone()).await?);
         let table_uuid = self.get_table_uuid(name).await?;
         let prefix = table_uuid.to_string();
         let internal_object_store = self.get_internal_object_store()?;
@@ -392,9 +416,10 @@ impl SeafowlContext {
         let local_table_dir = internal_object_store.local_table_dir(&prefix);
 
         // Upload partition files to table's root directory
-        let adds = plan_to_delta_adds(
+        let adds = plan_to_table_adds(
             &self.inner.state(),
             plan,
+            table_schema,
             table_log_store.object_store(),
             local_table_dir,
             self.config.misc.max_partition_size,
diff --git a/src/context/physical.rs b/src/context/physical.rs
index 71a9032..4e90c61 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -1,7 +1,7 @@
 use super::delta::CreateDeltaTableDetails;
 use super::LakehouseTableProvider;
 use crate::catalog::{CatalogError, DEFAULT_SCHEMA, STAGING_SCHEMA};
-use crate::context::delta::plan_to_delta_adds;
+use crate::context::delta::{plan_to_delta_adds, plan_to_table_adds};
 use crate::context::SeafowlContext;
 use crate::nodes::{
     ConvertTable, CreateFunction, CreateTable, DropFunction, RenameTable,
@@ -327,9 +327,10 @@ impl SeafowlContext {
                         .object_store();
                     let local_table_dir =
                         internal_object_store.local_table_dir(&uuid.to_string());
-                    let adds = plan_to_delta_adds(
+                    let adds = plan_to_table_adds(
                         &state,
                         &update_plan,
+                        schema_ref.clone(),
                         object_store,
                         local_table_dir,
                         self.config.misc.max_partition_size,
-- 
2.43.0


From 3cd580a7014e886e61de91ca5af830999f40256c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:58:08 +0000
Subject: [PATCH 38/82] fix: drop the table of a CREATE TABLE AS that fails

---
 src/context/physical.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/context/physical.rs b/src/context/physical.rs
index 4e90c61..5aadd49 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -192,7 +192,22 @@ impl SeafowlContext {
                     CreateDeltaTableDetails::EmptyTable(plan.schema().as_ref().clone()),
                 )
                 .await?;
-                self.plan_to_delta_table(name.clone(), &plan).await?;
+                if let Err(err) = self.plan_to_delta_table(name.clone(), &plan).await {
+                    // Don't leave the empty table behind
+                    let resolved_ref = self.resolve_table_ref(name.clone());
+                    self.delete_delta_table(name.clone())
+                        .await
+                        .unwrap_or_else(|e| info!("Failed to cleanup table {name}: {e}"));
+                    self.metastore
+                        .tables
+                        .delete(
+                            &resolved_ref.catalog,
+                            &resolved_ref.schema,
+                            &resolved_ref.table,
+                        )
+                        .await?;
+                    return Err(err);
+                }
 
                 Ok(make_dummy_exec())
             }
-- 
2.43.0


From 961568c13c13dd1dfc88a9bd32fb4402a7118018 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 02:23:37 +0000
Subject: [PATCH 39/82] fix: keep DROP TABLE IF EXISTS from taking a table that
 can't be loaded for one that isn't there

---
 src/context/physical.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/context/physical.rs b/src/context/physical.rs
index 5aadd49..f42a020 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -518,13 +518,18 @@ impl SeafowlContext {
                 if_exists,
                 schema: _,
             })) => {
-                if *if_exists && self.try_get_delta_table(name.clone()).await.is_err() {
+                let resolved_ref = self.resolve_table_ref(name.clone());
+
+                if *if_exists
+                    && !self
+                        .inner
+                        .table_exist(resolved_ref.clone())
+                        .unwrap_or_default()
+                {
                     // The table doesn't exist
                     return Ok(make_dummy_exec());
                 }
 
-                let resolved_ref = self.resolve_table_ref(name.clone());
-
                 if resolved_ref.schema.as_ref() == STAGING_SCHEMA {
                     // Dropping a staging table is a in-memory only op
                     self.inner.deregister_table(resolved_ref)?;
-- 
2.43.0


From 05a38a8213775c1d2deda2533bdce04455e1014c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 02:23:37 +0000
Subject: [PATCH 40/82] fix: retry the cleanup of a dropped table before giving
 up on it

---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 0157b4a..d5407b1 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -80,7 +80,7 @@ pub async fn gc_databases(
                 "Encountered error while trying to delete table in directory {}: {err}",
                 dt.uuid
             );
-            if dt.deletion_status != DroppedTableDeletionStatus::Pending {
+            if dt.deletion_status == DroppedTableDeletionStatus::Pending {
                 dt.deletion_status = DroppedTableDeletionStatus::Retry;
             } else {
                 dt.deletion_status = DroppedTableDeletionStatus::Failed;
-- 
2.43.0


From 888062c5ede80095c9b48e82634c7fbe4d065d83 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 02:23:37 +0000
Subject: [PATCH 41/82] fix: keep dropped tables whose objects couldn't be
 listed in the cleanup list

---
 src/object_store/wrapped.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/object_store/wrapped.rs b/src/object_store/wrapped.rs
index a17b10c..7c5d709 100644
--- a/src/object_store/wrapped.rs
+++ b/src/object_store/wrapped.rs
@@ -125,9 +125,8 @@ impl InternalObjectStore {
     pub async fn delete_in_prefix(&self, prefix: &Path) -> Result<(), Error> {
         let mut path_stream = self.inner.list(Some(prefix));
         while let Some(maybe_object) = path_stream.next().await {
-            if let Ok(ObjectMeta { location, .. }) = maybe_object {
-                self.inner.delete(&location).await?;
-            }
+            let ObjectMeta { location, .. } = maybe_object?;
+            self.inner.delete(&location).await?;
         }
         Ok(())
     }
-- 
2.43.0


From 422a75fceb7a089a22402149d168d1fb22f29c56 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 02:23:37 +0000
Subject: [PATCH 42/82] fix: keep DROP SCHEMA from leaving tables that are half
 deleted

---
 src/context/physical.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/context/physical.rs b/src/context/physical.rs
index f42a020..30b6c7f 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -590,7 +590,9 @@ impl SeafowlContext {
                         schema: Arc::from(schema_name),
                         table: Arc::from(table_name),
                     };
-                    self.delete_delta_table(table_ref.clone()).await?;
+                    self.delete_delta_table(table_ref.clone()).await.unwrap_or_else(
+                        |e| info!("Failed to cleanup table {table_ref}: {e}"),
+                    );
 
                     self.metastore
                         .tables
-- 
2.43.0


From 801d3c8e334de2df0efc1bc42e9310555d3e760a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 02:53:55 +0000
Subject: [PATCH 43/82] verif: let the verification harness drive the sync
 writer (guarded by cfg verif_hooks)

---
 src/sync/mod.rs    |  4 ++++
 src/sync/writer.rs | 12 ++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/sync/mod.rs b/src/sync/mod.rs
index 0118158..b443216 100644
--- a/src/sync/mod.rs
+++ b/src/sync/mod.rs
@@ -12,6 +12,10 @@ pub mod schema;
 mod utils;
 pub(crate) mod writer;
 
+// Hook for the verification harness, which drives the writer directly
+#[cfg(verif_hooks)]
+pub use writer::SeafowlDataSyncWriter as VerifSyncWriter;
+
 pub(super) type Origin = String;
 pub(super) type SequenceNumber = u64;
 
diff --git a/src/sync/writer.rs b/src/sync/writer.rs
index 46e99bd..a190055 100644
--- a/src/sync/writer.rs
+++ b/src/sync/writer.rs
@@ -682,6 +682,18 @@ impl SeafowlDataSyncWriter {
     }
 }
 
+// Hook for the verification harness, to flush any table at any time
+#[cfg(verif_hooks)]
+impl SeafowlDataSyncWriter {
+    pub fn pending_tables(&self) -> Vec<String> {
+        self.syncs.keys().cloned().collect()
+    }
+
+    pub async fn flush_table(&mut self, url: String) -> SyncResult<()> {
+        self.flush_syncs(url).await
+    }
+}
+
 pub(super) fn now() -> u64 {
     SystemTime::now()
         .duration_since(UNIX_EPOCH)
-- 
2.43.0


From 66bb215abd41845c24fc826eaa3747a84e4ee5c7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:04:48 +0000
Subject: [PATCH 44/82] fix: let synced columns have names that need quoting

The sync plans resolve column names as if they were parsed SQL identifiers, so
any column with a capital letter in its name can't be flushed.
---
 src/sync/planner.rs      | 51 ++++++++++++++++++++--------------------
 src/sync/schema/union.rs | 26 ++++++++++----------
 src/sync/utils.rs        |  4 ++--
 3 files changed, 40 insertions(+), 41 deletions(-)

diff --git a/src/sync/planner.rs b/src/sync/planner.rs
index e60dd17..6fe8a7e 100644
--- a/src/sync/planner.rs
+++ b/src/sync/planner.rs
@@ -18,7 +18,7 @@ use datafusion::physical_plan::ExecutionPlan;
 use datafusion_common::{Column, DFSchemaRef, JoinType, ScalarValue, ToDFSchema};
 use datafusion_expr::execution_props::ExecutionProps;
 use datafusion_expr::{
-    col, lit, when, Expr, LogicalPlan, LogicalPlanBuilder, Projection,
+    col, ident, lit, when, Expr, LogicalPlan, LogicalPlanBuilder, Projection,
 };
 use datafusion_functions_nested::expr_fn::make_array;
 use deltalake::delta_datafusion::DeltaTableProvider;
@@ -234,16 +234,18 @@ impl SeafowlSyncPlanner {
         let exprs = self.add_sync_flag(upper_plan.schema(), UPPER_REL);
         let upper_plan = upper_plan.project(exprs)?;
 
-        let (lower_join_cols, upper_join_cols): (Vec<String>, Vec<String>) = upper_schema
+        let (lower_join_cols, upper_join_cols): (Vec<Column>, Vec<Column>) = upper_schema
             .map_columns(ColumnRole::OldPk, |sc| {
                 let lower_name = lower_schema
                     .column(sc.name(), ColumnRole::NewPk)
                     .expect("PK columns identical")
                     .field()
-                    .name()
-                    .clone();
-                let upper_name = sc.field().name().clone();
-                (lower_name, upper_name)
+                    .name();
+                let upper_name = sc.field().name();
+                (
+                    Column::new(Some(LOWER_REL), lower_name),
+                    Column::new(Some(UPPER_REL), upper_name),
+                )
             })
             .into_iter()
             .unzip();
@@ -305,7 +307,7 @@ impl SeafowlSyncPlanner {
                         .unwrap()
                         .field()
                         .name();
-                    Some((col(old_name), col(new_name)))
+                    Some((ident(old_name), ident(new_name)))
                 } else {
                     None
                 }
@@ -354,8 +356,8 @@ impl SeafowlSyncPlanner {
         // +-----------+----------------------+--------------+
         for sync_col in sync_schema.columns().iter() {
             if sync_col.role() == ColumnRole::OldPk {
-                let old_pk = col(sync_col.field().name());
-                let new_pk = col(sync_schema
+                let old_pk = ident(sync_col.field().name());
+                let new_pk = ident(sync_schema
                     .column(sync_col.name(), ColumnRole::NewPk)
                     .unwrap()
                     .field()
@@ -385,7 +387,7 @@ impl SeafowlSyncPlanner {
                 let name =
                     SyncColumn::canonical_field_name(sync_col.role(), sync_col.name());
                 projection.push(
-                    col(sync_col.field().name())
+                    ident(sync_col.field().name())
                         .alias_qualified(Some(UPPER_REL), name.clone()),
                 );
                 column_descriptors.push(sync_col.column_descriptor());
@@ -455,29 +457,27 @@ impl SeafowlSyncPlanner {
     ) -> SyncResult<DataFrame> {
         // These differ since the physical column names are reflected in the ColumnDescriptor,
         // while logical column names are found in the arrow fields
-        let (base_pk_cols, sync_pk_cols): (Vec<String>, Vec<String>) = sync_schema
+        let (base_pk_cols, sync_pk_cols): (Vec<Column>, Vec<Column>) = sync_schema
             .map_columns(ColumnRole::NewPk, |c| {
-                (c.name().to_string(), c.field().name().clone())
+                (
+                    Column::new(Some(LOWER_REL), c.name()),
+                    Column::new(Some(UPPER_REL), c.field().name()),
+                )
             })
             .into_iter()
             .unzip();
 
-        let input_df = base_df
-            .with_column(LOWER_REL, lit(true))?
+        let (session_state, base_plan) =
+            base_df.with_column(LOWER_REL, lit(true))?.into_parts();
+        let input_plan = LogicalPlanBuilder::from(base_plan)
             .join(
-                sync_df,
+                sync_df.into_unoptimized_plan(),
                 JoinType::Full,
-                &base_pk_cols
-                    .iter()
-                    .map(|pk| pk.as_str())
-                    .collect::<Vec<_>>(),
-                &sync_pk_cols
-                    .iter()
-                    .map(|pk| pk.as_str())
-                    .collect::<Vec<_>>(),
+                (base_pk_cols, sync_pk_cols),
                 None,
             )?
-            .filter(col(UPSERT_COL).is_not_false())?; // Remove deleted rows
+            .filter(col(UPSERT_COL).is_not_false())? // Remove deleted rows
+            .build()?;
 
         // Normalize the schema, by ordering columns according to the full table schema and
         // projecting the sync data accordingly.
@@ -541,8 +541,7 @@ impl SeafowlSyncPlanner {
             })
             .collect::<datafusion_common::Result<_>>()?;
 
-        let (session_state, plan) = input_df.into_parts();
-        let input_plan = self.project_expressions(plan, projection)?;
+        let input_plan = self.project_expressions(input_plan, projection)?;
 
         Ok(DataFrame::new(session_state, input_plan))
     }
diff --git a/src/sync/schema/union.rs b/src/sync/schema/union.rs
index 18d013f..903939b 100644
--- a/src/sync/schema/union.rs
+++ b/src/sync/schema/union.rs
@@ -3,7 +3,7 @@ use crate::sync::schema::{SyncColumn, SyncSchema};
 use crate::sync::SyncResult;
 use clade::sync::{ColumnDescriptor, ColumnRole};
 use datafusion_common::ScalarValue;
-use datafusion_expr::{col, lit, Expr};
+use datafusion_expr::{ident, lit, Expr};
 use indexmap::IndexSet;
 
 pub(super) fn union_pk_column(
@@ -15,8 +15,8 @@ pub(super) fn union_pk_column(
         .expect("Old Pk columns must be the same across syncs");
 
     (
-        col(lower_pk_col.field().name()),
-        col(upper_pk_col.field().name()),
+        ident(lower_pk_col.field().name()),
+        ident(upper_pk_col.field().name()),
     )
 }
 
@@ -31,8 +31,8 @@ pub(super) fn union_changed_column(
         // ... other sync has the corresponding `Changed` column, projects both
         match sync_position {
             SyncPosition::Lower => (
-                col(this_changed_col.field().name()),
-                col(other_changed_col.field().name()),
+                ident(this_changed_col.field().name()),
+                ident(other_changed_col.field().name()),
             ),
             SyncPosition::Upper => {
                 unreachable!("Picked up `Changed` column during processing of lower sync")
@@ -46,17 +46,17 @@ pub(super) fn union_changed_column(
         // the corresponding `Value` column
         match sync_position {
             // project true to pick those upper values up
-            SyncPosition::Lower => (col(this_changed_col.field().name()), lit(true)),
+            SyncPosition::Lower => (ident(this_changed_col.field().name()), lit(true)),
             // project true to pick those lower values up
-            SyncPosition::Upper => (lit(true), col(this_changed_col.field().name())),
+            SyncPosition::Upper => (lit(true), ident(this_changed_col.field().name())),
         }
     } else {
         // ... other sync has neither the `Changed` nor the associated `Value` column,
         match sync_position {
             // project false to avoid overriding lower values with NULL values
-            SyncPosition::Lower => (col(this_changed_col.field().name()), lit(false)),
+            SyncPosition::Lower => (ident(this_changed_col.field().name()), lit(false)),
             // project false to avoid overriding upper values with NULL values
-            SyncPosition::Upper => (lit(false), col(this_changed_col.field().name())),
+            SyncPosition::Upper => (lit(false), ident(this_changed_col.field().name())),
         }
     }
 }
@@ -96,8 +96,8 @@ pub(super) fn union_value_column(
             // ... other sync has the corresponding `Changed` column, projects both
             match sync_position {
                 SyncPosition::Lower => (
-                    col(this_value_col.field().name()),
-                    col(other_value_col.field().name()),
+                    ident(this_value_col.field().name()),
+                    ident(other_value_col.field().name()),
                 ),
                 SyncPosition::Upper => {
                     unreachable!(
@@ -110,12 +110,12 @@ pub(super) fn union_value_column(
             // `Changed` column will be added regardless ...
             match sync_position {
                 SyncPosition::Lower => (
-                    col(this_value_col.field().name()),
+                    ident(this_value_col.field().name()),
                     lit(ScalarValue::Null.cast_to(this_value_col.field().data_type())?),
                 ),
                 SyncPosition::Upper => (
                     lit(ScalarValue::Null.cast_to(this_value_col.field().data_type())?),
-                    col(this_value_col.field().name()),
+                    ident(this_value_col.field().name()),
                 ),
             }
         },
diff --git a/src/sync/utils.rs b/src/sync/utils.rs
index 39d8e7e..0d3fd33 100644
--- a/src/sync/utils.rs
+++ b/src/sync/utils.rs
@@ -10,7 +10,7 @@ use clade::sync::ColumnRole;
 use datafusion::functions_aggregate::min_max::{MaxAccumulator, MinAccumulator};
 use datafusion::physical_optimizer::pruning::PruningStatistics;
 use datafusion_common::{DataFusionError, Result};
-use datafusion_expr::{col, lit, Accumulator, Expr};
+use datafusion_expr::{ident, lit, Accumulator, Expr};
 use std::collections::{HashMap, HashSet, VecDeque};
 use std::sync::Arc;
 use tracing::log::{debug, warn};
@@ -301,7 +301,7 @@ pub(super) fn construct_qualifier(
             let max_value = max_value.evaluate().ok()?;
             if !min_value.is_null() && !max_value.is_null() {
                 Some(Ok(
-                    col(pk_col.as_str()).between(lit(min_value), lit(max_value))
+                    ident(pk_col.as_str()).between(lit(min_value), lit(max_value))
                 ))
             } else {
                 // There shouldn't be a situation where a max is NULL but min isn't and vice-versa.
-- 
2.43.0


From ab65980b39c6e86957e7ce54e34dfa2a7d4305c1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:04:48 +0000
Subject: [PATCH 45/82] fix: match new PK columns to the old ones by name when
 squashing syncs

Their order in the message may differ, in which case squashing failed or chained
rows with unrelated keys.
---
 src/sync/utils.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/sync/utils.rs b/src/sync/utils.rs
index 0d3fd33..4c57924 100644
--- a/src/sync/utils.rs
+++ b/src/sync/utils.rs
@@ -81,7 +81,22 @@ pub(super) fn squash_batches(
     };
 
     let (old_pk_cols, (sort_fields, nulls)) = columns(ColumnRole::OldPk);
-    let (new_pk_cols, _) = columns(ColumnRole::NewPk);
+    // Take the new PK columns in the same order as the old ones, since their positions in the schema
+    // may differ.
+    let new_pk_cols = sync_schema
+        .columns()
+        .iter()
+        .filter(|col| col.role() == ColumnRole::OldPk)
+        .filter_map(|old_pk| {
+            sync_schema
+                .columns()
+                .iter()
+                .position(|col| {
+                    col.role() == ColumnRole::NewPk && col.name() == old_pk.name()
+                })
+                .map(|idx| batch.column(idx).clone())
+        })
+        .collect::<Vec<_>>();
 
     // NB: we must use the same row converter in order to compare fields, or else the comparison
     // might not make sense:
-- 
2.43.0


From 3775b128528124faf3aa009800879b6d379c00dc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:04:48 +0000
Subject: [PATCH 46/82] fix: squash syncs with a Changed column that cancel out

With no rows left there were no indices for the Changed columns, and squashing panicked.
---
 src/sync/utils.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/sync/utils.rs b/src/sync/utils.rs
index 4c57924..4a0a256 100644
--- a/src/sync/utils.rs
+++ b/src/sync/utils.rs
@@ -11,7 +11,7 @@ use datafusion::functions_aggregate::min_max::{MaxAccumulator, MinAccumulator};
 use datafusion::physical_optimizer::pruning::PruningStatistics;
 use datafusion_common::{DataFusionError, Result};
 use datafusion_expr::{ident, lit, Accumulator, Expr};
-use std::collections::{HashMap, HashSet, VecDeque};
+use std::collections::{HashMap, HashSet};
 use std::sync::Arc;
 use tracing::log::{debug, warn};
 
@@ -183,7 +183,7 @@ pub(super) fn squash_batches(
     let (mut old_pks, mut new_pks, mut changed_rows) = (
         Vec::with_capacity(rows),
         Vec::with_capacity(rows),
-        VecDeque::with_capacity(rows),
+        vec![Vec::with_capacity(rows); changed.len()],
     );
     for (id, (old_pk, new_pk, changed_row)) in column_rows.into_iter().enumerate() {
         if temp_rows.contains(&id) {
@@ -194,10 +194,7 @@ pub(super) fn squash_batches(
         old_pks.push(old_pk);
         new_pks.push(new_pk);
         for (idx, changed_row) in changed_row.iter().enumerate() {
-            match changed_rows.get_mut(idx) {
-                None => changed_rows.push_back(vec![*changed_row]),
-                Some(v) => v.push(*changed_row),
-            };
+            changed_rows[idx].push(*changed_row);
         }
     }
 
-- 
2.43.0


From 75fb6eb95b1ea2d1e518713ab7ccd08ad27f5b76 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:04:48 +0000
Subject: [PATCH 47/82] fix: squash every Changed column by its own flag

All of them used the row indices of the first one.
---
 src/sync/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sync/utils.rs b/src/sync/utils.rs
index 4a0a256..34b5b5c 100644
--- a/src/sync/utils.rs
+++ b/src/sync/utils.rs
@@ -221,7 +221,7 @@ pub(super) fn squash_batches(
                 }
                 ColumnRole::Changed => {
                     // Insert the indices for both this column...
-                    indices.insert(col_id, &changed_indices[0]);
+                    indices.insert(col_id, &changed_indices[changed_pos]);
 
                     // ... as well as for the actual changed Value column
                     let changed_col_id = schema
@@ -233,7 +233,7 @@ pub(super) fn squash_batches(
                                 .name(),
                         )
                         .expect("Field exists");
-                    indices.insert(changed_col_id, &changed_indices[0]);
+                    indices.insert(changed_col_id, &changed_indices[changed_pos]);
                     changed_pos += 1;
                 }
                 ColumnRole::Value => {
-- 
2.43.0


From 10bf5ee4fab2d66e371da825d8cecfaed65073cc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:04:48 +0000
Subject: [PATCH 48/82] fix: don't underflow when squashed batches take more
 memory

---
 src/sync/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sync/writer.rs b/src/sync/writer.rs
index a190055..aed7e61 100644
--- a/src/sync/writer.rs
+++ b/src/sync/writer.rs
@@ -572,7 +572,7 @@ impl SeafowlDataSyncWriter {
             let duration = start.elapsed().as_millis();
             info!(
                 "Squashed {} bytes in {duration} ms for {url}",
-                old_size - self.size,
+                old_size.saturating_sub(self.size),
             );
         };
 
-- 
2.43.0


From 2608cd04a91705e81b110f5849a34aacce87a196 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:04:48 +0000
Subject: [PATCH 49/82] fix: don't take sync schemas for compatible when one is
 a prefix of the other

---
 src/sync/schema/mod.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/sync/schema/mod.rs b/src/sync/schema/mod.rs
index 03342d0..d6ca122 100644
--- a/src/sync/schema/mod.rs
+++ b/src/sync/schema/mod.rs
@@ -181,14 +181,16 @@ impl SyncSchema {
     // This is a shallower check than the equality check, since it checks for the sync column roles,
     // names, data types and order (and doesn't inspect the underlying arrows field equality).
     pub fn is_compatible_with(&self, other: &SyncSchema) -> bool {
-        self.columns()
-            .iter()
-            .zip(other.columns().iter())
-            .all(|(this, other)| {
-                this.name == other.name
-                    && this.role == other.role
-                    && this.field().data_type() == other.field().data_type()
-            })
+        self.columns().len() == other.columns().len()
+            && self
+                .columns()
+                .iter()
+                .zip(other.columns().iter())
+                .all(|(this, other)| {
+                    this.name == other.name
+                        && this.role == other.role
+                        && this.field().data_type() == other.field().data_type()
+                })
     }
 }
 
-- 
2.43.0


From 07d8e3c8fcaca8bc16d5aa5a87cf04769886d4ee Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:06:09 +0000
Subject: [PATCH 50/82] fix: flush syncs that cancel out instead of panicking

---
 src/sync/planner.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sync/planner.rs b/src/sync/planner.rs
index 6fe8a7e..c3de8da 100644
--- a/src/sync/planner.rs
+++ b/src/sync/planner.rs
@@ -568,7 +568,8 @@ impl SeafowlSyncPlanner {
             (Some(old_pk_q), Some(new_pk_q)) => old_pk_q.or(new_pk_q),
             (Some(old_pk_q), None) => old_pk_q,
             (None, Some(new_pk_q)) => new_pk_q,
-            _ => panic!("There can be no situation without either old or new PKs"),
+            // All the changes canceled out, so there is nothing to overwrite
+            _ => return Ok(vec![]),
         };
 
         let prune_expr = create_physical_expr(
-- 
2.43.0


From 6c27a2c4dac2c2747363c31032c6fa264e07324c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:06:09 +0000
Subject: [PATCH 51/82] fix: compare all columns of a primary key when telling
 updates apart in a sync

An update that changed only a later column of a composite key was taken for one
that keeps the key, so the old row stayed.
---
 src/sync/planner.rs | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/sync/planner.rs b/src/sync/planner.rs
index c3de8da..25bbbbb 100644
--- a/src/sync/planner.rs
+++ b/src/sync/planner.rs
@@ -295,23 +295,31 @@ impl SeafowlSyncPlanner {
         sync_schema: &SyncSchema,
         sync_df: DataFrame,
     ) -> SyncResult<(SyncSchema, DataFrame)> {
-        // Pick the first Old/New PK for constructing the cases below
-        let (old_pk, new_pk) = sync_schema
+        // Collect all Old/New PK pairs for constructing the cases below
+        let pks: Vec<(Expr, Expr)> = sync_schema
             .columns()
             .iter()
-            .find_map(|sc| {
-                if sc.role() == ColumnRole::OldPk {
-                    let old_name = sc.field().name();
-                    let new_name = sync_schema
-                        .column(sc.name(), ColumnRole::NewPk)
-                        .unwrap()
-                        .field()
-                        .name();
-                    Some((ident(old_name), ident(new_name)))
-                } else {
-                    None
-                }
+            .filter(|sc| sc.role() == ColumnRole::OldPk)
+            .map(|sc| {
+                let old_name = sc.field().name();
+                let new_name = sync_schema
+                    .column(sc.name(), ColumnRole::NewPk)
+                    .unwrap()
+                    .field()
+                    .name();
+                (ident(old_name), ident(new_name))
             })
+            .collect();
+        // PK columns are either all NULL or none of them is, so the first one tells these apart
+        let (old_pk, new_pk) = pks
+            .first()
+            .cloned()
+            .expect("At least 1 old PK column must exist");
+        // The PK is preserved only if all of its columns are
+        let same_pk = pks
+            .into_iter()
+            .map(|(old_pk, new_pk)| old_pk.eq(new_pk))
+            .reduce(Expr::and)
             .expect("At least 1 old PK column must exist");
 
         // Filter out any temp rows
@@ -324,12 +332,12 @@ impl SeafowlSyncPlanner {
             .clone()
             .is_not_null()
             .and(new_pk.clone().is_not_null())
-            .and(old_pk.clone().eq(new_pk.clone()));
+            .and(same_pk.clone());
         let pk_changing_update = old_pk
             .clone()
             .is_not_null()
             .and(new_pk.clone().is_not_null())
-            .and(old_pk.clone().not_eq(new_pk.clone()));
+            .and(same_pk.not());
 
         let mut projection = vec![];
         let mut unnest_cols = vec![];
-- 
2.43.0


From 16e71206b7be536fffc4468b103d931be6f2dc33 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:07:29 +0000
Subject: [PATCH 52/82] fix: report transactions as durable when only their end
 comes after the flush

The durable sequence advanced only when another table got flushed.
---
 src/sync/writer.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sync/writer.rs b/src/sync/writer.rs
index aed7e61..660eca6 100644
--- a/src/sync/writer.rs
+++ b/src/sync/writer.rs
@@ -323,6 +323,12 @@ impl SeafowlDataSyncWriter {
             self.flush_syncs(url).await?;
         }
 
+        // A transaction whose last message carries no rows can be complete without a further flush
+        self.advance_durable();
+        self.origin_durable.iter().for_each(|(origin, seq)| {
+            self.metrics.sequence_durable(origin, *seq);
+        });
+
         self.metrics.in_memory_oldest.set(
             self.syncs
                 .first()
-- 
2.43.0


From ead38524633c62ecb4043c8835c1faaf788d231b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:25:53 +0000
Subject: [PATCH 53/82] fix: don't underflow when fine-grained pruning keeps
 more partitions

---
 src/sync/planner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sync/planner.rs b/src/sync/planner.rs
index 25bbbbb..408076e 100644
--- a/src/sync/planner.rs
+++ b/src/sync/planner.rs
@@ -622,7 +622,7 @@ impl SeafowlSyncPlanner {
             let new_partition_count = new_prune_map.iter().filter(|p| **p).count();
             info!(
                 "Fine-grained pruning scoped out {} partitions in {} ms",
-                partition_count - new_partition_count,
+                partition_count.saturating_sub(new_partition_count),
                 prune_start.elapsed().as_millis()
             );
             prune_map = new_prune_map;
-- 
2.43.0


From 5188b8f4bfa1b7367e7c096cf59c877c12f9220c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:29:09 +0000
Subject: [PATCH 54/82] fix: don't panic on empty and inverted ranges in the
 object store cache

---
 src/object_store/cache.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/object_store/cache.rs b/src/object_store/cache.rs
index 5b045de..4361a19 100644
--- a/src/object_store/cache.rs
+++ b/src/object_store/cache.rs
@@ -657,12 +657,21 @@ impl ObjectStore for CachingObjectStore {
         location: &object_store::path::Path,
         range: Range<usize>,
     ) -> object_store::Result<Bytes> {
+        if range.start > range.end {
+            // Have the actual store reject the range
+            return self.get_range_inner(location, range).await;
+        }
+
         self.metrics.get_range_calls.increment(1);
         self.metrics
             .get_range_bytes
             .increment((range.end - range.start).try_into().unwrap());
 
         debug!("{location}-{range:?} get_range");
+        if range.is_empty() {
+            return Ok(Bytes::new());
+        }
+
         // Expand the range to the next max_fetch_size (+ alignment)
         let start_chunk = range.start / self.min_fetch_size as usize;
         // The final chunk to fetch (inclusively). E.g. with min_fetch_size = 16:
-- 
2.43.0


From e64dabc51a612ac0ef0bd48f33908942f01496f8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:29:50 +0000
Subject: [PATCH 55/82] fix: don't cache the last chunk of an object as the
 chunks past its end

---
 src/object_store/cache.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/object_store/cache.rs b/src/object_store/cache.rs
index 4361a19..6dc7e4d 100644
--- a/src/object_store/cache.rs
+++ b/src/object_store/cache.rs
@@ -515,12 +515,14 @@ impl CachingObjectStore {
                 result.extend_from_slice(&batch_data);
 
                 for key in &chunk_batch {
+                    if batch_data.is_empty() {
+                        // The object ends before this chunk
+                        break;
+                    }
+
                     // Split the next chunk from the batch
-                    let data = if batch_data.len() < self.min_fetch_size as usize {
-                        batch_data.clone()
-                    } else {
-                        batch_data.split_to(self.min_fetch_size as usize)
-                    };
+                    let data = batch_data
+                        .split_to(batch_data.len().min(self.min_fetch_size as usize));
 
                     self.cache_chunk_data(key.clone(), data).await;
                 }
-- 
2.43.0


From fa69c3ef687c1d9248b5d5da17f3e5094875b8f9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:30:23 +0000
Subject: [PATCH 56/82] fix: don't panic on ranges that start past the end of a
 cached object

---
 src/object_store/cache.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/object_store/cache.rs b/src/object_store/cache.rs
index 6dc7e4d..f156deb 100644
--- a/src/object_store/cache.rs
+++ b/src/object_store/cache.rs
@@ -687,6 +687,10 @@ impl ObjectStore for CachingObjectStore {
 
         // Finally trim away the expanded range from the chunks that are outside the requested range
         let offset = range.start - start_chunk * self.min_fetch_size as usize;
+        if offset >= data.len() {
+            // The range starts past the end of the object, have the actual store reject it
+            return self.get_range_inner(location, range).await;
+        }
         data.advance(offset);
         data.truncate(range.end - range.start);
         debug!("{location}-{range:?} return");
-- 
2.43.0


From 86c1b12ecbf83d2ffc8f80261caf3f2b830899c8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:31:45 +0000
Subject: [PATCH 57/82] fix: never read incomplete files from the object store
 cache

---
 src/object_store/cache.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/object_store/cache.rs b/src/object_store/cache.rs
index f156deb..ba812fe 100644
--- a/src/object_store/cache.rs
+++ b/src/object_store/cache.rs
@@ -17,6 +17,7 @@ use object_store::{
 use tempfile::TempDir;
 use tokio::time::Instant;
 use tracing::{debug, error, warn};
+use uuid::Uuid;
 
 use std::fmt::Display;
 use std::fmt::{Debug, Formatter};
@@ -57,7 +58,16 @@ impl CacheFileManager {
         }
 
         let start = Instant::now();
-        tokio::fs::write(&path, data.as_ref()).await?;
+        // Write to a temporary file first, so that a file at the final path is always complete
+        let temp_path = path.with_extension(Uuid::new_v4().to_string());
+        let mut result = tokio::fs::write(&temp_path, data.as_ref()).await;
+        if result.is_ok() {
+            result = tokio::fs::rename(&temp_path, &path).await;
+        }
+        if let Err(err) = result {
+            let _ = tokio::fs::remove_file(&temp_path).await;
+            return Err(err);
+        }
 
         debug!("Written data for {:?} to {:?}", cache_key, path);
         self.metrics.log_cache_disk_write(start, data.len());
-- 
2.43.0


From ad5f981ab581e4587930106f049a24476844019a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:44:12 +0000
Subject: [PATCH 58/82] fix: require write access for EXPLAIN ANALYZE of a
 write

---
 src/context/logical.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/context/logical.rs b/src/context/logical.rs
index 547a627..1ef238c 100644
--- a/src/context/logical.rs
+++ b/src/context/logical.rs
@@ -47,12 +47,20 @@ pub fn is_read_only(plan: &LogicalPlan) -> bool {
 
 pub fn is_statement_read_only(statement: &DFStatement) -> bool {
     if let DFStatement::Statement(s) = statement {
-        matches!(
-            **s,
-            Statement::Query(_)
-                | Statement::Explain { .. }
-                | Statement::ShowTables { .. }
-        )
+        match **s {
+            // EXPLAIN ANALYZE executes the statement
+            Statement::Explain {
+                analyze: true,
+                ref statement,
+                ..
+            } => is_statement_read_only(&DFStatement::Statement(statement.clone())),
+            _ => matches!(
+                **s,
+                Statement::Query(_)
+                    | Statement::Explain { .. }
+                    | Statement::ShowTables { .. }
+            ),
+        }
     } else {
         false
     }
-- 
2.43.0


From 62c0529d7aa5ec336f725b9e654305e6e5b840cc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:45:07 +0000
Subject: [PATCH 59/82] fix: require read access for the read that ends a list
 of statements

---
 src/frontend/http.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/frontend/http.rs b/src/frontend/http.rs
index b55e619..f12c5fe 100644
--- a/src/frontend/http.rs
+++ b/src/frontend/http.rs
@@ -182,11 +182,9 @@ pub async fn uncached_read_write_query(
         .count();
 
     // Check for authorization
-    if !user_context.can_perform_action(if reads == statements.len() {
-        Action::Read
-    } else {
-        Action::Write
-    }) {
+    if (reads > 0 && !user_context.can_perform_action(Action::Read))
+        || (reads < statements.len() && !user_context.can_perform_action(Action::Write))
+    {
         return Err(ApiError::WriteForbidden);
     };
 
-- 
2.43.0


From e26109dde9bdf5606d737aca705923b10f668ee9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:45:49 +0000
Subject: [PATCH 60/82] fix: only take one Bearer prefix off the access token

---
 src/frontend/http.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/frontend/http.rs b/src/frontend/http.rs
index f12c5fe..00c35f7 100644
--- a/src/frontend/http.rs
+++ b/src/frontend/http.rs
@@ -236,11 +236,9 @@ fn header_to_user_context(
 ) -> Result<UserContext, ApiError> {
     let token = header
         .map(|h| {
-            if h.starts_with(BEARER_PREFIX) {
-                Ok(h.trim_start_matches(BEARER_PREFIX).to_string())
-            } else {
-                Err(ApiError::InvalidAuthorizationHeader)
-            }
+            h.strip_prefix(BEARER_PREFIX)
+                .map(str::to_string)
+                .ok_or(ApiError::InvalidAuthorizationHeader)
         })
         .transpose()?;
 
-- 
2.43.0


From 38caa04357bea47cbd599afc94d33fd158a94843 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:50:10 +0000
Subject: [PATCH 61/82] fix: require write access for SELECT INTO

---
 src/context/logical.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/context/logical.rs b/src/context/logical.rs
index 1ef238c..9295692 100644
--- a/src/context/logical.rs
+++ b/src/context/logical.rs
@@ -29,7 +29,7 @@ use itertools::Itertools;
 use sqlparser::ast::{
     AlterTableOperation, CreateFunction as CreateFunctionSql, CreateFunctionBody,
     CreateTable as CreateTableSql, Expr as SqlExpr, Expr, Insert, ObjectType, Query,
-    Statement, TableFactor, TableWithJoins, Value, VisitMut,
+    SetExpr, Statement, TableFactor, TableWithJoins, Value, VisitMut,
 };
 use std::sync::Arc;
 use tracing::debug;
@@ -54,11 +54,10 @@ pub fn is_statement_read_only(statement: &DFStatement) -> bool {
                 ref statement,
                 ..
             } => is_statement_read_only(&DFStatement::Statement(statement.clone())),
+            Statement::Query(ref query) => is_query_read_only(&query.body),
             _ => matches!(
                 **s,
-                Statement::Query(_)
-                    | Statement::Explain { .. }
-                    | Statement::ShowTables { .. }
+                Statement::Explain { .. } | Statement::ShowTables { .. }
             ),
         }
     } else {
@@ -66,6 +65,19 @@ pub fn is_statement_read_only(statement: &DFStatement) -> bool {
     }
 }
 
+// SELECT ... INTO creates a table
+fn is_query_read_only(body: &SetExpr) -> bool {
+    match body {
+        SetExpr::Select(select) => select.into.is_none(),
+        SetExpr::Query(query) => is_query_read_only(&query.body),
+        SetExpr::SetOperation { left, right, .. } => {
+            is_query_read_only(left) && is_query_read_only(right)
+        }
+        SetExpr::Insert(_) | SetExpr::Update(_) => false,
+        SetExpr::Values(_) | SetExpr::Table(_) => true,
+    }
+}
+
 impl SeafowlContext {
     pub async fn create_logical_plan(&self, sql: &str) -> Result<LogicalPlan> {
         let mut statements = self.parse_query(sql).await?;
-- 
2.43.0


From f4d823093f5e417ffc1e4c0a2bca944c12abfa7b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:57:58 +0000
Subject: [PATCH 62/82] fix: don't percent-decode the query in the body of a
 cached request

---
 src/frontend/http.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/frontend/http.rs b/src/frontend/http.rs
index 00c35f7..4442a66 100644
--- a/src/frontend/http.rs
+++ b/src/frontend/http.rs
@@ -124,6 +124,12 @@ struct QueryBody {
     query: String,
 }
 
+/// Query of a cached GET request; unlike the JSON body, the header is percent-encoded
+pub enum RawQuery {
+    Body(String),
+    Header(String),
+}
+
 /// Convert rows from a `RecordBatch` to their JSON Lines byte representation, with newlines at the end
 fn batch_to_json(
     maybe_batch: Result<RecordBatch, DataFusionError>,
@@ -293,7 +299,7 @@ pub fn cached_read_query_authz(
 pub async fn cached_read_query(
     database_name: String,
     query_or_hash: String,
-    maybe_raw_query: Option<String>,
+    maybe_raw_query: Option<RawQuery>,
     if_none_match: Option<String>,
     mut context: Arc<SeafowlContext>,
 ) -> Result<Response, ApiError> {
@@ -306,7 +312,10 @@ pub async fn cached_read_query(
         // If we managed to extract the query from the body or the header, the string from the path
         // parameter is supposed to be the query hash; decode the query and validate
         let query_hash = query_or_hash;
-        let decoded_query = percent_decode_str(&raw_query).decode_utf8()?;
+        let decoded_query = match &raw_query {
+            RawQuery::Body(query) => query.into(),
+            RawQuery::Header(query) => percent_decode_str(query).decode_utf8()?,
+        };
 
         let hash_str = str_to_hex_hash(&decoded_query);
 
@@ -570,8 +579,9 @@ pub fn filters(
         .and(
             // Extract the query either from the JSON body or the header
             warp::body::json()
-                .map(|b: QueryBody| Some(b.query))
-                .or(warp::header::optional::<String>(QUERY_HEADER))
+                .map(|b: QueryBody| Some(RawQuery::Body(b.query)))
+                .or(warp::header::optional::<String>(QUERY_HEADER)
+                    .map(|h: Option<String>| h.map(RawQuery::Header)))
                 .unify(),
         )
         .and(warp::header::optional::<String>(
-- 
2.43.0


From e58e9c93b86ada9989f37668cde135fe88f0175d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:59:42 +0000
Subject: [PATCH 63/82] fix: include tables of subqueries in the ETag

---
 src/frontend/http.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frontend/http.rs b/src/frontend/http.rs
index 4442a66..d3fea6e 100644
--- a/src/frontend/http.rs
+++ b/src/frontend/http.rs
@@ -17,7 +17,7 @@ use bytes::Buf;
 use datafusion::datasource::DefaultTableSource;
 
 use datafusion::physical_plan::ExecutionPlan;
-use datafusion_common::tree_node::{TreeNode, TreeNodeRecursion, TreeNodeVisitor};
+use datafusion_common::tree_node::{TreeNodeRecursion, TreeNodeVisitor};
 use datafusion_expr::logical_plan::{LogicalPlan, TableScan};
 use deltalake::parquet::data_type::AsBytes;
 use deltalake::DeltaTable;
@@ -95,7 +95,7 @@ impl TreeNodeVisitor<'_> for ETagBuilderVisitor {
 
 fn plan_to_etag(plan: &LogicalPlan) -> String {
     let mut visitor = ETagBuilderVisitor::default();
-    plan.visit(&mut visitor).unwrap();
+    plan.visit_with_subqueries(&mut visitor).unwrap();
 
     debug!("Extracted table versions: {:?}", visitor.table_versions);
 
-- 
2.43.0


From 618b79a17dc38d0f4ca94e9f4acb7d7e74e89ed5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:00:52 +0000
Subject: [PATCH 64/82] fix: give no ETag to reads of tables without versions

---
 src/frontend/http.rs | 57 +++++++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 27 deletions(-)

diff --git a/src/frontend/http.rs b/src/frontend/http.rs
index d3fea6e..6c3dd32 100644
--- a/src/frontend/http.rs
+++ b/src/frontend/http.rs
@@ -63,6 +63,7 @@ const VARY: &str = "Authorization, Content-Type, Origin, X-Seafowl-Query";
 #[derive(Default)]
 struct ETagBuilderVisitor {
     table_versions: Vec<u8>,
+    unversioned: bool,
 }
 
 impl TreeNodeVisitor<'_> for ETagBuilderVisitor {
@@ -74,34 +75,36 @@ impl TreeNodeVisitor<'_> for ETagBuilderVisitor {
     ) -> Result<TreeNodeRecursion, DataFusionError> {
         if let LogicalPlan::TableScan(TableScan { source, .. }) = plan {
             // TODO handle external Parquet tables too
-            if let Some(default_table_source) =
-                source.as_any().downcast_ref::<DefaultTableSource>()
-            {
-                if let Some(table) = default_table_source
-                    .table_provider
-                    .as_any()
-                    .downcast_ref::<DeltaTable>()
-                {
-                    self.table_versions
-                        .extend(table.table_uri().as_bytes().to_vec());
-                    self.table_versions
-                        .extend(table.version().as_bytes().to_vec());
-                }
+            let table_source = source.as_any().downcast_ref::<DefaultTableSource>();
+            if let Some(table) = table_source.and_then(|source| {
+                source.table_provider.as_any().downcast_ref::<DeltaTable>()
+            }) {
+                self.table_versions
+                    .extend(table.table_uri().as_bytes().to_vec());
+                self.table_versions
+                    .extend(table.version().as_bytes().to_vec());
+            } else {
+                self.unversioned = true;
             }
         }
         Ok(TreeNodeRecursion::Continue)
     }
 }
 
-fn plan_to_etag(plan: &LogicalPlan) -> String {
+// No ETag if the plan reads something other than Delta tables (e.g. system tables), as there's no
+// telling when that changes.
+fn plan_to_etag(plan: &LogicalPlan) -> Option<String> {
     let mut visitor = ETagBuilderVisitor::default();
     plan.visit_with_subqueries(&mut visitor).unwrap();
 
     debug!("Extracted table versions: {:?}", visitor.table_versions);
+    if visitor.unversioned {
+        return None;
+    }
 
     let mut hasher = Sha256::new();
     hasher.update(json!(visitor.table_versions).to_string());
-    encode(hasher.finalize())
+    Some(encode(hasher.finalize()))
 }
 
 // Construct a content-type header value that also includes schema information.
@@ -352,16 +355,14 @@ pub async fn cached_read_query(
 
     // Pre-execution check: if ETags match, we don't need to re-execute the query
     let etag = plan_to_etag(&plan);
-    debug!("ETag: {}, if-none-match header: {:?}", etag, if_none_match);
+    debug!("ETag: {:?}, if-none-match header: {:?}", etag, if_none_match);
 
-    if let Some(if_none_match) = if_none_match {
-        if etag == if_none_match {
-            return Ok(warp::reply::with_status(
-                "NOT_MODIFIED",
-                StatusCode::NOT_MODIFIED,
-            )
-            .into_response());
-        }
+    if etag.is_some() && etag == if_none_match {
+        return Ok(warp::reply::with_status(
+            "NOT_MODIFIED",
+            StatusCode::NOT_MODIFIED,
+        )
+        .into_response());
     }
 
     // Guess we'll have to actually run the query
@@ -373,9 +374,11 @@ pub async fn cached_read_query(
     response
         .headers_mut()
         .insert(QUERY_TIME_HEADER, elapsed.parse().unwrap());
-    response
-        .headers_mut()
-        .insert(header::ETAG, etag.parse().unwrap());
+    if let Some(etag) = etag {
+        response
+            .headers_mut()
+            .insert(header::ETAG, etag.parse().unwrap());
+    }
     response
         .headers_mut()
         .insert(header::CONTENT_TYPE, content_type_with_schema(schema));
-- 
2.43.0


From 5e3d0107bed322a3e5378716bc7e0928b0bebd22 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:05:12 +0000
Subject: [PATCH 65/82] fix: look for the table of an upload in its own schema

---
 src/context/physical.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/context/physical.rs b/src/context/physical.rs
index 30b6c7f..82206e4 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -982,7 +982,12 @@ impl SeafowlContext {
         {
             Some(_) => {
                 // Schema exists, check if existing table's schema matches the new one
-                match self.inner.table_provider(&table_name).await {
+                let table_ref = TableReference::full(
+                    self.default_catalog.as_str(),
+                    schema_name.as_str(),
+                    table_name.as_str(),
+                );
+                match self.inner.table_provider(table_ref).await {
                     Ok(table) => {
                         table_schema = Some(table.schema());
                         true
-- 
2.43.0


From 1a599547d9cc3aae987853dd0b887fb2809473d8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:09:17 +0000
Subject: [PATCH 66/82] fix: drop the table of an upload that fails to fill it

---
 src/context/physical.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/context/physical.rs b/src/context/physical.rs
index 82206e4..b913b6f 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -1058,7 +1058,25 @@ impl SeafowlContext {
             .await?;
         }
 
-        self.plan_to_delta_table(table_ref, &plan).await
+        match self.plan_to_delta_table(table_ref.clone(), &plan).await {
+            Err(err) if !table_exists => {
+                // Don't leave the empty table behind
+                let resolved_ref = self.resolve_table_ref(table_ref.clone());
+                self.delete_delta_table(table_ref)
+                    .await
+                    .unwrap_or_else(|e| info!("Failed to cleanup table {resolved_ref}: {e}"));
+                self.metastore
+                    .tables
+                    .delete(
+                        &resolved_ref.catalog,
+                        &resolved_ref.schema,
+                        &resolved_ref.table,
+                    )
+                    .await?;
+                Err(err)
+            }
+            result => result,
+        }
     }
 }
 
-- 
2.43.0


From 8258c9814022a4085214cb5d9115d04186c7e070 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:41:09 +0000
Subject: [PATCH 67/82] fix: request the URL of an external table as given
 instead of percent-decoding it once more

---
 src/object_store/http.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/object_store/http.rs b/src/object_store/http.rs
index f7c8541..d20b3d9 100644
--- a/src/object_store/http.rs
+++ b/src/object_store/http.rs
@@ -10,7 +10,7 @@ use object_store::{
     GetOptions, GetResult, GetResultPayload, ListResult, MultipartUpload, ObjectMeta,
     ObjectStore, PutMultipartOpts, PutOptions, PutPayload, PutResult,
 };
-use percent_encoding::{percent_decode_str, utf8_percent_encode, NON_ALPHANUMERIC};
+use percent_encoding::{utf8_percent_encode, NON_ALPHANUMERIC};
 use reqwest::header::HeaderMap;
 use reqwest::header::{
     CONTENT_LENGTH, ETAG, IF_MATCH, IF_MODIFIED_SINCE, IF_NONE_MATCH,
@@ -142,11 +142,11 @@ impl HttpObjectStore {
         }
     }
 
-    /// Reverse the URL encoding done by `try_prepare_http_url`
+    /// The original URL. The encoding done by `try_prepare_http_url` has already been reversed by
+    /// DataFusion when it turned the location into an object path; decoding it once more would
+    /// damage the percent-encoded characters of the URL itself.
     fn get_uri(&self, path: &Path) -> String {
-        let path_str = path.to_string();
-        let decoded = percent_decode_str(path_str.as_str()).decode_utf8().unwrap();
-        format!("{}://{}", &self.scheme, decoded)
+        format!("{}://{}", &self.scheme, path)
     }
 
     fn request_builder(&self, path: &Path) -> RequestBuilder {
@@ -542,7 +542,8 @@ pub fn add_http_object_store(context: &SessionContext, ssl_cert_file: &Option<St
 /// 2) DataFusion also strips the query string, which is important in AWS signatures. To stop it from
 ///    doing that, we URI-encode the full location to make it look like it's part of the URL path.
 ///
-/// This means that the location that our object store gets needs to be decoded (see HttpObjectStore::get_uri)
+/// DataFusion decodes the path once, so the location that our object store gets is the original
+/// one (see HttpObjectStore::get_uri)
 ///
 /// Returns a `None` if the location doesn't start with `http://` / `https://`.
 pub fn try_prepare_http_url(location: &str) -> Option<String> {
-- 
2.43.0


From 5d7a46c48a6be9f0937508d51d347a10cf8154af Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:41:09 +0000
Subject: [PATCH 68/82] fix: HTTP object store can be displayed

---
 src/object_store/http.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/object_store/http.rs b/src/object_store/http.rs
index d20b3d9..3eafc47 100644
--- a/src/object_store/http.rs
+++ b/src/object_store/http.rs
@@ -51,8 +51,8 @@ pub struct HttpObjectStore {
 }
 
 impl Display for HttpObjectStore {
-    fn fmt(&self, _f: &mut Formatter<'_>) -> std::fmt::Result {
-        todo!()
+    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        write!(f, "HttpObjectStore({})", self.scheme)
     }
 }
 
-- 
2.43.0


From ebea784d1dda1f73a44b8c87330178aa4f4e673a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:42:26 +0000
Subject: [PATCH 69/82] fix: error out instead of panicking on a Content-Range
 without the total size

---
 src/object_store/http.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/object_store/http.rs b/src/object_store/http.rs
index 3eafc47..39215de 100644
--- a/src/object_store/http.rs
+++ b/src/object_store/http.rs
@@ -225,8 +225,8 @@ impl HttpObjectStore {
             .captures(content_range_str)
             .ok_or(HttpObjectStoreError::NoContentLengthResponse)?
             .get(4)
-            .unwrap()
-            .as_str() // The regex is static, so capture group 4 is guaranteed to exist
+            .ok_or(HttpObjectStoreError::NoContentLengthResponse)? // The total size is optional
+            .as_str()
             .parse::<u64>()
             .map_err(|_| HttpObjectStoreError::NoContentLengthResponse)?;
 
-- 
2.43.0


From 33a5edccdb3678ad65eabed5e70c9b74e3a2a8d1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:45:12 +0000
Subject: [PATCH 70/82] fix: fail reads over HTTP when the server sends another
 range than was asked for

---
 src/object_store/http.rs | 115 ++++++++++++++++++++++++---------------
 1 file changed, 70 insertions(+), 45 deletions(-)

diff --git a/src/object_store/http.rs b/src/object_store/http.rs
index 39215de..09b7114 100644
--- a/src/object_store/http.rs
+++ b/src/object_store/http.rs
@@ -7,8 +7,8 @@ use futures::{stream, StreamExt, TryStreamExt};
 use chrono::{DateTime, TimeZone, Utc};
 use object_store::path::Path;
 use object_store::{
-    GetOptions, GetResult, GetResultPayload, ListResult, MultipartUpload, ObjectMeta,
-    ObjectStore, PutMultipartOpts, PutOptions, PutPayload, PutResult,
+    GetOptions, GetRange, GetResult, GetResultPayload, ListResult, MultipartUpload,
+    ObjectMeta, ObjectStore, PutMultipartOpts, PutOptions, PutPayload, PutResult,
 };
 use percent_encoding::{utf8_percent_encode, NON_ALPHANUMERIC};
 use reqwest::header::HeaderMap;
@@ -294,6 +294,7 @@ impl ObjectStore for HttpObjectStore {
         let response = self
             .send(self.request_builder_with_get_options(location, &options))
             .await?;
+        let status = response.status();
         let headers = response.headers().clone();
         let mut meta = header_meta(location, &headers)?;
 
@@ -305,52 +306,26 @@ impl ObjectStore for HttpObjectStore {
         );
 
         // ensure that we receive the range we asked for
-        let range = if let Some(_expected) = options.range {
-            let val = headers
-                .get(CONTENT_RANGE)
+        let range = if let Some(expected) = options.range {
+            let value = ContentRange::from_headers(&headers)
                 .ok_or(HttpObjectStoreError::ContentRangeError)?;
-
-            // Also copied from object_store, private there
-            struct ContentRange {
-                /// The range of the object returned
-                range: Range<usize>,
-                /// The total size of the object being requested
-                size: usize,
-            }
-
-            impl ContentRange {
-                /// Parse a content range of the form `bytes <range-start>-<range-end>/<size>`
-                ///
-                /// <https://developer.mozilla.org/en-US/docs/Web/HTTP/Headers/Content-Range>
-                fn from_str(s: &str) -> Option<Self> {
-                    let rem = s.trim().strip_prefix("bytes ")?;
-                    let (range, size) = rem.split_once('/')?;
-                    let size = size.parse().ok()?;
-
-                    let (start_s, end_s) = range.split_once('-')?;
-
-                    let start = start_s.parse().ok()?;
-                    let end: usize = end_s.parse().ok()?;
-
-                    Some(Self {
-                        size,
-                        range: start..end + 1,
-                    })
-                }
+            let size = value.size.ok_or(HttpObjectStoreError::ContentRangeError)?;
+            let expected = match expected {
+                GetRange::Bounded(r) => r.start..r.end.min(size),
+                GetRange::Offset(o) => o..size,
+                GetRange::Suffix(n) => size.saturating_sub(n)..size,
+            };
+            if value.range != expected || meta.size != expected.len() {
+                return Err(HttpObjectStoreError::ContentRangeError.into());
             }
 
-            let value = val
-                .to_str()
-                .map_err(|_| HttpObjectStoreError::ContentRangeError)?;
-            let value = ContentRange::from_str(value)
-                .ok_or(HttpObjectStoreError::ContentRangeError)?;
-            let actual = value.range;
-
             // Update size to reflect full size of object (#5272)
-            meta.size = value.size;
-            actual
-        } else {
+            meta.size = size;
+            value.range
+        } else if status == StatusCode::OK {
             0..meta.size
+        } else {
+            return Err(HttpObjectStoreError::ContentRangeError.into());
         };
 
         Ok(GetResult {
@@ -366,6 +341,10 @@ impl ObjectStore for HttpObjectStore {
         location: &Path,
         range: Range<usize>,
     ) -> object_store::Result<Bytes> {
+        if range.is_empty() {
+            return Ok(Bytes::new());
+        }
+
         let response = self
             .send(
                 self.request_builder(location)
@@ -377,10 +356,19 @@ impl ObjectStore for HttpObjectStore {
 
         // If the server returned a 206: it understood our range query
         if response.status() == StatusCode::PARTIAL_CONTENT {
-            Ok(response
+            let value = ContentRange::from_headers(response.headers())
+                .ok_or(HttpObjectStoreError::ContentRangeError)?;
+            let bytes = response
                 .bytes()
                 .await
-                .map_err(HttpObjectStoreError::HttpClientError)?)
+                .map_err(HttpObjectStoreError::HttpClientError)?;
+
+            // ensure that we receive the range we asked for, up to the end of the object
+            let end = value.size.map_or(range.end, |size| range.end.min(size));
+            if value.range != (range.start..end) || bytes.len() != value.range.len() {
+                return Err(HttpObjectStoreError::ContentRangeError.into());
+            }
+            Ok(bytes)
         } else {
             Err(HttpObjectStoreError::RangesUnsupported.into())
         }
@@ -567,6 +555,43 @@ pub fn try_prepare_http_url(location: &str) -> Option<String> {
     )
 }
 
+// Also copied from object_store, private there
+struct ContentRange {
+    /// The range of the object returned
+    range: Range<usize>,
+    /// The total size of the object being requested, if the server knows it
+    size: Option<usize>,
+}
+
+impl ContentRange {
+    /// Parse a content range of the form `bytes <range-start>-<range-end>/<size>`
+    ///
+    /// <https://developer.mozilla.org/en-US/docs/Web/HTTP/Headers/Content-Range>
+    fn from_str(s: &str) -> Option<Self> {
+        let rem = s.trim().strip_prefix("bytes ")?;
+        let (range, size) = rem.split_once('/')?;
+        let size: Option<usize> = match size {
+            "*" => None,
+            size => Some(size.parse().ok()?),
+        };
+
+        let (start_s, end_s) = range.split_once('-')?;
+
+        let start = start_s.parse().ok()?;
+        let end = end_s.parse::<usize>().ok()?.checked_add(1)?;
+        let end = size.map_or(end, |size| end.min(size));
+
+        (start < end).then_some(Self {
+            size,
+            range: start..end,
+        })
+    }
+
+    fn from_headers(headers: &HeaderMap) -> Option<Self> {
+        Self::from_str(headers.get(CONTENT_RANGE)?.to_str().ok()?)
+    }
+}
+
 // Adapted from `object_store/src/client/header.rs` as it's private in the `object_store` crate
 /// Extracts [`ObjectMeta`] from the provided [`HeaderMap`]
 pub fn header_meta(
-- 
2.43.0


From 6927628d7e64c816b8bc904500c42078cf96197f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:46:03 +0000
Subject: [PATCH 71/82] fix: keep the trailing slash of HTTP locations in the
 request

---
 src/object_store/http.rs | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/object_store/http.rs b/src/object_store/http.rs
index 09b7114..567c562 100644
--- a/src/object_store/http.rs
+++ b/src/object_store/http.rs
@@ -535,24 +535,24 @@ pub fn add_http_object_store(context: &SessionContext, ssl_cert_file: &Option<St
 ///
 /// Returns a `None` if the location doesn't start with `http://` / `https://`.
 pub fn try_prepare_http_url(location: &str) -> Option<String> {
-    location.strip_prefix("http://").map_or_else(
-        || {
-            location.strip_prefix("https://").map(|l| {
-                format!(
-                    "https://{}/{}",
-                    ANYHOST,
-                    utf8_percent_encode(l, NON_ALPHANUMERIC)
-                )
-            })
-        },
-        |l| {
-            Some(format!(
-                "http://{}/{}",
-                ANYHOST,
-                utf8_percent_encode(l, NON_ALPHANUMERIC)
-            ))
-        },
-    )
+    let (scheme, rest) = location
+        .strip_prefix("http://")
+        .map(|rest| ("http", rest))
+        .or_else(|| {
+            location
+                .strip_prefix("https://")
+                .map(|rest| ("https", rest))
+        })?;
+
+    // Object paths can't end with a slash, whereas a URL can: protect it with an empty fragment,
+    // which isn't a part of the request.
+    let fragment = if rest.ends_with('/') { "#" } else { "" };
+
+    Some(format!(
+        "{scheme}://{ANYHOST}/{}{}",
+        utf8_percent_encode(rest, NON_ALPHANUMERIC),
+        utf8_percent_encode(fragment, NON_ALPHANUMERIC)
+    ))
 }
 
 // Also copied from object_store, private there
-- 
2.43.0


From f96009b5027772da4ca58170de7845c7109d22e7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:01:34 +0000
Subject: [PATCH 72/82] fix: a very large runtime.max_memory no longer
 overflows at startup

---
 src/config/context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config/context.rs b/src/config/context.rs
index 2d07016..8c9e140 100644
--- a/src/config/context.rs
+++ b/src/config/context.rs
@@ -137,7 +137,7 @@ pub async fn build_context(cfg: schema::SeafowlConfig) -> Result<SeafowlContext>
     let memory_pool: Arc<dyn MemoryPool> =
         if let Some(max_memory) = cfg.runtime.max_memory {
             Arc::new(GreedyMemoryPool::new(
-                ((max_memory * MEBIBYTES) as f64 * MEMORY_FRACTION) as usize,
+                (max_memory.saturating_mul(MEBIBYTES) as f64 * MEMORY_FRACTION) as usize,
             ))
         } else {
             Arc::new(UnboundedMemoryPool::default())
-- 
2.43.0


From b37a25883427122b5527022987de949262243710 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:01:34 +0000
Subject: [PATCH 73/82] fix: refuse configurations with empty partitions or
 empty cache chunks

With misc.max_partition_size = 0 any write spins forever, and with
misc.object_store_cache.min_fetch_size = 0 any read divides by zero.
---
 src/config/schema.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/config/schema.rs b/src/config/schema.rs
index 2fd8154..fca03aa 100644
--- a/src/config/schema.rs
+++ b/src/config/schema.rs
@@ -403,6 +403,21 @@ If Seafowl is running on GCP a token should be fetched using the GCP metadata en
         }
     };
 
+    if config.misc.max_partition_size == 0 {
+        return Err(ConfigError::Message(
+            "misc.max_partition_size must be greater than 0".to_string(),
+        ));
+    }
+
+    if let Some(ObjectCacheProperties {
+        min_fetch_size: 0, ..
+    }) = config.misc.object_store_cache
+    {
+        return Err(ConfigError::Message(
+            "misc.object_store_cache.min_fetch_size must be greater than 0".to_string(),
+        ));
+    }
+
     Ok(config)
 }
 
-- 
2.43.0


From df7e9b64edc68f92ba554d8dee7d95e43570fc6a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:03:10 +0000
Subject: [PATCH 74/82] fix: booleans of the object store and catalog settings
 can be given in environment variables

---
 object_store_factory/src/aws.rs   |  5 +++--
 object_store_factory/src/local.rs | 28 ++++++++++++++++++++++++++--
 src/config/schema.rs              |  5 ++++-
 3 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/object_store_factory/src/aws.rs b/object_store_factory/src/aws.rs
index 5018aa7..abeefb7 100644
--- a/object_store_factory/src/aws.rs
+++ b/object_store_factory/src/aws.rs
@@ -1,3 +1,4 @@
+use crate::local::deserialize_bool;
 use iceberg::io::{
     S3_ACCESS_KEY_ID, S3_ALLOW_ANONYMOUS, S3_DISABLE_CONFIG_LOAD,
     S3_DISABLE_EC2_METADATA, S3_ENDPOINT, S3_REGION, S3_SECRET_ACCESS_KEY,
@@ -24,9 +25,9 @@ pub struct S3Config {
     pub endpoint: Option<String>,
     pub bucket: String,
     pub prefix: Option<String>,
-    #[serde(default = "default_true")]
+    #[serde(default = "default_true", deserialize_with = "deserialize_bool")]
     pub allow_http: bool,
-    #[serde(default = "default_true")]
+    #[serde(default = "default_true", deserialize_with = "deserialize_bool")]
     pub skip_signature: bool,
 }
 
diff --git a/object_store_factory/src/local.rs b/object_store_factory/src/local.rs
index d903f3d..88c44a0 100644
--- a/object_store_factory/src/local.rs
+++ b/object_store_factory/src/local.rs
@@ -1,12 +1,13 @@
 use object_store::{local::LocalFileSystem, ObjectStore};
-use serde::Deserialize;
+use serde::de::{Error, Unexpected};
+use serde::{Deserialize, Deserializer};
 use std::collections::HashMap;
 use std::sync::Arc;
 
 #[derive(Deserialize, Debug, PartialEq, Eq, Clone)]
 pub struct LocalConfig {
     pub data_dir: String,
-    #[serde(default = "default_false")]
+    #[serde(default = "default_false", deserialize_with = "deserialize_bool")]
     pub disable_hardlinks: bool,
 }
 
@@ -14,6 +15,29 @@ fn default_false() -> bool {
     false
 }
 
+/// Deserialize a boolean that might be given as a string, which is what all values that come from
+/// environment variables are (`config` doesn't convert them inside internally tagged enums).
+pub fn deserialize_bool<'de, D: Deserializer<'de>>(d: D) -> Result<bool, D::Error> {
+    #[derive(Deserialize)]
+    #[serde(untagged)]
+    enum BoolOrString {
+        Bool(bool),
+        String(String),
+    }
+
+    match BoolOrString::deserialize(d)? {
+        BoolOrString::Bool(value) => Ok(value),
+        BoolOrString::String(value) => match value.to_lowercase().as_str() {
+            "1" | "true" | "on" | "yes" => Ok(true),
+            "0" | "false" | "off" | "no" => Ok(false),
+            _ => Err(D::Error::invalid_type(
+                Unexpected::Str(&value),
+                &"a boolean",
+            )),
+        },
+    }
+}
+
 impl LocalConfig {
     pub fn from_hashmap(
         map: &HashMap<String, String>,
diff --git a/src/config/schema.rs b/src/config/schema.rs
index fca03aa..d4d3fd3 100644
--- a/src/config/schema.rs
+++ b/src/config/schema.rs
@@ -147,7 +147,10 @@ pub struct Sqlite {
     pub dsn: String,
     #[serde(with = "SqliteJournalModeDef", default = "default_journal_mode")]
     pub journal_mode: SqliteJournalMode,
-    #[serde(default)]
+    #[serde(
+        default,
+        deserialize_with = "object_store_factory::local::deserialize_bool"
+    )]
     pub read_only: bool,
 }
 
-- 
2.43.0


From bdb757c771af543c681fd281392ce3fc759bc07a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:14:17 +0000
Subject: [PATCH 75/82] fix: convert the columns of catalogs that older
 migrations have just rewritten

---
 src/repository/default.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/repository/default.rs b/src/repository/default.rs
index 7446555..fac9388 100644
--- a/src/repository/default.rs
+++ b/src/repository/default.rs
@@ -59,6 +59,11 @@ macro_rules! implement_repository {
 #[async_trait]
 impl Repository for $repo {
     async fn setup(&self) {
+        $repo::MIGRATOR
+            .run(&self.executor)
+            .await
+            .expect("error running migrations");
+
         // TODO remove the entire block a couple of releases past 0.5.7
         {
             // Migrate the old field JSON format to the canonical one
@@ -91,11 +96,6 @@ impl Repository for $repo {
                 }
             }
         }
-
-        $repo::MIGRATOR
-            .run(&self.executor)
-            .await
-            .expect("error running migrations");
     }
 
     async fn list_collections(
-- 
2.43.0


From 51e205f3edbb84dbfa182dcc6d782dabe66534f3 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 05:23:16 +0000
Subject: [PATCH 76/82] fix: a failed sync request doesn't use up the flag of
 the first response

---
 src/frontend/flight/handler.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/frontend/flight/handler.rs b/src/frontend/flight/handler.rs
index 36287b9..3445a52 100644
--- a/src/frontend/flight/handler.rs
+++ b/src/frontend/flight/handler.rs
@@ -133,18 +133,18 @@ impl SeafowlFlightHandler {
         Ok(batch_stream_mutex.into_inner())
     }
 
+    // Whether this is the first sync response; failed requests don't count, since the client gets
+    // no response to learn about the (re)start from
+    fn is_first_response(&self) -> bool {
+        self.first_sync.swap(false, Ordering::SeqCst)
+    }
+
     pub async fn process_sync_cmd(
         &self,
         cmd: DataSyncCommand,
         sync_schema: SyncSchema,
         batches: Vec<RecordBatch>,
     ) -> SyncResult<DataSyncResponse> {
-        let first = self.first_sync.load(Ordering::SeqCst);
-        if first {
-            // We're past first response
-            self.first_sync.store(false, Ordering::SeqCst);
-        }
-
         let num_rows = batches
             .iter()
             .fold(0, |rows, batch| rows + batch.num_rows());
@@ -159,7 +159,7 @@ impl SeafowlFlightHandler {
                 accepted: true,
                 memory_sequence_number: mem_seq,
                 durable_sequence_number: dur_seq,
-                first,
+                first: self.is_first_response(),
             });
         }
 
@@ -221,7 +221,7 @@ impl SeafowlFlightHandler {
                     accepted: true,
                     memory_sequence_number: mem_seq,
                     durable_sequence_number: dur_seq,
-                    first,
+                    first: self.is_first_response(),
                 })
             }
             Err(_) => {
@@ -230,7 +230,7 @@ impl SeafowlFlightHandler {
                     accepted: false,
                     memory_sequence_number: None,
                     durable_sequence_number: None,
-                    first,
+                    first: self.is_first_response(),
                 })
             }
         }
-- 
2.43.0


From a3b53a4a8229fc645b47590da253934698bc2969 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 05:27:05 +0000
Subject: [PATCH 77/82] fix: Flight messages that can't be answered are refused
 instead of panicking

---
 src/frontend/flight/sql.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/frontend/flight/sql.rs b/src/frontend/flight/sql.rs
index 0ad0bd7..628da2c 100644
--- a/src/frontend/flight/sql.rs
+++ b/src/frontend/flight/sql.rs
@@ -117,7 +117,12 @@ impl FlightSqlService for SeafowlFlightHandler {
                 warn!(err);
                 Status::invalid_argument(err)
             })?,
-            _ => unreachable!("The fallback method should only be called with `Command::Unknown` variant"),
+            // Known messages that have no flight info (e.g. action requests) end up here too
+            cmd => {
+                let err = format!("Unexpected command: {}", cmd.type_url());
+                warn!(err);
+                return Err(Status::invalid_argument(err));
+            }
         };
 
         let query_id = Uuid::new_v4().to_string();
@@ -129,7 +134,9 @@ impl FlightSqlService for SeafowlFlightHandler {
         );
 
         let memory_store = MemoryStore {
-            schemas: inline_query.schemas.expect("Schema list provided"),
+            schemas: inline_query
+                .schemas
+                .ok_or_else(|| Status::invalid_argument("Schema list not provided"))?,
         };
 
         let info = self
-- 
2.43.0


From e37043a0ef6408367fac45e8fbf10f7594265cfe Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 05:29:08 +0000
Subject: [PATCH 78/82] fix: Flight SQL server metadata can be fetched with the
 ticket issued for it

---
 src/frontend/flight/sql.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/frontend/flight/sql.rs b/src/frontend/flight/sql.rs
index 628da2c..a65aaa5 100644
--- a/src/frontend/flight/sql.rs
+++ b/src/frontend/flight/sql.rs
@@ -9,7 +9,8 @@ use arrow_flight::error::FlightError;
 use arrow_flight::flight_service_server::FlightService;
 use arrow_flight::sql::server::{FlightSqlService, PeekableFlightDataStream};
 use arrow_flight::sql::{
-    Any, Command, CommandGetSqlInfo, CommandStatementQuery, SqlInfo, TicketStatementQuery,
+    Any, Command, CommandGetSqlInfo, CommandStatementQuery, ProstMessageExt, SqlInfo,
+    TicketStatementQuery,
 };
 use arrow_flight::{
     FlightDescriptor, FlightEndpoint, FlightInfo, HandshakeRequest, HandshakeResponse,
@@ -68,7 +69,7 @@ impl FlightSqlService for SeafowlFlightHandler {
             request.metadata()
         );
         let flight_descriptor = request.into_inner();
-        let ticket = Ticket::new(query.encode_to_vec());
+        let ticket = Ticket::new(query.as_any().encode_to_vec());
         let endpoint = FlightEndpoint::new().with_ticket(ticket);
 
         let flight_info = FlightInfo::new()
@@ -80,6 +81,24 @@ impl FlightSqlService for SeafowlFlightHandler {
         Ok(Response::new(flight_info))
     }
 
+    // Return the metadata itself for the ticket issued above
+    async fn do_get_sql_info(
+        &self,
+        query: CommandGetSqlInfo,
+        _request: Request<Ticket>,
+    ) -> Result<Response<<Self as FlightService>::DoGetStream>, Status> {
+        let builder = query.into_builder(&SEAFOWL_SQL_DATA);
+        let schema = builder.schema();
+        let batch = builder.build().map_err(FlightError::from);
+
+        let stream = FlightDataEncoderBuilder::new()
+            .with_schema(schema)
+            .build(futures::stream::iter([batch]))
+            .map_err(Status::from);
+
+        Ok(Response::new(Box::pin(stream)))
+    }
+
     // As per the spec, we should execute the query here
     // https://arrow.apache.org/docs/format/FlightSql.html#query-execution
     async fn get_flight_info_statement(
-- 
2.43.0


From b466449f487070918b8082098a0ee0e2144f26c4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:58:38 +0000
Subject: [PATCH 79/82] fix: statements a catalog refuses don't drop or
 truncate the table

---
 src/context/physical.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/context/physical.rs b/src/context/physical.rs
index b913b6f..df43ade 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -536,10 +536,7 @@ impl SeafowlContext {
                     return Ok(make_dummy_exec());
                 }
 
-                self.delete_delta_table(name.clone())
-                    .await
-                    .unwrap_or_else(|e| info!("Failed to cleanup table {name}: {e}"));
-
+                // The files go only once the catalog has let go of the table
                 self.metastore
                     .tables
                     .delete(
@@ -548,6 +545,10 @@ impl SeafowlContext {
                         &resolved_ref.table,
                     )
                     .await?;
+
+                self.delete_delta_table(name.clone())
+                    .await
+                    .unwrap_or_else(|e| info!("Failed to cleanup table {name}: {e}"));
                 Ok(make_dummy_exec())
             }
             LogicalPlan::Ddl(DdlStatement::DropCatalogSchema(DropCatalogSchema {
@@ -590,14 +591,14 @@ impl SeafowlContext {
                         schema: Arc::from(schema_name),
                         table: Arc::from(table_name),
                     };
-                    self.delete_delta_table(table_ref.clone()).await.unwrap_or_else(
-                        |e| info!("Failed to cleanup table {table_ref}: {e}"),
-                    );
-
                     self.metastore
                         .tables
                         .delete(&table_ref.catalog, &table_ref.schema, &table_ref.table)
                         .await?;
+
+                    self.delete_delta_table(table_ref.clone()).await.unwrap_or_else(
+                        |e| info!("Failed to cleanup table {table_ref}: {e}"),
+                    );
                 }
 
                 self.metastore
@@ -711,6 +712,8 @@ impl SeafowlContext {
                         SeafowlExtensionNode::Truncate(Truncate {
                             table_name, ..
                         }) => {
+                            // A table that isn't in the catalog can't have a new version
+                            let uuid = self.get_table_uuid(table_name).await?;
                             let mut table = self.try_get_delta_table(table_name).await?;
                             table.load().await?;
                             let snapshot = table.snapshot()?;
@@ -744,7 +747,6 @@ impl SeafowlContext {
                             let version =
                                 self.commit_delta_table(actions, &table, op).await?;
 
-                            let uuid = self.get_table_uuid(table_name).await?;
                             self.metastore
                                 .tables
                                 .create_new_version(uuid, version)
-- 
2.43.0


From 1f03b06fb1afb4726f43a8dbf95326965b17829b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 06:39:42 +0000
Subject: [PATCH 80/82] fix: concurrent queries with an inlined metastore don't
 see each other's tables

---
 src/context/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/context/mod.rs b/src/context/mod.rs
index 03a912c..3bcf4d0 100644
--- a/src/context/mod.rs
+++ b/src/context/mod.rs
@@ -71,9 +71,16 @@ impl SeafowlContext {
     }
 
     pub fn with_metastore(&self, metastore: Arc<Metastore>) -> Arc<SeafowlContext> {
+        // The catalog gets registered in the inner context, so don't share it with statements that
+        // resolve their tables from another metastore
+        let state = build_state_with_table_factories(
+            self.inner().copied_config(),
+            self.inner().runtime_env(),
+        );
+
         Arc::from(SeafowlContext {
             config: self.config.clone(),
-            inner: self.inner.clone(),
+            inner: SessionContext::new_with_state(state),
             metastore,
             internal_object_store: self.internal_object_store.clone(),
             default_catalog: self.default_catalog.clone(),
-- 
2.43.0


From ec62b0505030c90a541ab8222287001d8ba5f2b3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 06:39:42 +0000
Subject: [PATCH 81/82] fix: concurrent requests don't replace each other's
 registered tables

---
 src/frontend/flight/handler.rs |  4 +++-
 src/frontend/http.rs           | 22 +++++++++-------------
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/frontend/flight/handler.rs b/src/frontend/flight/handler.rs
index 3445a52..49dbec3 100644
--- a/src/frontend/flight/handler.rs
+++ b/src/frontend/flight/handler.rs
@@ -80,7 +80,9 @@ impl SeafowlFlightHandler {
                     .to_string(),
             )
         } else {
-            self.context.clone()
+            // Keep concurrent queries from replacing each other's registered tables
+            self.context
+                .scope_to_schema(self.context.default_schema.clone())
         };
 
         if let Some(memory_store) = memory_store {
diff --git a/src/frontend/http.rs b/src/frontend/http.rs
index 6c3dd32..0ba2539 100644
--- a/src/frontend/http.rs
+++ b/src/frontend/http.rs
@@ -172,11 +172,10 @@ pub async fn uncached_read_write_query(
 ) -> Result<Response, ApiError> {
     let timer = Instant::now();
 
-    // If a specific DB name was used as a parameter in the route, scope the context to it,
-    // effectively making it the default DB for the duration of the session.
-    if database_name != context.default_catalog {
-        context = context.scope_to_catalog(database_name);
-    }
+    // Scope the context to the DB name from the route, effectively making it the default DB for the
+    // duration of the session. Even for the default one this keeps concurrent requests from
+    // replacing each other's registered tables.
+    context = context.scope_to_catalog(database_name);
 
     let statements = context.parse_query(&query).await?;
 
@@ -338,11 +337,10 @@ pub async fn cached_read_query(
         percent_decode_str(query_or_hash).decode_utf8()?.to_string()
     };
 
-    // If a specific DB name was used as a parameter in the route, scope the context to it,
-    // effectively making it the default DB for the duration of the session.
-    if database_name != context.default_catalog {
-        context = context.scope_to_catalog(database_name);
-    }
+    // Scope the context to the DB name from the route, effectively making it the default DB for the
+    // duration of the session. Even for the default one this keeps concurrent requests from
+    // replacing each other's registered tables.
+    context = context.scope_to_catalog(database_name);
 
     // Plan the query
     let plan = context.create_logical_plan(&decoded_query).await?;
@@ -398,9 +396,7 @@ pub async fn upload(
         return Err(ApiError::WriteForbidden);
     };
 
-    if database_name != context.default_catalog {
-        context = context.scope_to_catalog(database_name.clone());
-    }
+    context = context.scope_to_catalog(database_name.clone());
 
     let mut has_header = true;
     let mut schema: Option<SchemaRef> = None;
-- 
2.43.0


From b97c5f107de0eda362dedeaa15d30ba1935852ae Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 06:50:44 +0000
Subject: [PATCH 82/82] fix: functions are stored under the name that calls of
 them are looked up by

---
 src/context/logical.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/context/logical.rs b/src/context/logical.rs
index 9295692..59d4cdc 100644
--- a/src/context/logical.rs
+++ b/src/context/logical.rs
@@ -1,6 +1,6 @@
 use crate::context::SeafowlContext;
 use crate::datafusion::parser::{DFParser, Statement as DFStatement, CONVERT_TO_DELTA};
-use crate::datafusion::utils::build_schema;
+use crate::datafusion::utils::{build_schema, normalize_ident};
 use crate::nodes::Truncate;
 use crate::wasm_udf::data_types::CreateFunctionDetails;
 use crate::{
@@ -28,7 +28,7 @@ use deltalake::DeltaTable;
 use itertools::Itertools;
 use sqlparser::ast::{
     AlterTableOperation, CreateFunction as CreateFunctionSql, CreateFunctionBody,
-    CreateTable as CreateTableSql, Expr as SqlExpr, Expr, Insert, ObjectType, Query,
+    CreateTable as CreateTableSql, Expr as SqlExpr, Expr, Insert, ObjectName, ObjectType, Query,
     SetExpr, Statement, TableFactor, TableWithJoins, Value, VisitMut,
 };
 use std::sync::Arc;
@@ -65,6 +65,14 @@ pub fn is_statement_read_only(statement: &DFStatement) -> bool {
     }
 }
 
+// The name under which calls of the function look it up
+fn function_name(name: &ObjectName) -> String {
+    match name.0.as_slice() {
+        [ident] => normalize_ident(ident),
+        _ => name.to_string(),
+    }
+}
+
 // SELECT ... INTO creates a table
 fn is_query_read_only(body: &SetExpr) -> bool {
     match body {
@@ -273,7 +281,7 @@ impl SeafowlContext {
                     Ok(LogicalPlan::Extension(Extension {
                         node: Arc::new(SeafowlExtensionNode::CreateFunction(CreateFunction {
                             or_replace: *or_replace,
-                            name: name.to_string(),
+                            name: function_name(name),
                             details: function_details,
                             output_schema: Arc::new(DFSchema::empty())
                         })),
@@ -315,7 +323,7 @@ impl SeafowlContext {
                     option: _
                 } => {
                     let func_names: Vec<String> =
-                        func_desc.iter().map(|desc| desc.name.to_string()).collect();
+                        func_desc.iter().map(|desc| function_name(&desc.name)).collect();
                     Ok(LogicalPlan::Extension(Extension {
                         node: Arc::new(SeafowlExtensionNode::DropFunction(DropFunction {
                             if_exists: *if_exists,
-- 
2.43.0

