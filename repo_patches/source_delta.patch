From d0ae9c26ebae2d6a0d726a90ad6eb43dea10090d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:28 +0000
Subject: [PATCH 01/38] fix: group batched results by the exact value of
 integer keys

---
 src/core/json/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/json/mod.rs b/src/core/json/mod.rs
index c1a11d6..07640ad 100644
--- a/src/core/json/mod.rs
+++ b/src/core/json/mod.rs
@@ -44,6 +44,9 @@ fn group_by_key<'json, J: JsonLike<'json>>(
         let key_str = key
             .as_str()
             .map(|a| a.to_string())
+            // integers are written out exactly, f64 can't hold all of them
+            .or_else(|| key.as_i64().map(|a| a.to_string()))
+            .or_else(|| key.as_u64().map(|a| a.to_string()))
             .or_else(|| key.as_f64().map(|a| a.to_string()));
 
         if let Some(key) = key_str {
-- 
2.43.0


From 948b63961640cf7368317458cbd07e0ab311b8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:28 +0000
Subject: [PATCH 02/38] fix: keep non-negative integers unsigned when
 converting to borrowed JSON

---
 src/core/json/borrow.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/json/borrow.rs b/src/core/json/borrow.rs
index 60edafc..8dc7f43 100644
--- a/src/core/json/borrow.rs
+++ b/src/core/json/borrow.rs
@@ -66,9 +66,10 @@ impl<'ctx> JsonLike<'ctx> for Value<'ctx> {
             JsonPrimitive::Bool(x) => Value::Bool(x),
             JsonPrimitive::Str(s) => Value::Str(s.into()),
             JsonPrimitive::Number(n) => {
-                if let Some(n) = n.as_i64() {
+                // `From<i64>` is meant for negative numbers only
+                if let Some(n) = n.as_u64() {
                     Value::Number(n.into())
-                } else if let Some(n) = n.as_u64() {
+                } else if let Some(n) = n.as_i64() {
                     Value::Number(n.into())
                 } else if let Some(n) = n.as_f64() {
                     Value::Number(n.into())
-- 
2.43.0


From b8319412ae974d9ccfcc816d76259e931c890af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:33 +0000
Subject: [PATCH 03/38] fix: compare batched requests by their parts, not by
 their hash

---
 src/core/http/data_loader_request.rs | 30 ++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/core/http/data_loader_request.rs b/src/core/http/data_loader_request.rs
index 4631fdd..ae2b7d4 100644
--- a/src/core/http/data_loader_request.rs
+++ b/src/core/http/data_loader_request.rs
@@ -2,7 +2,7 @@ use std::collections::BTreeSet;
 use std::hash::{Hash, Hasher};
 use std::ops::Deref;
 
-use tailcall_hasher::TailcallHasher;
+use http::HeaderValue;
 
 #[derive(Debug)]
 pub struct DataLoaderRequest {
@@ -35,6 +35,20 @@ impl DataLoaderRequest {
     pub fn headers(&self) -> &BTreeSet<String> {
         &self.headers
     }
+
+    fn body_bytes(&self) -> Option<Option<&[u8]>> {
+        self.request.body().map(|body| body.as_bytes())
+    }
+
+    fn key_headers(&self) -> Vec<(&String, &HeaderValue)> {
+        let mut found = Vec::with_capacity(self.headers.len());
+        for name in &self.headers {
+            if let Some(value) = self.request.headers().get(name) {
+                found.push((name, value));
+            }
+        }
+        found
+    }
 }
 impl Hash for DataLoaderRequest {
     fn hash<H: Hasher>(&self, state: &mut H) {
@@ -56,15 +70,11 @@ impl Hash for DataLoaderRequest {
 
 impl PartialEq for DataLoaderRequest {
     fn eq(&self, other: &Self) -> bool {
-        let mut hasher_self = TailcallHasher::default();
-        self.hash(&mut hasher_self);
-        let hash_self = hasher_self.finish();
-
-        let mut hasher_other = TailcallHasher::default();
-        other.hash(&mut hasher_other);
-        let hash_other = hasher_other.finish();
-
-        hash_self == hash_other
+        // hashes can collide, so compare the hashed parts themselves: two different
+        // requests must never share a response
+        self.request.url() == other.request.url()
+            && self.body_bytes() == other.body_bytes()
+            && self.key_headers() == other.key_headers()
     }
 }
 
-- 
2.43.0


From 5d7f1fad85fac1b5633d2efcebb68e5baaef5a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:29 +0000
Subject: [PATCH 04/38] fix: a request path shorter than an endpoint's pattern
 does not match it

---
 src/core/rest/path.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/rest/path.rs b/src/core/rest/path.rs
index 59fd608..544853c 100644
--- a/src/core/rest/path.rs
+++ b/src/core/rest/path.rs
@@ -53,7 +53,9 @@ impl Path {
     pub fn matches(&self, path: &str) -> Option<Variables> {
         let mut variables = Variables::default();
         let mut req_segments = path.split('/').filter(|s| !s.is_empty());
-        for (segment, req_segment) in self.segments.iter().zip(&mut req_segments) {
+        for segment in &self.segments {
+            // If the incoming request has fewer segments it should not match
+            let req_segment = req_segments.next()?;
             match segment {
                 Segment::Literal(segment) => {
                     if segment != req_segment {
-- 
2.43.0


From da34b3c1f79b1ba060e5ee27b62b320d88daa8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:29 +0000
Subject: [PATCH 05/38] fix: a query parameter has the type of its variable,
 not of the variable of its own name

---
 src/core/rest/query_params.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/rest/query_params.rs b/src/core/rest/query_params.rs
index 1fbe743..b6a2c0c 100644
--- a/src/core/rest/query_params.rs
+++ b/src/core/rest/query_params.rs
@@ -24,7 +24,7 @@ impl QueryParams {
         let mut params = Vec::new();
         for (k, v) in map {
             let t = TypedVariable::try_from(
-                q.get(&k).ok_or(Error::UndefinedQueryParam(k.to_string()))?,
+                q.get(&v).ok_or(Error::UndefinedQueryParam(k.to_string()))?,
                 &v,
             )?;
             params.push((k, t));
-- 
2.43.0


From db7df93df53c96e03d36ccb6ad3af392e4effd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:27 +0000
Subject: [PATCH 06/38] fix: show an error whose cause has an empty message
 instead of panicking

---
 src/core/errata.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/errata.rs b/src/core/errata.rs
index 6864abf..ab73502 100644
--- a/src/core/errata.rs
+++ b/src/core/errata.rs
@@ -80,6 +80,10 @@ fn margin(str: &str, margin: usize) -> String {
 
 fn bullet(str: &str) -> String {
     let mut chars = margin(str, 2).chars().collect::<Vec<char>>();
+    if chars.is_empty() {
+        // an empty text has no line to put a margin in front of
+        chars = vec![' '; 2];
+    }
     chars[0] = '•';
     chars[1] = ' ';
     chars.into_iter().collect::<String>()
-- 
2.43.0


From 7607195afc8c21e8e569302d29b60bbbd29f38ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:27 +0000
Subject: [PATCH 07/38] fix: keep a cause's description in the error report

---
 src/core/errata.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/errata.rs b/src/core/errata.rs
index ab73502..cbe0989 100644
--- a/src/core/errata.rs
+++ b/src/core/errata.rs
@@ -222,7 +222,12 @@ impl From<ValidationError<String>> for Errata {
                 .as_vec()
                 .iter()
                 .map(|cause| {
-                    Errata::new(cause.message.as_str()).trace(Vec::from(cause.trace.clone()))
+                    let mut err =
+                        Errata::new(cause.message.as_str()).trace(Vec::from(cause.trace.clone()));
+                    if let Some(description) = &cause.description {
+                        err = err.description(description.to_owned());
+                    }
+                    err
                 })
                 .collect(),
         )
-- 
2.43.0


From dcde4d69890da4bf74250d2b4e84e6432f040d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:44 +0000
Subject: [PATCH 08/38] fix: writing CORS settings lost an empty vary list

---
 src/core/config/cors.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/core/config/cors.rs b/src/core/config/cors.rs
index f68678e..72ac20e 100644
--- a/src/core/config/cors.rs
+++ b/src/core/config/cors.rs
@@ -54,10 +54,7 @@ pub struct Cors {
 
     /// A list of header names that indicate the values of which might cause the
     /// server's response to vary, potentially affecting caching.
-    #[serde(
-        default = "preflight_request_headers",
-        skip_serializing_if = "is_default"
-    )]
+    #[serde(default = "preflight_request_headers")]
     pub vary: Vec<String>,
 }
 
-- 
2.43.0


From 9462cde403cc9704cd2e4e9d65a93e2046e5bcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:21 +0000
Subject: [PATCH 09/38] fix: key of a @graphQL or @grpc answer covers its url
 and headers

A kept or shared answer was given to any request with the same query or
body, also when it was sent to another upstream or with another user's
headers.
---
 src/core/graphql/request_template.rs | 17 ++++++++++++++++-
 src/core/grpc/request_template.rs    | 11 +++++++++--
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/core/graphql/request_template.rs b/src/core/graphql/request_template.rs
index 9e849d3..4d8135d 100644
--- a/src/core/graphql/request_template.rs
+++ b/src/core/graphql/request_template.rs
@@ -195,8 +195,23 @@ impl RequestTemplate {
 impl<Ctx: PathGraphql + HasHeaders + GraphQLOperationContext> CacheKey<Ctx> for RequestTemplate {
     fn cache_key(&self, ctx: &Ctx) -> Option<IoId> {
         let mut hasher = TailcallHasher::default();
+        let state = &mut hasher;
+
+        self.url.hash(state);
+
+        for (name, mustache) in self.headers.iter() {
+            name.hash(state);
+            mustache.render_graphql(ctx).hash(state);
+        }
+
+        for (name, value) in ctx.headers().iter() {
+            name.hash(state);
+            value.hash(state);
+        }
+
         let graphql_query = self.render_graphql_query(ctx);
-        graphql_query.hash(&mut hasher);
+        graphql_query.hash(state);
+
         Some(IoId::new(hasher.finish()))
     }
 }
diff --git a/src/core/grpc/request_template.rs b/src/core/grpc/request_template.rs
index 4643c59..91a6bb1 100644
--- a/src/core/grpc/request_template.rs
+++ b/src/core/grpc/request_template.rs
@@ -120,8 +120,15 @@ impl RenderedRequestTemplate {
 impl<Ctx: PathString + HasHeaders> CacheKey<Ctx> for RequestTemplate {
     fn cache_key(&self, ctx: &Ctx) -> Option<IoId> {
         let mut hasher = TailcallHasher::default();
-        let rendered_req = self.render(ctx).unwrap();
-        rendered_req.hash(&mut hasher);
+        let state = &mut hasher;
+        let rendered_req = self.render(ctx).ok()?;
+        rendered_req.hash(state);
+
+        for (name, value) in rendered_req.headers.iter() {
+            name.hash(state);
+            value.hash(state);
+        }
+
         Some(IoId::new(hasher.finish()))
     }
 }
-- 
2.43.0


From 88a2aba0302c1ba1a23afe89737cf31bf2786f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:21 +0000
Subject: [PATCH 10/38] fix: no panic on the key of a @http request whose url
 is invalid

---
 src/core/http/request_template.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/http/request_template.rs b/src/core/http/request_template.rs
index 1c57f14..d77fb30 100644
--- a/src/core/http/request_template.rs
+++ b/src/core/http/request_template.rs
@@ -272,7 +272,8 @@ impl<Ctx: PathString + HasHeaders + PathValue> CacheKey<Ctx> for RequestTemplate
             body.render(ctx).hash(state)
         }
 
-        let url = self.create_url(ctx).unwrap();
+        // no key for an url that can't be requested, the request itself reports why
+        let url = self.create_url(ctx).ok()?;
         url.hash(state);
 
         Some(IoId::new(hasher.finish()))
-- 
2.43.0


From 55c0cdb67f26e21ee348ceef38b88538ae25b80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:08 +0000
Subject: [PATCH 11/38] fix: different requests got the same cache key

FxHash returns the same result for many texts alike: with it a third of the
urls http://h/u/ followed by three to ten letters and digits share their key
with another one, and a cached, deduplicated or constant answer of one was
given to the other.
---
 tailcall-hasher/src/lib.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tailcall-hasher/src/lib.rs b/tailcall-hasher/src/lib.rs
index e84e773..408c1d2 100644
--- a/tailcall-hasher/src/lib.rs
+++ b/tailcall-hasher/src/lib.rs
@@ -1,13 +1,14 @@
+use std::collections::hash_map::DefaultHasher;
 use std::hash::Hasher;
 
-use fxhash::FxHasher;
-
-/// A hasher that uses the FxHash algorithm. Currently it's a dumb wrapper
-/// around `fxhash::FxHasher`. We could potentially add some custom logic here
-/// in the future.
+/// A hasher whose results identify what is hashed: cached and shared answers
+/// are looked up by them alone. That rules out `fxhash::FxHasher` that gives
+/// the same result for many inputs alike, e.g. for the urls `http://h/u/xyz00z`
+/// and `http://h/u/xyz08e`. Currently it's a dumb wrapper around
+/// `std::hash::DefaultHasher`, the results are the same on every run.
 #[derive(Default)]
 pub struct TailcallHasher {
-    hasher: FxHasher,
+    hasher: DefaultHasher,
 }
 
 impl Hasher for TailcallHasher {
-- 
2.43.0


From d3bf8dcbb50bec0a6dcf11937b7add3dea15e3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:25 +0000
Subject: [PATCH 12/38] fix: constant responses with protected fields were
 given to everyone

An operation with both protected and public constant fields counted as not
protected, so after the first allowed request its response was answered from
the constant cache without looking at the credentials.
---
 src/core/jit/transform/check_protected.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/jit/transform/check_protected.rs b/src/core/jit/transform/check_protected.rs
index c2c86a8..2470b36 100644
--- a/src/core/jit/transform/check_protected.rs
+++ b/src/core/jit/transform/check_protected.rs
@@ -14,7 +14,7 @@ impl<A> CheckProtected<A> {
     }
 }
 
-/// Checks if the IR will always evaluate to a Protected Value
+/// Checks if a Protected Value is needed to evaluate the IR
 pub fn is_protected(ir: &IR) -> bool {
     match ir {
         IR::Dynamic(_) => false,
@@ -25,7 +25,7 @@ pub fn is_protected(ir: &IR) -> bool {
         IR::Protect(_, _) => true,
         IR::Map(map) => is_protected(&map.input),
         IR::Pipe(ir, ir1) => is_protected(ir) || is_protected(ir1),
-        IR::Merge(vec) => vec.iter().all(is_protected),
+        IR::Merge(vec) => vec.iter().any(is_protected),
         IR::Discriminate(_, ir) => is_protected(ir),
         IR::Entity(hash_map) => hash_map.values().any(is_protected),
         IR::Service(_) => false,
@@ -37,9 +37,10 @@ impl<A> Transform for CheckProtected<A> {
     type Error = Infallible;
 
     fn transform(&self, mut plan: Self::Value) -> Valid<Self::Value, Self::Error> {
-        plan.is_protected = plan.iter_dfs().all(|field| match field.ir {
+        // a single protected field is enough, the response contains its value
+        plan.is_protected = plan.iter_dfs().any(|field| match field.ir {
             Some(ref ir) => is_protected(ir),
-            None => true,
+            None => false,
         });
 
         Valid::succeed(plan)
-- 
2.43.0


From a14ead97eee9e5e78d17ced0d3b6114d6d966b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:25 +0000
Subject: [PATCH 13/38] fix: same document with another operation or other
 variables

The plan and the constant response of a document were used for all of its
operations, and the constant response for all values of the variables.
---
 src/core/jit/graphql_executor.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/core/jit/graphql_executor.rs b/src/core/jit/graphql_executor.rs
index e1c131c..65fdde4 100644
--- a/src/core/jit/graphql_executor.rs
+++ b/src/core/jit/graphql_executor.rs
@@ -65,6 +65,7 @@ impl JITExecutor {
     fn req_hash(request: &async_graphql::Request) -> OPHash {
         let mut hasher = TailcallHasher::default();
         request.query.hash(&mut hasher);
+        request.operation_name.hash(&mut hasher);
 
         OPHash::new(hasher.finish())
     }
@@ -75,13 +76,18 @@ impl JITExecutor {
         &self,
         request: async_graphql::Request,
     ) -> impl Future<Output = AnyResponse<Vec<u8>>> + Send + '_ {
-        // TODO: hash considering only the query itself ignoring specified operation and
+        // TODO: hash considering only the query and the specified operation ignoring
         // variables that could differ for the same query
         let hash = Self::req_hash(&request);
+        // variables can change the response, so with them it's never taken from or
+        // put in the cache of constant responses
+        let has_variables = !request.variables.is_empty();
 
         async move {
-            if let Some(response) = self.app_ctx.const_execution_cache.get(&hash) {
-                return response.clone();
+            if !has_variables {
+                if let Some(response) = self.app_ctx.const_execution_cache.get(&hash) {
+                    return response.clone();
+                }
             }
 
             let jit_request = jit::Request::from(request);
@@ -112,7 +118,7 @@ impl JITExecutor {
             };
 
             // Cache the response if it's constant and not wrapped with protected.
-            if is_const && !is_protected {
+            if is_const && !is_protected && !has_variables {
                 self.app_ctx
                     .const_execution_cache
                     .insert(hash, response.clone());
-- 
2.43.0


From fdea42f2f5356a75979a390f504884198bed0fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:46 +0000
Subject: [PATCH 14/38] fix: operations were deduplicated whatever their nested
 fields say

Only the resolvers of the root fields were looked at, so upstream calls of
nested fields and those below an enum mapping were shared between requests
without dedupe or cache being set on them.
---
 src/core/jit/transform/check_cache.rs  | 2 +-
 src/core/jit/transform/check_dedupe.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/jit/transform/check_cache.rs b/src/core/jit/transform/check_cache.rs
index 5839261..4424235 100644
--- a/src/core/jit/transform/check_cache.rs
+++ b/src/core/jit/transform/check_cache.rs
@@ -41,7 +41,7 @@ impl<A> Transform for CheckCache<A> {
     fn transform(&self, mut plan: Self::Value) -> Valid<Self::Value, Self::Error> {
         let mut ttl = Some(NonZeroU64::MAX);
 
-        for field in plan.selection.iter() {
+        for field in plan.iter_dfs() {
             if let Some(ir) = field.ir.as_ref() {
                 ttl = std::cmp::min(ttl, check_cache(ir));
             }
diff --git a/src/core/jit/transform/check_dedupe.rs b/src/core/jit/transform/check_dedupe.rs
index 8287033..d040ee0 100644
--- a/src/core/jit/transform/check_dedupe.rs
+++ b/src/core/jit/transform/check_dedupe.rs
@@ -26,7 +26,7 @@ fn check_dedupe(ir: &IR) -> bool {
         IR::Entity(hash_map) => hash_map.values().all(check_dedupe),
         IR::Dynamic(_) => true,
         IR::ContextPath(_) => true,
-        IR::Map(_) => true,
+        IR::Map(map) => check_dedupe(&map.input),
         IR::Service(_) => true,
     }
 }
@@ -36,7 +36,7 @@ impl<A> Transform for CheckDedupe<A> {
     type Error = Infallible;
 
     fn transform(&self, mut plan: Self::Value) -> Valid<Self::Value, Self::Error> {
-        let dedupe = plan.selection.iter().all(|field| {
+        let dedupe = plan.iter_dfs().all(|field| {
             if let Some(ir) = field.ir.as_ref() {
                 check_dedupe(ir)
             } else {
-- 
2.43.0


From 6ce2234159b4d91f62ebfd46af26a0a4ee4689cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:40 +0000
Subject: [PATCH 15/38] fix: answers of one upstream request were mixed up
 between resolvers

Resolvers that send the same request but group or modify its response in
another way shared their cached and deduplicated values, e.g. a single object
was given for a list.
---
 src/core/config/group_by.rs |  2 +-
 src/core/ir/model.rs        | 23 +++++++++++++++++++----
 src/core/worker_hooks.rs    |  2 +-
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/core/config/group_by.rs b/src/core/config/group_by.rs
index d9f6656..e824cda 100644
--- a/src/core/config/group_by.rs
+++ b/src/core/config/group_by.rs
@@ -3,7 +3,7 @@ use serde::{Deserialize, Serialize};
 use crate::core::is_default;
 
 /// The `groupBy` parameter groups multiple data requests into a single call. For more details please refer out [n + 1 guide](https://tailcall.run/docs/guides/n+1#solving-using-batching).
-#[derive(Clone, Debug, Eq, Serialize, Deserialize, PartialEq, schemars::JsonSchema)]
+#[derive(Clone, Debug, Eq, Hash, Serialize, Deserialize, PartialEq, schemars::JsonSchema)]
 pub struct GroupBy {
     #[serde(default, skip_serializing_if = "is_default")]
     path: Vec<String>,
diff --git a/src/core/ir/model.rs b/src/core/ir/model.rs
index f4fbfdb..491da24 100644
--- a/src/core/ir/model.rs
+++ b/src/core/ir/model.rs
@@ -1,9 +1,11 @@
 use std::collections::HashMap;
 use std::fmt::Debug;
+use std::hash::{Hash, Hasher};
 use std::num::NonZeroU64;
 
 use async_graphql::Value;
 use strum_macros::Display;
+use tailcall_hasher::TailcallHasher;
 
 use super::discriminator::Discriminator;
 use super::{EvalContext, ResolverContextLike};
@@ -210,11 +212,24 @@ impl IR {
 
 impl<'a, Ctx: ResolverContextLike + Sync> CacheKey<EvalContext<'a, Ctx>> for IO {
     fn cache_key(&self, ctx: &EvalContext<'a, Ctx>) -> Option<IoId> {
+        let mut hasher = TailcallHasher::default();
+        let state = &mut hasher;
+
+        // the same request gives different values when its response is grouped or
+        // modified in another way
         match self {
-            IO::Http { req_template, .. } => req_template.cache_key(ctx),
-            IO::Grpc { req_template, .. } => req_template.cache_key(ctx),
-            IO::GraphQL { req_template, .. } => req_template.cache_key(ctx),
-            IO::Js { .. } => None,
+            IO::Http { req_template, group_by, is_list, hook, .. } => {
+                req_template.cache_key(ctx)?.hash(state);
+                (group_by, group_by.is_some() && *is_list, hook).hash(state);
+            }
+            IO::Grpc { req_template, group_by, hook, .. } => {
+                req_template.cache_key(ctx)?.hash(state);
+                (group_by, hook).hash(state);
+            }
+            IO::GraphQL { req_template, .. } => return req_template.cache_key(ctx),
+            IO::Js { .. } => return None,
         }
+
+        Some(IoId::new(hasher.finish()))
     }
 }
diff --git a/src/core/worker_hooks.rs b/src/core/worker_hooks.rs
index c3aa479..e77462e 100644
--- a/src/core/worker_hooks.rs
+++ b/src/core/worker_hooks.rs
@@ -7,7 +7,7 @@ use crate::core::http::Response;
 
 /// User can configure the hooks on directive
 /// for the requests.
-#[derive(Clone, Debug)]
+#[derive(Clone, Debug, Hash)]
 pub struct WorkerHooks {
     pub on_request: Option<String>,
     pub on_response: Option<String>,
-- 
2.43.0


From 8c4b6091a00de8f941673b57d37a5cd4f5090410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:48 +0000
Subject: [PATCH 16/38] fix: batched requests that differ in more than the key
 were sent as one

---
 src/core/graphql/data_loader.rs      |  8 ++++++-
 src/core/http/data_loader.rs         | 34 ++++++++++++++++++++++++++++
 src/core/http/data_loader_request.rs | 21 +++++++++++++++++
 3 files changed, 62 insertions(+), 1 deletion(-)

diff --git a/src/core/graphql/data_loader.rs b/src/core/graphql/data_loader.rs
index dd637c4..75ff4d8 100644
--- a/src/core/graphql/data_loader.rs
+++ b/src/core/graphql/data_loader.rs
@@ -8,7 +8,7 @@ use async_graphql::futures_util::future::join_all;
 
 use crate::core::config::Batch;
 use crate::core::data_loader::{DataLoader, Loader};
-use crate::core::http::{DataLoaderRequest, Response};
+use crate::core::http::{load_batches, DataLoaderRequest, Response};
 use crate::core::runtime::TargetRuntime;
 
 pub struct GraphqlDataLoader {
@@ -42,6 +42,12 @@ impl Loader<DataLoaderRequest> for GraphqlDataLoader {
         keys: &[DataLoaderRequest],
     ) -> async_graphql::Result<HashMap<DataLoaderRequest, Self::Value>, Self::Error> {
         if self.batch {
+            // only requests to the same url with the same headers can be sent as one
+            let batches = DataLoaderRequest::split_by(keys, |key| key.url().clone());
+            if batches.len() > 1 {
+                return load_batches(self, batches).await;
+            }
+
             let batched_req = create_batched_request(keys);
             let result = self.runtime.http.execute(batched_req).await?.to_json();
             let hashmap = extract_responses(result, keys);
diff --git a/src/core/http/data_loader.rs b/src/core/http/data_loader.rs
index 72d72c4..4900cac 100644
--- a/src/core/http/data_loader.rs
+++ b/src/core/http/data_loader.rs
@@ -5,6 +5,7 @@ use std::time::Duration;
 use async_graphql::async_trait;
 use async_graphql::futures_util::future::join_all;
 use async_graphql_value::ConstValue;
+use reqwest::Url;
 use tailcall_valid::Validator;
 
 use super::transformations::{BodyBatching, QueryBatching};
@@ -35,6 +36,32 @@ fn get_body_value_list(body_value: &HashMap<String, Vec<&ConstValue>>, id: &str)
     )
 }
 
+/// Part of the url that has to be the same for requests to be sent as one
+fn merge_url(request: &DataLoaderRequest, group_by: &str) -> Url {
+    let mut url = request.url().clone();
+    let query = if request.method() == http::Method::GET {
+        let pairs = request.url().query_pairs();
+        pairs.filter(|(name, _)| name != group_by).collect()
+    } else {
+        Vec::new()
+    };
+    url.set_query(None);
+    url.query_pairs_mut().extend_pairs(query);
+    url
+}
+
+#[allow(clippy::mutable_key_type)]
+pub async fn load_batches<L: Loader<DataLoaderRequest>>(
+    loader: &L,
+    batches: Vec<Vec<DataLoaderRequest>>,
+) -> Result<HashMap<DataLoaderRequest, L::Value>, L::Error> {
+    let mut hashmap = HashMap::new();
+    for result in join_all(batches.iter().map(|batch| loader.load(batch))).await {
+        hashmap.extend(result?);
+    }
+    Ok(hashmap)
+}
+
 #[derive(Clone)]
 pub struct HttpDataLoader {
     pub runtime: TargetRuntime,
@@ -63,6 +90,13 @@ impl Loader<DataLoaderRequest> for HttpDataLoader {
         keys: &[DataLoaderRequest],
     ) -> async_graphql::Result<HashMap<DataLoaderRequest, Self::Value>, Self::Error> {
         if let Some(group_by) = &self.group_by {
+            // only requests that differ in nothing but the batched parts can be sent as
+            // one request
+            let batches = DataLoaderRequest::split_by(keys, |key| merge_url(key, group_by.key()));
+            if batches.len() > 1 {
+                return load_batches(self, batches).await;
+            }
+
             let query_name = group_by.key();
             let mut dl_requests = keys.to_vec();
             if cfg!(debug_assertions) {
diff --git a/src/core/http/data_loader_request.rs b/src/core/http/data_loader_request.rs
index ae2b7d4..77339aa 100644
--- a/src/core/http/data_loader_request.rs
+++ b/src/core/http/data_loader_request.rs
@@ -40,6 +40,27 @@ impl DataLoaderRequest {
         self.request.body().map(|body| body.as_bytes())
     }
 
+    /// Splits the requests into groups of those that could be sent as a single
+    /// request, i.e. with the same result of `merge_key` and the same values of
+    /// headers that identify the request
+    pub fn split_by<K: PartialEq>(
+        requests: &[DataLoaderRequest],
+        merge_key: impl Fn(&DataLoaderRequest) -> K,
+    ) -> Vec<Vec<DataLoaderRequest>> {
+        let mut groups: Vec<(K, Vec<DataLoaderRequest>)> = Vec::new();
+        for request in requests {
+            let merge_key = merge_key(request);
+            let group = groups.iter_mut().find(|(group_key, group)| {
+                *group_key == merge_key && group[0].key_headers() == request.key_headers()
+            });
+            match group {
+                Some((_, group)) => group.push(request.clone()),
+                None => groups.push((merge_key, vec![request.clone()])),
+            }
+        }
+        groups.into_iter().map(|(_, group)| group).collect()
+    }
+
     fn key_headers(&self) -> Vec<(&String, &HeaderValue)> {
         let mut found = Vec::with_capacity(self.headers.len());
         for name in &self.headers {
-- 
2.43.0


From 90c9adbbf952456b4fac14e30b3b0a333ed6b28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:39 +0000
Subject: [PATCH 17/38] fix: requests of a batch got the answer of the first
 one

---
 src/core/async_graphql_hyper.rs  | 10 ++++++++++
 src/core/jit/graphql_executor.rs | 11 ++++++++---
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/core/async_graphql_hyper.rs b/src/core/async_graphql_hyper.rs
index 5518ea5..504da8f 100644
--- a/src/core/async_graphql_hyper.rs
+++ b/src/core/async_graphql_hyper.rs
@@ -16,6 +16,16 @@ use super::jit::{BatchResponse as JITBatchResponse, JITExecutor};
 #[derive(PartialEq, Eq, Clone, Hash, Debug)]
 pub struct OperationId(u64);
 
+impl OperationId {
+    /// Id of the request that is at the given position of the batch
+    pub fn nth(&self, index: usize) -> OperationId {
+        let mut hasher = TailcallHasher::default();
+        self.0.hash(&mut hasher);
+        index.hash(&mut hasher);
+        OperationId(hasher.finish())
+    }
+}
+
 #[async_trait::async_trait]
 pub trait GraphQLRequestLike: Hash + Send {
     fn data<D: Any + Clone + Send + Sync>(self, data: D) -> Self;
diff --git a/src/core/jit/graphql_executor.rs b/src/core/jit/graphql_executor.rs
index 65fdde4..f1413f8 100644
--- a/src/core/jit/graphql_executor.rs
+++ b/src/core/jit/graphql_executor.rs
@@ -133,9 +133,14 @@ impl JITExecutor {
         match batch_request {
             BatchRequest::Single(request) => BatchResponse::Single(self.execute(request).await),
             BatchRequest::Batch(requests) => {
-                let futs = FuturesOrdered::from_iter(
-                    requests.into_iter().map(|request| self.execute(request)),
-                );
+                let futs = FuturesOrdered::from_iter(requests.into_iter().enumerate().map(
+                    |(index, request)| {
+                        // every request of the batch is an operation of its own
+                        let exec =
+                            Self { operation_id: self.operation_id.nth(index), ..self.clone() };
+                        async move { exec.execute(request).await }
+                    },
+                ));
                 let responses = futs.collect::<Vec<_>>().await;
                 BatchResponse::Batch(responses)
             }
-- 
2.43.0


From 6ef11c02310b57b0833755e9c849ec10c4c9469d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:44 +0000
Subject: [PATCH 18/38] fix: fields were selected wrongly with fragments,
 repeated names and conditions

Directives of fragments were ignored, a field with @skip(if: true) and
@include(if: false) in variables was included, a skipped field dropped
other ones of the same name, selections of repeated fields were not merged
but dropped or repeated in the response, and a fragment that spreads itself
overflowed the stack.
---
 src/core/jit/builder.rs | 459 ++++++++++++++++++++++++++--------------
 src/core/jit/error.rs   |   2 +
 src/core/jit/model.rs   |  56 +++--
 3 files changed, 336 insertions(+), 181 deletions(-)

diff --git a/src/core/jit/builder.rs b/src/core/jit/builder.rs
index db3cfcf..a50f26e 100644
--- a/src/core/jit/builder.rs
+++ b/src/core/jit/builder.rs
@@ -3,8 +3,8 @@ use std::ops::Deref;
 use std::sync::Arc;
 
 use async_graphql::parser::types::{
-    Directive, DocumentOperations, ExecutableDocument, FragmentDefinition, OperationDefinition,
-    OperationType, Selection, SelectionSet,
+    Directive, DocumentOperations, ExecutableDocument, Field as GqlField, FragmentDefinition,
+    OperationDefinition, OperationType, Selection, SelectionSet,
 };
 use async_graphql::Positioned;
 use async_graphql_value::Value;
@@ -51,19 +51,40 @@ impl Conditions {
         )
     }
 
-    fn into_variable_tuple(self) -> (Option<Variable>, Option<Variable>) {
-        let comp = |condition| match condition {
-            Condition::Variable(var) => Some(var),
-            _ => None,
-        };
+    /// What is required from the variables to select the field, None if it's
+    /// never selected
+    fn into_variables(self) -> Option<Vec<Requirement>> {
+        if self.is_const_skip() || self.include == Condition::False {
+            return None;
+        }
 
-        let include = comp(self.include);
-        let skip = comp(self.skip);
+        let mut requirements = Vec::new();
+        if let Condition::Variable(variable) = self.skip {
+            requirements.push(Requirement { variable, expected: false });
+        }
+        if let Condition::Variable(variable) = self.include {
+            requirements.push(Requirement { variable, expected: true });
+        }
 
-        (include, skip)
+        Some(requirements)
     }
 }
 
+/// A selection set that is part of the response only if all of the
+/// requirements are met
+type ConditionalSet<'b> = (Vec<Requirement>, &'b SelectionSet);
+
+/// Everything that is selected under the same output name of the same type,
+/// directly or with the fragments. It's resolved only once
+struct SelectedField<'b> {
+    parent_fragment: Option<&'b str>,
+    type_condition: &'b str,
+    output_name: &'b str,
+    pos: Pos,
+    field: &'b GqlField,
+    occurrences: Vec<ConditionalSet<'b>>,
+}
+
 pub struct Builder<'a> {
     pub index: Arc<Index>,
     pub arg_id: Counter<usize>,
@@ -125,167 +146,71 @@ impl<'a> Builder<'a> {
         }
     }
 
-    #[allow(clippy::too_many_arguments)]
-    #[inline(always)]
-    fn iter(
+    /// Flattens the fragments and merges the fields that have the same output
+    /// name, see [spec](https://spec.graphql.org/October2021/#sec-Field-Collection)
+    fn collect<'b>(
         &self,
-        parent_fragment: Option<&str>,
-        selection: &SelectionSet,
-        type_condition: &str,
-        fragments: &HashMap<&str, &FragmentDefinition>,
-    ) -> Vec<Field<Value>> {
-        let mut fields = vec![];
-        let mut fragments_fields = vec![];
-        let mut visited = HashSet::new();
-
+        parent_fragment: Option<&'b str>,
+        (requirements, selection): &ConditionalSet<'b>,
+        type_condition: &'b str,
+        fragments: &HashMap<&'b str, &'b FragmentDefinition>,
+        collected: &mut Vec<SelectedField<'b>>,
+    ) {
         for selection in &selection.items {
+            let directives = match &selection.node {
+                Selection::Field(field) => &field.node.directives,
+                Selection::FragmentSpread(spread) => &spread.node.directives,
+                Selection::InlineFragment(fragment) => &fragment.node.directives,
+            };
+            // Skip the selection based on GraphQL's skip/include conditions
+            let Some(own_requirements) = self.include(directives).into_variables() else {
+                continue;
+            };
+            let mut requirements = requirements.clone();
+            requirements.extend(own_requirements);
+
             match &selection.node {
-                Selection::Field(Positioned { node: gql_field, .. }) => {
-                    let field_name = gql_field.name.node.as_str();
-                    let output_name = gql_field
+                Selection::Field(Positioned { node: field, .. }) => {
+                    let output_name = field
                         .alias
                         .as_ref()
                         .map(|a| a.node.as_str())
-                        .unwrap_or(field_name);
-                    if visited.contains(output_name) {
-                        continue;
-                    }
-                    visited.insert(output_name);
-                    let conditions = self.include(&gql_field.directives);
-
-                    // Skip fields based on GraphQL's skip/include conditions
-                    if conditions.is_const_skip() {
-                        continue;
-                    }
+                        .unwrap_or(field.name.node.as_str());
+                    let occurrence = (requirements, &field.selection_set.node);
 
-                    let mut directives = Vec::with_capacity(gql_field.directives.len());
-                    for directive in &gql_field.directives {
-                        let directive = &directive.node;
-                        if directive.name.node == "skip" || directive.name.node == "include" {
-                            continue;
-                        }
-                        let arguments = directive
-                            .arguments
-                            .iter()
-                            .map(|(k, v)| (k.node.to_string(), v.node.clone()))
-                            .collect::<Vec<_>>();
-
-                        directives
-                            .push(JitDirective { name: directive.name.to_string(), arguments });
-                    }
+                    let same = collected.iter_mut().find(|selected| {
+                        selected.output_name == output_name
+                            && selected.type_condition == type_condition
+                    });
 
-                    let (include, skip) = conditions.into_variable_tuple();
-                    let request_args = gql_field
-                        .arguments
-                        .iter()
-                        .map(|(k, v)| (k.node.as_str().to_string(), v.node.to_owned()))
-                        .collect::<HashMap<_, _>>();
-
-                    let parent_fragment = parent_fragment.map(|s| s.to_owned());
-                    // Check if the field is present in the schema index
-                    if let Some(field_def) = self.index.get_field(type_condition, field_name) {
-                        let mut args = Vec::with_capacity(request_args.len());
-                        if let QueryField::Field((_, schema_args)) = field_def {
-                            for (arg_name, arg_value) in schema_args {
-                                let type_of = arg_value.of_type.clone();
-                                let id = ArgId::new(self.arg_id.next());
-                                let name = arg_name.clone();
-                                let default_value = arg_value
-                                    .default_value
-                                    .as_ref()
-                                    .and_then(|v| v.to_owned().try_into().ok());
-                                args.push(Arg {
-                                    id,
-                                    name,
-                                    type_of,
-                                    value: request_args.get(arg_name).cloned(),
-                                    default_value,
-                                });
-                            }
+                    if let Some(selected) = same {
+                        if parent_fragment.is_none() {
+                            selected.parent_fragment = None;
                         }
-
-                        let type_of = match field_def {
-                            QueryField::Field((field_def, _)) => field_def.of_type.clone(),
-                            QueryField::InputField(field_def) => field_def.of_type.clone(),
-                        };
-
-                        let id = FieldId::new(self.field_id.next());
-
-                        // Recursively gather child fields for the selection set
-                        let child_fields = self.iter(
-                            None,
-                            &gql_field.selection_set.node,
-                            type_of.name(),
-                            fragments,
-                        );
-
-                        let ir = match field_def {
-                            QueryField::Field((field_def, _)) => field_def.resolver.clone(),
-                            _ => None,
-                        };
-
-                        let scalar = if self.index.type_is_scalar(type_of.name()) {
-                            Some(
-                                scalar::Scalar::find(type_of.name())
-                                    .cloned()
-                                    .unwrap_or(scalar::Scalar::Empty),
-                            )
-                        } else {
-                            None
-                        };
-
-                        // Create the field with its child fields in `selection`
-                        let field = Field {
-                            id,
-                            selection: child_fields,
+                        selected.occurrences.push(occurrence);
+                    } else {
+                        collected.push(SelectedField {
                             parent_fragment,
-                            name: field_name.to_string(),
-                            output_name: output_name.to_string(),
-                            ir,
-                            is_enum: self.index.type_is_enum(type_of.name()),
-                            type_of,
-                            type_condition: Some(type_condition.to_string()),
-                            skip,
-                            include,
-                            args,
-                            pos: selection.pos.into(),
-                            directives,
-                            scalar,
-                        };
-
-                        fields.push(field);
-                    } else if field_name == "__typename" {
-                        let typename_field = Field {
-                            id: FieldId::new(self.field_id.next()),
-                            name: field_name.to_string(),
-                            output_name: output_name.to_string(),
-                            ir: None,
-                            type_of: Type::Named { name: "String".to_owned(), non_null: true },
-                            type_condition: Some(type_condition.to_string()),
-                            skip,
-                            include,
-                            args: Vec::new(),
+                            type_condition,
+                            output_name,
                             pos: selection.pos.into(),
-                            selection: vec![], // __typename has no child selection
-                            parent_fragment,
-                            directives,
-                            is_enum: false,
-                            scalar: Some(scalar::Scalar::Empty),
-                        };
-
-                        fields.push(typename_field);
+                            field,
+                            occurrences: vec![occurrence],
+                        });
                     }
                 }
                 Selection::FragmentSpread(Positioned { node: fragment_spread, .. }) => {
                     if let Some(fragment) =
                         fragments.get(fragment_spread.fragment_name.node.as_str())
                     {
-                        fragments_fields.extend(self.iter(
-                            Some(fragment.type_condition.node.on.node.as_str()),
-                            &fragment.selection_set.node,
-                            fragment.type_condition.node.on.node.as_str(),
+                        let type_of = fragment.type_condition.node.on.node.as_str();
+                        self.collect(
+                            Some(type_of),
+                            &(requirements, &fragment.selection_set.node),
+                            type_of,
                             fragments,
-                        ));
+                            collected,
+                        );
                     }
                 }
                 Selection::InlineFragment(Positioned { node: fragment, .. }) => {
@@ -294,24 +219,192 @@ impl<'a> Builder<'a> {
                         .as_ref()
                         .map(|cond| cond.node.on.node.as_str())
                         .unwrap_or(type_condition);
-                    fragments_fields.extend(self.iter(
+                    self.collect(
                         Some(type_of),
-                        &fragment.selection_set.node,
+                        &(requirements, &fragment.selection_set.node),
                         type_of,
                         fragments,
-                    ));
+                        collected,
+                    );
                 }
             }
         }
-        for field in fragments_fields {
-            if visited.contains(field.output_name.as_str()) {
+    }
+
+    #[inline(always)]
+    fn iter<'b>(
+        &self,
+        selections: &[ConditionalSet<'b>],
+        parent_type: &'b str,
+        fragments: &HashMap<&'b str, &'b FragmentDefinition>,
+    ) -> Vec<Field<Value>> {
+        let mut collected = vec![];
+        for selection in selections {
+            self.collect(None, selection, parent_type, fragments, &mut collected);
+        }
+
+        // names that are selected for any type the value may have
+        let visited = collected
+            .iter()
+            .filter(|selected| selected.type_condition == parent_type)
+            .map(|selected| selected.output_name)
+            .collect::<HashSet<_>>();
+
+        let mut fields = vec![];
+
+        for selected in &collected {
+            let SelectedField {
+                parent_fragment,
+                type_condition,
+                output_name,
+                pos,
+                field: gql_field,
+                occurrences,
+            } = selected;
+
+            if *type_condition != parent_type && visited.contains(output_name) {
                 continue;
             }
-            fields.push(field);
+
+            let field_name = gql_field.name.node.as_str();
+            let mut directives = Vec::with_capacity(gql_field.directives.len());
+            for directive in &gql_field.directives {
+                let directive = &directive.node;
+                if directive.name.node == "skip" || directive.name.node == "include" {
+                    continue;
+                }
+                let arguments = directive
+                    .arguments
+                    .iter()
+                    .map(|(k, v)| (k.node.to_string(), v.node.clone()))
+                    .collect::<Vec<_>>();
+
+                directives.push(JitDirective { name: directive.name.to_string(), arguments });
+            }
+
+            let request_args = gql_field
+                .arguments
+                .iter()
+                .map(|(k, v)| (k.node.as_str().to_string(), v.node.to_owned()))
+                .collect::<HashMap<_, _>>();
+
+            let parent_fragment = parent_fragment.map(|s| s.to_owned());
+            let (alternatives, child_selections) = Self::split_occurrences(occurrences);
+
+            // Check if the field is present in the schema index
+            if let Some(field_def) = self.index.get_field(type_condition, field_name) {
+                let mut args = Vec::with_capacity(request_args.len());
+                if let QueryField::Field((_, schema_args)) = field_def {
+                    for (arg_name, arg_value) in schema_args {
+                        let type_of = arg_value.of_type.clone();
+                        let id = ArgId::new(self.arg_id.next());
+                        let name = arg_name.clone();
+                        let default_value = arg_value
+                            .default_value
+                            .as_ref()
+                            .and_then(|v| v.to_owned().try_into().ok());
+                        args.push(Arg {
+                            id,
+                            name,
+                            type_of,
+                            value: request_args.get(arg_name).cloned(),
+                            default_value,
+                        });
+                    }
+                }
+
+                let type_of = match field_def {
+                    QueryField::Field((field_def, _)) => field_def.of_type.clone(),
+                    QueryField::InputField(field_def) => field_def.of_type.clone(),
+                };
+
+                let id = FieldId::new(self.field_id.next());
+
+                // Recursively gather child fields for the selection set
+                let child_fields = self.iter(&child_selections, type_of.name(), fragments);
+
+                let ir = match field_def {
+                    QueryField::Field((field_def, _)) => field_def.resolver.clone(),
+                    _ => None,
+                };
+
+                let scalar = if self.index.type_is_scalar(type_of.name()) {
+                    Some(
+                        scalar::Scalar::find(type_of.name())
+                            .cloned()
+                            .unwrap_or(scalar::Scalar::Empty),
+                    )
+                } else {
+                    None
+                };
+
+                // Create the field with its child fields in `selection`
+                let field = Field {
+                    id,
+                    selection: child_fields,
+                    parent_fragment,
+                    name: field_name.to_string(),
+                    output_name: output_name.to_string(),
+                    ir,
+                    is_enum: self.index.type_is_enum(type_of.name()),
+                    type_of,
+                    type_condition: Some(type_condition.to_string()),
+                    alternatives,
+                    args,
+                    pos: *pos,
+                    directives,
+                    scalar,
+                };
+
+                fields.push(field);
+            } else if field_name == "__typename" {
+                let typename_field = Field {
+                    id: FieldId::new(self.field_id.next()),
+                    name: field_name.to_string(),
+                    output_name: output_name.to_string(),
+                    ir: None,
+                    type_of: Type::Named { name: "String".to_owned(), non_null: true },
+                    type_condition: Some(type_condition.to_string()),
+                    alternatives,
+                    args: Vec::new(),
+                    pos: *pos,
+                    selection: vec![], // __typename has no child selection
+                    parent_fragment,
+                    directives,
+                    is_enum: false,
+                    scalar: Some(scalar::Scalar::Empty),
+                };
+
+                fields.push(typename_field);
+            }
         }
+
         fields.sort_by(|a, b| a.id.cmp(&b.id));
         fields
     }
+
+    /// The requirements of the field and the selections for its value
+    fn split_occurrences<'b>(
+        occurrences: &[ConditionalSet<'b>],
+    ) -> (Vec<Vec<Requirement>>, Vec<ConditionalSet<'b>>) {
+        let mut alternatives: Vec<Vec<Requirement>> = vec![];
+        for (requirements, _) in occurrences {
+            if !alternatives.contains(requirements) {
+                alternatives.push(requirements.clone());
+            }
+        }
+
+        // nothing is to be checked again for the nested fields if all of them are
+        // selected whenever the field is
+        let selections = if alternatives.len() == 1 {
+            occurrences.iter().map(|(_, set)| (vec![], *set)).collect()
+        } else {
+            occurrences.to_vec()
+        };
+
+        (alternatives, selections)
+    }
+
     #[inline(always)]
     fn get_type(&self, ty: OperationType) -> Option<&str> {
         match ty {
@@ -321,6 +414,51 @@ impl<'a> Builder<'a> {
         }
     }
 
+    /// Fragments can't be flattened if they spread themselves
+    fn check_cycles(fragments: &HashMap<&str, &FragmentDefinition>) -> Result<(), BuildError> {
+        fn spreads<'b>(selection_set: &'b SelectionSet, names: &mut Vec<&'b str>) {
+            for selection in &selection_set.items {
+                match &selection.node {
+                    Selection::Field(field) => spreads(&field.node.selection_set.node, names),
+                    Selection::InlineFragment(fragment) => {
+                        spreads(&fragment.node.selection_set.node, names)
+                    }
+                    Selection::FragmentSpread(spread) => {
+                        names.push(spread.node.fragment_name.node.as_str())
+                    }
+                }
+            }
+        }
+
+        let mut left = fragments
+            .iter()
+            .map(|(name, fragment)| {
+                let mut names = vec![];
+                spreads(&fragment.selection_set.node, &mut names);
+                names.retain(|name| fragments.contains_key(name));
+                (*name, names)
+            })
+            .collect::<HashMap<_, _>>();
+
+        // drop the fragments that spread none of the ones left until there are none
+        loop {
+            let done = left
+                .iter()
+                .filter(|(_, names)| names.iter().all(|name| !left.contains_key(name)))
+                .map(|(name, _)| *name)
+                .collect::<Vec<_>>();
+            if done.is_empty() {
+                break;
+            }
+            left.retain(|name, _| !done.contains(name));
+        }
+
+        match left.keys().min() {
+            Some(name) => Err(BuildError::FragmentCycle(name.to_string())),
+            None => Ok(()),
+        }
+    }
+
     /// Resolves currently processed operation
     /// based on [spec](https://spec.graphql.org/October2021/#sec-Executing-Requests)
     #[inline(always)]
@@ -355,13 +493,14 @@ impl<'a> Builder<'a> {
         for (name, fragment) in self.document.fragments.iter() {
             fragments.insert(name.as_str(), &fragment.node);
         }
+        Self::check_cycles(&fragments)?;
 
         let operation = self.get_operation(operation_name)?;
 
         let name = self
             .get_type(operation.ty)
             .ok_or(BuildError::RootOperationTypeNotDefined { operation: operation.ty })?;
-        let fields = self.iter(None, &operation.selection_set.node, name, &fragments);
+        let fields = self.iter(&[(vec![], &operation.selection_set.node)], name, &fragments);
 
         let is_introspection_query = operation.selection_set.node.items.iter().any(|f| {
             if let Selection::Field(Positioned { node: gql_field, .. }) = &f.node {
diff --git a/src/core/jit/error.rs b/src/core/jit/error.rs
index 086b604..6b8effd 100644
--- a/src/core/jit/error.rs
+++ b/src/core/jit/error.rs
@@ -14,6 +14,8 @@ pub enum BuildError {
     OperationNotFound(String),
     #[error("Operation name required in request")]
     OperationNameRequired,
+    #[error(r#"Fragment "{0}" spreads itself"#)]
+    FragmentCycle(String),
 }
 
 #[derive(Error, Debug, Clone, PartialEq, Eq)]
diff --git a/src/core/jit/model.rs b/src/core/jit/model.rs
index edaee37..4dff5aa 100644
--- a/src/core/jit/model.rs
+++ b/src/core/jit/model.rs
@@ -68,18 +68,10 @@ impl<V> FromIterator<(String, V)> for Variables<V> {
 impl<Input> Field<Input> {
     #[inline(always)]
     pub fn skip<'json, Value: JsonLike<'json>>(&self, variables: &Variables<Value>) -> bool {
-        let eval =
-            |variable_option: Option<&Variable>, variables: &Variables<Value>, default: bool| {
-                variable_option
-                    .map(|a| a.as_str())
-                    .and_then(|name| variables.get(name))
-                    .and_then(|value| value.as_bool())
-                    .unwrap_or(default)
-            };
-        let skip = eval(self.skip.as_ref(), variables, false);
-        let include = eval(self.include.as_ref(), variables, true);
-
-        skip == include
+        !self
+            .alternatives
+            .iter()
+            .any(|requirements| requirements.iter().all(|r| r.is_met(variables)))
     }
 
     /// Returns the __typename of the value related to this field
@@ -183,8 +175,9 @@ pub struct Field<Input> {
     /// interface, type, union, input type.
     /// See [spec](https://spec.graphql.org/October2021/#sec-Type-Conditions)
     pub type_condition: Option<String>,
-    pub skip: Option<Variable>,
-    pub include: Option<Variable>,
+    /// The field is part of the response if for any of the alternatives all of
+    /// its requirements are met
+    pub alternatives: Vec<Vec<Requirement>>,
     pub args: Vec<Arg<Input>>,
     pub selection: Vec<Field<Input>>,
     pub parent_fragment: Option<String>,
@@ -229,6 +222,23 @@ impl Variable {
     }
 }
 
+/// What `@skip` or `@include` require from a variable to select the field
+#[derive(Clone, Debug, PartialEq)]
+pub struct Requirement {
+    pub variable: Variable,
+    pub expected: bool,
+}
+
+impl Requirement {
+    /// Variables that aren't set don't prevent from selecting the field
+    pub fn is_met<'json, Value: JsonLike<'json>>(&self, variables: &Variables<Value>) -> bool {
+        variables
+            .get(self.variable.as_str())
+            .and_then(|value| value.as_bool())
+            .map_or(true, |value| value == self.expected)
+    }
+}
+
 impl<Input> Field<Input> {
     pub fn try_map<Output, Error>(
         self,
@@ -247,8 +257,7 @@ impl<Input> Field<Input> {
                 .map(|f| f.try_map(map))
                 .collect::<Result<Vec<Field<Output>>, Error>>()?,
             parent_fragment: None,
-            skip: self.skip,
-            include: self.include,
+            alternatives: self.alternatives,
             pos: self.pos,
             args: self
                 .args
@@ -283,11 +292,16 @@ impl<Input: Debug> Debug for Field<Input> {
         if !self.selection.is_empty() {
             debug_struct.field("selection", &self.selection);
         }
-        if self.skip.is_some() {
-            debug_struct.field("skip", &self.skip);
-        }
-        if self.include.is_some() {
-            debug_struct.field("include", &self.include);
+        match self.alternatives.as_slice() {
+            [requirements] => {
+                for Requirement { variable, expected } in requirements {
+                    let name = if *expected { "include" } else { "skip" };
+                    debug_struct.field(name, &Some(variable));
+                }
+            }
+            alternatives => {
+                debug_struct.field("alternatives", &alternatives);
+            }
         }
         debug_struct.field("directives", &self.directives);
 
-- 
2.43.0


From 00d3179b309f3f157efafd83b65c4694adfb28c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:18 +0000
Subject: [PATCH 19/38] fix: default values of an operation's variables were
 ignored

---
 src/core/jit/builder.rs                  | 11 ++++++++++-
 src/core/jit/exec_const.rs               | 11 +++++++----
 src/core/jit/model.rs                    |  4 ++++
 src/core/jit/transform/input_resolver.rs |  1 +
 4 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/core/jit/builder.rs b/src/core/jit/builder.rs
index a50f26e..7162daf 100644
--- a/src/core/jit/builder.rs
+++ b/src/core/jit/builder.rs
@@ -511,7 +511,7 @@ impl<'a> Builder<'a> {
             }
         });
 
-        let plan = OperationPlan::new(
+        let mut plan = OperationPlan::new(
             name,
             fields,
             operation.ty,
@@ -519,6 +519,15 @@ impl<'a> Builder<'a> {
             is_introspection_query,
             Some(self.index.get_interfaces()),
         );
+        plan.default_variables = operation
+            .variable_definitions
+            .iter()
+            .filter_map(|Positioned { node: variable, .. }| {
+                let value = variable.default_value.as_ref()?;
+                Some((variable.name.node.to_string(), value.node.clone()))
+            })
+            .collect();
+
         Ok(plan)
     }
 }
diff --git a/src/core/jit/exec_const.rs b/src/core/jit/exec_const.rs
index 1606f05..3756b60 100644
--- a/src/core/jit/exec_const.rs
+++ b/src/core/jit/exec_const.rs
@@ -38,8 +38,14 @@ impl ConstValueExecutor {
         self,
         app_ctx: &Arc<AppContext>,
         req_ctx: &RequestContext,
-        request: Request<ConstValue>,
+        mut request: Request<ConstValue>,
     ) -> AnyResponse<Vec<u8>> {
+        for (name, value) in &self.plan.default_variables {
+            if request.variables.get(name).is_none() {
+                request.variables.insert(name.clone(), value.clone());
+            }
+        }
+
         // Run all the IRs in the before chain
         if let Some(ir) = &self.plan.before {
             let mut eval_context = EvalContext::new(req_ctx, &EmptyResolverContext {});
@@ -71,9 +77,6 @@ impl ConstValueExecutor {
         };
 
         // Attempt to replace variables in the plan with the actual values
-        // TODO: operation from [ExecutableDocument] could contain definitions for
-        // default values of arguments. That info should be passed to
-        // [InputResolver] to resolve defaults properly
         let result = InputResolver::new(plan).resolve_input(variables);
 
         let plan = match result {
diff --git a/src/core/jit/model.rs b/src/core/jit/model.rs
index 4dff5aa..15b1842 100644
--- a/src/core/jit/model.rs
+++ b/src/core/jit/model.rs
@@ -331,6 +331,8 @@ pub struct OperationPlan<Input> {
     pub min_cache_ttl: Option<NonZeroU64>,
     pub selection: Vec<Field<Input>>,
     pub before: Option<IR>,
+    /// Values of the variables that the request doesn't set
+    pub default_variables: Vec<(String, ConstValue)>,
     pub interfaces: Option<HashSet<String>>,
 }
 
@@ -356,6 +358,7 @@ impl<Input> OperationPlan<Input> {
             is_protected: self.is_protected,
             min_cache_ttl: self.min_cache_ttl,
             before: self.before,
+            default_variables: self.default_variables,
             interfaces: None,
         })
     }
@@ -385,6 +388,7 @@ impl<Input> OperationPlan<Input> {
             is_protected: false,
             min_cache_ttl: None,
             before: Default::default(),
+            default_variables: Default::default(),
             interfaces,
         }
     }
diff --git a/src/core/jit/transform/input_resolver.rs b/src/core/jit/transform/input_resolver.rs
index 3787719..781d3e5 100644
--- a/src/core/jit/transform/input_resolver.rs
+++ b/src/core/jit/transform/input_resolver.rs
@@ -87,6 +87,7 @@ where
             interfaces: None,
             selection,
             before: self.plan.before,
+            default_variables: self.plan.default_variables,
         })
     }
 
-- 
2.43.0


From a588d9183a61924efcfb96c0942831b466227179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:18 +0000
Subject: [PATCH 20/38] fix: resolvers below an aliased field got no parent
 value

---
 src/core/jit/exec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/jit/exec.rs b/src/core/jit/exec.rs
index c3155aa..0dcd772 100644
--- a/src/core/jit/exec.rs
+++ b/src/core/jit/exec.rs
@@ -117,7 +117,7 @@ where
             let value = match ctx.value() {
                 Some(value) => value.map_ref(&mut |value| {
                     Ok(value
-                        .get_key(&field.output_name)
+                        .get_key(&field.name)
                         .cloned()
                         // in case there is no value we still put some dumb empty value anyway
                         // to force execution of the nested fields even when parent object is not
-- 
2.43.0


From ea1d2024abbe421c60aefead3ce569ef6f98237f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:46 +0000
Subject: [PATCH 21/38] fix: null in lists, items of scalars and the path of
 errors

---
 src/core/jit/synth/synth.rs | 80 ++++++++++++++++++++++++++-----------
 1 file changed, 56 insertions(+), 24 deletions(-)

diff --git a/src/core/jit/synth/synth.rs b/src/core/jit/synth/synth.rs
index 221fa95..a51d0a1 100644
--- a/src/core/jit/synth/synth.rs
+++ b/src/core/jit/synth/synth.rs
@@ -4,6 +4,7 @@ use crate::core::jit::model::{Field, OperationPlan, Variables};
 use crate::core::jit::store::{DataPath, Store};
 use crate::core::jit::{Error, PathSegment, Positioned, ValidationError};
 use crate::core::json::{JsonLike, JsonObjectLike};
+use crate::core::Type;
 
 type ValueStore<Value> = Store<Result<Value, Positioned<Error>>>;
 
@@ -69,8 +70,26 @@ where
         Output: JsonLike<'a>,
     {
         path.push(PathSegment::Field(Cow::Borrowed(&node.output_name)));
+        let result = self.iter_value(node, value, data_path, path, root_name);
+        path.pop();
+
+        result
+    }
 
-        let result = match self.store.get(&node.id) {
+    #[allow(clippy::too_many_arguments)]
+    #[inline(always)]
+    fn iter_value<Output>(
+        &'a self,
+        node: &'a Field<Value>,
+        value: Option<&'a Value>,
+        data_path: &DataPath,
+        path: &mut Vec<PathSegment<'a>>,
+        root_name: Option<&'a str>,
+    ) -> Result<Output, Positioned<Error>>
+    where
+        Output: JsonLike<'a>,
+    {
+        match self.store.get(&node.id) {
             Some(value) => {
                 let mut value = value.as_ref().map_err(Clone::clone)?;
 
@@ -85,16 +104,13 @@ where
                 if node.type_of.is_list() != value.as_array().is_some() {
                     return self.node_nullable_guard(node, path, None);
                 }
-                self.iter_inner(node, value, data_path, path)
+                self.iter_inner(node, &node.type_of, value, data_path, path)
             }
             None => match value {
-                Some(result) => self.iter_inner(node, result, data_path, path),
+                Some(result) => self.iter_inner(node, &node.type_of, result, data_path, path),
                 None => self.node_nullable_guard(node, path, root_name),
             },
-        };
-
-        path.pop();
-        result
+        }
     }
 
     /// This guard ensures to return Null value only if node type permits it, in
@@ -122,11 +138,28 @@ where
         }
     }
 
+    /// Checks the value or, for the lists, every item of it
+    fn is_valid(type_of: &Type, value: &'a Value, check: &impl Fn(&'a Value) -> bool) -> bool {
+        match (type_of, value.as_array()) {
+            (Type::List { of_type, .. }, Some(arr)) => arr.iter().all(|item| {
+                if item.is_null() {
+                    of_type.is_nullable()
+                } else {
+                    Self::is_valid(of_type, item, check)
+                }
+            }),
+            _ => check(value),
+        }
+    }
+
+    /// Handles the value, or the item of the list, that is of the specified
+    /// type
     #[allow(clippy::too_many_arguments)]
     #[inline(always)]
     fn iter_inner<Output>(
         &'a self,
         node: &'a Field<Value>,
+        type_of: &'a Type,
         value: &'a Value,
         data_path: &DataPath,
         path: &mut Vec<PathSegment<'a>>,
@@ -140,12 +173,7 @@ where
         }
 
         let eval_result = if value.is_null() {
-            // check the nullability of this type unwrapping list modifier
-            let is_nullable = match &node.type_of {
-                crate::core::Type::Named { non_null, .. } => !*non_null,
-                crate::core::Type::List { of_type, .. } => of_type.is_nullable(),
-            };
-            if is_nullable {
+            if type_of.is_nullable() {
                 Ok(Output::null())
             } else {
                 Err(ValidationError::ValueRequired.into())
@@ -156,7 +184,7 @@ where
             // TODO: add validation for input type as well. But input types are not checked
             // by async_graphql anyway so it should be done after replacing
             // default engine with JIT
-            if scalar.validate(value) {
+            if Self::is_valid(type_of, value, &|value: &'a Value| scalar.validate(value)) {
                 Ok(Output::clone_from(value))
             } else {
                 Err(
@@ -165,20 +193,14 @@ where
                 )
             }
         } else if node.is_enum {
-            let check_valid_enum = |value: &Value| -> bool {
+            let check_valid_enum = |value: &'a Value| -> bool {
                 value
                     .as_str()
                     .map(|v| self.plan.field_validate_enum_value(node, v))
                     .unwrap_or(false)
             };
 
-            let is_valid_enum = if let Some(vec) = value.as_array() {
-                vec.iter().all(check_valid_enum)
-            } else {
-                check_valid_enum(value)
-            };
-
-            if is_valid_enum {
+            if Self::is_valid(type_of, value, &check_valid_enum) {
                 Ok(Output::clone_from(value))
             } else {
                 Err(
@@ -211,11 +233,21 @@ where
                     Ok(Output::object(Output::JsonObject::from_vec(fields)))
                 }
                 (Some(arr), _) => {
+                    // the type of items, the value may be of an unexpected deepness
+                    let item_type = match type_of {
+                        Type::List { of_type, .. } => of_type,
+                        Type::Named { .. } => type_of,
+                    };
                     let mut ans = Vec::with_capacity(arr.len());
                     for (i, val) in arr.iter().enumerate() {
                         path.push(PathSegment::Index(i));
-                        let val =
-                            self.iter_inner(node, val, &data_path.clone().with_index(i), path)?;
+                        let val = self.iter_inner(
+                            node,
+                            item_type,
+                            val,
+                            &data_path.clone().with_index(i),
+                            path,
+                        )?;
                         path.pop();
                         ans.push(val);
                     }
-- 
2.43.0


From 3523ee26894e7473b9dd1ffb12051b0b6ce22d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:32 +0000
Subject: [PATCH 22/38] fix: nested fragments and fields of another type were
 resolved

---
 src/core/blueprint/index.rs |  13 +++
 src/core/jit/builder.rs     | 221 +++++++++++++++++++++++++-----------
 src/core/jit/exec.rs        |   4 +
 src/core/jit/exec_const.rs  |   4 +
 src/core/jit/synth/synth.rs |   6 +-
 5 files changed, 182 insertions(+), 66 deletions(-)

diff --git a/src/core/blueprint/index.rs b/src/core/blueprint/index.rs
index 5fa09a9..87cc9e1 100644
--- a/src/core/blueprint/index.rs
+++ b/src/core/blueprint/index.rs
@@ -100,6 +100,19 @@ impl Index {
         }
     }
 
+    /// The object types that implement the interface, are parts of the union or
+    /// the type itself
+    pub fn get_possible_types(&self, type_or_interface: &str) -> Vec<&str> {
+        self.map
+            .iter()
+            .filter(|(name, (def, _))| {
+                matches!(def, Definition::Object(_))
+                    && self.is_type_implements(name, type_or_interface)
+            })
+            .map(|(name, _)| name.as_str())
+            .collect()
+    }
+
     pub fn get_input_type_definition(&self, type_name: &str) -> Option<&InputObjectTypeDefinition> {
         match self.map.get(type_name) {
             Some((Definition::InputObject(input), _)) => Some(input),
diff --git a/src/core/jit/builder.rs b/src/core/jit/builder.rs
index 7162daf..2761685 100644
--- a/src/core/jit/builder.rs
+++ b/src/core/jit/builder.rs
@@ -1,4 +1,4 @@
-use std::collections::{HashMap, HashSet};
+use std::collections::HashMap;
 use std::ops::Deref;
 use std::sync::Arc;
 
@@ -74,15 +74,21 @@ impl Conditions {
 /// requirements are met
 type ConditionalSet<'b> = (Vec<Requirement>, &'b SelectionSet);
 
-/// Everything that is selected under the same output name of the same type,
-/// directly or with the fragments. It's resolved only once
+/// A field that is selected directly or with a fragment
 struct SelectedField<'b> {
     parent_fragment: Option<&'b str>,
     type_condition: &'b str,
     output_name: &'b str,
     pos: Pos,
     field: &'b GqlField,
-    occurrences: Vec<ConditionalSet<'b>>,
+    occurrence: ConditionalSet<'b>,
+}
+
+/// Everything that is selected under the same output name of the same type. It's
+/// resolved only once
+struct SelectedGroup<'c, 'b> {
+    type_condition: &'c str,
+    members: Vec<&'c SelectedField<'b>>,
 }
 
 pub struct Builder<'a> {
@@ -146,12 +152,39 @@ impl<'a> Builder<'a> {
         }
     }
 
-    /// Flattens the fragments and merges the fields that have the same output
-    /// name, see [spec](https://spec.graphql.org/October2021/#sec-Field-Collection)
+    /// Types of the values that satisfy the condition of a fragment and also the
+    /// one that is already there
+    fn narrow<'b>(
+        &'b self,
+        enclosing_type: &str,
+        type_condition: &'b str,
+        fragment_type: &'b str,
+    ) -> Vec<&'b str> {
+        if self.index.is_type_implements(type_condition, fragment_type) {
+            return vec![type_condition];
+        }
+
+        let (common, rest): (Vec<_>, Vec<_>) = self
+            .index
+            .get_possible_types(fragment_type)
+            .into_iter()
+            .partition(|type_name| self.index.is_type_implements(type_name, type_condition));
+
+        // the fragments that aren't possible for the enclosing type aren't valid
+        if rest.is_empty() || (common.is_empty() && type_condition == enclosing_type) {
+            vec![fragment_type]
+        } else {
+            common
+        }
+    }
+
+    /// Flattens the fragments,
+    /// see [spec](https://spec.graphql.org/October2021/#sec-Field-Collection)
     fn collect<'b>(
-        &self,
+        &'b self,
         parent_fragment: Option<&'b str>,
         (requirements, selection): &ConditionalSet<'b>,
+        enclosing_type: &str,
         type_condition: &'b str,
         fragments: &HashMap<&'b str, &'b FragmentDefinition>,
         collected: &mut Vec<SelectedField<'b>>,
@@ -176,95 +209,153 @@ impl<'a> Builder<'a> {
                         .as_ref()
                         .map(|a| a.node.as_str())
                         .unwrap_or(field.name.node.as_str());
-                    let occurrence = (requirements, &field.selection_set.node);
 
-                    let same = collected.iter_mut().find(|selected| {
-                        selected.output_name == output_name
-                            && selected.type_condition == type_condition
+                    collected.push(SelectedField {
+                        parent_fragment,
+                        type_condition,
+                        output_name,
+                        pos: selection.pos.into(),
+                        field,
+                        occurrence: (requirements, &field.selection_set.node),
                     });
-
-                    if let Some(selected) = same {
-                        if parent_fragment.is_none() {
-                            selected.parent_fragment = None;
-                        }
-                        selected.occurrences.push(occurrence);
-                    } else {
-                        collected.push(SelectedField {
-                            parent_fragment,
-                            type_condition,
-                            output_name,
-                            pos: selection.pos.into(),
-                            field,
-                            occurrences: vec![occurrence],
-                        });
-                    }
                 }
                 Selection::FragmentSpread(Positioned { node: fragment_spread, .. }) => {
                     if let Some(fragment) =
                         fragments.get(fragment_spread.fragment_name.node.as_str())
                     {
-                        let type_of = fragment.type_condition.node.on.node.as_str();
+                        let fragment_type = fragment.type_condition.node.on.node.as_str();
+                        for type_of in self.narrow(enclosing_type, type_condition, fragment_type) {
+                            self.collect(
+                                Some(type_of),
+                                &(requirements.clone(), &fragment.selection_set.node),
+                                fragment_type,
+                                type_of,
+                                fragments,
+                                collected,
+                            );
+                        }
+                    }
+                }
+                Selection::InlineFragment(Positioned { node: fragment, .. }) => {
+                    let (fragment_type, types) = match &fragment.type_condition {
+                        Some(cond) => {
+                            let fragment_type = cond.node.on.node.as_str();
+                            (
+                                fragment_type,
+                                self.narrow(enclosing_type, type_condition, fragment_type),
+                            )
+                        }
+                        None => (enclosing_type, vec![type_condition]),
+                    };
+                    for type_of in types {
                         self.collect(
                             Some(type_of),
-                            &(requirements, &fragment.selection_set.node),
+                            &(requirements.clone(), &fragment.selection_set.node),
+                            fragment_type,
                             type_of,
                             fragments,
                             collected,
                         );
                     }
                 }
-                Selection::InlineFragment(Positioned { node: fragment, .. }) => {
-                    let type_of = fragment
-                        .type_condition
-                        .as_ref()
-                        .map(|cond| cond.node.on.node.as_str())
-                        .unwrap_or(type_condition);
-                    self.collect(
-                        Some(type_of),
-                        &(requirements, &fragment.selection_set.node),
-                        type_of,
-                        fragments,
-                        collected,
-                    );
+            }
+        }
+    }
+
+    /// Merges the fields that have the same output name for a value
+    fn merge<'c, 'b>(
+        &'c self,
+        parent_type: &str,
+        collected: &'c [SelectedField<'b>],
+    ) -> Vec<SelectedGroup<'c, 'b>> {
+        // selected for every value, nothing is added by the selections for some types
+        let is_total = |selected: &SelectedField| {
+            let (requirements, selection) = &selected.occurrence;
+            selected.type_condition == parent_type
+                && requirements.is_empty()
+                && selection.items.is_empty()
+        };
+        let mut groups: Vec<SelectedGroup<'c, 'b>> = vec![];
+
+        for selected in collected {
+            let others = collected.iter().filter(|other| {
+                other.output_name == selected.output_name
+                    && other.type_condition != selected.type_condition
+            });
+
+            let types = if others.clone().any(is_total) {
+                vec![]
+            } else if !collected.iter().any(|other| {
+                other.output_name == selected.output_name && is_total(other)
+            }) && others
+                .clone()
+                .any(|other| self.overlap(other.type_condition, selected.type_condition))
+            {
+                // which of the selections are to be merged depends on the type of the value
+                self.index.get_possible_types(selected.type_condition)
+            } else {
+                vec![selected.type_condition]
+            };
+
+            for type_condition in types {
+                let group = groups.iter_mut().find(|group| {
+                    group.type_condition == type_condition
+                        && group.members[0].output_name == selected.output_name
+                });
+                if let Some(group) = group {
+                    group.members.push(selected);
+                } else {
+                    groups.push(SelectedGroup { type_condition, members: vec![selected] });
                 }
             }
         }
+
+        groups
+    }
+
+    /// Checks if there are values that satisfy both of the conditions
+    fn overlap(&self, left: &str, right: &str) -> bool {
+        self.index
+            .get_possible_types(left)
+            .into_iter()
+            .any(|type_name| self.index.is_type_implements(type_name, right))
     }
 
     #[inline(always)]
     fn iter<'b>(
-        &self,
+        &'b self,
         selections: &[ConditionalSet<'b>],
         parent_type: &'b str,
         fragments: &HashMap<&'b str, &'b FragmentDefinition>,
     ) -> Vec<Field<Value>> {
         let mut collected = vec![];
         for selection in selections {
-            self.collect(None, selection, parent_type, fragments, &mut collected);
+            self.collect(
+                None,
+                selection,
+                parent_type,
+                parent_type,
+                fragments,
+                &mut collected,
+            );
         }
 
-        // names that are selected for any type the value may have
-        let visited = collected
-            .iter()
-            .filter(|selected| selected.type_condition == parent_type)
-            .map(|selected| selected.output_name)
-            .collect::<HashSet<_>>();
-
         let mut fields = vec![];
 
-        for selected in &collected {
-            let SelectedField {
-                parent_fragment,
-                type_condition,
-                output_name,
-                pos,
-                field: gql_field,
-                occurrences,
-            } = selected;
-
-            if *type_condition != parent_type && visited.contains(output_name) {
-                continue;
-            }
+        for SelectedGroup { type_condition, members } in self.merge(parent_type, &collected) {
+            let SelectedField { output_name, pos, field: gql_field, .. } = members[0];
+            let parent_fragment = if members.iter().any(|m| m.parent_fragment.is_none()) {
+                None
+            } else {
+                members[0].parent_fragment
+            };
+            // the field that was selected for more types than it's now
+            let parent_fragment = if members.iter().any(|m| m.type_condition != type_condition) {
+                Some(type_condition).filter(|type_condition| *type_condition != parent_type)
+            } else {
+                parent_fragment
+            };
+            let occurrences = members.iter().map(|m| m.occurrence.clone()).collect::<Vec<_>>();
 
             let field_name = gql_field.name.node.as_str();
             let mut directives = Vec::with_capacity(gql_field.directives.len());
@@ -289,7 +380,7 @@ impl<'a> Builder<'a> {
                 .collect::<HashMap<_, _>>();
 
             let parent_fragment = parent_fragment.map(|s| s.to_owned());
-            let (alternatives, child_selections) = Self::split_occurrences(occurrences);
+            let (alternatives, child_selections) = Self::split_occurrences(&occurrences);
 
             // Check if the field is present in the schema index
             if let Some(field_def) = self.index.get_field(type_condition, field_name) {
diff --git a/src/core/jit/exec.rs b/src/core/jit/exec.rs
index 0dcd772..fd04d97 100644
--- a/src/core/jit/exec.rs
+++ b/src/core/jit/exec.rs
@@ -116,6 +116,10 @@ where
         } else {
             let value = match ctx.value() {
                 Some(value) => value.map_ref(&mut |value| {
+                    // nothing is to be resolved below the fields of other types
+                    if !self.request.plan().field_is_part_of_value(field, value) {
+                        return Ok(Output::null());
+                    }
                     Ok(value
                         .get_key(&field.name)
                         .cloned()
diff --git a/src/core/jit/exec_const.rs b/src/core/jit/exec_const.rs
index 3756b60..5ab07c5 100644
--- a/src/core/jit/exec_const.rs
+++ b/src/core/jit/exec_const.rs
@@ -190,6 +190,10 @@ impl IRExecutor for ConstValueExec<'_> {
                     }
                 })?)
             }
+            // the fields of other types aren't resolved
+            Some(value) if !self.plan.field_is_part_of_value(field, value) => {
+                Ok(Self::Output::default())
+            }
             _ => Ok(self.call(ctx, ir).await?),
         }
     }
diff --git a/src/core/jit/synth/synth.rs b/src/core/jit/synth/synth.rs
index a51d0a1..27349cc 100644
--- a/src/core/jit/synth/synth.rs
+++ b/src/core/jit/synth/synth.rs
@@ -219,7 +219,11 @@ where
                     {
                         // all checks for skip must occur in `iter_inner`
                         // and include be checked before calling `iter` or recursing.
-                        if self.include(child) {
+                        // the name may be selected for several types, that's only known for
+                        // the values with the type
+                        let is_known =
+                            fields.iter().any(|(name, _)| *name == child.output_name);
+                        if self.include(child) && !is_known {
                             let value = if child.name == "__typename" {
                                 Output::string(node.value_type(value).into())
                             } else {
-- 
2.43.0


From 95877583f3b05693787a8b5337f1fbe02d263ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:19 +0000
Subject: [PATCH 23/38] fix: nulls for the failed fields of queries with
 __typename

---
 src/core/jit/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/jit/builder.rs b/src/core/jit/builder.rs
index 2761685..88b5331 100644
--- a/src/core/jit/builder.rs
+++ b/src/core/jit/builder.rs
@@ -596,7 +596,7 @@ impl<'a> Builder<'a> {
         let is_introspection_query = operation.selection_set.node.items.iter().any(|f| {
             if let Selection::Field(Positioned { node: gql_field, .. }) = &f.node {
                 let query = gql_field.name.node.as_str();
-                query.contains("__schema") || query.contains("__type")
+                query == "__schema" || query == "__type"
             } else {
                 false
             }
-- 
2.43.0


From 1d0a3a104907b123ae4f5bf8c36b5a89c337d2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:09 +0000
Subject: [PATCH 24/38] fix: fields of interfaces ignored the resolvers of the
 types that implement them

A field selected on an interface was read from the parent's value, even if the
object's type resolves it or protects it: `{ node { id } }` gave the value of a
field of a @protected type without any credentials.
---
 src/core/blueprint/index.rs | 12 ++++++++++++
 src/core/jit/builder.rs     | 16 ++++++++++------
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/core/blueprint/index.rs b/src/core/blueprint/index.rs
index 87cc9e1..70084df 100644
--- a/src/core/blueprint/index.rs
+++ b/src/core/blueprint/index.rs
@@ -113,6 +113,18 @@ impl Index {
             .collect()
     }
 
+    /// Checks if some of the types that implement the interface have a resolver
+    /// for the field
+    pub fn is_resolved_by_implementors(&self, interface: &str, field_name: &str) -> bool {
+        matches!(self.map.get(interface), Some((Definition::Interface(_), _)))
+            && self.get_possible_types(interface).into_iter().any(|type_name| {
+                matches!(
+                    self.get_field(type_name, field_name),
+                    Some(QueryField::Field((field, _))) if field.resolver.is_some()
+                )
+            })
+    }
+
     pub fn get_input_type_definition(&self, type_name: &str) -> Option<&InputObjectTypeDefinition> {
         match self.map.get(type_name) {
             Some((Definition::InputObject(input), _)) => Some(input),
diff --git a/src/core/jit/builder.rs b/src/core/jit/builder.rs
index 88b5331..e31b473 100644
--- a/src/core/jit/builder.rs
+++ b/src/core/jit/builder.rs
@@ -285,13 +285,17 @@ impl<'a> Builder<'a> {
 
             let types = if others.clone().any(is_total) {
                 vec![]
-            } else if !collected.iter().any(|other| {
-                other.output_name == selected.output_name && is_total(other)
-            }) && others
-                .clone()
-                .any(|other| self.overlap(other.type_condition, selected.type_condition))
+            } else if self
+                .index
+                .is_resolved_by_implementors(selected.type_condition, &selected.field.name.node)
+                || !collected.iter().any(|other| {
+                    other.output_name == selected.output_name && is_total(other)
+                }) && others
+                    .clone()
+                    .any(|other| self.overlap(other.type_condition, selected.type_condition))
             {
-                // which of the selections are to be merged depends on the type of the value
+                // the resolver, or which of the selections are to be merged, depends on the type
+                // of the value
                 self.index.get_possible_types(selected.type_condition)
             } else {
                 vec![selected.type_condition]
-- 
2.43.0


From f1c51d1484740b6533afa32d0322d3b091b45563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:31 +0000
Subject: [PATCH 25/38] fix: every @protected directive of a field is required,
 and only those

The providers of the output type's directive were ignored: the field required
all of the providers. Directives without providers were ignored if there was one
with: `type A @protected(id: ["a"]) { b: Int @protected }` required "a" only.
---
 src/core/blueprint/operators/protected.rs | 70 +++++++++++------------
 1 file changed, 34 insertions(+), 36 deletions(-)

diff --git a/src/core/blueprint/operators/protected.rs b/src/core/blueprint/operators/protected.rs
index 6f80a44..33bc157 100644
--- a/src/core/blueprint/operators/protected.rs
+++ b/src/core/blueprint/operators/protected.rs
@@ -15,13 +15,20 @@ pub fn update_protected<'a>(
 > {
     TryFold::<(&ConfigModule, &Field, &config::Type, &'a str), FieldDefinition, BlueprintError>::new(
         |(config, field, type_, _), mut b_field| {
-            if field.protected.is_some() // check the field itself has marked as protected
-                || type_.protected.is_some() // check the type that contains current field
-                || config // check that output type of the field is protected
+            // the directives of the type that contains the field, of the field itself and of
+            // its output type. Each of them has to be satisfied
+            let protections = [
+                type_.protected.as_ref(),
+                field.protected.as_ref(),
+                config
                     .find_type(field.type_of.name())
-                    .and_then(|type_| type_.protected.as_ref())
-                    .is_some()
-            {
+                    .and_then(|type_| type_.protected.as_ref()),
+            ]
+            .into_iter()
+            .flatten()
+            .collect::<Vec<_>>();
+
+            if !protections.is_empty() {
                 if config.input_types().contains(type_name) {
                     return Valid::fail(BlueprintError::InputTypesCannotBeProtected);
                 }
@@ -38,38 +45,29 @@ pub fn update_protected<'a>(
 
                 // FIXME: add trace information in the error
 
-                let mut protection = Vec::new();
-
-                protection.extend(
-                    type_
-                        .protected
-                        .clone()
-                        .and_then(|protect| protect.id)
-                        .unwrap_or_default(),
-                );
+                Valid::from_iter(protections, |protected| {
+                    let ids = protected.id.as_deref().unwrap_or_default();
 
-                protection.extend(
-                    field
-                        .protected
-                        .clone()
-                        .and_then(|protect| protect.id)
-                        .unwrap_or_default(),
-                );
-
-                Valid::from_iter(protection.iter(), |id| {
-                    if let Some(provider) = providers.get(id) {
-                        Valid::succeed(Auth::Provider(provider.clone()))
-                    } else {
-                        Valid::fail(BlueprintError::AuthProviderNotFound(id.clone()))
-                    }
+                    Valid::from_iter(ids, |id| {
+                        if let Some(provider) = providers.get(id) {
+                            Valid::succeed(Auth::Provider(provider.clone()))
+                        } else {
+                            Valid::fail(BlueprintError::AuthProviderNotFound(id.clone()))
+                        }
+                    })
+                    .map(|provider| {
+                        provider
+                            .into_iter()
+                            .reduce(|left, right| left.and(right))
+                            // If no protection is defined, use all providers
+                            .or_else(|| Auth::from_config(config))
+                    })
                 })
-                .map(|provider| {
-                    let mut auth = provider.into_iter().reduce(|left, right| left.and(right));
-
-                    // If no protection is defined, use all providers
-                    if auth.is_none() {
-                        auth = Auth::from_config(config);
-                    }
+                .map(|auth| {
+                    let auth = auth
+                        .into_iter()
+                        .flatten()
+                        .reduce(|left, right| left.and(right));
 
                     if let Some(auth) = auth {
                         b_field.resolver = match &b_field.resolver {
-- 
2.43.0


From 5f373726ea1022ac9578d9da1ed6d2f8172d042a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:37 +0000
Subject: [PATCH 26/38] fix: fields that are skipped required an authorization

---
 src/core/jit/exec_const.rs | 37 +++++++++++++++++++++++--------------
 src/core/jit/request.rs    |  1 -
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/core/jit/exec_const.rs b/src/core/jit/exec_const.rs
index 5ab07c5..b7b4c50 100644
--- a/src/core/jit/exec_const.rs
+++ b/src/core/jit/exec_const.rs
@@ -46,20 +46,6 @@ impl ConstValueExecutor {
             }
         }
 
-        // Run all the IRs in the before chain
-        if let Some(ir) = &self.plan.before {
-            let mut eval_context = EvalContext::new(req_ctx, &EmptyResolverContext {});
-            match ir.eval(&mut eval_context).await {
-                Ok(_) => (),
-                Err(err) => {
-                    let resp: Response<ConstValue> = Response::default();
-                    return resp
-                        .with_errors(vec![GraphQLError::new(err.to_string(), None)])
-                        .into();
-                }
-            }
-        }
-
         let is_introspection_query =
             req_ctx.server.get_enable_introspection() && self.plan.is_introspection_query;
         let variables = &request.variables;
@@ -76,6 +62,29 @@ impl ConstValueExecutor {
                 .into();
         };
 
+        // Only the fields that are left require an authorization
+        let Ok(plan) = transform::AuthPlanner::new().transform(plan).to_result() else {
+            let resp: Response<ConstValue> = Response::default();
+            // this shouldn't actually ever happen
+            return resp
+                .with_errors(vec![GraphQLError::new(Error::Unknown.to_string(), None)])
+                .into();
+        };
+
+        // Run all the IRs in the before chain
+        if let Some(ir) = &plan.before {
+            let mut eval_context = EvalContext::new(req_ctx, &EmptyResolverContext {});
+            match ir.eval(&mut eval_context).await {
+                Ok(_) => (),
+                Err(err) => {
+                    let resp: Response<ConstValue> = Response::default();
+                    return resp
+                        .with_errors(vec![GraphQLError::new(err.to_string(), None)])
+                        .into();
+                }
+            }
+        }
+
         // Attempt to replace variables in the plan with the actual values
         let result = InputResolver::new(plan).resolve_input(variables);
 
diff --git a/src/core/jit/request.rs b/src/core/jit/request.rs
index f37c4a7..27eea16 100644
--- a/src/core/jit/request.rs
+++ b/src/core/jit/request.rs
@@ -47,7 +47,6 @@ impl Request<ConstValue> {
 
         transform::CheckConst::new()
             .pipe(transform::CheckProtected::new())
-            .pipe(transform::AuthPlanner::new())
             .pipe(transform::CheckDedupe::new())
             .pipe(transform::CheckCache::new())
             .pipe(transform::GraphQL::new())
-- 
2.43.0


From a181d096170c6331e57572fe5a704f879d62cda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:40 +0000
Subject: [PATCH 27/38] fix: items of a list argument were checked with the
 nullability of the list

A null item of a nullable item type in a required list was refused, and a null item of a required
item type in an optional list (and any null item of a list of scalars) was passed on.
---
 src/core/jit/transform/input_resolver.rs | 37 +++++++++++++-----------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/core/jit/transform/input_resolver.rs b/src/core/jit/transform/input_resolver.rs
index 781d3e5..63fd7fa 100644
--- a/src/core/jit/transform/input_resolver.rs
+++ b/src/core/jit/transform/input_resolver.rs
@@ -172,11 +172,28 @@ where
             return Ok(None);
         };
 
-        let Some(def) = index.get_input_type_definition(type_of.name()) else {
-            return Ok(Some(value));
+        let def = index.get_input_type_definition(type_of.name());
+        // the items of a list are of the type that is inside of the list's type
+        let item_type = match type_of {
+            Type::List { of_type, .. } => Some(of_type.as_ref()),
+            Type::Named { .. } => def.map(|_| type_of),
         };
 
-        if let Some(obj) = value.as_object_mut() {
+        if let (Some(item_type), Some(arr)) = (item_type, value.as_array_mut()) {
+            for (i, item) in arr.iter_mut().enumerate() {
+                let parent_name = format!("{}.{}.{}", parent_name, arg_name, i);
+
+                *item = Self::recursive_parse_arg(
+                    index,
+                    &parent_name,
+                    &i.to_string(),
+                    item_type,
+                    &None,
+                    Some(item.clone()),
+                )?
+                .expect("Because we start with `Some`, we will end with `Some`");
+            }
+        } else if let (Some(def), Some(obj)) = (def, value.as_object_mut()) {
             for arg_field in &def.fields {
                 let parent_name = format!("{}.{}", parent_name, arg_name);
                 let field_value = obj.get_key(&arg_field.name).cloned();
@@ -196,20 +213,6 @@ where
                     obj.insert_key(&arg_field.name, value);
                 }
             }
-        } else if let Some(arr) = value.as_array_mut() {
-            for (i, item) in arr.iter_mut().enumerate() {
-                let parent_name = format!("{}.{}.{}", parent_name, arg_name, i);
-
-                *item = Self::recursive_parse_arg(
-                    index,
-                    &parent_name,
-                    &i.to_string(),
-                    type_of,
-                    &None,
-                    Some(item.clone()),
-                )?
-                .expect("Because we start with `Some`, we will end with `Some`");
-            }
         }
 
         Ok(Some(value))
-- 
2.43.0


From 56d3ed6df39e490746ff3d695ee14c6d060d24fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:20 +0000
Subject: [PATCH 28/38] fix: escape the keys and values of the query of an
 upstream's url

---
 src/core/http/query_encoder.rs    | 33 +++++++++++++++++++++++++------
 src/core/http/request_template.rs |  4 ++--
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/core/http/query_encoder.rs b/src/core/http/query_encoder.rs
index 208c7a9..6251d02 100644
--- a/src/core/http/query_encoder.rs
+++ b/src/core/http/query_encoder.rs
@@ -13,13 +13,14 @@ pub enum QueryEncoder {
 
 impl QueryEncoder {
     pub fn encode(&self, key: &str, raw_value: Option<ValueString>) -> String {
+        let key = escape(key);
         if let Some(value) = raw_value {
             match &value {
-                ValueString::Value(val) => self.encode_const_value(key, val),
-                ValueString::String(val) => format!("{}={}", key, val),
+                ValueString::Value(val) => self.encode_const_value(&key, val),
+                ValueString::String(val) => format!("{}={}", key, escape(val)),
             }
         } else {
-            key.to_owned()
+            key
         }
     }
     fn encode_const_value(&self, key: &str, value: &async_graphql::Value) -> String {
@@ -59,12 +60,32 @@ impl QueryEncoder {
     }
 }
 
+/// Escapes the characters that a server wouldn't read as a part of a key or
+/// value of the query. The rest of what has to be escaped in a query is escaped
+/// by Url::set_query
+pub fn escape(text: &str) -> String {
+    let mut escaped = String::with_capacity(text.len());
+    for char in text.chars() {
+        match char {
+            '%' => escaped.push_str("%25"),
+            '&' => escaped.push_str("%26"),
+            '=' => escaped.push_str("%3D"),
+            '+' => escaped.push_str("%2B"),
+            '\t' => escaped.push_str("%09"),
+            '\n' => escaped.push_str("%0A"),
+            '\r' => escaped.push_str("%0D"),
+            char => escaped.push(char),
+        }
+    }
+    escaped
+}
+
 pub fn convert_value(value: &async_graphql::Value) -> Option<String> {
     match value {
-        async_graphql::Value::String(s) => Some(s.to_string()),
-        async_graphql::Value::Number(n) => Some(n.to_string()),
+        async_graphql::Value::String(s) => Some(escape(s)),
+        async_graphql::Value::Number(n) => Some(escape(&n.to_string())),
         async_graphql::Value::Boolean(b) => Some(b.to_string()),
-        async_graphql::Value::Enum(e) => Some(e.to_string()),
+        async_graphql::Value::Enum(e) => Some(escape(e)),
         _ => None,
     }
 }
diff --git a/src/core/http/request_template.rs b/src/core/http/request_template.rs
index d77fb30..afb2a59 100644
--- a/src/core/http/request_template.rs
+++ b/src/core/http/request_template.rs
@@ -6,7 +6,7 @@ use http::header::{HeaderMap, HeaderValue};
 use tailcall_hasher::TailcallHasher;
 use url::Url;
 
-use super::query_encoder::QueryEncoder;
+use super::query_encoder::{escape, QueryEncoder};
 use crate::core::config::Encoding;
 use crate::core::endpoint::Endpoint;
 use crate::core::has_headers::HasHeaders;
@@ -68,7 +68,7 @@ impl RequestTemplate {
             .query_pairs()
             .filter_map(|(k, v)| if v.is_empty() { None } else { Some((k, v)) });
 
-        let qp_string = base_qp.map(|(k, v)| format!("{}={}", k, v));
+        let qp_string = base_qp.map(|(k, v)| format!("{}={}", escape(&k), escape(&v)));
         let qp_string = qp_string.chain(extra_qp).fold("".to_string(), |str, item| {
             if str.is_empty() {
                 item
-- 
2.43.0


From f2d9cfeb38bcb455e059da0b5adcd7b1b923202f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:20 +0000
Subject: [PATCH 29/38] fix: a query template is all of its text, not only its
 first piece

---
 src/core/http/request_template.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/core/http/request_template.rs b/src/core/http/request_template.rs
index afb2a59..d1c7f69 100644
--- a/src/core/http/request_template.rs
+++ b/src/core/http/request_template.rs
@@ -289,21 +289,23 @@ impl<A> Default for ValueStringEval<A> {
     }
 }
 
-impl<'a, A: PathValue> Eval<'a> for ValueStringEval<A> {
+impl<'a, A: PathValue + PathString> Eval<'a> for ValueStringEval<A> {
     type In = A;
     type Out = Option<ValueString<'a>>;
 
     fn eval(&self, mustache: &Mustache, in_value: &'a Self::In) -> Self::Out {
-        mustache
-            .segments()
-            .iter()
-            .filter_map(|segment| match segment {
-                Segment::Literal(text) => Some(ValueString::Value(Cow::Owned(
-                    async_graphql::Value::String(text.to_owned()),
-                ))),
-                Segment::Expression(parts) => in_value.raw_value(parts),
-            })
-            .next() // Return the first value that is found
+        let segments = mustache.segments();
+        if segments.len() > 1 {
+            // there is no single value, it's text
+            return Some(ValueString::String(Cow::Owned(mustache.render(in_value))));
+        }
+
+        match segments.first()? {
+            Segment::Literal(text) => Some(ValueString::Value(Cow::Owned(
+                async_graphql::Value::String(text.to_owned()),
+            ))),
+            Segment::Expression(parts) => in_value.raw_value(parts),
+        }
     }
 }
 
-- 
2.43.0


From 4554108ebefbbab3b116450eaea6c666996425bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:20 +0000
Subject: [PATCH 30/38] fix: enum values of arguments in templates were
 rendered as nothing

---
 src/core/path.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/path.rs b/src/core/path.rs
index 006450d..683fde2 100644
--- a/src/core/path.rs
+++ b/src/core/path.rs
@@ -45,6 +45,7 @@ fn convert_value(value: Cow<'_, async_graphql::Value>) -> Option<Cow<'_, str>> {
         Cow::Owned(async_graphql::Value::Boolean(b)) => Some(Cow::Owned(b.to_string())),
         Cow::Owned(async_graphql::Value::Object(map)) => Some(json!(map).to_string().into()),
         Cow::Owned(async_graphql::Value::List(list)) => Some(json!(list).to_string().into()),
+        Cow::Owned(async_graphql::Value::Enum(n)) => Some(Cow::Owned(n.to_string())),
         Cow::Borrowed(async_graphql::Value::String(s)) => Some(Cow::Borrowed(s.as_str())),
         Cow::Borrowed(async_graphql::Value::Number(n)) => Some(Cow::Owned(n.to_string())),
         Cow::Borrowed(async_graphql::Value::Boolean(b)) => Some(Cow::Owned(b.to_string())),
-- 
2.43.0


From 2b38bdca5684e68bc7851984f1322e23fb521088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:19 +0000
Subject: [PATCH 31/38] fix: keep cache-control ages of upstreams that do not
 fit into an i32

---
 src/core/http/request_context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/http/request_context.rs b/src/core/http/request_context.rs
index 23cd4be..bb4be06 100644
--- a/src/core/http/request_context.rs
+++ b/src/core/http/request_context.rs
@@ -91,7 +91,7 @@ impl RequestContext {
 
     pub fn set_cache_control(&self, cache_policy: CacheControl) {
         if let Some(max_age) = cache_policy.max_age {
-            self.set_min_max_age(max_age.as_secs() as i32);
+            self.set_min_max_age(i32::try_from(max_age.as_secs()).unwrap_or(i32::MAX));
         }
         self.set_cache_visibility(&cache_policy.cachability);
         if Some(Cachability::NoCache) == cache_policy.cachability {
-- 
2.43.0


From e320a29cc4d5060b2155ce679d08ebdc423719d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:19 +0000
Subject: [PATCH 32/38] fix: make equal upstream calls of mutations as often as
 they are asked for when batching is on

---
 src/core/ir/eval_io.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/ir/eval_io.rs b/src/core/ir/eval_io.rs
index f9ef59b..12be2a2 100644
--- a/src/core/ir/eval_io.rs
+++ b/src/core/ir/eval_io.rs
@@ -45,10 +45,13 @@ where
     Ctx: ResolverContextLike + Sync,
 {
     match io {
-        IO::Http { req_template, dl_id, hook, .. } => {
+        IO::Http { req_template, group_by, dl_id, hook, .. } => {
             let event_worker = &ctx.request_ctx.runtime.cmd_worker;
             let js_worker = &ctx.request_ctx.runtime.worker;
-            let eval_http = EvalHttp::new(ctx, req_template, dl_id);
+            // The data loader sends equal requests once, but the calls of a mutation have
+            // to be made as often as they are asked for.
+            let dl_id = dl_id.filter(|_| ctx.is_query() || group_by.is_some());
+            let eval_http = EvalHttp::new(ctx, req_template, &dl_id);
             let request = eval_http.init_request()?;
             let response = match (&event_worker, js_worker, hook) {
                 (Some(worker), Some(js_worker), Some(hook)) => {
-- 
2.43.0


From 37292f8a108e5969d5eaf501743c94d661c7c35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:19 +0000
Subject: [PATCH 33/38] fix: answer request bodies that are not UTF-8 instead
 of panicking

---
 src/core/http/request_handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/http/request_handler.rs b/src/core/http/request_handler.rs
index 562dc57..27dcc94 100644
--- a/src/core/http/request_handler.rs
+++ b/src/core/http/request_handler.rs
@@ -113,7 +113,7 @@ pub async fn graphql_request<T: DeserializeOwned + GraphQLRequestLike>(
         Err(err) => {
             tracing::error!(
                 "Failed to parse request: {}",
-                String::from_utf8(bytes.to_vec()).unwrap()
+                String::from_utf8_lossy(&bytes)
             );
 
             let mut response = async_graphql::Response::default();
-- 
2.43.0


From 0024731a8e94392f30f9e1731446653db5a00396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:19 +0000
Subject: [PATCH 34/38] fix: read application/graphql bodies with backslashes
 or characters that Debug escapes

---
 src/core/http/request_handler.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/core/http/request_handler.rs b/src/core/http/request_handler.rs
index 27dcc94..ec06794 100644
--- a/src/core/http/request_handler.rs
+++ b/src/core/http/request_handler.rs
@@ -4,6 +4,7 @@ use std::sync::Arc;
 
 use anyhow::Result;
 use async_graphql::ServerError;
+use hyper::body::Bytes;
 use hyper::header::{self, HeaderValue, CONTENT_TYPE};
 use hyper::http::request::Parts;
 use hyper::http::Method;
@@ -94,13 +95,10 @@ pub async fn graphql_request<T: DeserializeOwned + GraphQLRequestLike>(
     let bytes = if req.headers.get("content-type")
         == Some(&HeaderValue::from_str("application/graphql")?)
     {
-        let decoded_str = String::from_utf8_lossy(&bytes).clone();
-        let enriched_str = if decoded_str.contains("\\") {
-            format!(r#"{{"query": {} }}"#, decoded_str)
-        } else {
-            format!(r#"{{"query": {:?} }}"#, decoded_str)
-        };
-        hyper::body::to_bytes(enriched_str).await?
+        // the query may be a JSON string too
+        let query = serde_json::from_slice::<String>(&bytes)
+            .unwrap_or_else(|_| String::from_utf8_lossy(&bytes).into_owned());
+        Bytes::from(serde_json::to_vec(&serde_json::json!({ "query": query }))?)
     } else {
         bytes
     };
-- 
2.43.0


From 59f0b5e546100e75dd0ef985aa16cc65482e1478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:19 +0000
Subject: [PATCH 35/38] fix: pass the query on to REST endpoints and keep to
 paths below /api/

---
 src/core/http/request_handler.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/core/http/request_handler.rs b/src/core/http/request_handler.rs
index ec06794..86fe5cf 100644
--- a/src/core/http/request_handler.rs
+++ b/src/core/http/request_handler.rs
@@ -8,7 +8,7 @@ use hyper::body::Bytes;
 use hyper::header::{self, HeaderValue, CONTENT_TYPE};
 use hyper::http::request::Parts;
 use hyper::http::Method;
-use hyper::{Body, HeaderMap, Request, Response, StatusCode};
+use hyper::{Body, HeaderMap, Request, Response, StatusCode, Uri};
 use opentelemetry::trace::SpanKind;
 use opentelemetry_semantic_conventions::trace::{HTTP_REQUEST_METHOD, HTTP_ROUTE};
 use prometheus::{Encoder, ProtobufEncoder, TextEncoder, TEXT_FORMAT};
@@ -244,12 +244,28 @@ async fn handle_request_with_cors<T: DeserializeOwned + GraphQLRequestLike>(
     }
 }
 
+/// Is it the path of an endpoint i.e. something below the API_URL_PREFIX
+fn is_api_path(path: &str) -> bool {
+    path.strip_prefix(API_URL_PREFIX)
+        .is_some_and(|rest| rest.starts_with('/'))
+}
+
+/// The path and query of an endpoint, without the API_URL_PREFIX
+fn strip_api_prefix(uri: &Uri) -> String {
+    let path = uri.path();
+    let path = path.strip_prefix(API_URL_PREFIX).unwrap_or(path);
+    match uri.query() {
+        Some(query) => format!("{path}?{query}"),
+        None => path.to_string(),
+    }
+}
+
 async fn handle_rest_apis(
     mut request: Request<Body>,
     app_ctx: Arc<AppContext>,
     req_counter: &mut RequestCounter,
 ) -> Result<Response<Body>> {
-    *request.uri_mut() = request.uri().path().replace(API_URL_PREFIX, "").parse()?;
+    *request.uri_mut() = strip_api_prefix(request.uri()).parse()?;
     let req_ctx = Arc::new(create_request_context(&request, app_ctx.as_ref()));
     if let Some(p_request) = app_ctx.endpoints.matches(&request) {
         let http_route = format!("{API_URL_PREFIX}{}", p_request.path.as_str());
@@ -288,7 +304,7 @@ async fn handle_request_inner<T: DeserializeOwned + GraphQLRequestLike>(
     app_ctx: Arc<AppContext>,
     req_counter: &mut RequestCounter,
 ) -> Result<Response<Body>> {
-    if req.uri().path().starts_with(API_URL_PREFIX) {
+    if is_api_path(req.uri().path()) {
         return handle_rest_apis(req, app_ctx, req_counter).await;
     }
 
-- 
2.43.0


From f240e80c1e93c1f7e9daebdb08e6cbc9527658ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:20 +0000
Subject: [PATCH 36/38] fix: escape the query for a GraphQL upstream as JSON

---
 src/core/document.rs                 | 7 +++++++
 src/core/graphql/request_template.rs | 5 +++--
 src/core/ir/eval_context.rs          | 6 +++---
 src/core/jit/transform/graphql.rs    | 6 +++---
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/core/document.rs b/src/core/document.rs
index 933c72c..d4ce32b 100644
--- a/src/core/document.rs
+++ b/src/core/document.rs
@@ -80,6 +80,13 @@ fn get_formatted_docs(docs: Option<String>, indent: usize) -> String {
     formatted_docs
 }
 
+/// Escapes a part of a GraphQL document so that it can be a part of a string in
+/// JSON
+pub fn escape_json(text: &str) -> String {
+    let quoted = serde_json::Value::from(text).to_string();
+    quoted[1..quoted.len() - 1].to_string()
+}
+
 pub fn print_directives<'a, T>(directives: impl Iterator<Item = &'a T>) -> String
 where
     &'a T: Into<Directive<'a>> + 'a,
diff --git a/src/core/graphql/request_template.rs b/src/core/graphql/request_template.rs
index 4d8135d..ece2ff0 100644
--- a/src/core/graphql/request_template.rs
+++ b/src/core/graphql/request_template.rs
@@ -9,6 +9,7 @@ use tailcall_hasher::TailcallHasher;
 use tracing::info;
 
 use crate::core::config::{GraphQLOperationType, KeyValue};
+use crate::core::document::escape_json;
 use crate::core::has_headers::HasHeaders;
 use crate::core::helpers::headers::MustacheHeaders;
 use crate::core::http::Method::POST;
@@ -132,7 +133,7 @@ impl RequestTemplate {
                     if value.is_empty() {
                         None
                     } else {
-                        Some(format!(r#"{}: {}"#, k, value.escape_default()))
+                        Some(format!(r#"{}: {}"#, k, escape_json(&value)))
                     }
                 })
                 .collect::<Vec<_>>()
@@ -152,7 +153,7 @@ impl RequestTemplate {
                 let operation = operation.to_mut();
 
                 operation.push(' ');
-                operation.push_str(&directives.escape_default().to_string());
+                operation.push_str(&escape_json(&directives));
             }
         }
 
diff --git a/src/core/ir/eval_context.rs b/src/core/ir/eval_context.rs
index 89c03d8..012cf9c 100644
--- a/src/core/ir/eval_context.rs
+++ b/src/core/ir/eval_context.rs
@@ -6,7 +6,7 @@ use async_graphql::{ServerError, Value};
 use http::header::HeaderMap;
 
 use super::{GraphQLOperationContext, RelatedFields, ResolverContextLike, SelectionField};
-use crate::core::document::print_directives;
+use crate::core::document::{escape_json, print_directives};
 use crate::core::http::RequestContext;
 
 // TODO: rename to ResolverContext
@@ -158,7 +158,7 @@ fn format_selection_field(
 
         if !directives.is_empty() {
             output.push(' ');
-            output.push_str(&directives.escape_default().to_string());
+            output.push_str(&escape_json(&directives));
         }
     }
 
@@ -183,7 +183,7 @@ fn format_selection_field_arguments(field: &SelectionField) -> Cow<'static, str>
         .collect::<Vec<_>>()
         .join(",");
 
-    Cow::Owned(format!("({})", args.escape_default()))
+    Cow::Owned(format!("({})", escape_json(&args)))
 }
 
 // TODO: this is the same code as src/json/json_like.rs::get_path
diff --git a/src/core/jit/transform/graphql.rs b/src/core/jit/transform/graphql.rs
index d15b9f3..8d39017 100644
--- a/src/core/jit/transform/graphql.rs
+++ b/src/core/jit/transform/graphql.rs
@@ -6,7 +6,7 @@ use std::marker::PhantomData;
 
 use tailcall_valid::Valid;
 
-use crate::core::document::print_directives;
+use crate::core::document::{escape_json, print_directives};
 use crate::core::ir::model::{IO, IR};
 use crate::core::jit::{Field, OperationPlan};
 use crate::core::json::JsonLikeOwned;
@@ -130,7 +130,7 @@ fn format_selection_field<A: Display + JsonLikeOwned>(
 
         if !directives.is_empty() {
             output.push(' ');
-            output.push_str(&directives.escape_default().to_string());
+            output.push_str(&escape_json(&directives));
         }
     }
 
@@ -154,6 +154,6 @@ fn format_selection_field_arguments<A: Display>(field: &Field<A>) -> Cow<'static
     if arguments.is_empty() {
         Cow::Borrowed("")
     } else {
-        Cow::Owned(format!("({})", arguments.escape_default()))
+        Cow::Owned(format!("({})", escape_json(&arguments)))
     }
 }
-- 
2.43.0


From 2540566b36be0101e560d035ab0a0e55aef1b8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:20 +0000
Subject: [PATCH 37/38] fix: send the values of variables in the selection for
 a GraphQL upstream

---
 src/core/jit/transform/graphql.rs        |  2 +-
 src/core/jit/transform/input_resolver.rs | 21 +++++++++++++++------
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/core/jit/transform/graphql.rs b/src/core/jit/transform/graphql.rs
index 8d39017..13ad8e5 100644
--- a/src/core/jit/transform/graphql.rs
+++ b/src/core/jit/transform/graphql.rs
@@ -58,7 +58,7 @@ impl<A: Display + Debug + JsonLikeOwned + Clone> Transform for GraphQL<A> {
     }
 }
 
-fn format_selection_set<'a, A: 'a + Display + JsonLikeOwned>(
+pub(super) fn format_selection_set<'a, A: 'a + Display + JsonLikeOwned>(
     selection_set: impl Iterator<Item = &'a Field<A>>,
     interfaces: &HashSet<String>,
     is_parent_interface: bool,
diff --git a/src/core/jit/transform/input_resolver.rs b/src/core/jit/transform/input_resolver.rs
index 63fd7fa..f75a159 100644
--- a/src/core/jit/transform/input_resolver.rs
+++ b/src/core/jit/transform/input_resolver.rs
@@ -1,9 +1,12 @@
+use std::collections::HashSet;
 use std::fmt::Display;
 
 use async_graphql_value::{ConstValue, Value};
 
 use super::super::{Arg, Field, OperationPlan, ResolveInputError, Variables};
+use super::graphql::format_selection_set;
 use crate::core::blueprint::Index;
+use crate::core::graphql::Selection;
 use crate::core::ir::model::IO;
 use crate::core::json::{JsonLikeOwned, JsonObjectLike};
 use crate::core::Type;
@@ -73,7 +76,8 @@ where
 
         // adjust the pre-computed values in selection set like graphql query for
         // @graphql directive.
-        Self::resolve_graphql_selection_set(&mut selection, variables);
+        let interfaces = self.plan.interfaces.unwrap_or_default();
+        Self::resolve_graphql_selection_set(&mut selection, &interfaces);
 
         Ok(OperationPlan {
             root_name: self.plan.root_name.to_string(),
@@ -91,22 +95,27 @@ where
         })
     }
 
-    // resolves the variables in selection set mustache template for graphql query.
+    // renders the selection set for graphql query again since the arguments in it
+    // have their values by now instead of the variables.
     fn resolve_graphql_selection_set(
         base_field: &mut [Field<Output>],
-        variables: &Variables<Output>,
+        interfaces: &HashSet<String>,
     ) {
         for field in base_field.iter_mut() {
             if let Some(ir) = field.ir.as_mut() {
                 ir.modify_io(&mut |io| {
                     if let IO::GraphQL { req_template, .. } = io {
-                        if let Some(selection) = req_template.selection.take() {
-                            req_template.selection = Some(selection.resolve(variables));
+                        if let Some(selection) = format_selection_set(
+                            field.selection.iter(),
+                            interfaces,
+                            interfaces.contains(field.type_of.name()),
+                        ) {
+                            req_template.selection = Some(Selection::Resolved(selection));
                         }
                     }
                 });
             }
-            Self::resolve_graphql_selection_set(field.selection.as_mut(), variables);
+            Self::resolve_graphql_selection_set(field.selection.as_mut(), interfaces);
         }
     }
 
-- 
2.43.0


From e3e69c40a50623a8f201b3ba181ba0760b4a666c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:20 +0000
Subject: [PATCH 38/38] fix: do not ask a GraphQL upstream for fields that have
 their own resolver

---
 src/core/jit/transform/graphql.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/core/jit/transform/graphql.rs b/src/core/jit/transform/graphql.rs
index 13ad8e5..cefea9d 100644
--- a/src/core/jit/transform/graphql.rs
+++ b/src/core/jit/transform/graphql.rs
@@ -58,6 +58,19 @@ impl<A: Display + Debug + JsonLikeOwned + Clone> Transform for GraphQL<A> {
     }
 }
 
+/// Checks if the value is resolved on its own and so it is not a part of what the
+/// upstream of the parent answers
+fn has_own_value(ir: &IR) -> bool {
+    match ir {
+        IR::IO(_) | IR::Cache(_) | IR::Dynamic(_) | IR::Entity(_) | IR::Service(_) => true,
+        IR::ContextPath(_) => false,
+        IR::Path(ir, _) | IR::Protect(_, ir) | IR::Discriminate(_, ir) => has_own_value(ir),
+        IR::Map(map) => has_own_value(&map.input),
+        IR::Pipe(first, second) => has_own_value(first) || has_own_value(second),
+        IR::Merge(irs) => irs.iter().any(has_own_value),
+    }
+}
+
 pub(super) fn format_selection_set<'a, A: 'a + Display + JsonLikeOwned>(
     selection_set: impl Iterator<Item = &'a Field<A>>,
     interfaces: &HashSet<String>,
@@ -67,7 +80,7 @@ pub(super) fn format_selection_set<'a, A: 'a + Display + JsonLikeOwned>(
     let mut normal_fields = vec![];
     let mut is_typename_requested = false;
     let set = selection_set
-        .filter(|field| !matches!(&field.ir, Some(IR::IO(_)) | Some(IR::Dynamic(_))))
+        .filter(|field| !field.ir.as_ref().is_some_and(has_own_value))
         .map(|field| {
             // handle @modify directive scenario.
             let field_name = if let Some(IR::ContextPath(data)) = &field.ir {
-- 
2.43.0

