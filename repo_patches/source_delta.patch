From 2a8ba4d260591293b4094f3aa3804a34431762c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:38 +0000
Subject: [PATCH 01/62] fix: ShardedSyncCache::pop must pop from one of the
 non-empty shards it selected

---
 common/cache/src/sharded_sync_cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/cache/src/sharded_sync_cache.rs b/common/cache/src/sharded_sync_cache.rs
index f6174ab..2da95b5 100644
--- a/common/cache/src/sharded_sync_cache.rs
+++ b/common/cache/src/sharded_sync_cache.rs
@@ -95,7 +95,7 @@ where
         } else {
             let shard_len = none_empty_shard.len();
             let index = rand::thread_rng().next_u64() as usize % shard_len;
-            self.shard.get(index)?.pop()
+            none_empty_shard.get(index)?.pop()
         }
     }
 
-- 
2.43.0


From 08550543e0e032a3b66eee14f34465ac9906242a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:38 +0000
Subject: [PATCH 02/62] fix: ShardedAsyncCache::pop returns None only when
 every shard is empty

---
 common/cache/src/sharded_async_cache.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/common/cache/src/sharded_async_cache.rs b/common/cache/src/sharded_async_cache.rs
index 04f80ea..2b288bb 100644
--- a/common/cache/src/sharded_async_cache.rs
+++ b/common/cache/src/sharded_async_cache.rs
@@ -72,8 +72,15 @@ where
     }
 
     async fn pop(&self) -> Option<(Self::K, Self::V)> {
-        let index = rand::thread_rng().next_u64() as usize % self.shard.len();
-        self.shard.get(index)?.lock().await.pop()
+        let shard_len = self.shard.len();
+        let start = rand::thread_rng().next_u64() as usize % shard_len;
+        for i in 0..shard_len {
+            let item = self.shard[(start + i) % shard_len].lock().await.pop();
+            if item.is_some() {
+                return item;
+            }
+        }
+        None
     }
 
     async fn set_capacity(&self, capacity: NonZeroUsize) {
-- 
2.43.0


From dab1910d4366de20e810fb6b3f2b11a5ba6851de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:40 +0000
Subject: [PATCH 03/62] fix: RateBucket refill product could overflow

tokens * refill wrapped (or panicked with overflow checks) once several
intervals had passed on a bucket with a very large refill, so the balance could
drop instead of growing; saturate like the addition around it.
---
 common/limiter_bucket/src/rate_bucket.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/limiter_bucket/src/rate_bucket.rs b/common/limiter_bucket/src/rate_bucket.rs
index 72cb477..0ad6001 100644
--- a/common/limiter_bucket/src/rate_bucket.rs
+++ b/common/limiter_bucket/src/rate_bucket.rs
@@ -231,7 +231,9 @@ impl RateBucket {
     fn update_critical(&self, critical: &mut MutexGuard<Critical>) {
         if let Some((tokens, deadline)) = calculate_drain(critical.deadline, self.interval) {
             critical.deadline = deadline;
-            critical.balance = critical.balance.saturating_add(tokens * self.refill);
+            critical.balance = critical
+                .balance
+                .saturating_add(tokens.saturating_mul(self.refill));
 
             if critical.balance > self.max {
                 critical.balance = self.max;
-- 
2.43.0


From 7e0eb002d28c792b35fc4b02be4340552db90091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:04 +0000
Subject: [PATCH 04/62] fix: U64Average divided by one observation too many

total / (count + 1) guarded against an empty window but under-reported every
non-empty one (a single observation of 10 was reported as 5).
---
 common/metrics/src/average.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/metrics/src/average.rs b/common/metrics/src/average.rs
index 85cb3e1..43c02df 100644
--- a/common/metrics/src/average.rs
+++ b/common/metrics/src/average.rs
@@ -22,7 +22,7 @@ impl U64Average {
         let total = self.total.load(Ordering::Relaxed);
 
         self.clear();
-        total / (count + 1)
+        total.checked_div(count).unwrap_or(0)
     }
 
     fn clear(&self) {
-- 
2.43.0


From 9e747b20faabfe5684cf7d6312efc52699004441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:55 +0000
Subject: [PATCH 05/62] fix: BloomFilter::with_data widened filters of fewer
 than 64 bits

The byte length was rounded up to a power of two with the bit minimum of 8, so
the 1, 2 or 4 bytes of a small filter were loaded as 8 bytes with a larger mask
and keys that had been inserted were reported absent.
---
 common/utils/src/bloom_filter.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/common/utils/src/bloom_filter.rs b/common/utils/src/bloom_filter.rs
index 10c1f4e..3b7e7ee 100644
--- a/common/utils/src/bloom_filter.rs
+++ b/common/utils/src/bloom_filter.rs
@@ -35,11 +35,8 @@ impl BloomFilter {
     /// Similar to `new()`
     pub fn with_data(data: &[u8]) -> Self {
         let mut b = data.to_vec();
-        let l = Self::pow2(b.len() as u64);
-        if l != b.len() as u64 {
-            b.resize(l as usize, 0);
-        }
-        let m = l << 3;
+        let m = Self::pow2((b.len() as u64) << 3);
+        b.resize((m >> 3) as usize, 0);
 
         Self { b, mask: m - 1 }
     }
-- 
2.43.0


From 713eca3db18b9c70f145150b4de6106a4da0ac3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:35 +0000
Subject: [PATCH 06/62] fix: SecurityConfig::check reported nothing when the
 TLS settings were bad

---
 config/src/tskv/security_config.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/config/src/tskv/security_config.rs b/config/src/tskv/security_config.rs
index 7a71dd9..e63389e 100644
--- a/config/src/tskv/security_config.rs
+++ b/config/src/tskv/security_config.rs
@@ -21,9 +21,9 @@ impl CheckConfig for SecurityConfig {
         }
 
         if ret.is_empty() {
-            Some(ret)
-        } else {
             None
+        } else {
+            Some(ret)
         }
     }
 }
-- 
2.43.0


From 6420a8bb1f8f493b5ad4ae801344343e3b79fe6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:35 +0000
Subject: [PATCH 07/62] fix: StorageConfig::check rejected every
 tsm_meta_compress

---
 config/src/tskv/storage_config.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/config/src/tskv/storage_config.rs b/config/src/tskv/storage_config.rs
index 8162767..24b0a15 100644
--- a/config/src/tskv/storage_config.rs
+++ b/config/src/tskv/storage_config.rs
@@ -233,8 +233,8 @@ impl CheckConfig for StorageConfig {
         }
 
         if self.tsm_meta_compress != "zstd"
-            || self.tsm_meta_compress != "snappy"
-            || self.tsm_meta_compress != "null"
+            && self.tsm_meta_compress != "snappy"
+            && self.tsm_meta_compress != "null"
         {
             ret.add_error(CheckConfigItemResult {
                 config: config_name,
-- 
2.43.0


From ac417b69b9f044973d8adbd178d714d47ebba6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:57 +0000
Subject: [PATCH 08/62] fix: CnosByteNumber::format_bytes wrote sizes that read
 back as another number

---
 common/utils/src/byte_nums.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/common/utils/src/byte_nums.rs b/common/utils/src/byte_nums.rs
index c65970d..f942ff1 100644
--- a/common/utils/src/byte_nums.rs
+++ b/common/utils/src/byte_nums.rs
@@ -21,9 +21,14 @@ impl CnosByteNumber {
     }
 
     pub fn format_bytes(bytes: u64) -> String {
-        Byte::from_u64(bytes)
+        let text = Byte::from_u64(bytes)
             .get_appropriate_unit(UnitType::Both)
-            .to_string()
+            .to_string();
+        // A unit that cannot carry the number exactly must not change it.
+        match Self::parse_bytes(&text) {
+            Ok(parsed) if parsed == bytes => text,
+            _ => bytes.to_string(),
+        }
     }
     pub fn parse_bytes(s: &str) -> Result<u64, ParseError> {
         let mut str = s.to_string();
-- 
2.43.0


From be9998edbd35ee84aa03f7ba4e0164ee63c1909c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:25 +0000
Subject: [PATCH 09/62] fix: ErrorResponse wrote quotes and control characters
 unescaped into its JSON

---
 common/http_protocol/src/response.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/common/http_protocol/src/response.rs b/common/http_protocol/src/response.rs
index 36234a2..68f79fa 100644
--- a/common/http_protocol/src/response.rs
+++ b/common/http_protocol/src/response.rs
@@ -34,11 +34,34 @@ impl Display for ErrorResponse {
         write!(
             f,
             "{{\"error_code\": \"{}\", \"error_message\": \"{}\"}}",
-            self.error_code, self.error_message
+            JsonStr(&self.error_code),
+            JsonStr(&self.error_message)
         )
     }
 }
 
+/// Writes the contents of a JSON string, escaped.
+struct JsonStr<'a>(&'a str);
+
+impl Display for JsonStr<'_> {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        use std::fmt::Write;
+
+        for c in self.0.chars() {
+            match c {
+                '"' => f.write_str("\\\"")?,
+                '\\' => f.write_str("\\\\")?,
+                '\n' => f.write_str("\\n")?,
+                '\r' => f.write_str("\\r")?,
+                '\t' => f.write_str("\\t")?,
+                c if c < ' ' => write!(f, "\\u{:04x}", c as u32)?,
+                c => f.write_char(c)?,
+            }
+        }
+        Ok(())
+    }
+}
+
 impl ErrorCode for ErrorResponse {
     fn code(&self) -> &'static str {
         Box::leak(self.error_code.clone().into_boxed_str())
-- 
2.43.0


From 4c0bc1c386b54e03c973f8a02cb860ffbaf5671d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:57 +0000
Subject: [PATCH 10/62] fix: sqllogicaltests read HTTP_HOST and HTTP_PORT
 instructions as a switch to HTTP

---
 query_server/sqllogicaltests/src/db_request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/query_server/sqllogicaltests/src/db_request.rs b/query_server/sqllogicaltests/src/db_request.rs
index 7669f1d..17e4edb 100644
--- a/query_server/sqllogicaltests/src/db_request.rs
+++ b/query_server/sqllogicaltests/src/db_request.rs
@@ -132,7 +132,7 @@ impl CnosdbRequest {
                     protocol,
                     RequestBody::OpenTSDBJson(block),
                 ));
-            } else if instruction_match("HTTP", line) {
+            } else if instruction_match("HTTP", line) && !instruction_match("HTTP_", line) {
                 protocol = Protocol::Http;
             } else if instruction_match("", line) {
                 options.apply_instruction(line)
-- 
2.43.0


From 279235bebc1dd4e0a48ccbedb8d14b4423ac8bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:57 +0000
Subject: [PATCH 11/62] fix: sqllogicaltests HTTP requests left out the
 PASSWORD instruction

---
 query_server/sqllogicaltests/src/instance.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/query_server/sqllogicaltests/src/instance.rs b/query_server/sqllogicaltests/src/instance.rs
index ad090db..ad49f6f 100644
--- a/query_server/sqllogicaltests/src/instance.rs
+++ b/query_server/sqllogicaltests/src/instance.rs
@@ -201,7 +201,7 @@ impl CnosdbClient {
     fn build_http_request(&self, url: Url, body: impl Into<Body>) -> Result<Request> {
         let request = Client::default()
             .request(Method::POST, url)
-            .basic_auth(self.username.as_str(), None::<&str>)
+            .basic_auth(self.username.as_str(), Some(self.password.as_str()))
             .body(body)
             .header(reqwest::header::ACCEPT, "text/csv")
             .build()?;
-- 
2.43.0


From 0824afa92ad19d73869a63404f76bb530b9bc098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:09 +0000
Subject: [PATCH 12/62] fix: sqllogicaltests took a database named shard or
 replica for an option

---
 query_server/sqllogicaltests/src/instance.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/query_server/sqllogicaltests/src/instance.rs b/query_server/sqllogicaltests/src/instance.rs
index ad49f6f..a69451e 100644
--- a/query_server/sqllogicaltests/src/instance.rs
+++ b/query_server/sqllogicaltests/src/instance.rs
@@ -118,8 +118,8 @@ impl CreateDatabaseOptions {
         if re.is_match(sql) {
             let sql_lower = sql.to_ascii_lowercase();
             if let Some(with_idx) = sql_lower.find(" with ") {
-                let contains_shard = sql_lower.contains(" shard ");
-                let contains_replica = sql_lower.contains(" replica ");
+                let contains_shard = sql_lower[with_idx..].contains(" shard ");
+                let contains_replica = sql_lower[with_idx..].contains(" replica ");
                 drop(sql_lower);
 
                 let mut buf = sql[..with_idx + 6].to_string();
-- 
2.43.0


From 6363b8fb2d28df06a70b4196188c46739ff7b8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:48 +0000
Subject: [PATCH 13/62] fix: DELETE left flushed rows behind with null fields

A delete leaves tombstones per column; decode_pages only looked at the
all-fields tombstones when it decided which rows to drop, so the rows of an
already flushed chunk were returned with their time and tags and null fields.
---
 tskv/src/tsm/reader.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tskv/src/tsm/reader.rs b/tskv/src/tsm/reader.rs
index bd120bf..c3a5d0b 100644
--- a/tskv/src/tsm/reader.rs
+++ b/tskv/src/tsm/reader.rs
@@ -513,7 +513,13 @@ pub fn decode_pages(
                 reason: "time field not found".to_string(),
             })?;
         let (time_array, time_range, time) = get_time_page_meta(time_page)?;
-        let filters = tomb.get_all_fields_excluded_time_range(&time_range);
+        // Deleted rows have their time column excluded.
+        let mut filters = tomb.get_all_fields_excluded_time_range(&time_range);
+        filters.extend(tomb.get_column_overlapped_time_ranges(
+            series_id,
+            time_page.meta.column.id,
+            &time_range,
+        ));
         let time_null_bits = {
             if filters.is_empty() {
                 None
-- 
2.43.0


From 5440779a8cafee990e4911d6981f84c9cc8065f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:00 +0000
Subject: [PATCH 14/62] fix: queries kept reading the old data after a vnode
 snapshot was applied

VnodeStorage is cloned; apply_snapshot replaced the ts_family and the index of
the raft storage's clone only, while queries, flush and compaction go through
the clone kept in the version set.
---
 tskv/src/database.rs    | 10 ++++++++++
 tskv/src/vnode_store.rs | 16 ++++++++++++++--
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/tskv/src/database.rs b/tskv/src/database.rs
index 6aaaa88..61ae034 100644
--- a/tskv/src/database.rs
+++ b/tskv/src/database.rs
@@ -185,6 +185,16 @@ impl Database {
         Ok(ts_family)
     }
 
+    pub fn share_tsfamily_index(
+        &mut self,
+        tf_id: VnodeId,
+        ts_family: Arc<RwLock<TseriesFamily>>,
+        ts_index: Arc<RwLock<TSIndex>>,
+    ) {
+        self.ts_families.insert(tf_id, ts_family);
+        self.ts_indexes.insert(tf_id, ts_index);
+    }
+
     pub fn del_tsfamily_index(&mut self, tf_id: u32) {
         self.ts_families.remove(&tf_id);
         self.ts_indexes.remove(&tf_id);
diff --git a/tskv/src/vnode_store.rs b/tskv/src/vnode_store.rs
index 3a8c255..98617fa 100644
--- a/tskv/src/vnode_store.rs
+++ b/tskv/src/vnode_store.rs
@@ -205,8 +205,20 @@ impl VnodeStorage {
 
         let ts_index = db_wlock.rebuild_tsfamily_index(ts_family.clone()).await?;
 
-        self.ts_index = ts_index;
-        self.ts_family = ts_family;
+        // Queries and background jobs go through other clones of this vnode, so put
+        // the new data into what they all share.
+        db_wlock.share_tsfamily_index(self.id, self.ts_family.clone(), self.ts_index.clone());
+        drop(db_wlock);
+        {
+            let mut old = self.ts_index.write().await;
+            let mut new = ts_index.write().await;
+            std::mem::swap(&mut *old, &mut *new);
+        }
+        {
+            let mut old = self.ts_family.write().await;
+            let mut new = ts_family.write().await;
+            std::mem::swap(&mut *old, &mut *new);
+        }
 
         Ok(())
     }
-- 
2.43.0


From bbad9fa2a410892a5896b16c006d3a9160568cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 15/62] fix: DELETE ignored all but the last of several tag or
 time conditions

In 'tag = x AND time > a AND time < b' the conditions on time are not adjacent
on the stack of conditions when they are combined, and only the last one was
used: rows outside the selection were deleted.
---
 common/models/src/predicate/transformation.rs | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/common/models/src/predicate/transformation.rs b/common/models/src/predicate/transformation.rs
index 5a47d64..58dc09c 100644
--- a/common/models/src/predicate/transformation.rs
+++ b/common/models/src/predicate/transformation.rs
@@ -402,14 +402,22 @@ impl DeleteSelectionExpressionToDomainsVisitorContext {
     }
 
     /// Returns two column domains: tag and time.
-    pub fn into_tag_and_time_domains(mut self) -> (ColumnDomains<String>, ColumnDomains<String>) {
+    ///
+    /// Conditions are only ever combined by AND, so whatever is still on a stack
+    /// (conditions that were not adjacent to another one of their kind) applies.
+    pub fn into_tag_and_time_domains(self) -> (ColumnDomains<String>, ColumnDomains<String>) {
+        let intersect_all = |stack: VecDeque<ColumnDomains<String>>| {
+            stack
+                .into_iter()
+                .reduce(|mut domains, other| {
+                    domains.intersect(&other);
+                    domains
+                })
+                .unwrap_or_else(ColumnDomains::all)
+        };
         (
-            self.tag_domain_stack
-                .pop_back()
-                .unwrap_or(ColumnDomains::all()),
-            self.time_domain_stack
-                .pop_back()
-                .unwrap_or(ColumnDomains::all()),
+            intersect_all(self.tag_domain_stack),
+            intersect_all(self.time_domain_stack),
         )
     }
 }
-- 
2.43.0


From ebcbee43e1f17ba48742e41e749d2429033d2ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:01 +0000
Subject: [PATCH 16/62] fix: DELETE with a condition that is never true deleted
 everything

A comparison with NULL and a condition without columns (WHERE 1 = 2) put nothing
on the stack of conditions, which was then taken for no condition at all.
---
 common/models/src/predicate/transformation.rs | 40 ++++++++++++++-----
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/common/models/src/predicate/transformation.rs b/common/models/src/predicate/transformation.rs
index 58dc09c..0cb7187 100644
--- a/common/models/src/predicate/transformation.rs
+++ b/common/models/src/predicate/transformation.rs
@@ -508,6 +508,8 @@ impl TreeNodeVisitor for DeleteSelectionExpressionToDomainsVisitor<'_> {
                     },
                     // The stack is domain, pop it, and generate a new domain
                     Operator::And => {
+                        Self::push_constant_condition(self.ctx, left)?;
+                        Self::push_constant_condition(self.ctx, right)?;
                         self.ctx.try_intersect_top2_domains();
                     }
                     _ => {
@@ -534,6 +536,7 @@ impl DeleteSelectionExpressionToDomainsVisitor<'_> {
         expr: &Expr,
     ) -> Result<(ColumnDomains<String>, ColumnDomains<String>)> {
         let mut ctx = DeleteSelectionExpressionToDomainsVisitorContext::default();
+        Self::push_constant_condition(&mut ctx, expr)?;
         expr.visit(&mut DeleteSelectionExpressionToDomainsVisitor { ctx: &mut ctx })?;
         Ok(ctx.into_tag_and_time_domains())
     }
@@ -580,16 +583,35 @@ impl DeleteSelectionExpressionToDomainsVisitor<'_> {
         op: &Operator,
         right: &Expr,
     ) {
-        if let Some(nsc) = NormalizedSimpleComparison::of(left.clone(), *op, right.clone()) {
-            let domains = if nsc.is_orderable() {
-                Self::nsc_to_string_domains_with_range(&nsc)
-            } else {
-                Self::nsc_to_domains_with_equtable(&nsc)
-            };
-            ctx.push_back(domains, nsc.column.name == TIME_FIELD_NAME);
-        } else {
-            println!("push nothing!");
+        match NormalizedSimpleComparison::of(left.clone(), *op, right.clone()) {
+            Some(nsc) if !nsc.value.is_null() => {
+                let domains = if nsc.is_orderable() {
+                    Self::nsc_to_string_domains_with_range(&nsc)
+                } else {
+                    Self::nsc_to_domains_with_equtable(&nsc)
+                };
+                ctx.push_back(domains, nsc.column.name == TIME_FIELD_NAME);
+            }
+            // A comparison with NULL is not true for any row.
+            _ => ctx.push_back(ColumnDomains::none(), true),
+        }
+    }
+
+    /// A condition without columns (e.g. `1 = 2`, already evaluated) selects all rows or none.
+    fn push_constant_condition(
+        ctx: &mut DeleteSelectionExpressionToDomainsVisitorContext,
+        expr: &Expr,
+    ) -> Result<()> {
+        match expr {
+            Expr::BinaryExpr(_) | Expr::Literal(ScalarValue::Boolean(Some(true))) => {}
+            Expr::Literal(_) => ctx.push_back(ColumnDomains::none(), true),
+            other => {
+                return Err(DataFusionError::NotImplemented(format!(
+                    "{other} in delete statement"
+                )))
+            }
         }
+        Ok(())
     }
 }
 
-- 
2.43.0


From d26426d6374df212bba008afe0f1765de44a333b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:52 +0000
Subject: [PATCH 17/62] fix: a replica built from a snapshot brought deleted
 rows back

---
 coordinator/src/raft/mod.rs  | 13 +++++++++++++
 tskv/src/tsfamily/version.rs | 17 +++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/coordinator/src/raft/mod.rs b/coordinator/src/raft/mod.rs
index 140ccd5..199dd2f 100644
--- a/coordinator/src/raft/mod.rs
+++ b/coordinator/src/raft/mod.rs
@@ -125,6 +125,18 @@ impl TskvEngineStorage {
                 }
                 .build());
             }
+
+            // Without the tombstones what has been deleted from the file would be back;
+            // a file that does not exist is downloaded as an empty one.
+            let tombstone = dir.join(info.relative_tombstone_path());
+            let src_tombstone = src_dir
+                .join(info.relative_tombstone_path())
+                .to_string_lossy()
+                .to_string();
+            Self::download_file(&src_tombstone, &tombstone, client).await?;
+            if LocalFileSystem::get_file_length(tombstone.to_string_lossy().to_string()) == 0 {
+                tokio::fs::remove_file(&tombstone).await.context(IoSnafu)?;
+            }
         }
 
         Ok(())
@@ -157,6 +169,7 @@ impl TskvEngineStorage {
             let data = crate::errors::decode_grpc_response(received)?;
             file.write_all(&data).await.context(IoSnafu)?;
         }
+        file.flush().await.context(IoSnafu)?;
 
         Ok(())
     }
diff --git a/tskv/src/tsfamily/version.rs b/tskv/src/tsfamily/version.rs
index 9d64e54..2343e06 100644
--- a/tskv/src/tsfamily/version.rs
+++ b/tskv/src/tsfamily/version.rs
@@ -14,6 +14,8 @@ use trace::error;
 use utils::BloomFilter;
 
 use crate::error::{RecordFileDecodeSnafu, RecordFileEncodeSnafu, TskvResult};
+use crate::file_system::async_filesystem::LocalFileSystem;
+use crate::file_system::FileSystem;
 use crate::kv_option::{StorageOptions, DELTA_PATH, TSM_PATH};
 use crate::tsfamily::column_file::ColumnFile;
 use crate::tsfamily::level_info::LevelInfo;
@@ -345,6 +347,12 @@ impl CompactMeta {
         }
     }
 
+    /// Relative path of the file which keeps what has been deleted from this file, if anything.
+    pub fn relative_tombstone_path(&self) -> PathBuf {
+        let base_dir = PathBuf::from(if self.is_delta { DELTA_PATH } else { TSM_PATH });
+        file_utils::make_tsm_tombstone_file(base_dir, self.file_id)
+    }
+
     pub async fn rename_file(
         &self,
         old_dir: &Path,
@@ -367,6 +375,15 @@ impl CompactMeta {
         trace::info!("rename file from {:?} to {:?}", &old_name, &new_name);
         file_utils::rename(&old_name, &new_name).await?;
 
+        // What has been deleted from the file belongs to it.
+        if let (Some(old_dir), Some(new_dir)) = (old_name.parent(), new_name.parent()) {
+            let old_tombstone = file_utils::make_tsm_tombstone_file(old_dir, old_id);
+            if LocalFileSystem::try_exists(&old_tombstone) {
+                let new_tombstone = file_utils::make_tsm_tombstone_file(new_dir, new_id);
+                file_utils::rename(&old_tombstone, &new_tombstone).await?;
+            }
+        }
+
         Ok(new_name)
     }
 }
-- 
2.43.0


From eb01c2361ac66b1c235d426c8ac17c10c70c6b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:44 +0000
Subject: [PATCH 18/62] fix: queries preferred compacted values over newer ones
 not compacted yet

---
 tskv/src/reader/mod.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/tskv/src/reader/mod.rs b/tskv/src/reader/mod.rs
index 45810b7..aa5ba0d 100644
--- a/tskv/src/reader/mod.rs
+++ b/tskv/src/reader/mod.rs
@@ -1,6 +1,6 @@
 #![allow(clippy::arc_with_non_send_sync)]
 
-use std::cmp::Ordering;
+use std::cmp::{Ordering, Reverse};
 use std::fmt;
 use std::pin::Pin;
 use std::sync::Arc;
@@ -26,7 +26,7 @@ use crate::mem_cache::series_data::SeriesData;
 use crate::tsfamily::column_file::ColumnFile;
 use crate::tsm::chunk::Chunk;
 use crate::tsm::reader::TsmReader;
-use crate::{ColumnFileId, TskvError, TskvResult};
+use crate::{ColumnFileId, LevelId, TskvError, TskvResult};
 
 mod batch_builder;
 mod chunk;
@@ -306,8 +306,10 @@ impl PartialOrd<Self> for DataReference {
 }
 
 impl Ord for DataReference {
+    /// From the oldest data to the newest. A compaction gives its output a newer file id than
+    /// the level-0 files which were left out, so the level goes before the file id.
     fn cmp(&self, other: &Self) -> Ordering {
-        self.file_id().cmp(&other.file_id())
+        self.recency().cmp(&other.recency())
     }
 }
 
@@ -325,6 +327,13 @@ impl DataReference {
             DataReference::Memcache(_, _, cf_id) => *cf_id,
         }
     }
+
+    fn recency(&self) -> (bool, Reverse<LevelId>, ColumnFileId) {
+        match self {
+            DataReference::Chunk(_, _, cf) => (false, Reverse(cf.level()), cf.file_id()),
+            DataReference::Memcache(_, _, cf_id) => (true, Reverse(0), *cf_id),
+        }
+    }
 }
 
 impl TimeRangeProvider for DataReference {
-- 
2.43.0


From bba6dc2acdc85dbaa799b5c23afb4e2f90e2726f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:11 +0000
Subject: [PATCH 19/62] fix: a write interrupted while adding its table was
 lost on restart

The applied id is stored before the entry is applied, so replay of that entry has
to be allowed to add the table and columns it needs.
---
 tskv/src/wal/wal_store.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/tskv/src/wal/wal_store.rs b/tskv/src/wal/wal_store.rs
index 67b2941..56761f0 100644
--- a/tskv/src/wal/wal_store.rs
+++ b/tskv/src/wal/wal_store.rs
@@ -1,5 +1,6 @@
 use metrics::average::U64Average;
 use openraft::{EntryPayload, LogId};
+use protos::kv_service::raft_write_command::Command;
 use protos::kv_service::RaftWriteCommand;
 use protos::models_helper::parse_prost_bytes;
 use replication::errors::{ReplicationError, ReplicationResult};
@@ -499,7 +500,7 @@ impl RaftEntryStorageInner {
             let last_seq = vnode_store.ts_family().read().await.version().last_seq();
             if entry.log_id.index > last_seq && entry.log_id.index <= apply_id.index {
                 if let EntryPayload::Normal(ref req) = entry.payload {
-                    let ctx = replication::ApplyContext {
+                    let mut ctx = replication::ApplyContext {
                         index: entry.log_id.index,
                         raft_id: self.wal.vnode_id as u64,
                         apply_type: replication::APPLY_TYPE_WAL,
@@ -507,8 +508,21 @@ impl RaftEntryStorageInner {
 
                     let request = parse_prost_bytes::<RaftWriteCommand>(req)
                         .map_err(|e| DecodeSnafu.into_error(Box::new(e)))?;
-                    if let Some(command) = request.command {
-                        vnode_store.apply(&ctx, command).await?;
+                    match request.command {
+                        // The applied id is stored before the entry is applied, so the last
+                        // write may not have added its tables and columns yet.
+                        Some(command @ Command::WriteData(_))
+                            if entry.log_id.index == apply_id.index =>
+                        {
+                            ctx.apply_type = replication::APPLY_TYPE_WRITE;
+                            if let Err(err) = vnode_store.apply(&ctx, command).await {
+                                info!("recover: write points: {}", err);
+                            }
+                        }
+                        Some(command) => {
+                            vnode_store.apply(&ctx, command).await?;
+                        }
+                        None => {}
                     }
                 }
             }
-- 
2.43.0


From ae1e3ed4ebd98cb2f109be767e3fde5bb9c1b440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:12 +0000
Subject: [PATCH 20/62] fix: field filters matched values replaced by newer
 ones

Overlapping chunk groups are merged before the filter is evaluated.
---
 tskv/src/reader/iterator.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/tskv/src/reader/iterator.rs b/tskv/src/reader/iterator.rs
index 7afb946..096f5b3 100644
--- a/tskv/src/reader/iterator.rs
+++ b/tskv/src/reader/iterator.rs
@@ -498,11 +498,24 @@ impl SeriesGroupBatchReaderFactory {
         let readers = grouped_chunks
             .into_iter()
             .map(|chunks| -> TskvResult<BatchReaderRef> {
+                let chunks = chunks.segments();
+                // A value of one chunk may be replaced by another chunk of the group, so
+                // such chunks can not be filtered before they are merged.
+                let merge_predicate = if chunks.len() > 1 {
+                    predicate.clone()
+                } else {
+                    None
+                };
+                let chunk_predicate = if merge_predicate.is_some() {
+                    &None
+                } else {
+                    predicate
+                };
                 let chunk_readers = self.build_chunk_readers(
-                    chunks.segments(),
+                    chunks,
                     batch_size,
                     projection,
-                    predicate,
+                    chunk_predicate,
                     metrics,
                     aggregates,
                 )?;
@@ -532,7 +545,14 @@ impl SeriesGroupBatchReaderFactory {
                         Arc::new(CombinedBatchReader::new(chunk_readers))
                     };
 
-                    Ok(reader)
+                    match merge_predicate {
+                        Some(predicate) => Ok(Arc::new(DataFilter::new(
+                            predicate,
+                            reader,
+                            self.filter_reader_metrics_set.clone(),
+                        ))),
+                        None => Ok(reader),
+                    }
                 } else {
                     Ok(Arc::new(CombinedBatchReader::new(chunk_readers)))
                 }
-- 
2.43.0


From db228246a558ac1c43d33939b59f6f928da1ae46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 21/62] fix: of several rows for one point in a batch the
 oldest won

Merging a batch into an existing row group reversed the rows with equal timestamps.
---
 tskv/src/mem_cache/row_data.rs    | 2 +-
 tskv/src/mem_cache/series_data.rs | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/tskv/src/mem_cache/row_data.rs b/tskv/src/mem_cache/row_data.rs
index 1ba8682..31a05dc 100644
--- a/tskv/src/mem_cache/row_data.rs
+++ b/tskv/src/mem_cache/row_data.rs
@@ -259,7 +259,7 @@ impl Clone for OrderedRowsData {
     fn clone(&self) -> Self {
         let mut clone_rows: OrderedSkipList<RowData> = OrderedSkipList::new();
         unsafe { clone_rows.sort_by(|a: &RowData, b: &RowData| a.partial_cmp(b).unwrap()) }
-        self.rows.iter().for_each(|row| {
+        self.rows.iter().rev().for_each(|row| {
             clone_rows.insert(row.clone());
         });
         Self { rows: clone_rows }
diff --git a/tskv/src/mem_cache/series_data.rs b/tskv/src/mem_cache/series_data.rs
index c10272d..375dfba 100644
--- a/tskv/src/mem_cache/series_data.rs
+++ b/tskv/src/mem_cache/series_data.rs
@@ -46,7 +46,10 @@ impl SeriesData {
         for item in self.groups.iter_mut().rev() {
             if item.schema.schema_version == group.schema.schema_version {
                 item.range.merge(&group.range);
-                group.rows.get_rows().into_iter().for_each(|row| {
+                // A row is inserted in front of the rows with the same timestamp, so
+                // the oldest one goes first.
+                let rows: Vec<RowData> = group.rows.get_rows().into_iter().collect();
+                rows.into_iter().rev().for_each(|row| {
                     item.rows.insert(row);
                 });
                 item.schema = group.schema;
@@ -69,7 +72,7 @@ impl SeriesData {
             };
             let mut rowdata_vec: Vec<RowData> = item.rows.get_ref_rows().iter().cloned().collect();
             item.rows.clear();
-            for row in rowdata_vec.iter_mut() {
+            for row in rowdata_vec.iter_mut().rev() {
                 if index < row.fields.len() {
                     row.fields.remove(index);
                 }
-- 
2.43.0


From 7588c9209dbc02a6d514b00cfff3c5a29d48d1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 22/62] fix: column domains confused open and closed bounds of
 the same value

Markers compared by value only, so `t < 5 OR t <= 5` became `t < 5` and
`t < 5 AND t != 5` an impossible range that panics in BTreeMap::range.
---
 common/models/src/predicate/domain.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/common/models/src/predicate/domain.rs b/common/models/src/predicate/domain.rs
index 1b77b13..cdb702b 100644
--- a/common/models/src/predicate/domain.rs
+++ b/common/models/src/predicate/domain.rs
@@ -421,7 +421,7 @@ impl Display for TimeRanges {
     }
 }
 
-#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
+#[derive(Debug, Clone, PartialEq, PartialOrd, Ord, Serialize, Deserialize, Eq)]
 enum Bound {
     /// lower than the value, but infinitesimally close to the value.
     Below,
@@ -615,11 +615,7 @@ impl PartialEq for Marker {
             return false;
         }
         // value and other.value are present
-        if self.value != other.value {
-            return false;
-        }
-
-        true
+        self.value == other.value && self.bound == other.bound
     }
 }
 impl Ord for Marker {
@@ -663,7 +659,11 @@ impl Ord for Marker {
         let self_data = self.value.as_ref().unwrap();
         let other_data = other.value.as_ref().unwrap();
 
-        self_data.partial_cmp(other_data).unwrap()
+        // Just below a value < exactly the value < just above the value.
+        self_data
+            .partial_cmp(other_data)
+            .unwrap()
+            .then_with(|| self.bound.cmp(&other.bound))
     }
 }
 
-- 
2.43.0


From 30633f894a22ea1c537305fae3a60b2a4c3e6305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 23/62] fix: the time range before the first or after the last
 timestamp wrapped around to all times

---
 common/models/src/predicate/domain.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/common/models/src/predicate/domain.rs b/common/models/src/predicate/domain.rs
index cdb702b..7380db2 100644
--- a/common/models/src/predicate/domain.rs
+++ b/common/models/src/predicate/domain.rs
@@ -43,17 +43,21 @@ impl From<(StdBound<i64>, StdBound<i64>)> for TimeRange {
     // TODO: Using TimeRange { min_ts: Bound, max_ts: Bound }
     fn from(range: (StdBound<i64>, StdBound<i64>)) -> Self {
         let min_ts = match range.0 {
-            StdBound::Excluded(v) => v + 1,
-            StdBound::Included(v) => v,
-            _ => Timestamp::MIN,
+            StdBound::Excluded(v) => v.checked_add(1),
+            StdBound::Included(v) => Some(v),
+            _ => Some(Timestamp::MIN),
         };
         let max_ts = match range.1 {
-            StdBound::Excluded(v) => v - 1,
-            StdBound::Included(v) => v,
-            _ => Timestamp::MAX,
+            StdBound::Excluded(v) => v.checked_sub(1),
+            StdBound::Included(v) => Some(v),
+            _ => Some(Timestamp::MAX),
         };
 
-        TimeRange { min_ts, max_ts }
+        match (min_ts, max_ts) {
+            (Some(min_ts), Some(max_ts)) => TimeRange { min_ts, max_ts },
+            // Nothing is before the first or after the last timestamp.
+            _ => TimeRange::none(),
+        }
     }
 }
 
-- 
2.43.0


From b71a262c566cdfbc1a485e3b017e1a1a5d0bad3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:24 +0000
Subject: [PATCH 24/62] fix: TimeRanges open at both ends dropped the ranges
 added to fill their gaps

---
 common/models/src/predicate/domain.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/models/src/predicate/domain.rs b/common/models/src/predicate/domain.rs
index 7380db2..2a627bf 100644
--- a/common/models/src/predicate/domain.rs
+++ b/common/models/src/predicate/domain.rs
@@ -346,7 +346,7 @@ impl TimeRanges {
     }
 
     pub fn is_boundless(&self) -> bool {
-        self.min_ts == Timestamp::MIN && self.max_ts == Timestamp::MAX
+        self.inner.get(&Timestamp::MIN) == Some(&Timestamp::MAX)
     }
 
     pub fn overlaps(&self, time_range: &TimeRange) -> bool {
-- 
2.43.0


From 8f2376fe42c35397937877f407a18f4033771008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:24 +0000
Subject: [PATCH 25/62] fix: excluding a time range up to the last timestamp
 kept the last timestamp

---
 common/models/src/predicate/domain.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/common/models/src/predicate/domain.rs b/common/models/src/predicate/domain.rs
index 2a627bf..dfbd8e6 100644
--- a/common/models/src/predicate/domain.rs
+++ b/common/models/src/predicate/domain.rs
@@ -162,6 +162,7 @@ impl TimeRange {
             return Some(TimeRanges::new(vec![*self]));
         }
         let mut tmp_tr_min_ts = self.min_ts;
+        let mut excluded_to_end = false;
         let mut remained_ranges: Vec<TimeRange> = Vec::new();
         for (min_ts, max_ts) in time_ranges.ranges() {
             if min_ts == i64::MIN && max_ts == i64::MAX {
@@ -174,10 +175,17 @@ impl TimeRange {
                 if min_ts > tmp_tr_min_ts {
                     remained_ranges.push((tmp_tr_min_ts, min_ts - 1).into());
                 }
-                tmp_tr_min_ts = max_ts.checked_add(1).unwrap_or(max_ts);
+                match max_ts.checked_add(1) {
+                    Some(ts) => tmp_tr_min_ts = ts,
+                    // Nothing remains after the last timestamp.
+                    None => {
+                        excluded_to_end = true;
+                        break;
+                    }
+                }
             }
         }
-        if tmp_tr_min_ts <= self.max_ts {
+        if !excluded_to_end && tmp_tr_min_ts <= self.max_ts {
             remained_ranges.push((tmp_tr_min_ts, self.max_ts).into());
         }
         if remained_ranges.is_empty() {
-- 
2.43.0


From 292bcb1a200a0f098f528fcc49df4f2d734a8aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:30 +0000
Subject: [PATCH 26/62] fix: compaction lost columns of chunks that were added
 later

The schema version of a chunk is that of its table in the whole file, so of two
chunks of one version either may lack columns the other one has.
---
 .../compaction/comapcting_block_meta_group.rs | 25 ++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/tskv/src/compaction/comapcting_block_meta_group.rs b/tskv/src/compaction/comapcting_block_meta_group.rs
index 0995bf7..78d65fe 100644
--- a/tskv/src/compaction/comapcting_block_meta_group.rs
+++ b/tskv/src/compaction/comapcting_block_meta_group.rs
@@ -1,7 +1,8 @@
+use std::collections::HashSet;
 use std::sync::Arc;
 
 use arrow_array::RecordBatch;
-use arrow_schema::SchemaRef;
+use arrow_schema::{Schema, SchemaRef};
 use datafusion::physical_plan::metrics::ExecutionPlanMetricsSet;
 use futures::StreamExt;
 use models::predicate::domain::TimeRange;
@@ -239,6 +240,28 @@ impl CompactingBlockMetaGroup {
         if let Some(e) = potential_error {
             return Err(e);
         }
+        // The schema version is that of the table in the whole file, a chunk may still
+        // lack some of the columns that other chunks of that version have.
+        let mut fields = target_schema.fields().iter().cloned().collect::<Vec<_>>();
+        let mut column_ids = HashSet::new();
+        for field in fields.iter() {
+            column_ids.insert(
+                TableColumn::column_id_from_arrow_field(field.clone()).context(ModelSnafu)?,
+            );
+        }
+        for record_batch in record_batches.iter() {
+            for field in record_batch.schema().fields().iter() {
+                let column_id =
+                    TableColumn::column_id_from_arrow_field(field.clone()).context(ModelSnafu)?;
+                if column_ids.insert(column_id) {
+                    fields.push(field.clone());
+                }
+            }
+        }
+        let target_schema = Arc::new(Schema::new_with_metadata(
+            fields,
+            target_schema.metadata().clone(),
+        ));
         let mut adapted_record_batches = Vec::with_capacity(record_batches.len());
         for record_batch in record_batches {
             let adapted_record_batch =
-- 
2.43.0


From 78b48e33917fcfc33913e4dbbd5c447d7c143175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:14 +0000
Subject: [PATCH 27/62] fix: compaction preferred older values when files start
 with different series

next_series_id() relies on the compacting files being sorted by their next
series, but the files were only sorted after the first series was taken.
---
 tskv/src/compaction/compact.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tskv/src/compaction/compact.rs b/tskv/src/compaction/compact.rs
index 689f2fe..9a48a9f 100644
--- a/tskv/src/compaction/compact.rs
+++ b/tskv/src/compaction/compact.rs
@@ -304,6 +304,8 @@ impl CompactState {
             compacting_files.push(f);
             compacting_tsm_file_idx += 1;
         }
+        // Files are visited in the order of their next series.
+        compacting_files.sort();
         let mut tsm_reader_to_compacting_file_map = vec![None::<_>; tsm_readers_len];
         for (i, f) in compacting_files.iter().enumerate() {
             tsm_reader_to_compacting_file_map[f.tsm_reader_index] = Some(i);
-- 
2.43.0


From 4bfc19eb7d33b9c878a0b02c54cd888770803952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:01 +0000
Subject: [PATCH 28/62] fix: queries failed on compacted chunks whose blocks
 have different columns

---
 tskv/src/reader/iterator.rs | 24 ++++++++++++++++++++++--
 tskv/src/tsm/chunk.rs       | 16 +++++++---------
 2 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/tskv/src/reader/iterator.rs b/tskv/src/reader/iterator.rs
index 096f5b3..2b00b36 100644
--- a/tskv/src/reader/iterator.rs
+++ b/tskv/src/reader/iterator.rs
@@ -15,7 +15,7 @@ use datafusion_proto::physical_plan::from_proto::parse_physical_expr;
 use models::meta_data::VnodeId;
 use models::predicate::domain::{self, PushedAggregateFunction, QueryArgs, QueryExpr, TimeRanges};
 use models::predicate::PlacedSplit;
-use models::schema::tskv_table_schema::{PhysicalCType, TskvTableSchemaRef};
+use models::schema::tskv_table_schema::{PhysicalCType, TableColumn, TskvTableSchemaRef};
 use models::{ColumnId, PhysicalDType, SeriesId, SeriesKey};
 use protos::kv_service::QueryRecordBatchRequest;
 use snafu::ResultExt;
@@ -370,6 +370,22 @@ impl SeriesGroupBatchReaderFactory {
                     debug!("Filtered column group nums: {}", cgs.len());
                     metrics.filtered_column_group_nums().add(cgs.len());
 
+                    // Column groups may lack some of the columns of the chunk.
+                    let projected_fields = projection
+                        .iter()
+                        .filter_map(|id| {
+                            chunk_schema.fields().iter().find(|f| {
+                                TableColumn::column_id_from_arrow_field((*f).clone()).ok()
+                                    == Some(*id)
+                            })
+                        })
+                        .cloned()
+                        .collect::<Vec<_>>();
+                    let projected_schema = Arc::new(Schema::new_with_metadata(
+                        projected_fields,
+                        chunk_schema.metadata().clone(),
+                    ));
+
                     let batch_readers = cgs
                         .into_iter()
                         .map(|e| {
@@ -382,7 +398,11 @@ impl SeriesGroupBatchReaderFactory {
                                 batch_size,
                                 self.column_group_reader_metrics_set.clone(),
                             )?;
-                            Ok(Arc::new(column_group_reader) as BatchReaderRef)
+                            Ok(Arc::new(SchemaAlignmenter::new(
+                                Arc::new(column_group_reader),
+                                projected_schema.clone(),
+                                self.schema_align_reader_metrics_set.clone(),
+                            )) as BatchReaderRef)
                         })
                         .collect::<TskvResult<Vec<_>>>()?;
 
diff --git a/tskv/src/tsm/chunk.rs b/tskv/src/tsm/chunk.rs
index b09b774..49e9392 100644
--- a/tskv/src/tsm/chunk.rs
+++ b/tskv/src/tsm/chunk.rs
@@ -132,16 +132,14 @@ impl Chunk {
 
     /// TODO high performance cost
     pub fn schema_with_metadata(&self, meta: HashMap<String, String>) -> SchemaRef {
-        if let Some((_, cg)) = self.column_group().first_key_value() {
-            let fields = cg
-                .pages()
-                .iter()
-                .map(|p| (&p.meta().column).into())
-                .collect::<Vec<Field>>();
-            return Arc::new(Schema::new_with_metadata(fields, meta));
+        // Column groups written before and after a column was added have different columns.
+        let mut columns = BTreeMap::new();
+        for page in self.column_group().values().flat_map(|cg| cg.pages()) {
+            let column = &page.meta().column;
+            columns.entry(column.id).or_insert(column);
         }
-
-        Arc::new(Schema::empty())
+        let fields = columns.into_values().map(Field::from).collect::<Vec<_>>();
+        Arc::new(Schema::new_with_metadata(fields, meta))
     }
 }
 
-- 
2.43.0


From 1a03eb587e4518f104167c76c9c6efe68028b2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:12 +0000
Subject: [PATCH 29/62] fix: restart lost series whose tags were updated, and
 rows of dropped columns

Replay of the log has to find the series behind the old key although the stored
index no longer has it, ids of series that tombstones refer to have to be stored,
and rows (tables) whose fields were all dropped later must not discard the batch.
---
 tskv/src/database.rs       | 51 +++++++++++++++++++-----
 tskv/src/index/ts_index.rs | 79 +++++++++++++++++++++++---------------
 2 files changed, 90 insertions(+), 40 deletions(-)

diff --git a/tskv/src/database.rs b/tskv/src/database.rs
index 61ae034..0d78df5 100644
--- a/tskv/src/database.rs
+++ b/tskv/src/database.rs
@@ -28,7 +28,7 @@ use crate::tsfamily::summary::{Summary, SummaryRequest};
 use crate::tsfamily::tseries_family::{TseriesFamily, TsfFactory};
 use crate::tsfamily::version::{Version, VersionEdit};
 use crate::tsm::reader::TsmReader;
-use crate::{TsKvContext, VnodeId};
+use crate::{TsKvContext, TskvError, VnodeId};
 
 pub type FlatBufferTable<'a> = flatbuffers::Vector<'a, flatbuffers::ForwardsUOffset<Table<'a>>>;
 
@@ -227,13 +227,18 @@ impl Database {
 
             let fb_schema = FbSchema::from_fb_column(table_name, columns)?;
             let schema = if strict_write {
-                self.schemas
+                let schema = self
+                    .schemas
                     .get_table_schema(fb_schema.table)
                     .await
-                    .context(SchemaSnafu)?
-                    .context(TableNotFoundSnafu {
-                        table: fb_schema.table.to_string(),
-                    })?
+                    .context(SchemaSnafu)?;
+                if recover_from_wal && schema.is_none() {
+                    // The table was dropped later, the other tables of the batch were not.
+                    continue;
+                }
+                schema.context(TableNotFoundSnafu {
+                    table: fb_schema.table.to_string(),
+                })?
             } else {
                 self.schemas
                     .check_field_type_or_else_add(&fb_schema)
@@ -252,7 +257,14 @@ impl Database {
             .await?;
             // every row produces a sid
             debug_assert_eq!(num_rows, sids.len());
-            self.build_row_data(&columns, schema.clone(), &mut map, precision, &sids)?;
+            self.build_row_data(
+                &columns,
+                schema.clone(),
+                &mut map,
+                precision,
+                &sids,
+                recover_from_wal,
+            )?;
         }
         Ok(map)
     }
@@ -264,6 +276,7 @@ impl Database {
         map: &mut HashMap<SeriesId, (SeriesKey, RowGroup)>,
         precision: Precision,
         sids: &[(u32, SeriesKey)],
+        recover_from_wal: bool,
     ) -> TskvResult<()> {
         let mut sid_map: HashMap<u32, (SeriesKey, Vec<usize>)> = HashMap::new();
         for (row_count, (sid, series_key)) in sids.iter().enumerate() {
@@ -274,8 +287,28 @@ impl Database {
             buf_and_row_idx.1.push(row_count);
         }
         for (sid, (series_key_buf, row_idx)) in sid_map.into_iter() {
-            let rows =
-                RowData::point_to_row_data(table_schema.as_ref(), precision, columns, row_idx)?;
+            let rows = if recover_from_wal {
+                let mut rows = Vec::with_capacity(row_idx.len());
+                for row in row_idx {
+                    match RowData::point_to_row_data(
+                        table_schema.as_ref(),
+                        precision,
+                        columns,
+                        vec![row],
+                    ) {
+                        Ok(mut row) => rows.append(&mut row),
+                        // All the fields of the row were dropped later.
+                        Err(TskvError::FieldsIsEmpty { .. }) => continue,
+                        Err(e) => return Err(e),
+                    }
+                }
+                rows
+            } else {
+                RowData::point_to_row_data(table_schema.as_ref(), precision, columns, row_idx)?
+            };
+            if rows.is_empty() {
+                continue;
+            }
             let mut row_group = RowGroup {
                 schema: table_schema.clone(),
                 rows: OrderedRowsData::new(),
diff --git a/tskv/src/index/ts_index.rs b/tskv/src/index/ts_index.rs
index 5ddb6aa..9cf20a5 100644
--- a/tskv/src/index/ts_index.rs
+++ b/tskv/src/index/ts_index.rs
@@ -269,6 +269,9 @@ impl TSIndex {
         sids: Vec<SeriesId>,
         _recovering: bool,
     ) -> IndexResult<()> {
+        // Changes of the stored index take effect at once, so the series ids must be stored, too.
+        self.check_to_flush(true).await?;
+
         for ((old_series, new_series), sid) in old_series_keys
             .iter()
             .zip(new_series_keys.iter())
@@ -280,8 +283,8 @@ impl TSIndex {
                 old_series,
                 new_series
             );
-            self.del_series_info(*sid).await?;
             self.add_tombstone_series(*sid, old_series).await?;
+            self.del_series_info(*sid).await?;
 
             self.cache.write(*sid, new_series.clone());
 
@@ -324,6 +327,35 @@ impl TSIndex {
         Ok(cache_rb.bitor(&engine_rb))
     }
 
+    fn updated_series_key(
+        new_tags: &[UpdateSetValue<TagKey, TagValue>],
+        key: &SeriesKey,
+    ) -> SeriesKey {
+        // modify tag value
+        let mut old_tags = key
+            .tags
+            .iter()
+            .map(|Tag { key, value }| (key, Some(value.as_ref())))
+            .collect::<HashMap<_, _>>();
+
+        // 更新 tag value
+        for UpdateSetValue { key, value } in new_tags {
+            old_tags.insert(key, value.as_deref());
+        }
+        // 移除值为 Null 的 tag
+        let mut tags = old_tags
+            .iter()
+            .flat_map(|(key, value)| value.map(|val| Tag::new(key.to_vec(), val.to_vec())))
+            .collect::<Vec<_>>();
+
+        tag::sort_tags(&mut tags);
+
+        SeriesKey {
+            tags,
+            table: key.table.clone(),
+        }
+    }
+
     /// 获取所有匹配的旧的series key及其更新后的series key，以及对应的series id
     /// (old_series_keys, new_series_keys, sids)
     pub async fn prepare_update_tags_value(
@@ -335,50 +367,35 @@ impl TSIndex {
         // Find all matching series ids
         let mut ids = vec![];
         let mut old_keys = vec![];
+        let mut new_keys = vec![];
         for key in matched_series {
+            let new_key = Self::updated_series_key(new_tags, key);
             if let Some(sid) = self.get_series_id(key).await? {
                 ids.push(sid);
                 old_keys.push(key.clone());
+                new_keys.push(new_key);
+            } else if !check_conflict {
+                // Recovering, the stored index may already be without the old key.
+                if let Some(sid) = self.get_tombstone_series_id(key).await? {
+                    let current = self.get_series_key(sid).await?;
+                    if current.is_none() || current.as_ref() == Some(&new_key) {
+                        ids.push(sid);
+                        old_keys.push(key.clone());
+                        new_keys.push(new_key);
+                    }
+                }
             }
         }
 
-        let mut new_keys = vec![];
         let mut new_keys_set = HashSet::new();
-        for key in &old_keys {
-            // modify tag value
-            let mut old_tags = key
-                .tags
-                .iter()
-                .map(|Tag { key, value }| (key, Some(value.as_ref())))
-                .collect::<HashMap<_, _>>();
-
-            // 更新 tag value
-            for UpdateSetValue { key, value } in new_tags {
-                old_tags.insert(key, value.as_deref());
-            }
-            // 移除值为 Null 的 tag
-            let mut tags = old_tags
-                .iter()
-                .flat_map(|(key, value)| value.map(|val| Tag::new(key.to_vec(), val.to_vec())))
-                .collect::<Vec<_>>();
-
-            tag::sort_tags(&mut tags);
-
-            let new_key = SeriesKey {
-                tags,
-                table: key.table.clone(),
-            };
-
-            if check_conflict && self.get_series_id(&new_key).await?.is_some() {
+        for (key, new_key) in old_keys.iter().zip(new_keys.iter()) {
+            if check_conflict && self.get_series_id(new_key).await?.is_some() {
                 trace::warn!("Series already exists: {:?}", new_key);
                 return Err(SeriesAlreadyExistsSnafu {
                     key: key.to_string(),
                 }
                 .build());
             }
-
-            // TODO 去重
-            new_keys.push(new_key);
         }
 
         new_keys_set.extend(new_keys.clone());
-- 
2.43.0


From 17294e66614a3a60554442ea03d0396a86777cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:41 +0000
Subject: [PATCH 30/62] fix: one DELETE that could not be replayed discarded
 the rest of the log

---
 tskv/src/vnode_store.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tskv/src/vnode_store.rs b/tskv/src/vnode_store.rs
index 98617fa..2029ffd 100644
--- a/tskv/src/vnode_store.rs
+++ b/tskv/src/vnode_store.rs
@@ -120,7 +120,14 @@ impl VnodeStorage {
             }
 
             raft_write_command::Command::DeleteFromTable(cmd) => {
-                self.delete_from_table(&cmd).await?;
+                if let Err(err) = self.delete_from_table(&cmd).await {
+                    // The table or some of its columns may have been dropped later.
+                    if ctx.apply_type == replication::APPLY_TYPE_WAL {
+                        info!("recover: delete from table: {}", err);
+                    } else {
+                        return Err(err);
+                    }
+                }
                 Ok(vec![])
             }
         }
-- 
2.43.0


From 45ce57b952e3d79e2342b3a050a1dd67eaf77849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:55 +0000
Subject: [PATCH 31/62] fix: replay of a write to a table that was dropped and
 added again discarded its batch

---
 tskv/src/database.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tskv/src/database.rs b/tskv/src/database.rs
index 0d78df5..b326d15 100644
--- a/tskv/src/database.rs
+++ b/tskv/src/database.rs
@@ -246,6 +246,16 @@ impl Database {
                     .context(SchemaSnafu)?
             };
 
+            if recover_from_wal
+                && fb_schema
+                    .tag_names
+                    .iter()
+                    .any(|name| schema.column(name).is_none())
+            {
+                // The table was dropped later and added again, tags cannot be dropped.
+                continue;
+            }
+
             let sids = Self::build_index(
                 &fb_schema,
                 &columns,
-- 
2.43.0


From 499e018b93d9a445450b8a0568863051eb15f4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 32/62] fix: files of an applied snapshot took the names of old
 files still being read

---
 tskv/src/database.rs    | 1 +
 tskv/src/vnode_store.rs | 8 +++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/tskv/src/database.rs b/tskv/src/database.rs
index b326d15..576d4f8 100644
--- a/tskv/src/database.rs
+++ b/tskv/src/database.rs
@@ -146,6 +146,7 @@ impl Database {
             file_metas.insert(new_file_id, bloom_filter.clone());
 
             f.file_id = new_file_id;
+            ve.file_id = ve.file_id.max(new_file_id);
         }
 
         for f in ve.del_files.iter_mut() {
diff --git a/tskv/src/vnode_store.rs b/tskv/src/vnode_store.rs
index 2029ffd..8315df9 100644
--- a/tskv/src/vnode_store.rs
+++ b/tskv/src/vnode_store.rs
@@ -201,7 +201,13 @@ impl VnodeStorage {
         );
 
         let summary = Summary::new(self.id, self.ctx.clone(), summary_file).await?;
-        *self.summary.write().await = summary;
+        {
+            // Queries may still read the old files: do not use their names again, for
+            // those compacted away are removed under their names by the last reader.
+            let mut old = self.summary.write().await;
+            summary.file_id().set(old.next_file_id());
+            *old = summary;
+        }
 
         // apply data and reopen
         let mut version_edit = snapshot.version_edit.clone();
-- 
2.43.0


From 71d4304441717f2370c754ba908891c14d952ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:17 +0000
Subject: [PATCH 33/62] fix: the length of the range of all timestamps
 overflowed

---
 common/models/src/predicate/domain.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/models/src/predicate/domain.rs b/common/models/src/predicate/domain.rs
index dfbd8e6..a6ad493 100644
--- a/common/models/src/predicate/domain.rs
+++ b/common/models/src/predicate/domain.rs
@@ -117,7 +117,7 @@ impl TimeRange {
         if self.max_ts < self.min_ts {
             return 0;
         }
-        (self.max_ts as i128 - self.min_ts as i128) as u64 + 1_u64
+        ((self.max_ts as i128 - self.min_ts as i128) as u64).saturating_add(1)
     }
 
     #[inline(always)]
-- 
2.43.0


From 0e65bfae31e1444b74131427b883e901a323c2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:46 +0000
Subject: [PATCH 34/62] fix: showing column domains without any column panicked

---
 common/models/src/predicate/domain.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/models/src/predicate/domain.rs b/common/models/src/predicate/domain.rs
index a6ad493..97741e2 100644
--- a/common/models/src/predicate/domain.rs
+++ b/common/models/src/predicate/domain.rs
@@ -1626,7 +1626,7 @@ where
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         write!(f, "{{ ")?;
         if let Some(ref column_to_domain) = self.column_to_domain {
-            let max_i = column_to_domain.len() - 1;
+            let max_i = column_to_domain.len().saturating_sub(1);
             for (i, (column, domain)) in column_to_domain.iter().enumerate() {
                 write!(f, "{column}: {domain}")?;
                 if i < max_i {
-- 
2.43.0


From feab7318b56be0cc372680cfd9e315ae33550594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 35/62] fix: sets of equal values inside a predicate could be
 sent but not received

---
 common/models/src/predicate/domain.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/common/models/src/predicate/domain.rs b/common/models/src/predicate/domain.rs
index 97741e2..b485238 100644
--- a/common/models/src/predicate/domain.rs
+++ b/common/models/src/predicate/domain.rs
@@ -998,7 +998,20 @@ impl<'a> Deserialize<'a> for ValueEntry {
     where
         D: serde::Deserializer<'a>,
     {
-        deserializer.deserialize_struct("ValueEntry", &["data_type", "value"], ValueEntryVisitor)
+        #[derive(Serialize, Deserialize)]
+        struct ValueEntrySerialize {
+            data_type: DataType,
+            value: Vec<u8>,
+        }
+
+        let ValueEntrySerialize { data_type, value } =
+            ValueEntrySerialize::deserialize(deserializer)?;
+
+        let proto_value: protobuf::ScalarValue =
+            parse_prost_bytes(&value).map_err(serde::de::Error::custom)?;
+        let value = ScalarValue::try_from(&proto_value).map_err(serde::de::Error::custom)?;
+
+        Ok(ValueEntry { data_type, value })
     }
 }
 
@@ -1008,16 +1021,6 @@ impl Display for ValueEntry {
     }
 }
 
-struct ValueEntryVisitor;
-
-impl<'de> Visitor<'de> for ValueEntryVisitor {
-    type Value = ValueEntry;
-
-    fn expecting(&self, formatter: &mut std::fmt::Formatter) -> std::fmt::Result {
-        formatter.write_str("This Visitor expects to receive ValueEntry")
-    }
-}
-
 impl ValueEntry {
     pub fn value(&self) -> &ScalarValue {
         &self.value
-- 
2.43.0


From 3854423f8dfce7ec6db4b6d468e75b2133e82f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:21 +0000
Subject: [PATCH 36/62] fix: comparing a boolean with >= or <= ruled out rows
 that match

---
 common/models/src/predicate/transformation.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/common/models/src/predicate/transformation.rs b/common/models/src/predicate/transformation.rs
index 0cb7187..afe3ea3 100644
--- a/common/models/src/predicate/transformation.rs
+++ b/common/models/src/predicate/transformation.rs
@@ -318,8 +318,12 @@ impl RowExpressionToDomainsVisitor<'_> {
     fn nsc_to_domains_with_equtable(nsc: &NormalizedSimpleComparison) -> ColumnDomains<Column> {
         let col = &nsc.column;
         let value = &nsc.value;
-        let is_eq_op = nsc.is_eq_op();
-        let val_set = Domain::of_values(&value.get_datatype(), is_eq_op, &[value]);
+        let val_set = match nsc.op {
+            Operator::Eq => Domain::of_values(&value.get_datatype(), true, &[value]),
+            Operator::NotEq => Domain::of_values(&value.get_datatype(), false, &[value]),
+            // Values without an order here may still be compared, e.g. `a >= true`.
+            _ => return ColumnDomains::all(),
+        };
         ColumnDomains::of(col.to_owned(), &val_set)
     }
     /// Construct comparison operations as simple column-value comparison data structures nsc.
-- 
2.43.0


From f9924a4501fd2f493bd47b4ff2231e84a104aec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:46 +0000
Subject: [PATCH 37/62] fix: altering a table that was dropped meanwhile
 brought it back

---
 meta/src/store/storage.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/meta/src/store/storage.rs b/meta/src/store/storage.rs
index fe1f3ac..5704b87 100644
--- a/meta/src/store/storage.rs
+++ b/meta/src/store/storage.rs
@@ -1136,21 +1136,24 @@ impl StateMachine {
         schema: &TableSchema,
     ) -> MetaResult<()> {
         let key = KeyPath::tenant_schema_name(cluster, tenant, schema.db(), schema.name());
-        if let Some(val) = self.get_struct::<TableSchema>(&key)? {
-            match (val, schema) {
-                (TableSchema::TsKvTableSchema(val), TableSchema::TsKvTableSchema(schema)) => {
-                    if val.schema_version + 1 != schema.schema_version {
-                        return Err(MetaError::UpdateTableConflict {
-                            name: schema.name.clone(),
-                        });
-                    }
-                }
-                _ => {
-                    return Err(MetaError::NotSupport {
-                        msg: "update external table".to_string(),
+        let val =
+            self.get_struct::<TableSchema>(&key)?
+                .ok_or_else(|| MetaError::TableNotFound {
+                    table: schema.name().to_string(),
+                })?;
+        match (val, schema) {
+            (TableSchema::TsKvTableSchema(val), TableSchema::TsKvTableSchema(schema)) => {
+                if val.schema_version + 1 != schema.schema_version {
+                    return Err(MetaError::UpdateTableConflict {
+                        name: schema.name.clone(),
                     });
                 }
             }
+            _ => {
+                return Err(MetaError::NotSupport {
+                    msg: "update external table".to_string(),
+                });
+            }
         }
 
         self.insert(&key, &value_encode(schema)?)?;
-- 
2.43.0


From a0848038a4bf4ca0326ea3508e8b6d9780fda2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:46 +0000
Subject: [PATCH 38/62] fix: dropping a user left its tenant memberships behind

---
 meta/src/store/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meta/src/store/storage.rs b/meta/src/store/storage.rs
index 5704b87..918cb3d 100644
--- a/meta/src/store/storage.rs
+++ b/meta/src/store/storage.rs
@@ -1313,7 +1313,7 @@ impl StateMachine {
         if let Some(user) = self.get_struct::<UserDesc>(&user_key)? {
             // first delete member of tenant
             for tenant in self.children_data::<Tenant>(&tenants_key)?.into_values() {
-                let member_key = KeyPath::member(tenant.name(), tenant.name(), user.id());
+                let member_key = KeyPath::member(cluster, tenant.name(), user.id());
                 self.remove(&member_key)?;
             }
             self.remove(&user_key)?;
-- 
2.43.0


From 67475bd53b8a0d2456ebdd18eb32eee78d1f4fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:46 +0000
Subject: [PATCH 39/62] fix: meta replicas placed vnodes differently when nodes
 had equal free space

---
 meta/src/store/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meta/src/store/storage.rs b/meta/src/store/storage.rs
index 918cb3d..347783e 100644
--- a/meta/src/store/storage.rs
+++ b/meta/src/store/storage.rs
@@ -1177,7 +1177,7 @@ impl StateMachine {
             .filter(|(_, m)| m.is_healthy())
             .collect::<Vec<_>>();
 
-        node_info_list.sort_by_key(|(_, m)| Reverse(m.disk_free));
+        node_info_list.sort_by_key(|(n, m)| (Reverse(m.disk_free), n.id));
         Ok(node_info_list.into_iter().map(|(n, _)| n).collect())
     }
 
-- 
2.43.0


From 76cc6c75aa47292e4b12c24265b7db7e3e7c5693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:46 +0000
Subject: [PATCH 40/62] fix: buckets overlapped after the vnode duration of a
 database was altered

---
 meta/src/store/storage.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/meta/src/store/storage.rs b/meta/src/store/storage.rs
index 347783e..1b5ec83 100644
--- a/meta/src/store/storage.rs
+++ b/meta/src/store/storage.rs
@@ -1231,6 +1231,14 @@ impl StateMachine {
                 .vnode_duration()
                 .to_precision(*db_schema.config.precision()),
         );
+        // the vnode duration may have been altered: keep clear of existing buckets
+        for val in buckets.values() {
+            if val.end_time <= *ts {
+                bucket.start_time = bucket.start_time.max(val.end_time);
+            } else if val.start_time > *ts {
+                bucket.end_time = bucket.end_time.min(val.start_time);
+            }
+        }
         let (group, used) = allocation_replication_set(
             node_list,
             db_schema.options.shard_num() as u32,
-- 
2.43.0


From 51aee550668873935907dc985ffbf00ea4ce0117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:46 +0000
Subject: [PATCH 41/62] fix: meta replicas gave a new role different ids

---
 meta/src/store/storage.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/meta/src/store/storage.rs b/meta/src/store/storage.rs
index 1b5ec83..9dd39c0 100644
--- a/meta/src/store/storage.rs
+++ b/meta/src/store/storage.rs
@@ -8,7 +8,7 @@ use models::auth::privilege::DatabasePrivilege;
 use models::auth::role::{CustomTenantRole, SystemTenantRole, TenantRoleIdentifier};
 use models::auth::user::{UserDesc, UserOptions};
 use models::meta_data::*;
-use models::oid::{Identifier, Oid, UuidGenerator};
+use models::oid::{Identifier, Oid};
 use models::schema::database_schema::DatabaseSchema;
 use models::schema::query_info::QueryInfo;
 use models::schema::resource_info::ResourceInfo;
@@ -1541,7 +1541,8 @@ impl StateMachine {
             });
         }
 
-        let oid = UuidGenerator::default().next_id();
+        // every replica has to choose the same id
+        let oid = self.fetch_and_add_incr_id(cluster, 1)? as Oid;
         let role = CustomTenantRole::new(
             oid,
             role_name.to_string(),
-- 
2.43.0


From d5c9ed0c8a6419ab7686fe18be2d7d66fd798a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:54 +0000
Subject: [PATCH 42/62] fix: placing a bucket of a database with replica 0 on
 no node crashed the meta service

---
 meta/src/store/storage.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meta/src/store/storage.rs b/meta/src/store/storage.rs
index 9dd39c0..66ed4aa 100644
--- a/meta/src/store/storage.rs
+++ b/meta/src/store/storage.rs
@@ -1204,7 +1204,8 @@ impl StateMachine {
         let node_list = self.get_valid_node_list(cluster)?;
         let node_list = ping_servers(&node_list).await;
 
-        check_node_enough(db_schema.options.replica(), &node_list)?;
+        // a replica number of 0 is placed as 1
+        check_node_enough(db_schema.options.replica().max(1), &node_list)?;
 
         if db_schema.options.shard_num() == 0 {
             return Err(MetaError::DatabaseSchemaInvalid {
-- 
2.43.0


From ee073acd3de9e4fff37e94eaac163b5801ff9d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:40 +0000
Subject: [PATCH 43/62] fix: watchers missed the changes a meta node received
 in a snapshot

---
 meta/src/store/command.rs | 8 ++++++++
 meta/src/store/storage.rs | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/meta/src/store/command.rs b/meta/src/store/command.rs
index fc25f74..c09aa68 100644
--- a/meta/src/store/command.rs
+++ b/meta/src/store/command.rs
@@ -374,6 +374,14 @@ impl Watch {
         let _ = self.sender.send(());
     }
 
+    pub fn clear(&self) {
+        let mut logs = self.logs.write();
+        *logs = CircleBuf::new(logs.capacity);
+        drop(logs);
+
+        let _ = self.sender.send(());
+    }
+
     pub fn subscribe(&self) -> broadcast::Receiver<()> {
         self.sender.subscribe()
     }
diff --git a/meta/src/store/storage.rs b/meta/src/store/storage.rs
index 66ed4aa..8bbfb22 100644
--- a/meta/src/store/storage.rs
+++ b/meta/src/store/storage.rs
@@ -102,6 +102,9 @@ impl ApplyStorage for StateMachine {
         }
         writer.commit().context(HeedSnafu)?;
 
+        // the log lacks the changes the snapshot brings: let the watchers synchronize fully
+        self.watch.clear();
+
         Ok(())
     }
 
-- 
2.43.0


From 182be4a842f54c1d6348c66b1d3141ac1ccd3709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:40 +0000
Subject: [PATCH 44/62] fix: changes to a tenant were missed between loading
 and watching it

---
 meta/src/model/meta_admin.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/meta/src/model/meta_admin.rs b/meta/src/model/meta_admin.rs
index c5d4475..b629a78 100644
--- a/meta/src/model/meta_admin.rs
+++ b/meta/src/model/meta_admin.rs
@@ -307,12 +307,13 @@ impl AdminMeta {
             if let Some(info) = receiver.recv().await {
                 if let Some(handle) = task_handle {
                     handle.abort();
+                    // it may be about to advance the version
+                    let _ = handle.await;
                 }
 
-                let base_ver = admin
+                admin
                     .watch_version
                     .fetch_min(info.version, Ordering::Relaxed);
-                admin.watch_version.store(base_ver, Ordering::Relaxed);
 
                 let mut tenants = admin.watch_tenants.write();
                 if info.name.is_empty() {
@@ -624,7 +625,12 @@ impl AdminMeta {
     /******************** User Operation End *********************/
 
     /******************** Tenant Limiter Operation Begin *********************/
-    pub async fn create_tenant_meta(&self, tenant_info: Tenant) -> MetaResult<MetaClientRef> {
+    /// `since`: the watched version when the tenant was read, later changes are yet to come.
+    async fn create_tenant_meta(
+        &self,
+        tenant_info: Tenant,
+        since: u64,
+    ) -> MetaResult<MetaClientRef> {
         let tenant_name = tenant_info.name().to_string();
 
         let limiter_key = LimiterKey(LimiterType::Tenant, tenant_name.clone());
@@ -643,13 +649,15 @@ impl AdminMeta {
         )
         .await?;
 
+        // the version of what was loaded, before the watch changes it
+        let version = client.version().await.min(since);
         self.tenants
             .write()
             .insert(tenant_name.clone(), client.clone());
 
         let info = UseTenantInfo {
             name: tenant_name,
-            version: client.version().await,
+            version,
             action: TenantAction::Add,
         };
         let _ = self.watch_notify.send(info).await;
@@ -666,8 +674,9 @@ impl AdminMeta {
         let tenant = Tenant::new(oid, name.to_string(), options.clone());
         let req = command::WriteCommand::CreateTenant(self.cluster(), tenant.clone());
 
+        let since = self.watch_version.load(Ordering::Relaxed);
         self.client.write::<()>(&req).await?;
-        let meta_client = self.create_tenant_meta(tenant).await?;
+        let meta_client = self.create_tenant_meta(tenant, since).await?;
         Ok(meta_client)
     }
 
@@ -723,9 +732,9 @@ impl AdminMeta {
 
         let req =
             command::WriteCommand::AlterTenant(self.cluster(), name.to_string(), merged_options);
+        let since = self.watch_version.load(Ordering::Relaxed);
         let tenant = self.client.write::<Tenant>(&req).await?;
-        let tenant_meta = self.create_tenant_meta(tenant).await?;
-        self.tenants.write().insert(name.to_string(), tenant_meta);
+        self.create_tenant_meta(tenant, since).await?;
         Ok(())
     }
     // 合并 limiter_config 的辅助函数
@@ -806,9 +815,9 @@ impl AdminMeta {
             name.to_string(),
             tenant_is_hidden,
         );
+        let since = self.watch_version.load(Ordering::Relaxed);
         let tenant = self.client.write::<Tenant>(&req).await?;
-        let tenant_meta = self.create_tenant_meta(tenant).await?;
-        self.tenants.write().insert(name.to_string(), tenant_meta);
+        self.create_tenant_meta(tenant, since).await?;
         Ok(())
     }
 
@@ -831,8 +840,9 @@ impl AdminMeta {
             return Some(client.clone());
         }
 
+        let since = self.watch_version.load(Ordering::Relaxed);
         if let Ok(Some(tenant_info)) = self.tenant(tenant).await {
-            return self.create_tenant_meta(tenant_info).await.ok();
+            return self.create_tenant_meta(tenant_info, since).await.ok();
         }
 
         None
-- 
2.43.0


From 7f1408ff73b0411717c308384b6da941d46bff25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:40 +0000
Subject: [PATCH 45/62] fix: nodes went on with a tenant that another node
 altered or dropped

---
 meta/src/model/meta_admin.rs  | 16 ++++++++++++++++
 meta/src/model/meta_tenant.rs | 17 ++++++++++++++---
 meta/src/store/command.rs     |  7 +++----
 3 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/meta/src/model/meta_admin.rs b/meta/src/model/meta_admin.rs
index b629a78..8c5f666 100644
--- a/meta/src/model/meta_admin.rs
+++ b/meta/src/model/meta_admin.rs
@@ -395,6 +395,9 @@ impl AdminMeta {
                 let _ = self.limiters.process_watch_log(tenant_name, entry).await;
                 if let Some(client) = opt_client {
                     let _ = client.process_watch_log(entry).await;
+                    if len == 4 {
+                        self.process_tenant_log(tenant_name, client, entry);
+                    }
                 }
             } else if len == 3 && strs[2] == key_path::AUTO_INCR_ID {
             } else if len == 4
@@ -408,6 +411,19 @@ impl AdminMeta {
         }
     }
 
+    /// A tenant itself was altered or dropped, maybe by another node.
+    fn process_tenant_log(&self, name: &str, client: Arc<TenantMeta>, entry: &EntryLog) {
+        if entry.tye == command::ENTRY_LOG_TYPE_SET {
+            if let Ok(tenant) = serde_json::from_str::<Tenant>(&entry.val) {
+                self.tenants
+                    .write()
+                    .insert(name.to_string(), client.with_tenant(tenant));
+            }
+        } else if entry.tye == command::ENTRY_LOG_TYPE_DEL {
+            self.tenants.write().remove(name);
+        }
+    }
+
     pub async fn process_watch_log(&self, entry: &EntryLog) -> MetaResult<()> {
         let strs: Vec<&str> = entry.key.split('/').collect();
 
diff --git a/meta/src/model/meta_tenant.rs b/meta/src/model/meta_tenant.rs
index 8e5d94d..587cab0 100644
--- a/meta/src/model/meta_tenant.rs
+++ b/meta/src/model/meta_tenant.rs
@@ -35,7 +35,7 @@ pub struct TenantMeta {
     tenant: Tenant,
     meta_url: String,
 
-    data: RwLock<TenantMetaData>,
+    data: Arc<RwLock<TenantMetaData>>,
     pub client: MetaHttpClient,
 }
 
@@ -45,7 +45,7 @@ impl TenantMeta {
             cluster: "".to_string(),
             tenant: Tenant::default(),
             meta_url: "".to_string(),
-            data: RwLock::new(TenantMetaData::new()),
+            data: Arc::new(RwLock::new(TenantMetaData::new())),
             client: MetaHttpClient::new("", Arc::new(MetricsRegister::default())),
         }
     }
@@ -60,7 +60,7 @@ impl TenantMeta {
             cluster,
             tenant,
             meta_url: meta_url.clone(),
-            data: RwLock::new(TenantMetaData::new()),
+            data: Arc::new(RwLock::new(TenantMetaData::new())),
             client: MetaHttpClient::new(&meta_url, metrics_register),
         });
 
@@ -69,6 +69,17 @@ impl TenantMeta {
         Ok(client)
     }
 
+    /// The same metadata under the altered tenant.
+    pub fn with_tenant(&self, tenant: Tenant) -> Arc<Self> {
+        Arc::new(Self {
+            cluster: self.cluster.clone(),
+            tenant,
+            meta_url: self.meta_url.clone(),
+            data: self.data.clone(),
+            client: self.client.clone(),
+        })
+    }
+
     pub async fn sync_all_tenant_metadata(&self) -> MetaResult<()> {
         let req = command::ReadCommand::TenantMetaData(self.cluster.clone(), self.tenant_name());
         let resp = self.client.read::<TenantMetaData>(&req).await?;
diff --git a/meta/src/store/command.rs b/meta/src/store/command.rs
index c09aa68..a01f68b 100644
--- a/meta/src/store/command.rs
+++ b/meta/src/store/command.rs
@@ -427,10 +427,9 @@ impl Watch {
 
             let prefix = KeyPath::tenants(cluster);
             if let Some(sub_str) = entry.key.strip_prefix(&prefix) {
-                if let Some((tenant, _)) = sub_str.split_once('/') {
-                    if tenants.contains(tenant) {
-                        return true;
-                    }
+                let tenant = sub_str.split('/').next().unwrap_or(sub_str);
+                if tenants.contains(tenant) {
+                    return true;
                 }
             }
 
-- 
2.43.0


From edb0d4932845468680ce9ef26d909c022b990cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:40 +0000
Subject: [PATCH 46/62] fix: a late reply put a removed member or an old table
 schema back into the cache

---
 meta/src/model/meta_tenant.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/meta/src/model/meta_tenant.rs b/meta/src/model/meta_tenant.rs
index 587cab0..a7ba52a 100644
--- a/meta/src/model/meta_tenant.rs
+++ b/meta/src/model/meta_tenant.rs
@@ -248,6 +248,7 @@ impl TenantMeta {
                 return Ok(Some(role.clone()));
             }
         }
+        let version = self.version().await;
         let req = command::ReadCommand::MemberRole(
             self.cluster.clone(),
             self.tenant().name().to_string(),
@@ -257,7 +258,10 @@ impl TenantMeta {
         let res = self.client.read::<Option<TenantRoleIdentifier>>(&req).await;
         if let Ok(Some(role)) = &res {
             let mut data = self.data.write();
-            data.members.insert(user_id.to_string(), role.clone());
+            // do not undo what the watch brought meanwhile
+            if data.version == version {
+                data.members.insert(user_id.to_string(), role.clone());
+            }
         }
         res
     }
@@ -512,6 +516,7 @@ impl TenantMeta {
         db: &str,
         table: &str,
     ) -> MetaResult<Option<TskvTableSchemaRef>> {
+        let version = self.version().await;
         let req = ReadCommand::TableSchema(
             self.cluster.clone(),
             self.tenant.name().to_string(),
@@ -521,6 +526,10 @@ impl TenantMeta {
         let rsp = self.client.read::<Option<TableSchema>>(&req).await?;
         if let Some(TableSchema::TsKvTableSchema(val)) = rsp {
             let mut data_w = self.data.write();
+            // do not undo what the watch brought meanwhile
+            if data_w.version != version {
+                return Ok(Some(val));
+            }
             let db = data_w
                 .dbs
                 .get_mut(&val.db)
-- 
2.43.0


From eaf7764bf23ebbfef4901e44edb9e77f1595e16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:42 +0000
Subject: [PATCH 47/62] fix: keep the private key in the key of cached sign-ins

---
 common/models/src/auth/auth_cache.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/common/models/src/auth/auth_cache.rs b/common/models/src/auth/auth_cache.rs
index a901799..093db9e 100644
--- a/common/models/src/auth/auth_cache.rs
+++ b/common/models/src/auth/auth_cache.rs
@@ -9,6 +9,7 @@ use super::user::UserInfo;
 #[derive(Clone, Hash, Eq, PartialEq)]
 pub struct AuthCacheKey {
     pub authorization: String,
+    pub private_key: Option<String>,
     pub tenant: String,
 }
 
@@ -16,6 +17,7 @@ impl AuthCacheKey {
     pub fn new(user_info: &UserInfo, tenant: impl Into<String>) -> Self {
         Self {
             authorization: user_info.to_authorization(),
+            private_key: user_info.private_key.clone(),
             tenant: tenant.into(),
         }
     }
-- 
2.43.0


From 6029c5e57d59765a75d95b295b3431b68d7e1ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:10 +0000
Subject: [PATCH 48/62] fix: line protocol misread or panicked on empty values,
 line ends and escaped first characters

---
 .../src/line_protocol/parser.rs               | 40 ++++++++++---------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/common/protocol_parser/src/line_protocol/parser.rs b/common/protocol_parser/src/line_protocol/parser.rs
index 377d829..d691b4c 100644
--- a/common/protocol_parser/src/line_protocol/parser.rs
+++ b/common/protocol_parser/src/line_protocol/parser.rs
@@ -80,7 +80,8 @@ impl Parser {
                         continue;
                     }
 
-                    key_idx = (index, 0, false);
+                    next_escape = char == b'\\';
+                    key_idx = (index, 0, next_escape);
                     status = ParseStatus::Table;
                 }
 
@@ -88,7 +89,8 @@ impl Parser {
                     if skip_space {
                         if char != b' ' {
                             skip_space = false;
-                            key_idx = (index, 0, false);
+                            next_escape = char == b'\\';
+                            key_idx = (index, 0, next_escape);
                             status = ParseStatus::FieldKey;
                         }
                         continue;
@@ -140,7 +142,8 @@ impl Parser {
                     if skip_space {
                         if char != b' ' {
                             skip_space = false;
-                            key_idx = (index, 0, false);
+                            next_escape = char == b'\\';
+                            key_idx = (index, 0, next_escape);
                             status = ParseStatus::FieldKey;
                         }
                         continue;
@@ -194,7 +197,16 @@ impl Parser {
 
                 ParseStatus::FieldValue => {
                     if skip_space {
-                        if char != b' ' {
+                        if char == b'\r' || char == b'\n' {
+                            skip_space = false;
+                            line.timestamp = self.default_time;
+                            line.sort_dedup_and_hash();
+                            lines.push(line);
+
+                            line = Line::default();
+                            key_idx = (0, 0, false);
+                            status = ParseStatus::LineBegin;
+                        } else if char != b' ' {
                             skip_space = false;
                             key_idx = (index, 0, false);
                             status = ParseStatus::Timestamp;
@@ -266,15 +278,8 @@ impl Parser {
         }
 
         if let ParseStatus::Timestamp = status {
-            let timestamp = if key_idx.0 == 0 {
-                self.default_time
-            } else {
-                let (timestamp, _) = atoi_simd::parse_until_invalid(&data_bytes[key_idx.0..])
-                    .map_err(|_| Error::Timestamp { pos: key_idx.0 })?;
-                timestamp
-            };
-
-            line.timestamp = timestamp;
+            line.timestamp = atoi_simd::parse(&data_bytes[key_idx.0..])
+                .map_err(|_| Error::Timestamp { pos: key_idx.0 })?;
             line.sort_dedup_and_hash();
             lines.push(line);
 
@@ -284,7 +289,7 @@ impl Parser {
                 return Err(Error::UnexpectedEnd { pos: val_idx.0 });
             }
 
-            if key_idx.1 > key_idx.0 && data_bytes.len() > val_idx.0 {
+            if !skip_space {
                 let key = escape(&data_bytes[key_idx.0..key_idx.1], key_idx.2)?;
                 let val = parse_field_value(&data_bytes[val_idx.0..], val_idx.2)?;
                 line.fields.push((key, val));
@@ -311,10 +316,7 @@ fn escape(s: &[u8], need_unescape: bool) -> Result<Cow<str>> {
     }
     let mut ownd_bytes = Vec::with_capacity(s.len());
     for (&v1, &v2) in s.iter().tuple_windows() {
-        if v2 == b',' || v2 == b' ' || v2 == b'=' {
-            if v1 != b'\\' {
-                return Err(Error::InvaildSyntax);
-            }
+        if v1 == b'\\' && (v2 == b',' || v2 == b' ' || v2 == b'=') {
             continue;
         }
         ownd_bytes.push(v1);
@@ -326,7 +328,7 @@ fn escape(s: &[u8], need_unescape: bool) -> Result<Cow<str>> {
 }
 
 fn parse_field_value(buf: &[u8], need_unescape: bool) -> Result<FieldValue> {
-    match buf[0] {
+    match buf.first().copied().unwrap_or_default() {
         b't' | b'T' => parse_boolean_field(buf, true),
         b'f' | b'F' => parse_boolean_field(buf, false),
         b'"' => parse_string_field(buf, need_unescape),
-- 
2.43.0


From 9be9286787ad1488c698cf0b320ea15606430a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:10 +0000
Subject: [PATCH 49/62] fix: OpenTSDB HTTP refused decimals and more than one
 line

---
 common/protocol_parser/src/lib.rs              |  6 +++---
 common/protocol_parser/src/open_tsdb/parser.rs | 10 +++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/common/protocol_parser/src/lib.rs b/common/protocol_parser/src/lib.rs
index fc58010..6d681b9 100644
--- a/common/protocol_parser/src/lib.rs
+++ b/common/protocol_parser/src/lib.rs
@@ -266,16 +266,16 @@ fn next_tag_set(buf: &str) -> NextTagRes {
 fn next_value(buf: &str) -> Option<(&str, usize)> {
     let mut exists_timestamp = false;
     let (mut tok_begin, mut tok_end) = (0, buf.len());
-    for (i, c) in buf.chars().enumerate() {
+    for (i, c) in buf.char_indices() {
         if exists_timestamp {
             // Timestamp end character
-            if !c.is_numeric() {
+            if c.is_whitespace() {
                 tok_end = i;
                 break;
             }
         } else {
             // Timestamp begin character
-            if c == '-' || c.is_numeric() {
+            if !c.is_whitespace() {
                 tok_begin = i;
                 exists_timestamp = true;
             }
diff --git a/common/protocol_parser/src/open_tsdb/parser.rs b/common/protocol_parser/src/open_tsdb/parser.rs
index e1a2327..eaf0030 100644
--- a/common/protocol_parser/src/open_tsdb/parser.rs
+++ b/common/protocol_parser/src/open_tsdb/parser.rs
@@ -19,11 +19,11 @@ impl Parser {
 
     pub fn parse<'a>(&self, lines: &'a str) -> Result<Vec<Line<'a>>> {
         let mut ret: Vec<Line> = Vec::new();
-        let mut pos = 0_usize;
-        while let Some((mut line, offset)) = self.next_line(lines, pos)? {
-            line.sort_dedup_and_hash();
-            ret.push(line);
-            pos += offset;
+        for buf in lines.lines() {
+            if let Some((mut line, _)) = self.next_line(buf, 0)? {
+                line.sort_dedup_and_hash();
+                ret.push(line);
+            }
         }
         Ok(ret)
     }
-- 
2.43.0


From 4563781dd788d02789d5a8aa80adbeba69f2506d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:10 +0000
Subject: [PATCH 50/62] fix: OpenTSDB TCP took a line for whole before it was

---
 common/protocol_parser/src/open_tsdb/parser.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/common/protocol_parser/src/open_tsdb/parser.rs b/common/protocol_parser/src/open_tsdb/parser.rs
index eaf0030..b392a95 100644
--- a/common/protocol_parser/src/open_tsdb/parser.rs
+++ b/common/protocol_parser/src/open_tsdb/parser.rs
@@ -109,16 +109,15 @@ impl Parser {
 
     pub fn parse_tcp_opentsdb<'a>(&self, buf: &'a [u8]) -> Result<(Vec<Line<'a>>, usize)> {
         let mut ret: Vec<Line> = Vec::new();
-        let mut pos = 0;
-        let lines = std::str::from_utf8(buf).map_err(|e| Error::Common {
+        // Only lines that have arrived in full, the rest of the buffer is kept.
+        let pos = buf.iter().rposition(|b| *b == b'\n').map_or(0, |p| p + 1);
+        let lines = std::str::from_utf8(&buf[..pos]).map_err(|e| Error::Common {
             content: format!("Invalid Point: {}", e),
         })?;
-        let lines = lines.split("\r\n").collect::<Vec<&str>>();
-        for line_raw in lines {
+        for line_raw in lines.lines() {
             if let Some(mut line) = self.next_tcp_line(line_raw)? {
                 line.sort_dedup_and_hash();
                 ret.push(line);
-                pos += line_raw.len() + 2;
             }
         }
         Ok((ret, pos))
-- 
2.43.0


From a54ef2dd92be5da6944d5916ab0f06905c2d5a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:10 +0000
Subject: [PATCH 51/62] fix: attributes of a span leaked into the spans after
 it

---
 common/protocol_parser/src/json_protocol/parser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/common/protocol_parser/src/json_protocol/parser.rs b/common/protocol_parser/src/json_protocol/parser.rs
index 1eb6f63..c26f1f0 100644
--- a/common/protocol_parser/src/json_protocol/parser.rs
+++ b/common/protocol_parser/src/json_protocol/parser.rs
@@ -263,7 +263,9 @@ pub fn parse_protobuf_to_otlptrace(req: Bytes) -> Result<Vec<JsonProtocol>> {
             prefix.join("") + "schema_url",
             serde_json::Value::String(resource_span.schema_url),
         );
+        let resource_fields = fields.clone();
         for scope_span in resource_span.scope_spans {
+            fields.clone_from(&resource_fields);
             prefix.push("ScopeSpans/".to_string());
             if let Some(scope) = scope_span.scope {
                 prefix.push("InstrumentationScope/".to_string());
@@ -302,7 +304,9 @@ pub fn parse_protobuf_to_otlptrace(req: Bytes) -> Result<Vec<JsonProtocol>> {
                 prefix.join("") + "schema_url",
                 serde_json::Value::String(scope_span.schema_url),
             );
+            let scope_fields = fields.clone();
             for span in scope_span.spans {
+                fields.clone_from(&scope_fields);
                 prefix.push("Span/".to_string());
                 fields.insert(
                     prefix.join("") + "trace_id",
@@ -475,7 +479,9 @@ pub fn parse_protobuf_to_otlptrace(req: Bytes) -> Result<Vec<JsonProtocol>> {
                     );
                     prefix.pop();
                 }
-                let duration_nano = span.end_time_unix_nano - span.start_time_unix_nano;
+                let duration_nano = span
+                    .end_time_unix_nano
+                    .saturating_sub(span.start_time_unix_nano);
                 fields.insert(
                     prefix.join("") + "duration_nano",
                     serde_json::Value::Number(duration_nano.into()),
-- 
2.43.0


From a17e5d7a8e4c56e1914f4e4da08f3f6412061936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:10 +0000
Subject: [PATCH 52/62] fix: overflowing Loki timestamps

---
 common/protocol_parser/src/json_protocol/parser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/common/protocol_parser/src/json_protocol/parser.rs b/common/protocol_parser/src/json_protocol/parser.rs
index c26f1f0..2f7b880 100644
--- a/common/protocol_parser/src/json_protocol/parser.rs
+++ b/common/protocol_parser/src/json_protocol/parser.rs
@@ -201,7 +201,13 @@ pub fn parse_protobuf_to_lokilog(req: Bytes) -> Result<Vec<JsonProtocol>> {
         );
         for entry in stream.entries {
             let ts = entry.timestamp.unwrap_or_default();
-            let timestamp: i64 = ts.seconds * 1_000_000_000 + ts.nanos as i64;
+            let timestamp = ts
+                .seconds
+                .checked_mul(1_000_000_000)
+                .and_then(|t| t.checked_add(ts.nanos as i64))
+                .ok_or_else(|| Error::Common {
+                    content: "Out of the time frame that can be saved".to_string(),
+                })?;
 
             fields.insert(
                 "time".to_string(),
-- 
2.43.0


From 98d340e2eb49304274af328ea390f4c414d4ce35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:10 +0000
Subject: [PATCH 53/62] fix: tag values of JSON logs kept their escapes and
 lost their quotes

---
 common/protocol_parser/src/json_protocol/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/protocol_parser/src/json_protocol/parser.rs b/common/protocol_parser/src/json_protocol/parser.rs
index 2f7b880..1d32be7 100644
--- a/common/protocol_parser/src/json_protocol/parser.rs
+++ b/common/protocol_parser/src/json_protocol/parser.rs
@@ -517,7 +517,10 @@ pub fn parse_to_line<'a>(
     let mut fields = vec![];
     for (key, value) in value.get_fields() {
         if tag_columns.contains(&key.as_str()) {
-            let value = value.to_string().trim_matches('"').to_owned();
+            let value = match value {
+                serde_json::Value::String(value) => value.to_owned(),
+                value => value.to_string(),
+            };
             tags.push((Cow::Borrowed(key.as_str()), Cow::Owned(value)));
         } else if time_column.eq(key) {
             match value {
-- 
2.43.0


From 537bd258449c29bcd7b726ba4931492dfe4cadfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:24 +0000
Subject: [PATCH 54/62] fix: panic on one name used as tag, field or time in
 lines of a table

---
 common/models/src/mutable_batch.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/common/models/src/mutable_batch.rs b/common/models/src/mutable_batch.rs
index 908cc1c..1ca29e9 100644
--- a/common/models/src/mutable_batch.rs
+++ b/common/models/src/mutable_batch.rs
@@ -33,7 +33,15 @@ impl<'a> MutableBatch<'a> {
         col_type: PhysicalCType,
     ) -> ModelResult<&mut Column<'a>> {
         let column_idx = match self.column_names.get(name) {
-            Some(column_idx) => *column_idx,
+            Some(column_idx) => {
+                if self.columns[*column_idx].column_type != col_type {
+                    return Err(CommonSnafu {
+                        msg: format!("Column '{}' is given different types", name),
+                    }
+                    .build());
+                }
+                *column_idx
+            }
             None => {
                 let column_idx = self.columns.len();
                 self.column_names.insert(name.to_string(), column_idx);
-- 
2.43.0


From b21f8865e5e28a46e7013373fd4436547c72bec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:37 +0000
Subject: [PATCH 55/62] fix: sharded caches without a bound overflow when asked
 for or given their capacity

---
 common/cache/src/lib.rs                 | 2 +-
 common/cache/src/sharded_async_cache.rs | 6 +++++-
 common/cache/src/sharded_sync_cache.rs  | 8 ++++++--
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/common/cache/src/lib.rs b/common/cache/src/lib.rs
index 4af75fb..5c30e7a 100644
--- a/common/cache/src/lib.rs
+++ b/common/cache/src/lib.rs
@@ -24,7 +24,7 @@ pub(crate) const NUM_SHARDS: usize = 1 << NUM_SHARD_BITS;
 
 pub(crate) fn per_shard(capacity: usize, shard_len: usize) -> NonZeroUsize {
     // FIXME: Cannot set a precise capacity freely (such as 1000, will be 63 * 16)
-    let per_shard = (capacity + (shard_len - 1)) / shard_len;
+    let per_shard = capacity.div_ceil(shard_len);
     NonZeroUsize::new(per_shard).unwrap_or(unsafe { NonZeroUsize::new_unchecked(1) })
 }
 
diff --git a/common/cache/src/sharded_async_cache.rs b/common/cache/src/sharded_async_cache.rs
index 2b288bb..f3db4c3 100644
--- a/common/cache/src/sharded_async_cache.rs
+++ b/common/cache/src/sharded_async_cache.rs
@@ -97,7 +97,11 @@ where
             .shard
             .iter()
             .map(|a| async { a.lock().await.get_capacity() });
-        join_all(futures).await.iter().sum()
+        // The shards of an unbounded cache are unbounded, their sum saturates.
+        join_all(futures)
+            .await
+            .into_iter()
+            .fold(0, usize::saturating_add)
     }
 
     async fn get_usage(&self) -> usize {
diff --git a/common/cache/src/sharded_sync_cache.rs b/common/cache/src/sharded_sync_cache.rs
index 2da95b5..6167ba2 100644
--- a/common/cache/src/sharded_sync_cache.rs
+++ b/common/cache/src/sharded_sync_cache.rs
@@ -101,7 +101,7 @@ where
 
     fn set_capacity(&self, capacity: NonZeroUsize) {
         // FIXME: Cannot set a precise capacity freely (such as 1000, will be 63 * 16)
-        let per_shard = (capacity.get() + (self.shard.len() - 1)) / self.shard.len();
+        let per_shard = capacity.get().div_ceil(self.shard.len());
         let per_shard =
             NonZeroUsize::new(per_shard).unwrap_or(unsafe { NonZeroUsize::new_unchecked(1) });
 
@@ -109,7 +109,11 @@ where
     }
 
     fn get_capacity(&self) -> usize {
-        self.shard.iter().map(|a| a.get_capacity()).sum()
+        // The shards of an unbounded cache are unbounded, their sum saturates.
+        self.shard
+            .iter()
+            .map(|a| a.get_capacity())
+            .fold(0, usize::saturating_add)
     }
 
     fn get_usage(&self) -> usize {
-- 
2.43.0


From 3b9c0d75145de355e4922ab425c50864e366b105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:37 +0000
Subject: [PATCH 56/62] fix: dedup_front_by loses an element when the
 comparison panics

---
 common/utils/src/dedup.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/common/utils/src/dedup.rs b/common/utils/src/dedup.rs
index 5207b1d..ac2ce3e 100644
--- a/common/utils/src/dedup.rs
+++ b/common/utils/src/dedup.rs
@@ -54,29 +54,30 @@ where
         fn drop(&mut self) {
             /* This code gets executed when `same_bucket` panics */
 
-            /* SAFETY: invariant guarantees that `read - write`
-             * and `len - read` never overflow and that the copy is always
+            /* SAFETY: invariant guarantees that `prev - write`
+             * and `len - prev` never overflow and that the copy is always
              * in-bounds. */
             unsafe {
                 let ptr = self.vec.as_mut_ptr();
                 let len = self.vec.len();
 
                 /* How many items were left when `same_bucket` panicked.
-                 * Basically vec[read..].len() */
-                let items_left = len.wrapping_sub(self.read);
+                 * Basically vec[prev..].len() */
+                let items_left = len.wrapping_sub(self.prev);
 
                 /* Pointer to first item in vec[write..write+items_left] slice */
                 let dropped_ptr = ptr.add(self.write);
-                /* Pointer to first item in vec[read..] slice */
-                let valid_ptr = ptr.add(self.read);
+                /* Pointer to first item in vec[prev..] slice, the item at `prev`
+                 * has neither been dropped nor moved yet */
+                let valid_ptr = ptr.add(self.prev);
 
-                /* Copy `vec[read..]` to `vec[write..write+items_left]`.
+                /* Copy `vec[prev..]` to `vec[write..write+items_left]`.
                  * The slices can overlap, so `copy_nonoverlapping` cannot be used */
                 ptr::copy(valid_ptr, dropped_ptr, items_left);
 
                 /* How many items have been already dropped
-                 * Basically vec[read..write].len() */
-                let dropped = self.read.wrapping_sub(self.write);
+                 * Basically vec[write..prev].len() */
+                let dropped = self.prev.wrapping_sub(self.write);
 
                 self.vec.set_len(len - dropped);
             }
-- 
2.43.0


From c28ad4873eeacfc8dd2f9a863b6e2b6310344f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:59 +0000
Subject: [PATCH 57/62] fix: name a snapshot's last log entry after the log was
 purged up to it

---
 replication/src/node_store.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/replication/src/node_store.rs b/replication/src/node_store.rs
index 55fa87e..0980b8d 100644
--- a/replication/src/node_store.rs
+++ b/replication/src/node_store.rs
@@ -103,6 +103,12 @@ impl NodeStorage {
             }
         }
 
+        if let Some(log_id) = self.state.get_last_purged(self.group_id())? {
+            if log_id.index == index {
+                return Ok(Some(log_id));
+            }
+        }
+
         Ok(None)
     }
 
-- 
2.43.0


From f1cf9c6140b3ff7bfc4c02a9970a63eb32a12b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:11 +0000
Subject: [PATCH 58/62] fix: do not read cut off raft entries from the reader's
 buffer

---
 tskv/src/wal/wal_store.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/tskv/src/wal/wal_store.rs b/tskv/src/wal/wal_store.rs
index 56761f0..1a96205 100644
--- a/tskv/src/wal/wal_store.rs
+++ b/tskv/src/wal/wal_store.rs
@@ -319,6 +319,7 @@ impl RaftEntryStorageInner {
             return Ok(());
         }
 
+        let mut truncated = false;
         let mut delete_file_ids = vec![];
         for item in self.files_meta.iter_mut().rev() {
             if item.min_seq >= seq_no {
@@ -330,6 +331,7 @@ impl RaftEntryStorageInner {
                 let pos = item.del_after(seq_no);
                 if pos > 0 {
                     let _ = self.wal.truncate_wal_file(item.file_id, pos).await;
+                    truncated = true;
                 }
             }
 
@@ -345,6 +347,17 @@ impl RaftEntryStorageInner {
             .await
             .map_err(|e| ReplicationError::RaftInternalErr { msg: e.to_string() })?;
 
+        // The reader may have buffered the entries that were cut off.
+        if truncated {
+            if let Some(item) = self.files_meta.last_mut() {
+                item.reader = self
+                    .wal
+                    .wal_reader(item.file_id)
+                    .await
+                    .map_err(|e| ReplicationError::RaftInternalErr { msg: e.to_string() })?;
+            }
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From ed32b0fa4ab5d26b4f6c6e7917ca63c9d0b9e97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:11 +0000
Subject: [PATCH 59/62] fix: the last raft entry may be older than the cached
 ones

---
 tskv/src/wal/wal_store.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tskv/src/wal/wal_store.rs b/tskv/src/wal/wal_store.rs
index 1a96205..6f1768a 100644
--- a/tskv/src/wal/wal_store.rs
+++ b/tskv/src/wal/wal_store.rs
@@ -392,9 +392,13 @@ impl RaftEntryStorageInner {
 
     async fn wal_last_entry(&mut self) -> ReplicationResult<Option<RaftEntry>> {
         if let Some(entry) = self.entry_cache.last() {
-            Ok(Some(entry.clone()))
-        } else {
-            Ok(None)
+            return Ok(Some(entry.clone()));
+        }
+
+        // Entries older than the cached ones may be left.
+        match self.files_meta.last_mut() {
+            Some(item) => item.get_entry_by_index(item.max_seq).await,
+            None => Ok(None),
         }
     }
 
-- 
2.43.0


From fb2068a35ac8b0dfaedb308fe5758275bf3f20bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:43 +0000
Subject: [PATCH 60/62] fix: differences of column values wrap around when they
 are added up too

The encoders subtract neighbouring values with wrapping_sub, so the decoders
have to add them with wrapping_add: a column holding, for example, i64::MIN and
i64::MAX next to each other made the decoder panic where overflow is checked.
---
 tskv/src/tsm/codec/integer.rs   | 2 +-
 tskv/src/tsm/codec/timestamp.rs | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tskv/src/tsm/codec/integer.rs b/tskv/src/tsm/codec/integer.rs
index 6a15871..8404640 100644
--- a/tskv/src/tsm/codec/integer.rs
+++ b/tskv/src/tsm/codec/integer.rs
@@ -240,7 +240,7 @@ fn decode_simple8b_to_array(src: &[u8], bit_set: &NullBuffer) -> Result<ArrayRef
             continue;
         }
         if let Some(v) = iter.next() {
-            next += zig_zag_decode(*v);
+            next = i64::wrapping_add(next, zig_zag_decode(*v));
             builder.append_value(next);
         }
     }
diff --git a/tskv/src/tsm/codec/timestamp.rs b/tskv/src/tsm/codec/timestamp.rs
index 8f463b2..cdfac01 100644
--- a/tskv/src/tsm/codec/timestamp.rs
+++ b/tskv/src/tsm/codec/timestamp.rs
@@ -215,7 +215,7 @@ fn decode_uncompressed_to_array(src: &[u8], bit_set: &NullBuffer) -> Result<Arra
         }
         if i < src.len() {
             buf.copy_from_slice(&src[i..i + 8]);
-            prev += i64::from_be_bytes(buf);
+            prev = i64::wrapping_add(prev, i64::from_be_bytes(buf));
             builder.append_value(prev);
             i += 8;
         }
@@ -283,11 +283,11 @@ fn decode_simple8b_to_array(src: &[u8], bit_set: &NullBuffer) -> Result<ArrayRef
     while idx < bit_set.len() {
         if bit_set.is_valid(idx) {
             if let Some(value) = value_iter.next() {
-                next += if scaler > 1 {
+                next = next.wrapping_add(if scaler > 1 {
                     (value * scaler) as i64
                 } else {
                     value as i64
-                };
+                });
                 builder.append_value(next);
             }
         } else {
-- 
2.43.0


From 2ddcc060884a634515ca40d2dc204579c0d67276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:34 +0000
Subject: [PATCH 61/62] fix: write the presence bits of a sliced array from
 where the slice starts

The null buffer of a sliced arrow array is the buffer of the whole array with
an offset; the page kept the first bits of the whole array instead of those of
the slice.
---
 tskv/src/tsm/page.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tskv/src/tsm/page.rs b/tskv/src/tsm/page.rs
index 7e5dcda..08f090b 100644
--- a/tskv/src/tsm/page.rs
+++ b/tskv/src/tsm/page.rs
@@ -101,7 +101,7 @@ impl Page {
         let data_len = array.len() as u64;
         let bit_set_buffer = match array.nulls() {
             None => BooleanBuffer::new_set(data_len as usize).values().to_vec(),
-            Some(nulls) => nulls.buffer().to_vec(),
+            Some(nulls) => nulls.inner().sliced().to_vec(),
         };
         let mut buf = vec![];
         let statistics = match array.data_type() {
-- 
2.43.0


From 3fa946338f907bbdd46049410433d6abafa4bc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:07 +0000
Subject: [PATCH 62/62] fix: a DELTATS column may start with missing values

The first stored value was only used when the first cell was present;
otherwise it was lost, every value moved by one cell and the array came out one
cell short.
---
 tskv/src/tsm/codec/timestamp.rs | 37 ++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/tskv/src/tsm/codec/timestamp.rs b/tskv/src/tsm/codec/timestamp.rs
index cdfac01..95c2bf3 100644
--- a/tskv/src/tsm/codec/timestamp.rs
+++ b/tskv/src/tsm/codec/timestamp.rs
@@ -270,30 +270,29 @@ fn decode_simple8b_to_array(src: &[u8], bit_set: &NullBuffer) -> Result<ArrayRef
     buf.copy_from_slice(&src[1..9]);
     let mut next = i64::from_be_bytes(buf);
     let mut builder = Int64Builder::with_capacity(bit_set.len());
-    let mut idx = 0;
-    if bit_set.is_valid(idx) {
-        builder.append_value(next);
-    } else {
-        builder.append_null();
-    }
-    idx += 1;
     simple8b::decode(&src[9..], &mut res);
 
+    let mut is_first = true;
     let mut value_iter = res.into_iter();
-    while idx < bit_set.len() {
-        if bit_set.is_valid(idx) {
-            if let Some(value) = value_iter.next() {
-                next = next.wrapping_add(if scaler > 1 {
-                    (value * scaler) as i64
-                } else {
-                    value as i64
-                });
-                builder.append_value(next);
-            }
-        } else {
+    for is_valid in bit_set.iter() {
+        if !is_valid {
             builder.append_null();
+            continue;
+        }
+        if is_first {
+            // first values stored raw
+            builder.append_value(next);
+            is_first = false;
+            continue;
+        }
+        if let Some(value) = value_iter.next() {
+            next = next.wrapping_add(if scaler > 1 {
+                (value * scaler) as i64
+            } else {
+                value as i64
+            });
+            builder.append_value(next);
         }
-        idx += 1;
     }
     Ok(Arc::new(builder.finish()))
 }
-- 
2.43.0

