From 36312a6b459d331aac26f38c2c186fd1c52967a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 01/65] fix: keep the entries size exact on expiration, iter
 deletes, and updates

Expired, swept, iterated-and-deleted, and updated-in-load entries bypassed
the memory size accounting, so pogocache_size drifted away from the contents.
---
 src/pogocache.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index bcf350f..785aa0c 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -1415,7 +1415,7 @@ static int loadop(const void *key, size_t keylen,
     entry_extract(entry, 0, 0, 0, &val, &vallen, &expires, &flags, &cas, ctx);
     if (!entry_alive_exp(expires, now)) {
         // Entry is no longer alive. Delete from map and notify the user.
-        delbkt(&shard->map, bidx);
+        delentry_at_bkt(&shard->map, bidx);
         notify(shardidx, NOTIFY_EXPIRED, 0, entry, now, ctx);
         entry_free(entry, ctx);
         return POGOCACHE_NOTFOUND;
@@ -1438,6 +1438,8 @@ static int loadop(const void *key, size_t keylen,
             }
             entry_settime(entry2, now);
             set_entry(bkt, entry2);
+            shard->map.entsize += entry_memsize(entry2);
+            shard->map.entsize -= entry_memsize(entry);
             notify(shardidx, NOTIFY_REPLACED, entry2, entry, now, ctx);
             entry_free(entry, ctx);
         }
@@ -1685,7 +1687,7 @@ static int iterop(struct shard *shard, int shardidx, int64_t now,
         struct entry *entry = get_entry(bkt);
         if (!entry_alive(entry, now)) {
             // Entry has expired
-            delbkt(&shard->map, i);
+            delentry_at_bkt(&shard->map, i);
             notify(shardidx, NOTIFY_EXPIRED, 0, entry, now, ctx);
             entry_free(entry, ctx);
             i--;
@@ -1707,7 +1709,7 @@ static int iterop(struct shard *shard, int shardidx, int64_t now,
         if (action != POGOCACHE_ITER_CONTINUE) {
             if (action&POGOCACHE_ITER_DELETE) {
                 // Delete entry at bucket
-                delbkt(&shard->map, i);
+                delentry_at_bkt(&shard->map, i);
                 notify(shardidx, NOTIFY_DELETED, 0, entry, now, ctx);
                 entry_free(entry, ctx);
                 i--;
@@ -1767,7 +1769,7 @@ static struct pogocache_entry *entryiter(struct shard *shard, int64_t now,
         struct entry *entry = get_entry(bkt);
         if (!entry_alive(entry, now)) {
             // Entry has expired
-            delbkt(&shard->map, i);
+            delentry_at_bkt(&shard->map, i);
             notify(shardidx, NOTIFY_EXPIRED, 0, entry, now, ctx);
             entry_free(entry, ctx);
             i--;
@@ -1923,7 +1925,7 @@ static int sweepop(struct shard *shard, int shardidx, int64_t now,
             continue;
         }
         // entry is no longer alive.
-        delbkt(&shard->map, i);
+        delentry_at_bkt(&shard->map, i);
         notify(shardidx, NOTIFY_EXPIRED, 0, entry, now, ctx);
         entry_free(entry, ctx);
         (*swept)++;
-- 
2.43.0


From 5f3f60e2fa0f9c3d6c629079259ba1307dd23f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 02/65] fix: store does not free a null entry when the
 allocation fails

---
 src/pogocache.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index 785aa0c..dae947a 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -1642,7 +1642,9 @@ static int storeop(const void *key, size_t keylen, const void *val,
         return POGOCACHE_INSERTED;
     }
 nomem:
-    entry_free(entry, ctx);
+    if (entry) {
+        entry_free(entry, ctx);
+    }
     return POGOCACHE_NOMEM;
 }
 
-- 
2.43.0


From f5d9164ba62e598ce1b87a9bc00d9cb481b6d76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 03/65] fix: clear resets the buckets, not the map struct, when
 out of memory

---
 src/pogocache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index dae947a..bc6a5e9 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -2006,7 +2006,7 @@ static int clearop(struct shard *shard, int shardidx, int64_t now,
                 }
             }
         }
-        memset(&shard->map.buckets, 0, 
+        memset(shard->map.buckets, 0, 
             sizeof(struct bucket)*shard->map.nbuckets);
         shard->map.count = 0;
         shard->map.entsize = 0;
-- 
2.43.0


From 8ca283aefc95bac858f39bf8b9a09228b732839f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:43 +0000
Subject: [PATCH 04/65] fix: pogocache_new zeroes the shards so that a failed
 creation can be freed

---
 src/pogocache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index bc6a5e9..bb4ea3c 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -1225,7 +1225,7 @@ struct pogocache *pogocache_new(struct pogocache_opts *opts) {
     if (!cache) {
         return 0;
     }
-    memset(cache, 0, sizeof(struct pogocache));
+    memset(cache, 0, size);
     struct pgctx *ctx = &cache->ctx;
     opts_to_ctx(shards, opts, ctx);
     ctx->malloc = _malloc;
-- 
2.43.0


From 5bee62e73c17c3ec10d966715764ea1114538771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:43 +0000
Subject: [PATCH 05/65] fix: scan, clear, and entry operations work through a
 batch

Scan operations lost the batch after the first shard, deadlocking against
locks which the batch already held, and clear, entry iteration and the entry
accessors used the context of the batch instead of that of its cache.
---
 src/pogocache.c | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index bb4ea3c..6742071 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -1240,6 +1240,10 @@ struct pogocache *pogocache_new(struct pogocache_opts *opts) {
     return cache;
 }
 
+static struct pogocache *rootcache(struct pogocache *cache) {
+    return cache->isbatch ? cache->batch.cache : cache;
+}
+
 static int shard_index(struct pogocache *cache, uint64_t hash) {
     return (hash>>32)%cache->ctx.nshards;
 }
@@ -1366,6 +1370,8 @@ static bool acquire_for_key(const char *key, size_t keylen, uint32_t *hash_out,
 
 // Acquire a lock on the shard for key and execute the provided operation.
 #define ACQUIRE_FOR_KEY_AND_EXECUTE(rettype, key, keylen, op) ({ \
+    struct pogocache *cache0 = cache; \
+    struct pogocache *cache = cache0; \
     int shardidx; \
     uint32_t hash; \
     struct shard *shard; \
@@ -1382,6 +1388,8 @@ static bool acquire_for_key(const char *key, size_t keylen, uint32_t *hash_out,
 
 // Acquire a lock on the shard at index and execute the provided operation.
 #define ACQUIRE_FOR_SCAN_AND_EXECUTE(rettype, shardidx, op) ({ \
+    struct pogocache *cache0 = cache; \
+    struct pogocache *cache = cache0; \
     struct shard *shard; \
     bool usebatch = acquire_for_scan((shardidx), &shard, &cache); \
     struct pgctx *ctx = &cache->ctx; \
@@ -1666,10 +1674,6 @@ int pogocache_store(struct pogocache *cache, const void *key, size_t keylen,
     );
 }
 
-static struct pogocache *rootcache(struct pogocache *cache) {
-    return cache->isbatch ? cache->batch.cache : cache;
-}
-
 /// Returns the number of shards in cache
 int pogocache_nshards(struct pogocache *cache) {
     cache = rootcache(cache);
@@ -1789,9 +1793,10 @@ struct pogocache_entry *pogocache_entry_iter(struct pogocache *cache,
     int64_t time, uint64_t *cursor)
 {
     assert(cursor);
+    int nshards = pogocache_nshards(cache);
     int64_t now = time > 0 ? time : getnow();
     int shardidx = (*cursor)>>32;
-    if (shardidx < 0 || shardidx > cache->ctx.nshards) {
+    if (shardidx < 0 || shardidx > nshards) {
         goto notfound;
     }
     int iter = (*cursor)&0xFFFFFFFF;
@@ -1809,7 +1814,7 @@ struct pogocache_entry *pogocache_entry_iter(struct pogocache *cache,
         }
         shardidx++;
         iter = 0;
-        if (shardidx == cache->ctx.nshards) {
+        if (shardidx == nshards) {
             goto notfound;
         }
     }
@@ -2030,7 +2035,7 @@ static int clearop(struct shard *shard, int shardidx, int64_t now,
 static void aquireclearop(struct pogocache *cache, int shardidx, int64_t now, 
     bool deferfree)
 {
-    struct pgctx *ctx = &cache->ctx;
+    struct pgctx *ctx = &rootcache(cache)->ctx;
     int nbuckets = 0;
     struct bucket *buckets = 0;
     ACQUIRE_FOR_SCAN_AND_EXECUTE(int, shardidx,
@@ -2042,7 +2047,7 @@ static void aquireclearop(struct pogocache *cache, int shardidx, int64_t now,
                 entry_free(get_entry(&buckets[i]), ctx);
             }
         }
-        cache->ctx.free(buckets);
+        ctx->free(buckets);
     }
 }
 
@@ -2060,7 +2065,7 @@ void pogocache_clear(struct pogocache *cache, struct pogocache_clear_opts *opts)
         aquireclearop(cache, opts->oneshardidx, now, opts->deferfree);
         return;
     }
-    for (int i = 0; i < cache->ctx.nshards; i++) {
+    for (int i = 0; i < nshards; i++) {
         aquireclearop(cache, i, now, opts->deferfree);
     }
 }
@@ -2119,7 +2124,7 @@ void pogocache_entry_release(struct pogocache *cache,
     struct pogocache_entry *entry)
 {
     if (entry) {
-        entry_free((struct entry*)entry, &cache->ctx);
+        entry_free((struct entry*)entry, &rootcache(cache)->ctx);
     }
 }
 
@@ -2130,7 +2135,8 @@ const void *pogocache_entry_key(struct pogocache *cache,
     const void *key = 0;
     size_t keylen0 = 0;
     if (entry) {
-        key = entry_key((struct entry*)entry, &keylen0, buf, &cache->ctx);
+        key = entry_key((struct entry*)entry, &keylen0, buf,
+            &rootcache(cache)->ctx);
     }
     if (keylen) {
         *keylen = keylen0;
@@ -2144,7 +2150,8 @@ const void *pogocache_entry_value(struct pogocache *cache,
     const void *value = 0;
     size_t valuelen0 = 0;
     if (entry) {
-        value = entry_value((struct entry*)entry, &valuelen0, &cache->ctx);
+        value = entry_value((struct entry*)entry, &valuelen0,
+            &rootcache(cache)->ctx);
     }
     if (valuelen) {
         *valuelen = valuelen0;
-- 
2.43.0


From 069c83306ea7279c36a5befdbc1e9cf0c4073146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:43 +0000
Subject: [PATCH 06/65] fix: entry cursor bounds check is off by one shard

---
 src/pogocache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index 6742071..0d62958 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -1796,7 +1796,7 @@ struct pogocache_entry *pogocache_entry_iter(struct pogocache *cache,
     int nshards = pogocache_nshards(cache);
     int64_t now = time > 0 ? time : getnow();
     int shardidx = (*cursor)>>32;
-    if (shardidx < 0 || shardidx > nshards) {
+    if (shardidx < 0 || shardidx >= nshards) {
         goto notfound;
     }
     int iter = (*cursor)&0xFFFFFFFF;
-- 
2.43.0


From 78dfda4919e057b0ea30e3f293eba382d98ec7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:43 +0000
Subject: [PATCH 07/65] fix: total counts stored entries only

Refused xx and cas stores and cancelled deletes were counted as stored, and
an insert over an expired entry was not.
---
 src/pogocache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index 0d62958..e17e55d 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -890,7 +890,6 @@ static bool map_insert(struct map *map, struct entry *entry, uint32_t hash,
             // new entry
             map->buckets[i] = ebkt;
             map->count++;
-            map->total++;
             *old = 0;
             return true;
         }
@@ -1646,6 +1645,7 @@ static int storeop(const void *key, size_t keylen, const void *val,
             // a low memory event. Evict one entry.
             auto_evict_entry(shard, shardidx, hash, now, ctx);
         }
+        shard->map.total++;
         notify(shardidx, NOTIFY_INSERTED, entry, 0, now, ctx);
         return POGOCACHE_INSERTED;
     }
-- 
2.43.0


From 90d9dfc824d6065cf74b9b08f5767a406cfd6087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:43 +0000
Subject: [PATCH 08/65] fix: iter and sweep see each entry once when deleting
 wraps around

A delete at the last bucket shifts the entry of the first bucket, which was
already seen, so that it was reported or counted again.
---
 src/pogocache.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index e17e55d..2725789 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -961,6 +961,17 @@ static void delbkt(struct map *map, size_t i) {
     map->count--;
 }
 
+// Returns the bucket where a scan which may delete entries must start, which is
+// one that deletes never shift entries out of. Otherwise a delete at the last
+// bucket could move an already scanned entry from the first bucket.
+static int map_scan_start(struct map *map) {
+    int i = 0;
+    while (get_dib(&map->buckets[i]) > 1) {
+        i++;
+    }
+    return i;
+}
+
 static bool needsshrink(struct map *map, struct pgctx *ctx) {
     return ctx->allowshrink && map->nbuckets > map->cap && 
         map->count <= map->shrinkat;
@@ -1685,7 +1696,9 @@ static int iterop(struct shard *shard, int shardidx, int64_t now,
 {
     char buf[128];
     int status = POGOCACHE_FINISHED;
-    for (int i = 0; i < shard->map.nbuckets; i++) {
+    int start = map_scan_start(&shard->map);
+    for (int n = 0; n < shard->map.nbuckets; n++) {
+        int i = (start+n) & shard->map.mask;
         struct bucket *bkt = &shard->map.buckets[i];
         if (get_dib(bkt) == 0) {
             continue;
@@ -1696,7 +1709,7 @@ static int iterop(struct shard *shard, int shardidx, int64_t now,
             delentry_at_bkt(&shard->map, i);
             notify(shardidx, NOTIFY_EXPIRED, 0, entry, now, ctx);
             entry_free(entry, ctx);
-            i--;
+            n--;
             continue;
         }
         int action = POGOCACHE_ITER_CONTINUE;
@@ -1718,7 +1731,7 @@ static int iterop(struct shard *shard, int shardidx, int64_t now,
                 delentry_at_bkt(&shard->map, i);
                 notify(shardidx, NOTIFY_DELETED, 0, entry, now, ctx);
                 entry_free(entry, ctx);
-                i--;
+                n--;
             }
             if (action&POGOCACHE_ITER_STOP) {
                 status = POGOCACHE_CANCELED;
@@ -1919,7 +1932,9 @@ size_t pogocache_size(struct pogocache *cache,
 static int sweepop(struct shard *shard, int shardidx, int64_t now,
     size_t *swept, size_t *kept, struct pgctx *ctx)
 {
-    for (int i = 0; i < shard->map.nbuckets; i++) {
+    int start = map_scan_start(&shard->map);
+    for (int n = 0; n < shard->map.nbuckets; n++) {
+        int i = (start+n) & shard->map.mask;
         struct bucket *bkt = &shard->map.buckets[i];
         if (get_dib(bkt) == 0) {
             continue;
@@ -1939,7 +1954,7 @@ static int sweepop(struct shard *shard, int shardidx, int64_t now,
         // Entry was deleted from bucket, which may move entries to the right
         // over one bucket to the left. So we need to check the same bucket
         // again.
-        i--;
+        n--;
     }
     tryshrink(&shard->map, ctx);
     return 0;
-- 
2.43.0


From 8633efde971ba1c31c1c0d44e4a065afe85363cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:43 +0000
Subject: [PATCH 09/65] fix: low memory store considers all other entries for
 eviction

The home bucket of the new entry, and entries which share its hash, were
skipped, so that nothing was evicted or the most recently used entry was.
---
 src/pogocache.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index 2725789..87d4134 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -1107,18 +1107,18 @@ static void evict_entry(struct shard *shard, int shardidx, struct entry *entry,
 
 // Evict an entry using the 2-random algorithm.
 // Pick two random entries and delete the one with the oldest access time.
-// Do not evict the entry if it matches the provided hash.
+// Do not evict the provided entry, which was just inserted.
 static void auto_evict_entry(struct shard *shard, int shardidx, uint32_t hash,
-    int64_t now, struct pgctx *ctx)
+    struct entry *inserted, int64_t now, struct pgctx *ctx)
 {
     hash = clip_hash(hash);
     struct map *map = &shard->map;
     struct entry *entries[2];
     int count = 0;
-    for (int i = 1; i < map->nbuckets && count < 2; i++) {
+    for (int i = 0; i < map->nbuckets && count < 2; i++) {
         size_t j = (i+hash)&(map->nbuckets-1);
         struct bucket *bkt = &map->buckets[j];
-        if (get_dib(bkt) == 0 || get_hash(bkt) == hash) {
+        if (get_dib(bkt) == 0 || get_entry(bkt) == inserted) {
             continue;
         }
         struct entry *entry = get_entry(bkt);
@@ -1654,7 +1654,7 @@ static int storeop(const void *key, size_t keylen, const void *val,
         if (opts->lowmem && shard->map.count > count) {
             // The map grew by one bucket, yet the user indicates that there is
             // a low memory event. Evict one entry.
-            auto_evict_entry(shard, shardidx, hash, now, ctx);
+            auto_evict_entry(shard, shardidx, hash, entry, now, ctx);
         }
         shard->map.total++;
         notify(shardidx, NOTIFY_INSERTED, entry, 0, now, ctx);
-- 
2.43.0


From 62c128d2158cc6f1615ff2d68568176ad84ee717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:43 +0000
Subject: [PATCH 10/65] fix: hashmap survives more than 254 entries with one
 hash

The one byte bucket distance wrapped around to zero, which marks an empty
bucket, losing entries and looping forever.
---
 src/pogocache.c | 39 +++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index 87d4134..7116100 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -813,6 +813,18 @@ static void set_dib(struct bucket *bucket, uint8_t dib) {
     bucket->dib = dib;
 }
 
+// Returns the distance of the entry at bucket i from its home bucket, plus one.
+// The dib field is saturated at 255, beyond which the hash tells the distance.
+static int get_dist(struct map *map, size_t i) {
+    struct bucket *bkt = &map->buckets[i];
+    int dist = get_dib(bkt);
+    return dist < 255 ? dist : (int)((i-get_hash(bkt))&map->mask)+1;
+}
+
+static void set_dist(struct bucket *bucket, int dist) {
+    set_dib(bucket, dist < 255 ? dist : 255);
+}
+
 static bool map_init(struct map *map, size_t cap, struct pgctx *ctx) {
     memset(map, 0, sizeof(struct map));
     map->cap = cap;
@@ -839,20 +851,23 @@ static bool resize(struct map *map, size_t new_cap, struct pgctx *ctx) {
     for (int i = 0; i < map->nbuckets; i++) {
         struct bucket ebkt = map->buckets[i];
         if (get_dib(&ebkt)) {
-            set_dib(&ebkt, 1);
+            int dist = 1;
             size_t j = get_hash(&ebkt) & map2.mask;
             while (1) {
-                if (get_dib(&map2.buckets[j]) == 0) {
+                int dist2 = get_dist(&map2, j);
+                set_dist(&ebkt, dist);
+                if (dist2 == 0) {
                     map2.buckets[j] = ebkt;
                     break;
                 }
-                if (get_dib(&map2.buckets[j]) < get_dib(&ebkt)) {
+                if (dist2 < dist) {
                     struct bucket tmp = map2.buckets[j];
                     map2.buckets[j] = ebkt;
                     ebkt = tmp;
+                    dist = dist2;
                 }
                 j = (j + 1) & map2.mask;
-                set_dib(&ebkt, get_dib(&ebkt)+1);
+                dist++;
             }
         }
     }
@@ -883,10 +898,12 @@ static bool map_insert(struct map *map, struct entry *entry, uint32_t hash,
     struct bucket ebkt;
     set_entry(&ebkt, entry);
     set_hash(&ebkt, hash);
-    set_dib(&ebkt, 1);
+    int dist = 1;
     size_t i = hash & map->mask;
     while (1) {
-        if (get_dib(&map->buckets[i]) == 0) {
+        int dist2 = get_dist(map, i);
+        set_dist(&ebkt, dist);
+        if (dist2 == 0) {
             // new entry
             map->buckets[i] = ebkt;
             map->count++;
@@ -903,13 +920,14 @@ static bool map_insert(struct map *map, struct entry *entry, uint32_t hash,
             set_entry(&map->buckets[i], get_entry(&ebkt));
             return true;
         }
-        if (get_dib(&map->buckets[i]) < get_dib(&ebkt)) {
+        if (dist2 < dist) {
             struct bucket tmp = map->buckets[i];
             map->buckets[i] = ebkt;
             ebkt = tmp;
+            dist = dist2;
         }
         i = (i + 1) & map->mask;
-        set_dib(&ebkt, get_dib(&ebkt)+1);
+        dist++;
     }
 }
 
@@ -951,12 +969,13 @@ static void delbkt(struct map *map, size_t i) {
     while (1) {
         size_t h = i;
         i = (i + 1) & map->mask;
-        if (get_dib(&map->buckets[i]) <= 1) {
+        int dist = get_dist(map, i);
+        if (dist <= 1) {
             set_dib(&map->buckets[h], 0);
             break;
         }
         map->buckets[h] = map->buckets[i];
-        set_dib(&map->buckets[h], get_dib(&map->buckets[h])-1);
+        set_dist(&map->buckets[h], dist-1);
     }
     map->count--;
 }
-- 
2.43.0


From e974e216eb800dfd3a7b26ba7fc4f57d8d7a4904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:07 +0000
Subject: [PATCH 11/65] fix: memcache NOT_FOUND reply of a store has no
 trailing nul byte

---
 src/cmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmds.c b/src/cmds.c
index 8d83c2c..337f547 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -125,7 +125,7 @@ static void execSET(struct conn *conn, const char *cmdname,
             if (status == POGOCACHE_FOUND) {
                 conn_write_raw(conn, "EXISTS\r\n", 8);
             } else {
-                conn_write_raw(conn, "NOT_FOUND\r\n", 12);
+                conn_write_raw(conn, "NOT_FOUND\r\n", 11);
             }
         } else {
             conn_write_raw(conn, "STORED\r\n", 8);
-- 
2.43.0


From d32a116dc150b0555ded0a372483d1a4ffe89164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:10 +0000
Subject: [PATCH 12/65] fix: command lookup wraps around the end of the table

---
 src/cmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmds.c b/src/cmds.c
index 337f547..c422cfe 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -2372,7 +2372,7 @@ static struct cmd *get_cmd(const char *name, size_t namelen) {
         if (argeq_bytes(name, namelen, buckets[j].name)) {
             return &buckets[j];
         }
-        j++;
+        j = (j+1)&(nbuckets-1);
     }
 }
 
-- 
2.43.0


From ae6d3debf20fb85d7af58e78e4f5ad794c57137b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:53 +0000
Subject: [PATCH 13/65] fix: SET EXAT and PXAT take a Unix time

---
 src/cmds.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cmds.c b/src/cmds.c
index c422cfe..afa3e98 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -167,6 +167,12 @@ static int64_t expiry_seconds_time(struct conn *conn, int64_t now,
     return int64_add_clamp(now, expiry);
 }
 
+// Converts a Unix time to the clock that is used for entry expirations.
+static int64_t expiry_unix_time(int64_t now, int64_t unixtime) {
+    int64_t expires = int64_add_clamp(now, unixtime-sys_unixnow());
+    return expires > 0 ? expires : 1;
+}
+
 // SET key value [NX | XX] [GET] [EX seconds | PX milliseconds |
 //   EXAT unix-time-seconds | PXAT unix-time-milliseconds | KEEPTTL] 
 //   [FLAGS flags] [CAS cas] 
@@ -245,9 +251,11 @@ static void cmdSET(struct conn *conn, struct args *args) {
                 break;
             case 3:
                 expires = int64_mul_clamp(expires, SECOND);
+                expires = expiry_unix_time(now, expires);
                 break;
             case 4:
                 expires = int64_mul_clamp(expires, MILLISECOND);
+                expires = expiry_unix_time(now, expires);
                 break;
             }
         skip_exkind:
-- 
2.43.0


From 5e16767a2027f3057184d99a6ae5d4b97d29c14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:56 +0000
Subject: [PATCH 14/65] fix: EXPIRE with a large negative time expires the
 entry

---
 src/cmds.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cmds.c b/src/cmds.c
index afa3e98..97727d7 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -1038,6 +1038,10 @@ static void cmdEXPIRE(struct conn *conn, struct args *args) {
     }
     expires = int64_mul_clamp(expires, POGOCACHE_SECOND);
     expires = int64_add_clamp(now, expires);
+    if (expires <= 0) {
+        // Zero means never expires. Use a time that already passed instead.
+        expires = 1;
+    }
     struct pogocache_update ctx = { .expires = expires };
     struct pogocache_load_opts lopts = { 
         .time = now,
-- 
2.43.0


From f4b616e2cff79df5ee9a061b4e1e25f4e8116c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:58 +0000
Subject: [PATCH 15/65] fix: memcache touch accepts zero and Unix time
 expirations

---
 src/cmds.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/cmds.c b/src/cmds.c
index 97727d7..7575efc 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -1036,11 +1036,16 @@ static void cmdEXPIRE(struct conn *conn, struct args *args) {
         conn_write_error(conn, ERR_INVALID_INTEGER);
         return;
     }
-    expires = int64_mul_clamp(expires, POGOCACHE_SECOND);
-    expires = int64_add_clamp(now, expires);
-    if (expires <= 0) {
-        // Zero means never expires. Use a time that already passed instead.
-        expires = 1;
+    int proto = conn_proto(conn);
+    if (proto == PROTO_MEMCACHE && expires == 0) {
+        // The memcache touch command uses zero for never expires.
+    } else {
+        expires = int64_mul_clamp(expires, POGOCACHE_SECOND);
+        expires = expiry_seconds_time(conn, now, expires);
+        if (expires <= 0) {
+            // Zero means never expires. Use a time that already passed instead.
+            expires = 1;
+        }
     }
     struct pogocache_update ctx = { .expires = expires };
     struct pogocache_load_opts lopts = { 
@@ -1050,7 +1055,6 @@ static void cmdEXPIRE(struct conn *conn, struct args *args) {
     };
     int status = pogocache_load(cache, key, keylen, &lopts);
     int ret = status == POGOCACHE_FOUND;
-    int proto = conn_proto(conn);
     switch (proto) {
     case PROTO_POSTGRES:
         pg_write_completef(conn, "EXPIRE %d", ret);
-- 
2.43.0


From 034a655eb826d9b7e28fc0aee4321caf0026c8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:00 +0000
Subject: [PATCH 16/65] fix: memcache touch is counted in the touch stats

---
 src/cmds.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cmds.c b/src/cmds.c
index 7575efc..ef2c30a 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -1061,9 +1061,12 @@ static void cmdEXPIRE(struct conn *conn, struct args *args) {
         pg_write_ready(conn, 'I');
         break;
     case PROTO_MEMCACHE:
+        stat_cmd_touch_incr(conn);
         if (ret) {
+            stat_touch_hits_incr(conn);
             conn_write_raw_cstr(conn, "TOUCHED\r\n");
         } else {
+            stat_touch_misses_incr(conn);
             conn_write_raw_cstr(conn, "NOT_FOUND\r\n");
         }
         break;
-- 
2.43.0


From 342f7a0ac938b5802c1798448dded68ced56f45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:03 +0000
Subject: [PATCH 17/65] fix: status and error replies never include control
 characters

---
 src/conn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conn.c b/src/conn.c
index 4e15a82..9d79666 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -238,7 +238,7 @@ static void writeln(struct conn *conn, char ch, const void *data, ssize_t len) {
     net_conn_out_write_byte_nocheck(conn->conn5, '\r');
     net_conn_out_write_byte_nocheck(conn->conn5, '\n');
     uint8_t *out = (uint8_t*)net_conn_out(conn->conn5);
-    for (ssize_t i = mark; i < len; i++) {
+    for (size_t i = mark; i < mark+len; i++) {
         if (out[i] < ' ') {
             out[i] = ' ';
         }
-- 
2.43.0


From 646caedd8d853f8d4fbc734bf707069fdd6c1be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:24 +0000
Subject: [PATCH 18/65] fix: wait for a full line before detecting the protocol

---
 src/parse.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index 7b928c3..fc13ab6 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -56,6 +56,11 @@ static bool sniff_proto(const char *data, size_t len, int *proto) {
             break;
         }
     }
+    if (n == 0) {
+        // Not enough data to determine yet
+        *proto = 0;
+        return true;
+    }
     // Look for " HTTP/*.*\r\n" suffix
     if (n >= 11 && memcmp(data+n-11, " HTTP/", 5) == 0 && 
         data[n-4] == '.' && data[n-2] == '\r')
-- 
2.43.0


From 91a3c97a86ff53d5564a6ec6e42b673b3c878690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:26 +0000
Subject: [PATCH 19/65] fix: memcache noreply suppresses the reply

---
 src/conn.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/conn.c b/src/conn.c
index 9d79666..de84544 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -67,6 +67,16 @@ void evopened(struct net_conn *conn5, void *udata) {
     net_conn_setudata(conn5, conn);
 }
 
+// The memcache noreply option drops the output of the current command.
+// The mark param is the length of the output when the command started.
+static void drop_noreply(struct conn *conn, size_t mark) {
+    if (conn->proto == PROTO_MEMCACHE && conn->noreply &&
+        net_conn_out_len(conn->conn5) > mark)
+    {
+        net_conn_out_setlen(conn->conn5, mark);
+    }
+}
+
 void evclosed(struct net_conn *conn5, void *udata) {
     (void)udata;
     struct conn *conn = net_conn_udata(conn5);
@@ -111,6 +121,7 @@ void evdata(struct net_conn *conn5, const void *evdata, size_t evlen,
         copied = true;
     }
     while (len > 0 && !conn_isclosed(conn)) {
+        size_t mark = net_conn_out_len(conn->conn5);
         // Parse the command
         ssize_t n = parse_command(data, len, &conn->args, &conn->proto, 
             &conn->noreply, &conn->httpvers, &conn->keepalive, &conn->pg);
@@ -157,6 +168,7 @@ void evdata(struct net_conn *conn5, const void *evdata, size_t evlen,
         {
             evcommand(conn, &conn->args);
         }
+        drop_noreply(conn, mark);
         len -= n;
         data += n;
         if (net_conn_bgworking(conn->conn5)) {
@@ -205,7 +217,9 @@ static void work5(void *udata) {
 static void done5(struct net_conn *conn, void *udata) {
     (void)conn;
     struct bgworkctx *ctx = udata;
+    size_t mark = net_conn_out_len(ctx->conn->conn5);
     ctx->done(ctx->conn, ctx->udata);
+    drop_noreply(ctx->conn, mark);
     xfree(ctx);
 }
 
-- 
2.43.0


From 156eb60dc8b7b83d05ef46dfa7d053569526f4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:28 +0000
Subject: [PATCH 20/65] fix: memcache decr stops at zero

---
 src/cmds.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cmds.c b/src/cmds.c
index ef2c30a..e19241c 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -1722,6 +1722,10 @@ static void execINCRDECR(struct conn *conn, const char *key, size_t keylen,
     if (overflow && conn_proto(conn) != PROTO_MEMCACHE) {
         goto fail_overflow;
     }
+    if (overflow && isunsigned && decr) {
+        // The memcache decr command stops at zero.
+        ctx.uval = 0;
+    }
     // re-set the value
     char val[24];
     size_t vallen;
-- 
2.43.0


From e97b8e25a5423ca705901d24035c6d12e344cd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:49 +0000
Subject: [PATCH 21/65] fix: monitor writes only the four characters of a hex
 escape

---
 src/monitor.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/monitor.c b/src/monitor.c
index b80cefd..d2705e7 100644
--- a/src/monitor.c
+++ b/src/monitor.c
@@ -86,7 +86,7 @@ void monitor_cmd(int64_t now, int db, const char *addr, struct args *args) {
                 if (ch < 32 || ch >= 127) {
                     char hex[8];
                     snprintf(hex, 8, "\\x%02X", ch);
-                    buf_append(&buf, hex, 8);
+                    buf_append(&buf, hex, 4);
                 } else {
                     buf_append_byte(&buf, ch);
                 }
-- 
2.43.0


From c6e264f4347a93901da15fa7e7a735bcf28bc504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:51 +0000
Subject: [PATCH 22/65] fix: connection map shrinks its length on delete

---
 src/net.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/net.c b/src/net.c
index e822fbf..8c81734 100644
--- a/src/net.c
+++ b/src/net.c
@@ -427,6 +427,7 @@ static void cmap_delete(struct cmap *cmap, struct net_conn *conn) {
     } else {
         cmap->buckets[i] = iter->next;
     }
+    cmap->len--;
 }
 
 static atomic_size_t nconns = 0;
-- 
2.43.0


From 30c140dcdf782ce11b07d2f2bb834502b22a6342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:14 +0000
Subject: [PATCH 23/65] fix: a client that does not read its replies does not
 stall the event loop

---
 src/net.c | 57 ++++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 44 insertions(+), 13 deletions(-)

diff --git a/src/net.c b/src/net.c
index 8c81734..1c68fca 100644
--- a/src/net.c
+++ b/src/net.c
@@ -248,6 +248,7 @@ struct net_conn {
     int fd;
     struct net_conn *next; // for hashmap bucket
     bool closed;
+    bool wblocked; // waiting for the socket to become writable
     struct tls *tls;
     void *udata;
     char *out;
@@ -680,6 +681,8 @@ static void handle_read(ssize_t n, char *pkt, struct net_conn *conn,
     ctx->nqins++;
 }
 
+// Write as much of the output as the socket accepts. What remains is kept at
+// the front of the output.
 inline 
 static void flush_conn(struct net_conn *conn, size_t written) {
     while (written < conn->outlen) {
@@ -692,15 +695,48 @@ static void flush_conn(struct net_conn *conn, size_t written) {
         }
         if (n == -1) {
             if (errno == EAGAIN) {
-                continue;
+                if (conn->tls) {
+                    // SSL_write must be retried using the same buffer
+                    continue;
+                }
+                break;
             }
+            // the socket is broken, there's no use for the rest
             conn->closed = true;
+            written = conn->outlen;
             break;
         }
         written += n;
     }
-    // either everything was written or the socket is closed
-    conn->outlen = 0;
+    conn->outlen -= written;
+    if (conn->outlen > 0 && written > 0) {
+        memmove(conn->out, conn->out+written, conn->outlen);
+    }
+}
+
+// After a flush, make sure that the connection waits for the right event.
+// Connections having remaining output are not read from until it's written.
+inline
+static void flushed_conn(struct net_conn *conn, struct qthreadctx *ctx) {
+    int ret = 0;
+    if (conn->outlen > 0) {
+        if (!conn->wblocked) {
+            conn->wblocked = true;
+            ret = delread(ctx->qfd, conn->fd);
+            assert(ret == 0);
+            ret = addwrite(ctx->qfd, conn->fd);
+            assert(ret == 0);
+        }
+    } else if (conn->closed) {
+        ctx->qcloses[ctx->nqcloses++] = conn;
+    } else if (conn->wblocked) {
+        conn->wblocked = false;
+        ret = delwrite(ctx->qfd, conn->fd);
+        assert(ret == 0);
+        ret = addread(ctx->qfd, conn->fd);
+        assert(ret == 0);
+    }
+    (void)ret;
 }
 
 inline
@@ -720,8 +756,8 @@ static void qattach(struct qthreadctx *ctx) {
         ret = addread(conn->ctx->qfd, conn->fd);
         assert(ret == 0); (void)ret;
         flush_conn(conn, 0);
-        if (conn->closed) {
-            ctx->qcloses[ctx->nqcloses++] = conn;
+        if (conn->outlen > 0 || conn->closed) {
+            flushed_conn(conn, ctx);
         } else {
             ctx->qreads[ctx->nqreads++] = conn;
         }
@@ -842,15 +878,12 @@ static void qwrite(struct qthreadctx *ctx) {
             }
             if (n < 0) {
                 conn->closed = true;
+                conn->outlen = 0;
             } else {
                 // Any extra data must be flushed using syscall write.
                 flush_conn(conn, n);
             }
-            // Either everything was written or the socket is closed
-            conn->outlen = 0;
-            if (conn->closed) {
-                ctx->qcloses[ctx->nqcloses++] = conn;
-            }
+            flushed_conn(conn, ctx);
             io_uring_cqe_seen(&ctx->ring, cqe);
         }
     } else {
@@ -859,9 +892,7 @@ static void qwrite(struct qthreadctx *ctx) {
         for (int i = 0; i < ctx->nqouts; i++) {
             struct net_conn *conn = ctx->qouts[i];
             flush_conn(conn, 0);
-            if (conn->closed) {
-                ctx->qcloses[ctx->nqcloses++] = conn;
-            }
+            flushed_conn(conn, ctx);
         }
 #ifndef NOURING
     }
-- 
2.43.0


From 9135a675001997f39454190a5487f70586c5bc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:17 +0000
Subject: [PATCH 24/65] fix: commands following a background command run
 without waiting for more data

---
 src/net.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/net.c b/src/net.c
index 1c68fca..853a419 100644
--- a/src/net.c
+++ b/src/net.c
@@ -755,12 +755,12 @@ static void qattach(struct qthreadctx *ctx) {
         assert(ret == 0); (void)ret;
         ret = addread(conn->ctx->qfd, conn->fd);
         assert(ret == 0); (void)ret;
-        flush_conn(conn, 0);
-        if (conn->outlen > 0 || conn->closed) {
-            flushed_conn(conn, ctx);
-        } else {
-            ctx->qreads[ctx->nqreads++] = conn;
-        }
+        // Continue with the commands that have already been received, using
+        // an empty packet.
+        ctx->qins[ctx->nqins] = conn;
+        ctx->qinpkts[ctx->nqins] = ctx->inpkts;
+        ctx->qinpktlens[ctx->nqins] = 0;
+        ctx->nqins++;
     }
 }
 
-- 
2.43.0


From af15fd71ec868eaa4b7c19f2abd5e34ae8c37a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:34 +0000
Subject: [PATCH 25/65] fix: pthread_create returns a positive error number

---
 src/cmds.c | 12 ++++++------
 src/main.c |  6 +++---
 src/net.c  |  6 +++---
 src/save.c |  4 ++--
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/cmds.c b/src/cmds.c
index e19241c..ad78dce 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -715,7 +715,7 @@ static void flushfast(void) {
         if (i == nprocs-1) {
             ctx->count = nshards-ctx->start;
         }
-        if (pthread_create(&ctx->th, 0, thflush, ctx) == -1) {
+        if (pthread_create(&ctx->th, 0, thflush, ctx) != 0) {
             ctx->th = 0;
         }
         start += ctx->count;
@@ -828,7 +828,7 @@ static void cmdFLUSHALL(struct conn *conn, struct args *args) {
     if (async) {
         pthread_t th;
         int ret = pthread_create(&th, 0, thflush0, ctx);
-        if (ret == -1) {
+        if (ret != 0) {
             xfree(ctx);
             conn_write_error(conn, "ERR failed to do work");
             return;
@@ -1148,7 +1148,7 @@ static void sweepfast(size_t *swept, size_t *kept) {
         if (i == nprocs-1) {
             ctx->count = nshards-ctx->start;
         }
-        if (pthread_create(&ctx->th, 0, thsweep, ctx) == -1) {
+        if (pthread_create(&ctx->th, 0, thsweep, ctx) != 0) {
             ctx->th = 0;
         }
         start += ctx->count;
@@ -1235,7 +1235,7 @@ static void cmdSWEEP(struct conn *conn, struct args *args) {
     if (async) {
         pthread_t th;
         int ret = pthread_create(&th, 0, thsweep0, ctx);
-        if (ret == -1) {
+        if (ret != 0) {
             xfree(ctx);
             conn_write_error(conn, "ERR failed to do work");
             return;
@@ -1298,7 +1298,7 @@ static void cmdPURGE(struct conn *conn, struct args *args) {
     if (async) {
         pthread_t th;
         int ret = pthread_create(&th, 0, thpurge, 0);
-        if (ret == -1) {
+        if (ret != 0) {
             conn_write_error(conn, "ERR failed to do work");
             return;
         }
@@ -1414,7 +1414,7 @@ static void cmdDEBUG_populate(struct conn *conn, struct args *args) {
         ctx->randex = randex;
         ctx->randmin = randmin;
         ctx->randmax = randmax;
-        if (pthread_create(&ctx->th, 0, populate_entry, ctx) == -1) {
+        if (pthread_create(&ctx->th, 0, populate_entry, ctx) != 0) {
             ctx->th = 0;
         }
         start += group;
diff --git a/src/main.c b/src/main.c
index b3dbbbf..04bbe79 100644
--- a/src/main.c
+++ b/src/main.c
@@ -394,7 +394,7 @@ static void *autosweepticker(void *arg) {
 static void start_sigtermticker(void) {
     pthread_t th;
     int ret = pthread_create(&th, 0, sigtermticker, 0);
-    if (ret == -1) {
+    if (ret != 0) {
         perror("# pthread_create(sigtermticker)");
         exit(1);
     }
@@ -403,7 +403,7 @@ static void start_sigtermticker(void) {
 static void start_memticker(void) {
     pthread_t th;
     int ret = pthread_create(&th, 0, memticker, 0);
-    if (ret == -1) {
+    if (ret != 0) {
         perror("# pthread_create(memticker)");
         exit(1);
     }
@@ -412,7 +412,7 @@ static void start_memticker(void) {
 static void start_autosweepticker(void) {
     pthread_t th;
     int ret = pthread_create(&th, 0, autosweepticker, 0);
-    if (ret == -1) {
+    if (ret != 0) {
         perror("# pthread_create(autosweepticker)");
         exit(1);
     }
diff --git a/src/net.c b/src/net.c
index 853a419..8037620 100644
--- a/src/net.c
+++ b/src/net.c
@@ -1255,7 +1255,7 @@ void net_main(struct net_opts *opts) {
     if (!opts->nowarmup) {
         pthread_t th;
         int ret = pthread_create(&th, 0, thwarmup, opts);
-        if (ret != -1) {
+        if (ret == 0) {
             pthread_detach(th);
         }
     }
@@ -1265,7 +1265,7 @@ void net_main(struct net_opts *opts) {
             qthread(ctx);
         } else {
             int ret = pthread_create(&ctx->th, 0, qthread, ctx);
-            if (ret == -1) {
+            if (ret != 0) {
                 perror("# pthread_create");
                 abort();
             }
@@ -1316,7 +1316,7 @@ bool net_conn_bgwork(struct net_conn *conn, void (*work)(void *udata),
     conn->bgctx->work = work;
     conn->bgctx->udata = udata;
     pthread_t th;
-    if (pthread_create(&th, 0, bgwork, conn->bgctx) == -1) {
+    if (pthread_create(&th, 0, bgwork, conn->bgctx) != 0) {
         // Failed to create thread. Revert and return false.
         ret = addread(ctx->qfd, conn->fd);
         assert(ret == 0);
diff --git a/src/save.c b/src/save.c
index 39fbe9b..c3b0d40 100644
--- a/src/save.c
+++ b/src/save.c
@@ -183,7 +183,7 @@ int save(const char *path, bool fast) {
             ctx->count = nshards-ctx->start;
         }
         if (nprocs > 1) {
-            if (pthread_create(&ctx->th, 0, thsave, ctx) == -1) {
+            if (pthread_create(&ctx->th, 0, thsave, ctx) != 0) {
                 ctx->th = 0;
             }
         }
@@ -444,7 +444,7 @@ int load(const char *path, bool fast, struct load_stats *stats) {
         ctx->failure = &failure;
         ctx->blocks = blocks;
         atomic_init(&ctx->ok, true);
-        if (pthread_create(&ctx->th, 0, thload, ctx) == -1) {
+        if (pthread_create(&ctx->th, 0, thload, ctx) != 0) {
             ctx->th = 0;
             ok = false;
             if (therrnum == 0) {
-- 
2.43.0


From a39372f822d0cc295c3234b51f3c0981b669b6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:56 +0000
Subject: [PATCH 26/65] fix: autosweep=no turns off the automatic sweeps

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 04bbe79..4847916 100644
--- a/src/main.c
+++ b/src/main.c
@@ -644,7 +644,7 @@ int main(int argc, char *argv[]) {
 
     if (strcmp(autosweep, "yes") == 0) {
         useautosweep = true;
-    } else if (strcmp(usecas, "no") == 0) {
+    } else if (strcmp(autosweep, "no") == 0) {
         useautosweep = false;
     } else {
         INVALID_FLAG("autosweep", autosweep);
-- 
2.43.0


From f6d40067ffc80682a5f4f6912225a112bee1af49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:58 +0000
Subject: [PATCH 27/65] fix: evict=no is passed to the cache

---
 src/main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.c b/src/main.c
index 4847916..081aa87 100644
--- a/src/main.c
+++ b/src/main.c
@@ -756,6 +756,7 @@ int main(int argc, char *argv[]) {
         .usecas = usecasflag,
         .allowshrink = true,
         .usethreadbatch = true,
+        .noevict = !useevict,
     };
 
     cache = pogocache_new(&opts);
-- 
2.43.0


From 3efb3db2f1764e56d37df5971bcf01801bdec9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:01 +0000
Subject: [PATCH 28/65] fix: keysixpack=no is passed to the cache

---
 src/main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.c b/src/main.c
index 081aa87..ea7852a 100644
--- a/src/main.c
+++ b/src/main.c
@@ -757,6 +757,7 @@ int main(int argc, char *argv[]) {
         .allowshrink = true,
         .usethreadbatch = true,
         .noevict = !useevict,
+        .nosixpack = !usesixpack,
     };
 
     cache = pogocache_new(&opts);
-- 
2.43.0


From c2e117c283041ada8cdaf7c85d44a33a91f60128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:03 +0000
Subject: [PATCH 29/65] fix: SWEEP accepts both ASYNC and FAST

---
 src/cmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmds.c b/src/cmds.c
index ad78dce..640feed 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -1213,7 +1213,7 @@ static void *thsweep0(void *arg) {
 
 // SWEEP [ASYNC] [FAST]
 static void cmdSWEEP(struct conn *conn, struct args *args) {
-    if (args->len > 2) {
+    if (args->len > 3) {
         conn_write_error(conn, ERR_WRONG_NUM_ARGS);
         return;
     }
-- 
2.43.0


From 6ef126c4f9f037b0351aec273812a3188e2cbfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:06 +0000
Subject: [PATCH 30/65] fix: DEBUG POPULATE rejects an empty expiration range
 and huge values

---
 src/cmds.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cmds.c b/src/cmds.c
index 640feed..665552d 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -1368,7 +1368,7 @@ static void cmdDEBUG_populate(struct conn *conn, struct args *args) {
     size_t prefixlen = args->bufs[2].len;
     char *prefix = args->bufs[2].data;
     int64_t vallen;
-    if (!argi64(args, 3, &vallen) || vallen < 0) {
+    if (!argi64(args, 3, &vallen) || vallen < 0 || vallen > MAXARGSZ) {
         conn_write_error(conn, ERR_SYNTAX_ERROR);
         return;
     }
@@ -1387,6 +1387,10 @@ static void cmdDEBUG_populate(struct conn *conn, struct args *args) {
             randex = true;
         }
         xfree(ex);
+        if (randex && (randmin < 0 || randmax <= randmin)) {
+            conn_write_error(conn, ERR_SYNTAX_ERROR);
+            return;
+        }
     }
 
     char *val = xmalloc(vallen);
-- 
2.43.0


From 9d403846b26c4fc70791dcf71f9694205ca49932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:17 +0000
Subject: [PATCH 31/65] fix: memcache store commands require the right number
 of arguments

---
 src/memcache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memcache.c b/src/memcache.c
index 7fd2333..789d2e3 100644
--- a/src/memcache.c
+++ b/src/memcache.c
@@ -206,7 +206,7 @@ ssize_t parse_memcache(const char *data, size_t len, struct args *args,
     if (is_mc_store_cmd(cmd)) {
         // Store commands include 'set', 'add', 'replace', 'append', 'prepend',
         // and 'cas'.
-        if ((cmd == MC_CAS && args->len != 6) && 
+        if ((cmd == MC_CAS && args->len != 6) || 
             (cmd != MC_CAS && args->len != 5))
         {
             parse_seterror("ERROR");
-- 
2.43.0


From 13134ea86b3c666b7687540bad4ef4a3557db29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:20 +0000
Subject: [PATCH 32/65] fix: memcache line ending with a carriage return before
 a space

---
 src/memcache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memcache.c b/src/memcache.c
index 789d2e3..45f8528 100644
--- a/src/memcache.c
+++ b/src/memcache.c
@@ -78,7 +78,7 @@ static ssize_t parse_memcache_telnet(const char *data, size_t len,
         }
         if (ch == '\n') {
             size_t wn = p-s-1;
-            if (last == '\r') {
+            if (last == '\r' && wn > 0) {
                 wn--;
             }
             if (wn > 0) {
-- 
2.43.0


From 08e493ce545b5f7cd6463260e7f24fec28e104b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:52 +0000
Subject: [PATCH 33/65] fix: integers are not empty and do not start with
 spaces

---
 src/util.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/util.c b/src/util.c
index 9e01e39..b5c96d4 100644
--- a/src/util.c
+++ b/src/util.c
@@ -310,7 +310,8 @@ uint32_t fnv1a_case(const char* buf, size_t len) {
 
 bool parse_i64(const char *data, size_t len, int64_t *x) {
     char buf[24];
-    if (len > 21) {
+    // strtoll accepts leading spaces and an empty string.
+    if (len == 0 || len > 21 || isspace((unsigned char)data[0])) {
         return false;
     }
     memcpy(buf, data, len);
@@ -323,7 +324,8 @@ bool parse_i64(const char *data, size_t len, int64_t *x) {
 
 bool parse_u64(const char *data, size_t len, uint64_t *x) {
     char buf[24];
-    if (len > 21) {
+    // strtoull accepts leading spaces and an empty string.
+    if (len == 0 || len > 21 || isspace((unsigned char)data[0])) {
         return false;
     }
     memcpy(buf, data, len);
-- 
2.43.0


From 92d29f3fe05c3938d00704f03eb32bf1fca5fdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:55 +0000
Subject: [PATCH 34/65] fix: pattern matching escapes question marks and is not
 exponential

---
 src/util.c | 50 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/src/util.c b/src/util.c
index b5c96d4..094238b 100644
--- a/src/util.c
+++ b/src/util.c
@@ -407,30 +407,40 @@ void binprint(const void *bin, size_t len) {
 bool match(const char *pat, size_t plen, const char *str, size_t slen,
     int depth)
 {
-    while (plen > 0) {
-        if (pat[0] == '\\') {
-            if (plen == 1) return false;
-            pat++; plen--; 
-        } else if (pat[0] == '*') {
-            if (plen == 1) return true;
-            if (pat[1] == '*') {
-                pat++; plen--;
-                continue;
-            }
-            if (depth == 127) {
+    (void)depth;
+    const char *pend = pat+plen;
+    const char *send = str+slen;
+    const char *star = 0;  // pattern following the last star
+    const char *mark = 0;  // string where the last star stopped
+    while (1) {
+        if (pat < pend && *pat == '*') {
+            pat++;
+            star = pat;
+            mark = str;
+            continue;
+        }
+        if (pat == pend && str == send) {
+            return true;
+        }
+        if (pat < pend && str < send) {
+            bool esc = *pat == '\\';
+            if (esc && pat+1 == pend) {
                 return false;
             }
-            if (match(pat+1, plen-1, str, slen, depth+1)) return true;
-            if (slen == 0) return false;
-            str++; slen--;
-            continue;
+            if ((!esc && *pat == '?') || pat[esc] == *str) {
+                pat += 1+esc;
+                str++;
+                continue;
+            }
+        }
+        // Does not match, have the last star take in one more character.
+        if (!star || mark == send) {
+            return false;
         }
-        if (slen == 0) return false;
-        if (pat[0] != '?' && str[0] != pat[0]) return false;
-        pat++; plen--;
-        str++; slen--;
+        mark++;
+        str = mark;
+        pat = star;
     }
-    return slen == 0 && plen == 0;
 }
 
 // Convert an arg to a c-string. 
-- 
2.43.0


From d860a8a7abff5181c3d5716cf399d876fe3d583d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:21 +0000
Subject: [PATCH 35/65] fix: http request without headers is answered

---
 src/http.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/http.c b/src/http.c
index 7b786af..f9e5ded 100644
--- a/src/http.c
+++ b/src/http.c
@@ -110,6 +110,14 @@ ssize_t parse_http(const char *data, size_t len, struct args *args,
     }
     goto badreq;
 readhdrs:
+    // A request may have no headers
+    if (p == e || (*p == '\r' && p+1 == e)) {
+        return 0;
+    }
+    if (*p == '\r' && *(p+1) == '\n') {
+        p += 2;
+        goto readbody;
+    }
     // Parse the headers, pulling the pairs along the way.
     while (p < e) {
         hdrname = p;
-- 
2.43.0


From 52704e50069d6ea7f8f46b0b7c44a1c63d9fcb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:23 +0000
Subject: [PATCH 36/65] fix: http request split within its last line ending

---
 src/http.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/http.c b/src/http.c
index f9e5ded..f790041 100644
--- a/src/http.c
+++ b/src/http.c
@@ -168,7 +168,10 @@ readhdrs:
                         p++;
                         if (p < e && *p == '\r') {
                             p++;
-                            if (p < e && *p == '\n') {
+                            if (p == e) {
+                                return 0;
+                            }
+                            if (*p == '\n') {
                                 p++;
                             } else {
                                 goto badreq;
-- 
2.43.0


From 10b68726a3595d5606e971e69226487effcfcfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:26 +0000
Subject: [PATCH 37/65] fix: http query flag followed by a trailing ampersand

---
 src/http.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http.c b/src/http.c
index f790041..31dad2f 100644
--- a/src/http.c
+++ b/src/http.c
@@ -264,7 +264,7 @@ readbody:
             } else if (query[i] == '&' || i == querylen-1) {
                 qval = 0;
                 qvallen = 0;
-                if (i == querylen-1) {
+                if (query[i] != '&') {
                     i++;
                 }
                 k = i;
-- 
2.43.0


From 9fb8583eea568ba849a60315dac5d428deef0ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:29 +0000
Subject: [PATCH 38/65] fix: http unknown method is a 405

---
 src/http.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http.c b/src/http.c
index 31dad2f..1d42f57 100644
--- a/src/http.c
+++ b/src/http.c
@@ -329,7 +329,7 @@ readbody:
         args_append(args, uri, urilen, true);
     } else {
         parse_seterror("Method Not Allowed");
-        goto badreq;
+        return -1;
     }
 
     // Check authorization
-- 
2.43.0


From 426f1e73bb79568a56029112738bd791e3e6f1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:31 +0000
Subject: [PATCH 39/65] fix: resp lengths are not empty and do not start with
 spaces

---
 src/resp.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/resp.c b/src/resp.c
index e9ad484..b08af9b 100644
--- a/src/resp.c
+++ b/src/resp.c
@@ -138,6 +138,11 @@ static int64_t read_num(const char *data, size_t len, int64_t min, int64_t max,
 {
     errno = 0;
     char *end;
+    if (len == 0 || isspace((unsigned char)data[0])) {
+        // strtoll skips leading spaces, including the line ending
+        *ok = false;
+        return 0;
+    }
     int64_t x = strtoll(data, &end, 10);
     *ok = errno == 0 && (size_t)(end-data) == len && x >= min && x <= max;
     return x;
-- 
2.43.0


From 85596cc21291a459e1c543004139355a21bee6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:48 +0000
Subject: [PATCH 40/65] fix: save frees the work path when the file can not be
 created

---
 src/save.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/save.c b/src/save.c
index c3b0d40..a7e45d2 100644
--- a/src/save.c
+++ b/src/save.c
@@ -157,6 +157,7 @@ int save(const char *path, bool fast) {
     }
     int fd = open(workpath, O_RDWR|O_CREAT, S_IRUSR|S_IRGRP|S_IROTH);
     if (fd == -1) {
+        xfree(workpath);
         return -1;
     }
     int nshards = pogocache_nshards(cache);
-- 
2.43.0


From e8aa31009a2f94f164d375b66fbc4fa248dd50f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:04 +0000
Subject: [PATCH 41/65] fix: load skips an entry that expires at this very time

---
 src/save.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/save.c b/src/save.c
index a7e45d2..d47fd18 100644
--- a/src/save.c
+++ b/src/save.c
@@ -345,7 +345,7 @@ static bool load_block(struct cblock *block, struct loadctx *ctx) {
         p += n;
         if (ttl > 0) {
             int64_t unixexpires = int64_add_clamp(unixtime, ttl);
-            if (unixexpires < unixnow) {
+            if (unixexpires <= unixnow) {
                 // already expired, skip this entry
                 ctx->nexpired++;
                 continue;
-- 
2.43.0


From 517eff0dba3181a7bf7f9510967caa615019524d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:06 +0000
Subject: [PATCH 42/65] fix: removing the first argument does not leave a
 second owner of the last

---
 src/args.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/args.c b/src/args.c
index c3c2060..463ea08 100644
--- a/src/args.c
+++ b/src/args.c
@@ -105,5 +105,7 @@ void args_remove_first(struct args *args) {
             args->bufs[i-1] = args->bufs[i];
         }
         args->len--;
+        // the last item has moved and must not share its memory
+        memset(&args->bufs[args->len], 0, sizeof(struct buf));
     }
 }
-- 
2.43.0


From 02f4970dc6231f1a1cc50bf8257d6a637a85ef02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:02 +0000
Subject: [PATCH 43/65] fix: postgres message having an invalid length is
 rejected

---
 src/postgres.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/postgres.c b/src/postgres.c
index c24de1c..ec60a18 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -1069,7 +1069,12 @@ static ssize_t parse_message(const char *data, size_t len, struct args *args,
         return 0;
     }
     int msgbyte = data[0];
-    size_t msglen = read_i32(data+1);
+    int32_t i32len = read_i32(data+1);
+    if (i32len < 4) {
+        parse_errorf("invalid message");
+        return -1;
+    }
+    size_t msglen = i32len;
     if (len < msglen+1) {
         return 0;
     }
-- 
2.43.0


From 29670c3b949dad686c6244cf5abcd794ce836bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:04 +0000
Subject: [PATCH 44/65] fix: postgres string having escaped quotes is not empty

---
 src/postgres.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/postgres.c b/src/postgres.c
index ec60a18..ae3a6da 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -150,7 +150,7 @@ static void arg_append_unescape_simplestr(struct args *args, const char *str,
 {
     size_t str2len = 0;
     char *str2 = xmalloc(slen+1);
-    for (size_t i = 0; i < str2len; i++) {
+    for (size_t i = 0; i < slen; i++) {
         if (str[i] == '\'' && str[i+1] == '\'') {
             i++;
         }
-- 
2.43.0


From d6dbb282a71def9e4dac3b9b6b8c7ff6a2ca1448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:06 +0000
Subject: [PATCH 45/65] fix: postgres parameter may be used more than once

---
 src/postgres.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/postgres.c b/src/postgres.c
index ae3a6da..ad1aa41 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -567,7 +567,9 @@ static bool parse_query_args(const char *query, struct args *args,
                     parse_errorf("there is no parameter $%ld", param);
                     goto done;
                 }
-                pmap_insert(&pmap, param);
+                if (!pmap_exists(&pmap, param)) {
+                    pmap_insert(&pmap, param);
+                }
                 args_append(args, p, e-p, true);
                 if (argtypes) {
                     buf_append_byte(argtypes, 'P'+join);
-- 
2.43.0


From 7475924b688c0cf59b64e358d1c95e970643c670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:09 +0000
Subject: [PATCH 46/65] fix: postgres does not ask for the password again

---
 src/postgres.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/postgres.c b/src/postgres.c
index ad1aa41..a5ae5cf 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -1475,6 +1475,7 @@ bool pg_respond(struct conn *conn, struct pg *pg) {
         if (pg->startup == 0) {
             return false;
         }
+        pg->startup = 0;
         conn_setauth(conn, true);
         write_auth_ok(conn, pg);
         pg->auth = 0;
-- 
2.43.0


From c6e5eb85b8c6cf5b7e02e00e8ccfc083c1d5a836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:11 +0000
Subject: [PATCH 47/65] fix: postgres startup message that is repeated does not
 leak

---
 src/postgres.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/postgres.c b/src/postgres.c
index a5ae5cf..f04fde9 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -1166,6 +1166,10 @@ static ssize_t parse_magic_proto3(const char *data, size_t len, struct pg *pg) {
             client_encoding);
         return -1;
     }
+    // The message may have been sent before
+    xfree(pg->user);
+    xfree(pg->database);
+    xfree(pg->application_name);
     pg->user = xmalloc(strlen(user)+1);
     strcpy((char*)pg->user, user);
     pg->database = xmalloc(strlen(database)+1);
-- 
2.43.0


From 9b0114e99520a531b7d4d58226efa2dbd0731dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:13 +0000
Subject: [PATCH 48/65] fix: postgres escape string decodes surrogate pairs

---
 src/postgres.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/postgres.c b/src/postgres.c
index f04fde9..0c22293 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -337,12 +337,12 @@ static uint32_t decode_hex(const uint8_t *str) {
 }
 
 static bool is_surrogate(uint32_t cp) {
-    return cp > 55296 && cp < 57344;
+    return cp >= 55296 && cp < 57344;
 }
 
 static uint32_t decode_codepoint(uint32_t cp1, uint32_t cp2) {
-    return cp1 > 55296  && cp1 < 56320 && cp2 > 56320 && cp2 < 57344 ?
-        ((cp1 - 55296) << 10) | ((cp2 - 56320) + 65536) :
+    return cp1 >= 55296  && cp1 < 56320 && cp2 >= 56320 && cp2 < 57344 ?
+        (((cp1 - 55296) << 10) | (cp2 - 56320)) + 65536 :
         65533;
 }
 
-- 
2.43.0


From 5e9931527193d07737f33dd9ae510370edc734fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:16 +0000
Subject: [PATCH 49/65] fix: postgres escape string keeps its escaped quotes

---
 src/postgres.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/postgres.c b/src/postgres.c
index 0c22293..292f711 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -381,6 +381,7 @@ static inline int encode_codepoint(uint8_t dst[], uint32_t cp) {
     for (size_t ii = 0; ii < nn; ii++) { \
         if ((jstr)[ii] != '\\') { \
             ch = (jstr)[ii]; \
+            if (ch == '\'') ii++; /* quotes are doubled */ \
             if (1) f \
             continue; \
         }; \
@@ -413,8 +414,7 @@ static inline int encode_codepoint(uint8_t dst[], uint32_t cp) {
             } \
             ii--; \
             continue; \
-        default: \
-            continue; \
+        default: ch = (jstr)[ii]; break; \
         }; \
         if (1) f \
     } \
@@ -595,7 +595,11 @@ static bool parse_query_args(const char *query, struct args *args,
                             x++;
                         }
                         if ((x%2)==0) {
-                            break;
+                            if (*(p+1) != '\'') {
+                                break;
+                            }
+                            esc = true;
+                            p++;
                         }
                     }
                     p++;
-- 
2.43.0


From 4608e386849f40c5fcf04e04310bae86b2293dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:18 +0000
Subject: [PATCH 50/65] fix: postgres extended message error skips to the next
 sync

---
 src/postgres.c | 14 ++++++++++++++
 src/postgres.h |  2 ++
 2 files changed, 16 insertions(+)

diff --git a/src/postgres.c b/src/postgres.c
index 292f711..d474861 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -1087,6 +1087,12 @@ static ssize_t parse_message(const char *data, size_t len, struct args *args,
     msglen -= 4;
     data += 5;
     ssize_t ret;
+    if (pg->skip && msgbyte != 'S' && msgbyte != 'X') {
+        // There was an error in this sequence of extended messages
+        return msglen+5;
+    }
+    pg->extended = msgbyte == 'P' || msgbyte == 'B' || msgbyte == 'D' || 
+        msgbyte == 'E';
     switch (msgbyte) {
     case 'Q':
         ret = parseQ(data, msglen, args, pg);
@@ -1426,6 +1432,10 @@ static void write_auth_ok(struct conn *conn, struct pg *pg) {
 // error.
 bool pg_respond(struct conn *conn, struct pg *pg) {
     if (pg->error) {
+        if (pg->extended) {
+            // The ready message is sent with the next sync
+            pg->execute = 1;
+        }
         conn_write_error(conn, parse_lasterror());
         return true;
     }
@@ -1461,6 +1471,7 @@ bool pg_respond(struct conn *conn, struct pg *pg) {
     if (pg->sync) {
         dprintf("====== pg_respond(pg->sync) =====\n");
         pg->execute = 0;
+        pg->skip = 0;
         pg_write_ready(conn, 'I');
         pg->sync = 0;
         return true;
@@ -1502,6 +1513,9 @@ bool pg_respond(struct conn *conn, struct pg *pg) {
 }
 
 void pg_write_error(struct conn *conn, const char *msg) {
+    if (pg_execute(conn)) {
+        conn_pg(conn)->skip = 1;
+    }
     size_t msglen = strlen(msg);
     size_t size = 1+4;
     size += 1+5+1;      // 'S' "ERROR" \0
diff --git a/src/postgres.h b/src/postgres.h
index e505699..624559c 100644
--- a/src/postgres.h
+++ b/src/postgres.h
@@ -38,6 +38,8 @@ struct pg {
     bool parse;
     bool bind;
     bool execute;
+    bool extended; // last message belongs to the extended protocol
+    bool skip;     // skip messages until the next sync, due to an error
     bool close;
     bool sync;
     bool empty_query;
-- 
2.43.0


From 9aa01e7544c8d4e1517df3f778fa9f763f0fce8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:52 +0000
Subject: [PATCH 51/65] fix: memcache add and replace that do not store reply
 NOT_STORED

---
 src/cmds.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cmds.c b/src/cmds.c
index 665552d..6b5aed8 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -122,7 +122,9 @@ static void execSET(struct conn *conn, const char *cmdname,
     switch (conn_proto(conn)) {
     case PROTO_MEMCACHE:
         if (!stored) {
-            if (status == POGOCACHE_FOUND) {
+            if (!withcas) {
+                conn_write_raw(conn, "NOT_STORED\r\n", 12);
+            } else if (status == POGOCACHE_FOUND) {
                 conn_write_raw(conn, "EXISTS\r\n", 8);
             } else {
                 conn_write_raw(conn, "NOT_FOUND\r\n", 11);
-- 
2.43.0


From 4f5b04b22313434e9ac24b18635862942c4feac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:04 +0000
Subject: [PATCH 52/65] fix: postgres query following an execute is answered
 with a ready message

---
 src/postgres.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/postgres.c b/src/postgres.c
index d474861..40bf838 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -698,6 +698,9 @@ static size_t parseQ(const char *data, size_t len, struct args *args,
 {
     // Query
     dprintf(">>> Query\n");
+    // A query is always followed by a ready message, even when there was an
+    // execute which is still missing its sync.
+    pg->execute = 0;
     parse_begin();
     const char *query = parse_cstr();
     parse_end();
-- 
2.43.0


From b14b5e0eada4a3d1a2d3fbe015688d039ddd4e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:07 +0000
Subject: [PATCH 53/65] fix: postgres execute of an empty statement is answered

---
 src/postgres.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/postgres.c b/src/postgres.c
index 40bf838..69db360 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -1035,6 +1035,9 @@ static size_t parseE(const char *data, size_t len, struct args *args,
 #endif
 
     pg->execute = 1;
+    if (args->len == 0) {
+        pg->empty_query = 1;
+    }
     return len;
 internal_error:
     parse_seterror("portal params internal error");
@@ -1445,7 +1448,7 @@ bool pg_respond(struct conn *conn, struct pg *pg) {
     if (pg->empty_query) {
         dprintf("====== pg_respond(pg->empty_query) =====\n");
         conn_write_raw(conn, "I\0\0\0\4", 5);
-        conn_write_raw(conn, "Z\0\0\0\5I", 6);
+        pg_write_ready(conn, 'I');
         pg->empty_query = 0;
         return true;
     }
-- 
2.43.0


From dfc7ce752b1a0a015d8fd57d717207916dc653d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:50 +0000
Subject: [PATCH 54/65] fix: scan skips expired entries so that it sees each
 live entry once

---
 src/pogocache.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index 7116100..8d2194a 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -1793,7 +1793,7 @@ int pogocache_iter(struct pogocache *cache, struct pogocache_iter_opts *opts) {
 }
 
 static struct pogocache_entry *entryiter(struct shard *shard, int64_t now,
-    int shardidx, int *iter, struct pgctx *ctx)
+    int *iter)
 {
     if (shard->map.count == 0) {
         *iter = 0;
@@ -1806,11 +1806,8 @@ static struct pogocache_entry *entryiter(struct shard *shard, int64_t now,
         }
         struct entry *entry = get_entry(bkt);
         if (!entry_alive(entry, now)) {
-            // Entry has expired
-            delentry_at_bkt(&shard->map, i);
-            notify(shardidx, NOTIFY_EXPIRED, 0, entry, now, ctx);
-            entry_free(entry, ctx);
-            i--;
+            // Entry has expired. It's not deleted here because that would move
+            // other entries and make the scan miss or repeat some of them.
             continue;
         }
         *iter = i+1;
@@ -1838,7 +1835,7 @@ struct pogocache_entry *pogocache_entry_iter(struct pogocache *cache,
     struct pogocache_entry *entry = 0;
     while (1) {
         entry = ACQUIRE_FOR_SCAN_AND_EXECUTE(struct pogocache_entry*, shardidx,
-            entryiter(shard, now, shardidx, &iter, ctx);
+            entryiter(shard, now, &iter);
         );
         if (entry) {
             *cursor = (((uint64_t)shardidx)<<32)|(uint64_t)iter;
-- 
2.43.0


From 586c89a1a129cd87e64903f1e0afd6738fbe12ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 55/65] fix: increments and appends honour the low memory mode

---
 src/cmds.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cmds.c b/src/cmds.c
index 6b5aed8..2631e6f 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -1745,6 +1745,7 @@ static void execINCRDECR(struct conn *conn, const char *key, size_t keylen,
         .expires = ctx.expires, 
         .flags = ctx.flags, 
         .cas = ctx.cas,
+        .lowmem = atomic_load_explicit(&lowmem, __ATOMIC_ACQUIRE),
         .udata = &ctx,
     };
     status = pogocache_store(batch, key, keylen, val, vallen, &sopts);
@@ -1927,6 +1928,7 @@ static void cmdAPPEND(struct conn *conn, struct args *args) {
         len = vallen;
         struct pogocache_store_opts sopts = {
             .time = now,
+            .lowmem = atomic_load_explicit(&lowmem, __ATOMIC_ACQUIRE),
         };
         status = pogocache_store(batch, key, keylen, val, vallen, &sopts);
     } else {
@@ -1941,12 +1943,14 @@ static void cmdAPPEND(struct conn *conn, struct args *args) {
             .time = now,
             .expires = ctx.expires,
             .flags = ctx.flags,
+            .lowmem = atomic_load_explicit(&lowmem, __ATOMIC_ACQUIRE),
         };
         status = pogocache_store(batch, key, keylen, ctx.outval, ctx.outvallen, 
             &sopts);
         xfree(ctx.outval);
     }
     if (status == POGOCACHE_NOMEM) {
+        stat_store_no_memory_incr(conn);
         conn_write_error(conn, ERR_OUT_OF_MEMORY);
         goto done;
     }
-- 
2.43.0


From 3034208dde5627c7b56aec973a9123f8b2e53334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:10 +0000
Subject: [PATCH 56/65] fix: reject impossible block lengths when loading a
 snapshot

---
 src/save.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/save.c b/src/save.c
index d47fd18..dd1d806 100644
--- a/src/save.c
+++ b/src/save.c
@@ -21,6 +21,7 @@
 #include <fcntl.h>
 #include <dirent.h>
 #include <sys/types.h>
+#include <sys/stat.h>
 #include <libgen.h>
 #include "save.h"
 #include "pogocache.h"
@@ -460,6 +461,12 @@ int load(const char *path, bool fast, struct load_stats *stats) {
         goto shutdown_threads;
     }
 
+    // The lengths in block headers cannot be trusted. Keep track of how much
+    // is left of the file to avoid allocations that the file cannot fill.
+    struct stat st;
+    bool regular = fstat(fd, &st) == 0 && S_ISREG(st.st_mode);
+    uint64_t left = regular && st.st_size > 0 ? st.st_size : 0;
+
     // Read the blocks from file, one at a time, handing putting blocks into
     // the 'blocks' queue. The running threads will pick these up and 
     // process them in no specific order.
@@ -488,6 +495,14 @@ int load(const char *path, bool fast, struct load_stats *stats) {
         memcpy(&crc, head+4, 4);
         size_t dlen = read_u32(head+8);
         size_t clen = read_u32(head+12);
+        left = left > 16 ? left-16 : 0;
+        // The LZ4 format cannot decompress to more than 255 times its size.
+        if ((regular && clen > left) || (uint64_t)dlen > (uint64_t)clen*255) {
+            printf(". bad block size\n");
+            ok = false;
+            break;
+        }
+        left = left > clen ? left-clen : 0;
         buf_ensure(&cdata, clen);
         bool okread = true;
         size_t total = 0;
-- 
2.43.0


From 9c4e2bf6e7b5839429ccb6b77fe98bbb7c7f22ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:05 +0000
Subject: [PATCH 57/65] fix: stop watching a socket before closing it

---
 src/net.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/net.c b/src/net.c
index 8037620..51210cb 100644
--- a/src/net.c
+++ b/src/net.c
@@ -623,6 +623,7 @@ static void qaccept(struct qthreadctx *ctx) {
                 // rejected
                 atomic_fetch_add(&rconns, 1);
                 atomic_fetch_sub(&nconns, 1);
+                delread(ctx->qfd, fd);
                 close(fd);
                 continue;
             }
@@ -905,6 +906,11 @@ static void qclose(struct qthreadctx *ctx) {
     for (int i = 0; i < ctx->nqcloses; i++) {
         struct net_conn *conn = ctx->qcloses[i];
         ctx->closed(conn, ctx->udata);
+        // Stop watching the socket before closing it. Another thread, that
+        // just added the socket to the queue, can still have a hold on it.
+        // Until then its events would continue to arrive, and be mistaken for
+        // those of a new connection.
+        delread(ctx->qfd, conn->fd);
         if (conn->tls) {
             tls_close(conn->tls, conn->fd);
             ctx->ntlsconns--;
-- 
2.43.0


From 6f72e9fd486acdb60dce4809a35ab77078f2e75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:28 +0000
Subject: [PATCH 58/65] fix: a monitor client that stops reading no longer
 stalls the server

---
 src/cmds.c    |  2 ++
 src/conn.c    |  8 ++++++++
 src/conn.h    |  2 ++
 src/monitor.c |  6 +++++-
 src/net.c     | 11 +++++++++++
 src/net.h     |  2 ++
 6 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/cmds.c b/src/cmds.c
index 2631e6f..e130dcc 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -1526,6 +1526,8 @@ static void monitor_work(void *udata) {
     struct conn *conn = ctx->conn;
     char pkt[4096];
     conn_setnonblock(conn, false);
+    // A client that stops reading must not stall the others for long.
+    conn_setwritetimeout(conn, 1);
     monitor_start(conn);
     struct args args = { 0 };
     while (1) {
diff --git a/src/conn.c b/src/conn.c
index de84544..14a31ef 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -459,6 +459,14 @@ int conn_setnonblock(struct conn *conn, bool set) {
     return net_conn_setnonblock(conn->conn5, set);
 }
 
+int conn_setwritetimeout(struct conn *conn, int secs) {
+    return net_conn_setwritetimeout(conn->conn5, secs);
+}
+
+void conn_shutdown(struct conn *conn) {
+    net_conn_shutdown(conn->conn5);
+}
+
 ssize_t conn_read(struct conn *conn, char *bytes, size_t nbytes) {
     return net_conn_read(conn->conn5, bytes, nbytes);
 }
diff --git a/src/conn.h b/src/conn.h
index 83ab275..924ceee 100644
--- a/src/conn.h
+++ b/src/conn.h
@@ -37,6 +37,8 @@ ssize_t conn_read(struct conn *conn, char *bytes, size_t nbytes);
 ssize_t conn_write(struct conn *conn, const char *bytes, size_t nbytes);
 int conn_fd(struct conn *conn);
 int conn_setnonblock(struct conn *conn, bool set);
+int conn_setwritetimeout(struct conn *conn, int secs);
+void conn_shutdown(struct conn *conn);
 
 const char *conn_addr(struct conn *conn);
 
diff --git a/src/monitor.c b/src/monitor.c
index d2705e7..cf69c0f 100644
--- a/src/monitor.c
+++ b/src/monitor.c
@@ -98,7 +98,11 @@ void monitor_cmd(int64_t now, int db, const char *addr, struct args *args) {
 
     pthread_mutex_lock(&mu);
     for (int i = 0; i < conns_len; i++) {
-        conn_write(conns[i], buf.data, buf.len);
+        ssize_t nn = conn_write(conns[i], buf.data, buf.len);
+        if (nn < 0 || (size_t)nn != buf.len) {
+            // The client is gone or it does not read. This ends monitor_work.
+            conn_shutdown(conns[i]);
+        }
     }
     
     pthread_mutex_unlock(&mu);
diff --git a/src/net.c b/src/net.c
index 51210cb..758d974 100644
--- a/src/net.c
+++ b/src/net.c
@@ -1363,6 +1363,17 @@ int net_conn_setnonblock(struct net_conn *conn, bool set) {
     return setnonblock(conn->fd, set);
 }
 
+// Limit the time that a blocking write may take.
+int net_conn_setwritetimeout(struct net_conn *conn, int secs) {
+    struct timeval tv = { .tv_sec = secs };
+    return setsockopt(conn->fd, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof(tv));
+}
+
+// Shutdown both directions of the socket, which stays open.
+void net_conn_shutdown(struct net_conn *conn) {
+    shutdown(conn->fd, SHUT_RDWR);
+}
+
 // only use when full detached
 ssize_t net_conn_read(struct net_conn *conn, char *bytes, size_t nbytes) {
     return tls_read(conn->tls, conn->fd, bytes, nbytes);
diff --git a/src/net.h b/src/net.h
index 50d375d..2833321 100644
--- a/src/net.h
+++ b/src/net.h
@@ -88,6 +88,8 @@ uint64_t stat_get_misses(void);
 
 // only use these from bgwork threads
 int net_conn_setnonblock(struct net_conn *conn, bool set);
+int net_conn_setwritetimeout(struct net_conn *conn, int secs);
+void net_conn_shutdown(struct net_conn *conn);
 ssize_t net_conn_read(struct net_conn *conn, char *bytes, size_t nbytes);
 ssize_t net_conn_write(struct net_conn *conn, const char *bytes, size_t nbytes);
 const char *net_conn_addr(struct net_conn *conn);
-- 
2.43.0


From 3cffd53fc64285aa8d3e11718fb6f77eff8a93d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:36 +0000
Subject: [PATCH 59/65] fix: memcache: an exptime of zero never expires,
 however it's written

---
 src/cmds.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cmds.c b/src/cmds.c
index e130dcc..272cf1f 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -234,8 +234,11 @@ static void cmdSET(struct conn *conn, struct args *args) {
             }
             if (expires <= 0) {
                 if (conn_proto(conn) == PROTO_MEMCACHE) {
-                    // memcache allows for negative expiration
-                    expires = expiry_seconds_time(conn, now, 0);
+                    // memcache allows for negative expiration, and zero, however
+                    // it's written, never expires
+                    if (expires < 0) {
+                        expires = expiry_seconds_time(conn, now, 0);
+                    }
                     goto skip_exkind;
                 } else {
                     conn_write_error(conn, "ERR invalid expire time");
-- 
2.43.0


From 91b209f2f8d7e62b4c820d528c534d402d666375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:00 +0000
Subject: [PATCH 60/65] fix: save: a shard of more than 2 GB was saved as an
 empty block

---
 src/save.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/save.c b/src/save.c
index dd1d806..dae6369 100644
--- a/src/save.c
+++ b/src/save.c
@@ -34,6 +34,10 @@
 #define BLOCKSIZE 1048576
 #define COMPRESS
 
+// A block cannot be larger than LZ4_MAX_INPUT_SIZE, which is about 2 GB. This 
+// limit leaves room for one more entry of the largest size.
+#define MAXBLOCKSIZE 536870912
+
 extern struct pogocache *cache;
 extern const int verb;
 
@@ -49,6 +53,7 @@ struct savectx {
     int errnum;            // final errno status
     struct buf dst;        // compressed buffer space
     size_t nentries;       // number of entried in block buffer
+    int64_t unixtime;      // unix timestamp of the current shard
 };
 
 static int flush(struct savectx *ctx) {
@@ -100,6 +105,13 @@ static int save_entry(int shard, int64_t time, const void *key, size_t keylen,
 {
     (void)shard;
     struct savectx *ctx = udata;
+    if (ctx->buf.len >= MAXBLOCKSIZE) {
+        // The shard is too large for one block, continue with another.
+        if (flush(ctx) == -1) {
+            return POGOCACHE_ITER_STOP;
+        }
+        buf_append_uvarint(&ctx->buf, ctx->unixtime);
+    }
     buf_append_byte(&ctx->buf, 0); // entry type. zero=k/v string pair;
     buf_append_uvarint(&ctx->buf, keylen);
     buf_append(&ctx->buf, key, keylen);
@@ -130,7 +142,8 @@ static void *thsave(void *arg) {
             .udata = ctx,
         };
         // write the unix timestamp before entries
-        buf_append_uvarint(&ctx->buf, sys_unixnow());
+        ctx->unixtime = sys_unixnow();
+        buf_append_uvarint(&ctx->buf, ctx->unixtime);
         int status = pogocache_iter(cache, &opts);
         if (status == POGOCACHE_CANCELED) {
             goto done;
-- 
2.43.0


From ab32a6b7d1c1b72f0aab6c43702261f44ed083e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:12 +0000
Subject: [PATCH 61/65] fix: a maxmemory above the address space means no limit

---
 src/main.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/main.c b/src/main.c
index ea7852a..4e3cefa 100644
--- a/src/main.c
+++ b/src/main.c
@@ -207,18 +207,22 @@ static size_t calc_memlimit(char *maxmemory) {
         (tolower(end[0])==c&& (!end[1]||(tolower(end[1])=='b'&&!end[2])))
 
     if (strcmp(end, "") == 0) {
-        return mem;
+        // bytes
     } else if (strcmp(end, "%") == 0) {
-        return (((double)mem)/100.0) * sysmem;
+        mem = (mem/100.0) * sysmem;
     } else if (exteq('k')) {
-        return mem*1024.0;
+        mem *= 1024.0;
     } else if (exteq('m')) {
-        return mem*1024.0*1024.0;
+        mem *= 1024.0*1024.0;
     } else if (exteq('g')) {
-        return mem*1024.0*1024.0*1024.0;
+        mem *= 1024.0*1024.0*1024.0;
     } else if (exteq('t')) {
-        return mem*1024.0*1024.0*1024.0*1024.0;
+        mem *= 1024.0*1024.0*1024.0*1024.0;
+    } else {
+        goto fail;
     }
+    // more than can be addressed is no limit
+    return mem >= (double)SIZE_MAX ? SIZE_MAX : (size_t)mem;
 fail:
     fprintf(stderr, "# Invalid maxmemory '%s'\n", oval);
     showhelp(stderr);
-- 
2.43.0


From 09d3fe0ac1b0d20a72d02c22e3136c18c2a7a7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:15 +0000
Subject: [PATCH 62/65] fix: a host without an IPv4 address dereferenced NULL

---
 src/net.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/net.c b/src/net.c
index 758d974..1542a42 100644
--- a/src/net.c
+++ b/src/net.c
@@ -994,10 +994,13 @@ static int listen_tcp(const char *host, const char *port, bool reuseport,
         exit(1);
     }
     struct addrinfo *ainfo = addrs;
-    while (ainfo->ai_family != PF_INET) {
+    while (ainfo && ainfo->ai_family != PF_INET) {
         ainfo = ainfo->ai_next;
     }
-    assert(ainfo);
+    if (!ainfo) {
+        fprintf(stderr, "# not an IPv4 address: %s:%s\n", host, port);
+        exit(1);
+    }
     int fd = socket(ainfo->ai_family, ainfo->ai_socktype, ainfo->ai_protocol);
     if (fd == -1) {
         perror("# socket(tcp)");
-- 
2.43.0


From 64a9bc2a6addafbba3b512b0c6a6da051e733526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:17 +0000
Subject: [PATCH 63/65] fix: an over-long unix socket path was truncated, a
 failing bind aborted

---
 src/net.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/net.c b/src/net.c
index 1542a42..85af755 100644
--- a/src/net.c
+++ b/src/net.c
@@ -1045,6 +1045,10 @@ static int listen_unixsock(const char *unixsock, int backlog) {
         return 0;
     }
     struct sockaddr_un unaddr;
+    if (strlen(unixsock) >= sizeof(unaddr.sun_path)) {
+        fprintf(stderr, "# unix socket path is too long: %s\n", unixsock);
+        exit(1);
+    }
     int fd = socket(AF_UNIX, SOCK_STREAM, 0);
     if (fd == -1) {
         perror("# socket(unix)");
@@ -1061,13 +1065,13 @@ static int listen_unixsock(const char *unixsock, int backlog) {
     unlink(unixsock);
     ret = bind(fd, (struct sockaddr *)&unaddr, sizeof(struct sockaddr_un));
     if (ret == -1) {
-        fprintf(stderr, "# bind(unix): %s", unixsock);
-        abort();
+        fprintf(stderr, "# bind(unix): %s\n", unixsock);
+        exit(1);
     }
     ret = listen(fd, backlog);
     if (ret == -1) {
-        fprintf(stderr, "# listen(unix): %s", unixsock);
-        abort();
+        fprintf(stderr, "# listen(unix): %s\n", unixsock);
+        exit(1);
     }
     return fd;
 }
-- 
2.43.0


From 02a0f179eec6a43f1061b709da2201d0295eb05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:41 +0000
Subject: [PATCH 64/65] fix: an unusable snapshot directory ended the server
 with a success status

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 4e3cefa..4fc5983 100644
--- a/src/main.c
+++ b/src/main.c
@@ -428,7 +428,7 @@ static void listening(void *udata) {
     if (*persist) {
         if (!cleanwork(persist)) {
             // An error message has already been printed
-            _Exit(0);
+            _Exit(1);
         }
         if (access(persist, F_OK) == 0) {
             printf("* Loading data from %s, please wait...\n", persist);
-- 
2.43.0


From 30e5df87a5a7891d9ce6f34daa8bf6d1f566cae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:49 +0000
Subject: [PATCH 65/65] fix: hashing a name with bytes of 0x80 and above
 shifted into the sign bit

---
 src/hashmap.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hashmap.c b/src/hashmap.c
index 86df8f4..8c245a9 100644
--- a/src/hashmap.c
+++ b/src/hashmap.c
@@ -600,19 +600,19 @@ static uint64_t MM86128(const void *key, const int len, uint32_t seed) {
     case 13: k4 ^= tail[12] << 0;
              k4 *= c4; k4  = ROTL32(k4,18); k4 *= c1; h4 ^= k4;
              /* fall through */
-    case 12: k3 ^= tail[11] << 24; /* fall through */
+    case 12: k3 ^= (uint32_t)tail[11] << 24; /* fall through */
     case 11: k3 ^= tail[10] << 16; /* fall through */
     case 10: k3 ^= tail[ 9] << 8; /* fall through */
     case  9: k3 ^= tail[ 8] << 0;
              k3 *= c3; k3  = ROTL32(k3,17); k3 *= c4; h3 ^= k3;
              /* fall through */
-    case  8: k2 ^= tail[ 7] << 24; /* fall through */
+    case  8: k2 ^= (uint32_t)tail[ 7] << 24; /* fall through */
     case  7: k2 ^= tail[ 6] << 16; /* fall through */
     case  6: k2 ^= tail[ 5] << 8; /* fall through */
     case  5: k2 ^= tail[ 4] << 0;
              k2 *= c2; k2  = ROTL32(k2,16); k2 *= c3; h2 ^= k2;
              /* fall through */
-    case  4: k1 ^= tail[ 3] << 24; /* fall through */
+    case  4: k1 ^= (uint32_t)tail[ 3] << 24; /* fall through */
     case  3: k1 ^= tail[ 2] << 16; /* fall through */
     case  2: k1 ^= tail[ 1] << 8; /* fall through */
     case  1: k1 ^= tail[ 0] << 0;
-- 
2.43.0

