From 947aae31453c09c13358623237228f79fa59d2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:28 +0000
Subject: [PATCH 01/33] fix: confirm TryConsume reservations on the exact
 running net

The grouped and cached gates admit on an estimate or a stale value, the full
scan can be torn by concurrent Updates and the lock-free fast path checked and
reserved in two steps (and overflowed on n+guard), so concurrent requests could
be admitted beyond the remaining units.
---
 vsa.go | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/vsa.go b/vsa.go
index 035f2cd..c625c7a 100644
--- a/vsa.go
+++ b/vsa.go
@@ -326,17 +326,18 @@ func (v *VSA) TryConsume(n int64) bool {
 	}
 	// 1) Lock-free fast path when we are far from the limit.
 	if v.fastPathGuard > 0 {
-		s := v.scalar.Load()
+		// Load approx before s: a Commit landing in between then only makes the
+		// estimate more conservative (it lowers s before it lowers approx).
 		approx := v.approxNet.Load()
-		if s-abs(approx) >= n+v.fastPathGuard {
-			// Reserve without taking the lock; bounded risk thanks to guard.
+		s := v.scalar.Load()
+		if s-abs(approx)-v.fastPathGuard >= n && v.reserveFast(s, approx, n) {
+			// Reserved without taking the lock; publish it on a stripe.
 			idx := int(v.chooser.Add(1)) & v.mask
 			v.stripes[idx].val.Add(n)
 			if v.hGroups > 0 {
 				g := idx / v.hStride
 				v.hGroupSum[g].Add(n)
 			}
-			v.approxNet.Add(n)
 			return true
 		}
 	}
@@ -377,7 +378,18 @@ func (v *VSA) TryConsume(n int64) bool {
 			return false
 		}
 	}
-	// Reserve by updating a stripe (use round-robin under lock to avoid an atomic)
+	// The gates above may be stale, estimated or torn by lock-free updates, so
+	// confirm and reserve atomically on the running net.
+	for {
+		net := v.approxNet.Load()
+		if v.scalar.Load()-abs(net) < n {
+			return false
+		}
+		if v.approxNet.CompareAndSwap(net, net+n) {
+			break
+		}
+	}
+	// Publish the reservation on a stripe (use round-robin under lock to avoid an atomic)
 	idx := int(v.rr) & v.mask
 	v.rr++
 	v.stripes[idx].val.Add(n)
@@ -385,7 +397,20 @@ func (v *VSA) TryConsume(n int64) bool {
 		g := idx / v.hStride
 		v.hGroupSum[g].Add(n)
 	}
-	v.approxNet.Add(n)
+	return true
+}
+
+// reserveFast reserves n on the running net if it still equals approx. A Commit
+// may have lowered the scalar since s was read while other operations brought the
+// net back to approx; the reservation is then undone unless n still fits.
+func (v *VSA) reserveFast(s, approx, n int64) bool {
+	if !v.approxNet.CompareAndSwap(approx, approx+n) {
+		return false
+	}
+	if now := v.scalar.Load(); now != s && now-abs(approx) < n {
+		v.approxNet.Add(-n)
+		return false
+	}
 	return true
 }
 
-- 
2.43.0


From 9137142233c6108ecdc4ea0539ac04c2884caa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:28 +0000
Subject: [PATCH 02/33] fix: never commit or refund more than the real net
 vector

A stripe scan that overlaps lock-free updates can see a net that never existed;
Commit then lowered availability and TryRefund drove the vector negative.
---
 vsa.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/vsa.go b/vsa.go
index c625c7a..07b1484 100644
--- a/vsa.go
+++ b/vsa.go
@@ -292,7 +292,7 @@ func (v *VSA) Commit(committedVector int64) {
 	// effective net and only commit up to its magnitude, in the net's direction.
 	v.tryMu.Lock()
 	// Recompute current net under the lock to derive a safe, aligned delta.
-	net := v.currentVector()
+	net := v.settledNet()
 	if net == 0 {
 		v.tryMu.Unlock()
 		return
@@ -424,7 +424,7 @@ func (v *VSA) TryRefund(n int64) bool {
 	}
 	v.tryMu.Lock()
 	defer v.tryMu.Unlock()
-	net := v.currentVector()
+	net := v.settledNet()
 	if net <= 0 {
 		return false
 	}
@@ -458,6 +458,21 @@ func (v *VSA) currentVector() int64 {
 	return sum - v.committedOffset.Load()
 }
 
+// settledNet is the part of the effective vector on which the scan of the stripes
+// and the running net agree. A scan that overlaps lock-free updates may mix
+// their halves and see a net that never existed; moving no more than the settled
+// part keeps Commit and TryRefund within the real net.
+func (v *VSA) settledNet() int64 {
+	scan, run := v.currentVector(), v.approxNet.Load()
+	if (scan > 0) != (run > 0) || (scan < 0) != (run < 0) {
+		return 0
+	}
+	if abs(run) < abs(scan) {
+		return run
+	}
+	return scan
+}
+
 // runAggregator periodically refreshes cachedNet using the exact sum of stripes (or
 // hierarchical group sums when enabled) to minimize cross-core reads.
 func (v *VSA) runAggregator() {
-- 
2.43.0


From 37d6f37ca973ec80b220e781fd9d30eae02a5071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:28 +0000
Subject: [PATCH 03/33] fix: read scalar and vector consistently in Available
 and State

A Commit between the two reads made Available report up to |vector| units more
or fewer than were ever available, and State return a pair that never existed.
---
 vsa.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vsa.go b/vsa.go
index 07b1484..03df40a 100644
--- a/vsa.go
+++ b/vsa.go
@@ -219,6 +219,9 @@ func (v *VSA) Update(value int64) {
 // Available returns the real-time available resource count: S - |A_net|.
 // We compute A_net by summing stripes and subtracting committedOffset.
 func (v *VSA) Available() int64 {
+	// Exclude a concurrent Commit, which moves units between the two.
+	v.tryMu.Lock()
+	defer v.tryMu.Unlock()
 	s := v.scalar.Load()
 	net := v.currentVector()
 	return s - abs(net)
@@ -264,6 +267,9 @@ func (v *VSA) chooseIdxForUpdate() int {
 
 // State returns the current scalar and effective vector values.
 func (v *VSA) State() (scalar, vector int64) {
+	// Exclude a concurrent Commit, which moves units between the two.
+	v.tryMu.Lock()
+	defer v.tryMu.Unlock()
 	return v.scalar.Load(), v.currentVector()
 }
 
-- 
2.43.0


From 335aab7324d70e53217c9aaa539286b01f529dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:26 +0000
Subject: [PATCH 04/33] fix: close the VSA discarded when GetOrCreate loses a
 race

With UseCachedGate its aggregator goroutine ran forever.
---
 internal/ratelimiter/core/store.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/ratelimiter/core/store.go b/internal/ratelimiter/core/store.go
index 1ef1723..478916f 100644
--- a/internal/ratelimiter/core/store.go
+++ b/internal/ratelimiter/core/store.go
@@ -93,6 +93,7 @@ func (s *Store) GetOrCreate(key string) *vsa.VSA {
 
 	// Try to publish; if another goroutine won the race, reuse that instance.
 	if actual, loaded := s.counters.LoadOrStore(key, newManaged); loaded {
+		inst.Close() // stop the discarded instance's background work, if any
 		managed := actual.(*managedVSA)
 		atomic.StoreInt64(&managed.lastAccessed, now)
 		return managed.instance
-- 
2.43.0


From 04f18ecb228f6f5a71e4c6b556d7d2181a43520d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:26 +0000
Subject: [PATCH 05/33] fix: serialize the worker's persisting cycles

The commit loop (or its final flush) and the eviction loop could snapshot the
same vector concurrently and persist it twice.
---
 internal/ratelimiter/core/worker.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/ratelimiter/core/worker.go b/internal/ratelimiter/core/worker.go
index a828eaf..be628a6 100644
--- a/internal/ratelimiter/core/worker.go
+++ b/internal/ratelimiter/core/worker.go
@@ -42,6 +42,9 @@ type Worker struct {
 	stopChan           chan struct{}
 	wg                 sync.WaitGroup
 	stopped            uint32
+	// persistMu keeps snapshot, persist and Commit of a vector together, so that the
+	// commit and eviction loops never persist the same units twice.
+	persistMu sync.Mutex
 }
 
 // NewWorker creates and configures a new background worker.
@@ -113,6 +116,8 @@ func (w *Worker) commitLoop() {
 
 // runCommitCycle collects all necessary commits and persists them as a batch.
 func (w *Worker) runCommitCycle() {
+	w.persistMu.Lock()
+	defer w.persistMu.Unlock()
 	var commits []Commit
 	var vsaToCommit []*vsa.VSA
 	var vectorsToCommit []int64
@@ -183,6 +188,8 @@ func (w *Worker) runCommitCycle() {
 
 // runFinalFlush commits any non-zero vectors regardless of threshold. It is intended for shutdown.
 func (w *Worker) runFinalFlush() {
+	w.persistMu.Lock()
+	defer w.persistMu.Unlock()
 	var commits []Commit
 	var vsaToCommit []*vsa.VSA
 	var vectorsToCommit []int64
@@ -233,6 +240,8 @@ func (w *Worker) evictionLoop() {
 
 // runEvictionCycle finds and removes stale VSA instances.
 func (w *Worker) runEvictionCycle() {
+	w.persistMu.Lock()
+	defer w.persistMu.Unlock()
 	var keysToEvict []string
 	now := time.Now()
 
-- 
2.43.0


From e8ac7dd3731a68e4a93022364565deb675ae539f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:26 +0000
Subject: [PATCH 06/33] fix: re-arm keys after a failed batch or a commit below
 the low watermark

A key whose batch failed, or that passed the threshold again before the next
scan after a commit, stayed disarmed and never committed again until shutdown.
---
 internal/ratelimiter/core/store.go  |  3 +++
 internal/ratelimiter/core/worker.go | 14 ++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/internal/ratelimiter/core/store.go b/internal/ratelimiter/core/store.go
index 478916f..b409be4 100644
--- a/internal/ratelimiter/core/store.go
+++ b/internal/ratelimiter/core/store.go
@@ -44,6 +44,9 @@ type managedVSA struct {
 	// lastAccessed stores the last access time in UnixNano to allow atomic access across goroutines.
 	lastAccessed int64
 	armed        atomic.Bool
+	// rearm asks the next commit cycle to arm the key before deciding: its last batch
+	// was not persisted, or the commit itself brought it to the low watermark.
+	rearm atomic.Bool
 }
 
 // Store manages a collection of VSA instances in memory.
diff --git a/internal/ratelimiter/core/worker.go b/internal/ratelimiter/core/worker.go
index be628a6..d785157 100644
--- a/internal/ratelimiter/core/worker.go
+++ b/internal/ratelimiter/core/worker.go
@@ -121,9 +121,13 @@ func (w *Worker) runCommitCycle() {
 	var commits []Commit
 	var vsaToCommit []*vsa.VSA
 	var vectorsToCommit []int64
+	var managedToCommit []*managedVSA
 
 	now := time.Now()
 	w.store.ForEach(func(key string, v *managedVSA) {
+		if v.rearm.Swap(false) {
+			v.armed.Store(true)
+		}
 		// Decide based on thresholds (with hysteresis) and optional max-age freshness.
 		_, vec := v.instance.State()
 		absVec := vec
@@ -155,6 +159,7 @@ func (w *Worker) runCommitCycle() {
 			commits = append(commits, Commit{Key: key, Vector: vec})
 			vsaToCommit = append(vsaToCommit, v.instance)
 			vectorsToCommit = append(vectorsToCommit, vec)
+			managedToCommit = append(managedToCommit, v)
 			// Disarm to enforce low watermark before the next threshold-based commit
 			v.armed.Store(false)
 		}
@@ -171,6 +176,10 @@ func (w *Worker) runCommitCycle() {
 		// First-class KPI: record commit error
 		churn.ObserveCommitError(1)
 		// In a real system, you would have retry logic here.
+		// Nothing was persisted: keep these keys eligible for the next cycle.
+		for _, m := range managedToCommit {
+			m.rearm.Store(true)
+		}
 		return
 	}
 
@@ -183,6 +192,11 @@ func (w *Worker) runCommitCycle() {
 	// On successful persistence, update the internal state of each VSA.
 	for i := range vsaToCommit {
 		vsaToCommit[i].Commit(vectorsToCommit[i])
+		// Having fallen to the low watermark, the key may commit again even if traffic
+		// carries it past the threshold before the next cycle looks.
+		if _, rest := vsaToCommit[i].State(); rest <= w.lowCommitThreshold && -rest <= w.lowCommitThreshold {
+			managedToCommit[i].rearm.Store(true)
+		}
 	}
 }
 
-- 
2.43.0


From 5fce4cd3d1f5fcd9203b649e30eda5bfd27ee203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:11 +0000
Subject: [PATCH 07/33] fix: apply Postgres commits despite their own marker

The NOT EXISTS guards saw the applied_commits row inserted two statements
earlier in the same transaction, so no commit ever changed a counter.
---
 internal/ratelimiter/persistence/postgres.go | 35 +++++++++++---------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/internal/ratelimiter/persistence/postgres.go b/internal/ratelimiter/persistence/postgres.go
index 12ff200..4585307 100644
--- a/internal/ratelimiter/persistence/postgres.go
+++ b/internal/ratelimiter/persistence/postgres.go
@@ -43,12 +43,10 @@ import (
 // Idempotent transaction per commit entry:
 //   INSERT INTO applied_commits(commit_id, key, vc) VALUES ($1,$2,$3)
 //     ON CONFLICT DO NOTHING;
-//   -- If the commit exists, skip the counter update via NOT EXISTS guard.
+//   -- If the commit exists (no row inserted), skip the counter update.
 //   UPDATE counters
-//     SET scalar = scalar - $3
-//     WHERE key = $2 AND NOT EXISTS (
-//       SELECT 1 FROM applied_commits WHERE commit_id = $1
-//     );
+//     SET scalar = scalar - $2
+//     WHERE key = $1;
 // Optionally, pre-create the counter row to avoid UPDATE=0 when key is unknown.
 
 // PostgresPersister applies commits idempotently using the safe pattern above.
@@ -107,26 +105,33 @@ func (p *PostgresPersister) CommitBatch(ctx context.Context, entries []CommitEnt
 			return errors.New("CommitEntry.CommitID must be set")
 		}
 		// Applied marker first (OK to no-op on duplicate)
-		if _, err := tx.ExecContext(ctx,
+		marker, err := tx.ExecContext(ctx,
 			`INSERT INTO applied_commits(commit_id, key, vc) VALUES ($1,$2,$3) ON CONFLICT DO NOTHING`,
-			e.CommitID, e.Key, e.Vector); err != nil {
+			e.CommitID, e.Key, e.Vector)
+		if err != nil {
+			return fmt.Errorf("insert applied_commits(%s): %w", e.CommitID, err)
+		}
+		// No marker inserted: the commit was applied before, skip its effects. (Our own
+		// marker is visible to later statements, so they cannot test for its absence.)
+		if n, err := marker.RowsAffected(); err != nil {
 			return fmt.Errorf("insert applied_commits(%s): %w", e.CommitID, err)
+		} else if n == 0 {
+			continue
 		}
 		// Optional fencing: require provided token to be >= last_token, then set it.
 		if e.FencingToken != nil {
-			// Update last_token only if we're not re-applying a known commit id.
 			if _, err := tx.ExecContext(ctx,
-				`UPDATE counters SET last_token = GREATEST(COALESCE(last_token, $3), $3)
-                  WHERE key = $1 AND NOT EXISTS (SELECT 1 FROM applied_commits WHERE commit_id = $2) AND (last_token IS NULL OR $3 >= last_token)`,
-				e.Key, e.CommitID, *e.FencingToken); err != nil {
+				`UPDATE counters SET last_token = GREATEST(COALESCE(last_token, $2), $2)
+                  WHERE key = $1 AND (last_token IS NULL OR $2 >= last_token)`,
+				e.Key, *e.FencingToken); err != nil {
 				return fmt.Errorf("update last_token(%s): %w", e.Key, err)
 			}
 		}
-		// Apply scalar update if the commit was not already applied.
+		// Apply scalar update; the commit was not already applied.
 		if _, err := tx.ExecContext(ctx,
-			`UPDATE counters SET scalar = scalar - $3
-               WHERE key = $2 AND NOT EXISTS (SELECT 1 FROM applied_commits WHERE commit_id = $1)`,
-			e.CommitID, e.Key, e.Vector); err != nil {
+			`UPDATE counters SET scalar = scalar - $2
+               WHERE key = $1`,
+			e.Key, e.Vector); err != nil {
 			return fmt.Errorf("update counters(%s): %w", e.Key, err)
 		}
 	}
-- 
2.43.0


From c8d37f366434cd4a536b4ae69cba48c032e0eaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:11 +0000
Subject: [PATCH 08/33] fix: fence stale Postgres commits off the scalar too

A stale fencing token only skipped the last_token update; the superseded
writer's delta was still applied.
---
 internal/ratelimiter/persistence/postgres.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/ratelimiter/persistence/postgres.go b/internal/ratelimiter/persistence/postgres.go
index 4585307..5a01c26 100644
--- a/internal/ratelimiter/persistence/postgres.go
+++ b/internal/ratelimiter/persistence/postgres.go
@@ -120,11 +120,18 @@ func (p *PostgresPersister) CommitBatch(ctx context.Context, entries []CommitEnt
 		}
 		// Optional fencing: require provided token to be >= last_token, then set it.
 		if e.FencingToken != nil {
-			if _, err := tx.ExecContext(ctx,
+			fence, err := tx.ExecContext(ctx,
 				`UPDATE counters SET last_token = GREATEST(COALESCE(last_token, $2), $2)
                   WHERE key = $1 AND (last_token IS NULL OR $2 >= last_token)`,
-				e.Key, *e.FencingToken); err != nil {
+				e.Key, *e.FencingToken)
+			if err != nil {
+				return fmt.Errorf("update last_token(%s): %w", e.Key, err)
+			}
+			// A stale token is fenced off: the entry must not touch the scalar either.
+			if n, err := fence.RowsAffected(); err != nil {
 				return fmt.Errorf("update last_token(%s): %w", e.Key, err)
+			} else if n == 0 {
+				continue
 			}
 		}
 		// Apply scalar update; the commit was not already applied.
-- 
2.43.0


From 733162474d5340b8b46f1cfe76afa6fb86061628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:28 +0000
Subject: [PATCH 09/33] fix: stop admitting requests before the final flush

The worker was stopped while the HTTP server still served: units admitted after
the final commit were never persisted.
---
 cmd/ratelimiter-api/main.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/cmd/ratelimiter-api/main.go b/cmd/ratelimiter-api/main.go
index d100042..477e5bc 100644
--- a/cmd/ratelimiter-api/main.go
+++ b/cmd/ratelimiter-api/main.go
@@ -222,7 +222,15 @@ func main() {
 
 	fmt.Println("\nShutting down server...")
 
-	// 7. First, stop the background worker. This will trigger a final commit
+	// 7. First, gracefully shut down the HTTP server with a timeout, so that no request
+	// is admitted after the final commit below.
+	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
+	defer cancel()
+	if err := httpServer.Shutdown(ctx); err != nil {
+		log.Printf("Server shutdown failed: %v", err) // still flush what was admitted
+	}
+
+	// 8. Now, stop the background worker. This will trigger a final commit
 	// of any pending VSA vectors to ensure no data is lost.
 	worker.Stop()
 
@@ -232,12 +240,5 @@ func main() {
 	// Stop any background cached-gate aggregators inside VSA instances.
 	store.CloseAll()
 
-	// 8. Now, gracefully shut down the HTTP server with a timeout.
-	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
-	defer cancel()
-	if err := httpServer.Shutdown(ctx); err != nil {
-		log.Fatalf("Server shutdown failed: %v", err)
-	}
-
 	fmt.Println("Server gracefully stopped.")
 }
-- 
2.43.0


From 76b91f199582fc0d1f64e1cef3e99f3e44964340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:51 +0000
Subject: [PATCH 10/33] fix: keep every (key, bucket) apart in the S
 accumulator

Pairs sharing a packed key were merged into one sum, the pair packing to 0 was
overwritten on every ingest and dropped, and a full table made Ingest spin
forever.
---
 plugin/tfd/saccumulator.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/plugin/tfd/saccumulator.go b/plugin/tfd/saccumulator.go
index 09291d8..3c4535e 100644
--- a/plugin/tfd/saccumulator.go
+++ b/plugin/tfd/saccumulator.go
@@ -57,12 +57,13 @@ func newSShard(orderPow2 uint, countThreshold int, timeCap time.Duration) *SShar
 	}
 }
 
-func (s *SShard) probe(k uint64) int {
+func (s *SShard) probe(k, keyID, bucketID uint64) int {
 	// simple linear probing
 	i := int(k & s.mask)
 	for {
 		kk := s.keys[i]
-		if kk == 0 || kk == k {
+		// distinct (key, bucket) pairs may share k, so compare the pair itself
+		if kk == 0 || (kk == k && s.keyIDs[i] == keyID && s.bucketIDs[i] == bucketID) {
 			return i
 		}
 		i = (i + 1) & int(s.mask)
@@ -72,7 +73,13 @@ func (s *SShard) probe(k uint64) int {
 // Ingest merges an S-envelope's delta into the shard accumulator.
 func (s *SShard) Ingest(env Envelope) {
 	k := packKeyBucket(env.Footprint.KeyID, env.Footprint.Time.BucketID)
-	i := s.probe(k)
+	if k == 0 {
+		k = 1 // 0 marks an empty slot
+	}
+	if 4*(s.used+1) > 3*len(s.keys) {
+		s.rehash(2 * len(s.keys)) // keep free slots: probing ends at one
+	}
+	i := s.probe(k, env.Footprint.KeyID, env.Footprint.Time.BucketID)
 	if s.keys[i] == 0 {
 		s.keys[i] = k
 		s.keyIDs[i] = env.Footprint.KeyID
@@ -87,6 +94,21 @@ func (s *SShard) Ingest(env Envelope) {
 	s.maybeFlush()
 }
 
+// rehash moves the live entries into fresh tables of n slots.
+func (s *SShard) rehash(n int) {
+	old := *s
+	s.keys, s.keyIDs, s.bucketIDs = make([]uint64, n), make([]uint64, n), make([]uint64, n)
+	s.sums, s.seqEnds, s.mask = make([]int64, n), make([]uint64, n), uint64(n-1)
+	for j, k := range old.keys {
+		if k == 0 {
+			continue
+		}
+		i := s.probe(k, old.keyIDs[j], old.bucketIDs[j])
+		s.keys[i], s.keyIDs[i], s.bucketIDs[i] = k, old.keyIDs[j], old.bucketIDs[j]
+		s.sums[i], s.seqEnds[i] = old.sums[j], old.seqEnds[j]
+	}
+}
+
 func (s *SShard) maybeFlush() bool {
 	now := Now()
 	if s.used >= s.countThreshold || now.Sub(s.lastFlushAt) >= s.timeCap {
-- 
2.43.0


From ed75d836c5fc9cb5826c5a39b506150ea0579fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:51 +0000
Subject: [PATCH 11/33] fix: keep probe chains intact in SShard.FlushKey

Clearing slots in the middle of a chain hid the entries behind them, so the next
ingest opened a second entry for the same (key, bucket).
---
 plugin/tfd/saccumulator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/plugin/tfd/saccumulator.go b/plugin/tfd/saccumulator.go
index 3c4535e..816d9cb 100644
--- a/plugin/tfd/saccumulator.go
+++ b/plugin/tfd/saccumulator.go
@@ -168,4 +168,5 @@ func (s *SShard) FlushKey(keyID uint64, out *[]SBatch) {
 		s.seqEnds[i] = 0
 		s.used--
 	}
+	s.rehash(len(s.keys)) // the cleared slots may have cut probe chains
 }
-- 
2.43.0


From ad5e8f8f2fb0d9416a0d3a8a0500ffe749b2b4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:51 +0000
Subject: [PATCH 12/33] fix: let SService.Flush and Stop meet without hanging

A Flush racing with or following Stop waited forever, a second Stop panicked and
a Stop without Start never returned.
---
 plugin/tfd/sservice.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/plugin/tfd/sservice.go b/plugin/tfd/sservice.go
index 9b211ee..6f46539 100644
--- a/plugin/tfd/sservice.go
+++ b/plugin/tfd/sservice.go
@@ -49,6 +49,8 @@ type SService struct {
 	doneCh chan struct{}
 	opts   SServiceOptions
 	once   sync.Once
+	// stopOnce lets Stop be called more than once
+	stopOnce sync.Once
 	// flushReqCh allows external callers to request an immediate flush on the service goroutine and wait for completion
 	flushReqCh chan chan struct{}
 }
@@ -83,7 +85,8 @@ func (s *SService) Start() {
 
 // Stop asks the worker to stop, performs a final flush, and waits for completion.
 func (s *SService) Stop() {
-	close(s.stopCh)
+	s.Start() // a service that never ran still owes the final drain and flush
+	s.stopOnce.Do(func() { close(s.stopCh) })
 	<-s.doneCh
 }
 
@@ -93,8 +96,16 @@ func (s *SService) Stop() {
 func (s *SService) Flush() {
 	done := make(chan struct{})
 	// Send a synchronous flush request and wait for completion
-	s.flushReqCh <- done
-	<-done
+	// (a stopping service makes a final flush instead and stops answering).
+	select {
+	case s.flushReqCh <- done:
+	case <-s.doneCh:
+		return
+	}
+	select {
+	case <-done:
+	case <-s.doneCh:
+	}
 }
 
 // Ingest enqueues a Scalar envelope (Vector is ignored). It blocks if the buffer
-- 
2.43.0


From 10a019a51e95855df1f18fa79bd2f7bbf797e360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:51 +0000
Subject: [PATCH 13/33] fix: make the V lane safe for concurrent requests

tfd-proxy calls Pipeline.Handle from every HTTP handler goroutine; the router
map and the actor queues were unsynchronized (lost envelopes, fatal map race).
---
 plugin/tfd/vactors.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/plugin/tfd/vactors.go b/plugin/tfd/vactors.go
index e596177..21688bb 100644
--- a/plugin/tfd/vactors.go
+++ b/plugin/tfd/vactors.go
@@ -18,6 +18,7 @@ package tfd
 
 import (
 	"container/list"
+	"sync"
 )
 
 // VActor represents a per-key ordered queue with an audit chain.
@@ -25,6 +26,7 @@ type VActor struct {
 	keyID uint64
 	prev  [16]byte
 	queue *list.List // of Envelope
+	mu    sync.Mutex // guards prev and queue
 }
 
 func newVActor(keyID uint64) *VActor {
@@ -36,6 +38,8 @@ func (a *VActor) Enqueue(env Envelope) {
 	if env.Channel != ChannelVector {
 		return
 	}
+	a.mu.Lock()
+	defer a.mu.Unlock()
 	// compute prev-hash as a function of key and last seqEnd
 	a.prev = Hash128(a.keyID, env.SeqEnd)
 	env.HashPrev = a.prev
@@ -44,6 +48,8 @@ func (a *VActor) Enqueue(env Envelope) {
 
 // Drain returns all queued envelopes in order and clears the queue.
 func (a *VActor) Drain() []Envelope {
+	a.mu.Lock()
+	defer a.mu.Unlock()
 	var out []Envelope
 	for e := a.queue.Front(); e != nil; e = e.Next() {
 		out = append(out, e.Value.(Envelope))
@@ -55,6 +61,7 @@ func (a *VActor) Drain() []Envelope {
 // VRouter sharded map from keyID to actor.
 type VRouter struct {
 	actors map[uint64]*VActor
+	mu     sync.Mutex // guards actors
 }
 
 func NewVRouter() *VRouter {
@@ -62,6 +69,8 @@ func NewVRouter() *VRouter {
 }
 
 func (r *VRouter) Route(keyID uint64) *VActor {
+	r.mu.Lock()
+	defer r.mu.Unlock()
 	act := r.actors[keyID]
 	if act == nil {
 		act = newVActor(keyID)
-- 
2.43.0


From f76dd56527d8b9ba41e23bba53f752db43d8a61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:23 +0000
Subject: [PATCH 14/33] fix: persist V envelopes with their audit link

Handle passed persistV the envelope from before Enqueue, so every record of the
V log carried an all-zero HashPrev.
---
 plugin/tfd/pipeline.go | 2 +-
 plugin/tfd/vactors.go  | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/plugin/tfd/pipeline.go b/plugin/tfd/pipeline.go
index 1d0a785..32e80d1 100644
--- a/plugin/tfd/pipeline.go
+++ b/plugin/tfd/pipeline.go
@@ -89,7 +89,7 @@ func (p *Pipeline) Handle(env Envelope, persistV func(Envelope)) {
 		return
 	}
 	act := p.v.Route(env.Footprint.KeyID)
-	act.Enqueue(env)
+	env = act.Enqueue(env) // persist the audit link too
 	if persistV != nil {
 		persistV(env)
 	}
diff --git a/plugin/tfd/vactors.go b/plugin/tfd/vactors.go
index 21688bb..f44f454 100644
--- a/plugin/tfd/vactors.go
+++ b/plugin/tfd/vactors.go
@@ -34,9 +34,10 @@ func newVActor(keyID uint64) *VActor {
 }
 
 // Enqueue appends a V-envelope and updates the prev-hash link.
-func (a *VActor) Enqueue(env Envelope) {
+// It returns the envelope as queued, i.e., with its audit link set.
+func (a *VActor) Enqueue(env Envelope) Envelope {
 	if env.Channel != ChannelVector {
-		return
+		return env
 	}
 	a.mu.Lock()
 	defer a.mu.Unlock()
@@ -44,6 +45,7 @@ func (a *VActor) Enqueue(env Envelope) {
 	a.prev = Hash128(a.keyID, env.SeqEnd)
 	env.HashPrev = a.prev
 	a.queue.PushBack(env)
+	return env
 }
 
 // Drain returns all queued envelopes in order and clears the queue.
-- 
2.43.0


From e52def188ba841881250a649e23ef0e0a947169d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:23 +0000
Subject: [PATCH 15/33] fix: start a new line when reopening a log with a torn
 tail

After a crash in the middle of a record, the first record appended by the next
process was glued to the torn one and both were unreadable.
---
 internal/sinks/sbatch_file_sink.go | 24 ++++++++++++++++++++++++
 internal/sinks/venv_file_sink.go   |  4 ++++
 2 files changed, 28 insertions(+)

diff --git a/internal/sinks/sbatch_file_sink.go b/internal/sinks/sbatch_file_sink.go
index 29e77ea..5443354 100644
--- a/internal/sinks/sbatch_file_sink.go
+++ b/internal/sinks/sbatch_file_sink.go
@@ -44,10 +44,34 @@ func NewSBatchFileSink(path string) (*SBatchFileSink, error) {
 	if err != nil {
 		return nil, err
 	}
+	if err := endTornLine(f, path); err != nil {
+		_ = f.Close()
+		return nil, err
+	}
 	s := &SBatchFileSink{f: f, w: bufio.NewWriterSize(f, 1<<20 /*1MiB*/), path: path, lastFlush: time.Now()}
 	return s, nil
 }
 
+// endTornLine terminates a record cut short by a crash, so that the next record
+// appended to f starts on a line of its own.
+func endTornLine(f *os.File, path string) error {
+	r, err := os.Open(path)
+	if err != nil {
+		return err
+	}
+	defer r.Close()
+	st, err := r.Stat()
+	if err != nil || st.Size() == 0 {
+		return err
+	}
+	last := make([]byte, 1)
+	if _, err := r.ReadAt(last, st.Size()-1); err != nil || last[0] == '\n' {
+		return err
+	}
+	_, err = f.Write([]byte{'\n'})
+	return err
+}
+
 // OnSBatches writes the batches as JSON lines.
 func (s *SBatchFileSink) OnSBatches(b []tfd.SBatch) {
 	if len(b) == 0 {
diff --git a/internal/sinks/venv_file_sink.go b/internal/sinks/venv_file_sink.go
index 991c15d..2be0b76 100644
--- a/internal/sinks/venv_file_sink.go
+++ b/internal/sinks/venv_file_sink.go
@@ -41,6 +41,10 @@ func NewVEnvFileSink(path string) (*VEnvFileSink, error) {
 	if err != nil {
 		return nil, err
 	}
+	if err := endTornLine(f, path); err != nil {
+		_ = f.Close()
+		return nil, err
+	}
 	return &VEnvFileSink{f: f, w: bufio.NewWriterSize(f, 1<<20), path: path, lastFlush: time.Now()}, nil
 }
 
-- 
2.43.0


From d6bac61bd04b9e2143ebc99243a06cedf0d9ca2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:23 +0000
Subject: [PATCH 16/33] fix: make GET /state without a key return the cells

encoding/json cannot encode the [2]uint64 map keys; the body was empty.
---
 cmd/tfd-proxy/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/tfd-proxy/main.go b/cmd/tfd-proxy/main.go
index eb94b4c..3471be7 100644
--- a/cmd/tfd-proxy/main.go
+++ b/cmd/tfd-proxy/main.go
@@ -334,7 +334,11 @@ func main() {
 			return
 		}
 		// dump everything
-		_ = json.NewEncoder(w).Encode(st.Cells())
+		m := map[string]int64{}
+		for kb, v := range st.Cells() {
+			m[fmt.Sprintf("%d:%d", kb[0], kb[1])] = v
+		}
+		_ = json.NewEncoder(w).Encode(m)
 	})
 
 	go func() {
-- 
2.43.0


From 240250c12457f09b7d86a4925a81fb66657ff53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:23 +0000
Subject: [PATCH 17/33] fix: let tfd-proxy finish requests before its final
 flush

Operations accepted (202) while the sinks and the pipeline were being closed
never reached the logs.
---
 cmd/tfd-proxy/main.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cmd/tfd-proxy/main.go b/cmd/tfd-proxy/main.go
index 3471be7..8bb7ba8 100644
--- a/cmd/tfd-proxy/main.go
+++ b/cmd/tfd-proxy/main.go
@@ -17,6 +17,7 @@
 package main
 
 import (
+	"context"
 	"encoding/json"
 	"flag"
 	"fmt"
@@ -341,9 +342,10 @@ func main() {
 		_ = json.NewEncoder(w).Encode(m)
 	})
 
+	srv := &http.Server{Addr: *addr}
 	go func() {
 		log.Printf("tfd-proxy listening on %s", *addr)
-		if err := http.ListenAndServe(*addr, nil); err != nil {
+		if err := srv.ListenAndServe(); err != nil && err != http.ErrServerClosed {
 			log.Fatalf("http: %v", err)
 		}
 	}()
@@ -352,4 +354,11 @@ func main() {
 	sigCh := make(chan os.Signal, 1)
 	signal.Notify(sigCh, os.Interrupt, syscall.SIGTERM)
 	<-sigCh
+
+	// Finish the requests in flight before the deferred final flushes run.
+	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
+	defer cancel()
+	if err := srv.Shutdown(ctx); err != nil {
+		log.Printf("http shutdown: %v", err)
+	}
 }
-- 
2.43.0


From 4a8815c8e7f3f303e111c60079820effb7967e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:45 +0000
Subject: [PATCH 18/33] fix: count eviction commits in the churn telemetry

Rows written (or failed) while evicting were missing from vsa_commits_rows_total,
vsa_commit_errors_total and the write-reduction estimate.
---
 internal/ratelimiter/core/worker.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ratelimiter/core/worker.go b/internal/ratelimiter/core/worker.go
index d785157..57f3800 100644
--- a/internal/ratelimiter/core/worker.go
+++ b/internal/ratelimiter/core/worker.go
@@ -285,8 +285,11 @@ func (w *Worker) runEvictionCycle() {
 				fmt.Printf("  - Final commit for %s, vector: %d\n", key, vector)
 				if err := w.persister.CommitBatch([]Commit{{Key: key, Vector: vector}}); err != nil {
 					fmt.Printf("ERROR: Failed to commit batch: %v\n", err)
+					churn.ObserveCommitError(1)
 					continue
 				}
+				churn.ObserveBatch(1)
+				churn.ObserveCommit(key, vector)
 				managed.instance.Commit(vector)
 			}
 			w.store.Delete(key)
-- 
2.43.0


From 9ef26b0fca1674eb460443d8d846dc4d4c9a55fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:05 +0000
Subject: [PATCH 19/33] fix: do not let CheckCommit see half of a Commit

A consume and its Commit landing between the scan and the read of the committed
offset made it return a vector of the wrong sign.
---
 vsa.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vsa.go b/vsa.go
index 03df40a..553eff5 100644
--- a/vsa.go
+++ b/vsa.go
@@ -276,7 +276,9 @@ func (v *VSA) State() (scalar, vector int64) {
 // CheckCommit determines if a commit is required for the given threshold.
 // It returns (true, vector) when |vector| ≥ threshold.
 func (v *VSA) CheckCommit(threshold int64) (bool, int64) {
+	v.tryMu.Lock()
 	net := v.currentVector()
+	v.tryMu.Unlock()
 	if abs(net) >= threshold {
 		return true, net
 	}
-- 
2.43.0


From 55b586f093d77f84d89abba8c66d84f440cf388f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:19 +0000
Subject: [PATCH 20/33] fix: keep a key touched while its eviction batch was
 being stored

---
 internal/ratelimiter/core/worker.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/ratelimiter/core/worker.go b/internal/ratelimiter/core/worker.go
index 57f3800..a80f393 100644
--- a/internal/ratelimiter/core/worker.go
+++ b/internal/ratelimiter/core/worker.go
@@ -291,6 +291,11 @@ func (w *Worker) runEvictionCycle() {
 				churn.ObserveBatch(1)
 				churn.ObserveCommit(key, vector)
 				managed.instance.Commit(vector)
+				// Storage may have taken a while: keep the key if it came back meanwhile.
+				last = atomic.LoadInt64(&managed.lastAccessed)
+				if time.Since(time.Unix(0, last)) <= w.evictionAge {
+					continue
+				}
 			}
 			w.store.Delete(key)
 		}
-- 
2.43.0


From 74935d672c96355a1057092557c51252fb148f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:27 +0000
Subject: [PATCH 21/33] fix: take back units refunded while their batch was
 being stored

---
 internal/ratelimiter/core/store.go  |  3 ++
 internal/ratelimiter/core/worker.go | 61 ++++++++++++++++++-----------
 2 files changed, 42 insertions(+), 22 deletions(-)

diff --git a/internal/ratelimiter/core/store.go b/internal/ratelimiter/core/store.go
index b409be4..f228d4c 100644
--- a/internal/ratelimiter/core/store.go
+++ b/internal/ratelimiter/core/store.go
@@ -47,6 +47,9 @@ type managedVSA struct {
 	// rearm asks the next commit cycle to arm the key before deciding: its last batch
 	// was not persisted, or the commit itself brought it to the low watermark.
 	rearm atomic.Bool
+	// overPersisted counts units persisted but refunded before they were committed in
+	// memory. Only the worker uses it, under its persistMu.
+	overPersisted int64
 }
 
 // Store manages a collection of VSA instances in memory.
diff --git a/internal/ratelimiter/core/worker.go b/internal/ratelimiter/core/worker.go
index a80f393..56c8397 100644
--- a/internal/ratelimiter/core/worker.go
+++ b/internal/ratelimiter/core/worker.go
@@ -24,7 +24,6 @@ import (
 	"sync"
 	"sync/atomic"
 	"time"
-	"vsa"
 	"vsa/internal/ratelimiter/telemetry/churn"
 )
 
@@ -96,6 +95,25 @@ func (w *Worker) Stop() {
 	w.wg.Wait()
 }
 
+// unpersisted returns the vector and the part of it that storage has not seen.
+func (m *managedVSA) unpersisted() (vector, vec int64) {
+	_, vector = m.instance.State()
+	return vector, vector - m.overPersisted
+}
+
+// settle commits a persisted vector in memory. Units refunded since it was read are no
+// longer there to commit; storage has them, so later batches must take them back.
+func (m *managedVSA) settle(vector int64) {
+	before, _ := m.instance.State()
+	m.instance.Commit(vector)
+	after, _ := m.instance.State()
+	moved := before - after
+	if vector < 0 {
+		moved = -moved
+	}
+	m.overPersisted = vector - moved
+}
+
 // commitLoop periodically checks for and persists VSA instances that have
 // crossed the commit threshold.
 func (w *Worker) commitLoop() {
@@ -119,7 +137,6 @@ func (w *Worker) runCommitCycle() {
 	w.persistMu.Lock()
 	defer w.persistMu.Unlock()
 	var commits []Commit
-	var vsaToCommit []*vsa.VSA
 	var vectorsToCommit []int64
 	var managedToCommit []*managedVSA
 
@@ -129,7 +146,7 @@ func (w *Worker) runCommitCycle() {
 			v.armed.Store(true)
 		}
 		// Decide based on thresholds (with hysteresis) and optional max-age freshness.
-		_, vec := v.instance.State()
+		vector, vec := v.unpersisted()
 		absVec := vec
 		if absVec < 0 {
 			absVec = -absVec
@@ -157,8 +174,7 @@ func (w *Worker) runCommitCycle() {
 
 		if shouldCommit {
 			commits = append(commits, Commit{Key: key, Vector: vec})
-			vsaToCommit = append(vsaToCommit, v.instance)
-			vectorsToCommit = append(vectorsToCommit, vec)
+			vectorsToCommit = append(vectorsToCommit, vector)
 			managedToCommit = append(managedToCommit, v)
 			// Disarm to enforce low watermark before the next threshold-based commit
 			v.armed.Store(false)
@@ -190,11 +206,11 @@ func (w *Worker) runCommitCycle() {
 	}
 
 	// On successful persistence, update the internal state of each VSA.
-	for i := range vsaToCommit {
-		vsaToCommit[i].Commit(vectorsToCommit[i])
+	for i := range managedToCommit {
+		managedToCommit[i].settle(vectorsToCommit[i])
 		// Having fallen to the low watermark, the key may commit again even if traffic
 		// carries it past the threshold before the next cycle looks.
-		if _, rest := vsaToCommit[i].State(); rest <= w.lowCommitThreshold && -rest <= w.lowCommitThreshold {
+		if _, rest := managedToCommit[i].unpersisted(); rest <= w.lowCommitThreshold && -rest <= w.lowCommitThreshold {
 			managedToCommit[i].rearm.Store(true)
 		}
 	}
@@ -205,14 +221,14 @@ func (w *Worker) runFinalFlush() {
 	w.persistMu.Lock()
 	defer w.persistMu.Unlock()
 	var commits []Commit
-	var vsaToCommit []*vsa.VSA
+	var managedToCommit []*managedVSA
 	var vectorsToCommit []int64
 
 	w.store.ForEach(func(key string, v *managedVSA) {
-		_, vector := v.instance.State()
-		if vector != 0 {
-			commits = append(commits, Commit{Key: key, Vector: vector})
-			vsaToCommit = append(vsaToCommit, v.instance)
+		vector, vec := v.unpersisted()
+		if vec != 0 {
+			commits = append(commits, Commit{Key: key, Vector: vec})
+			managedToCommit = append(managedToCommit, v)
 			vectorsToCommit = append(vectorsToCommit, vector)
 		}
 	})
@@ -232,8 +248,8 @@ func (w *Worker) runFinalFlush() {
 	for _, c := range commits {
 		churn.ObserveCommit(c.Key, c.Vector)
 	}
-	for i := range vsaToCommit {
-		vsaToCommit[i].Commit(vectorsToCommit[i])
+	for i := range managedToCommit {
+		managedToCommit[i].settle(vectorsToCommit[i])
 	}
 }
 
@@ -280,20 +296,21 @@ func (w *Worker) runEvictionCycle() {
 				// Touched recently; skip eviction.
 				continue
 			}
-			_, vector := managed.instance.State()
-			if vector != 0 {
-				fmt.Printf("  - Final commit for %s, vector: %d\n", key, vector)
-				if err := w.persister.CommitBatch([]Commit{{Key: key, Vector: vector}}); err != nil {
+			vector, vec := managed.unpersisted()
+			if vec != 0 {
+				fmt.Printf("  - Final commit for %s, vector: %d\n", key, vec)
+				if err := w.persister.CommitBatch([]Commit{{Key: key, Vector: vec}}); err != nil {
 					fmt.Printf("ERROR: Failed to commit batch: %v\n", err)
 					churn.ObserveCommitError(1)
 					continue
 				}
 				churn.ObserveBatch(1)
-				churn.ObserveCommit(key, vector)
-				managed.instance.Commit(vector)
+				churn.ObserveCommit(key, vec)
+				managed.settle(vector)
 				// Storage may have taken a while: keep the key if it came back meanwhile.
 				last = atomic.LoadInt64(&managed.lastAccessed)
-				if time.Since(time.Unix(0, last)) <= w.evictionAge {
+				_, rest := managed.unpersisted()
+				if rest != 0 || time.Since(time.Unix(0, last)) <= w.evictionAge {
 					continue
 				}
 			}
-- 
2.43.0


From 75f2b7d8555eb5ab9a38f101aad778bf14a10b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:50 +0000
Subject: [PATCH 22/33] fix: a failed batch must not arm a key that was
 disarmed

---
 internal/ratelimiter/core/worker.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/internal/ratelimiter/core/worker.go b/internal/ratelimiter/core/worker.go
index 56c8397..41e8468 100644
--- a/internal/ratelimiter/core/worker.go
+++ b/internal/ratelimiter/core/worker.go
@@ -139,6 +139,7 @@ func (w *Worker) runCommitCycle() {
 	var commits []Commit
 	var vectorsToCommit []int64
 	var managedToCommit []*managedVSA
+	var wasArmed []bool
 
 	now := time.Now()
 	w.store.ForEach(func(key string, v *managedVSA) {
@@ -177,7 +178,7 @@ func (w *Worker) runCommitCycle() {
 			vectorsToCommit = append(vectorsToCommit, vector)
 			managedToCommit = append(managedToCommit, v)
 			// Disarm to enforce low watermark before the next threshold-based commit
-			v.armed.Store(false)
+			wasArmed = append(wasArmed, v.armed.Swap(false))
 		}
 	})
 
@@ -192,9 +193,9 @@ func (w *Worker) runCommitCycle() {
 		// First-class KPI: record commit error
 		churn.ObserveCommitError(1)
 		// In a real system, you would have retry logic here.
-		// Nothing was persisted: keep these keys eligible for the next cycle.
-		for _, m := range managedToCommit {
-			m.rearm.Store(true)
+		// Nothing was persisted: keep these keys as eligible as they were.
+		for i, m := range managedToCommit {
+			m.rearm.Store(wasArmed[i])
 		}
 		return
 	}
-- 
2.43.0


From 73e4be11ea2fd558d8bd90cf27909c60dd4feaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:07 +0000
Subject: [PATCH 23/33] fix: catch termination signals before serving requests

---
 cmd/ratelimiter-api/main.go | 6 ++++--
 cmd/tfd-proxy/main.go       | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/cmd/ratelimiter-api/main.go b/cmd/ratelimiter-api/main.go
index 477e5bc..9e081f9 100644
--- a/cmd/ratelimiter-api/main.go
+++ b/cmd/ratelimiter-api/main.go
@@ -206,6 +206,10 @@ func main() {
 		Handler: mux,
 	}
 
+	// Catch signals before any request can be admitted.
+	stop := make(chan os.Signal, 1)
+	signal.Notify(stop, syscall.SIGINT, syscall.SIGTERM)
+
 	// 5. Start the HTTP server in a separate goroutine so it doesn't block.
 	go func() {
 		fmt.Printf("Rate limiter API server listening on %s\n", *httpAddr)
@@ -216,8 +220,6 @@ func main() {
 
 	// 6. Set up graceful shutdown.
 	// We'll wait here for an OS signal.
-	stop := make(chan os.Signal, 1)
-	signal.Notify(stop, syscall.SIGINT, syscall.SIGTERM)
 	<-stop // Block until a signal is received.
 
 	fmt.Println("\nShutting down server...")
diff --git a/cmd/tfd-proxy/main.go b/cmd/tfd-proxy/main.go
index 8bb7ba8..f33ab7a 100644
--- a/cmd/tfd-proxy/main.go
+++ b/cmd/tfd-proxy/main.go
@@ -342,6 +342,10 @@ func main() {
 		_ = json.NewEncoder(w).Encode(m)
 	})
 
+	// Catch signals before any request can be accepted.
+	sigCh := make(chan os.Signal, 1)
+	signal.Notify(sigCh, os.Interrupt, syscall.SIGTERM)
+
 	srv := &http.Server{Addr: *addr}
 	go func() {
 		log.Printf("tfd-proxy listening on %s", *addr)
@@ -351,8 +355,6 @@ func main() {
 	}()
 
 	// Wait for termination
-	sigCh := make(chan os.Signal, 1)
-	signal.Notify(sigCh, os.Interrupt, syscall.SIGTERM)
 	<-sigCh
 
 	// Finish the requests in flight before the deferred final flushes run.
-- 
2.43.0


From 671927ba1ef5ac84cb5c659cdac6a47313b6d44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:31 +0000
Subject: [PATCH 24/33] fix: churn.Enable is atomic and starts the exporter
 with its own interval

The exporter goroutine read its interval from the shared configuration after
it was started, so enabling and then promptly disabling the module could make
it call time.NewTicker(0) and panic; two concurrent Enable calls could leave a
mixture of both configurations in force.
---
 internal/ratelimiter/telemetry/churn/exporter.go      | 11 +++++------
 internal/ratelimiter/telemetry/churn/prom_counters.go |  7 +++++++
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/internal/ratelimiter/telemetry/churn/exporter.go b/internal/ratelimiter/telemetry/churn/exporter.go
index c5f7b34..875a4bb 100644
--- a/internal/ratelimiter/telemetry/churn/exporter.go
+++ b/internal/ratelimiter/telemetry/churn/exporter.go
@@ -88,15 +88,14 @@ func startOrUpdateExporter(cfg Config) {
 	// Start new loop
 	exporterStop = make(chan struct{})
 	exporterDone = make(chan struct{})
-	go exporterLoop(exporterStop, exporterDone)
+	go exporterLoop(cfg.LogInterval, exporterStop, exporterDone)
 }
 
-func exporterLoop(stop <-chan struct{}, done chan<- struct{}) {
+// exporterLoop takes its interval from the starter (which guarantees it is > 0):
+// by the time the goroutine runs, currCfg may already hold a later configuration.
+func exporterLoop(interval time.Duration, stop <-chan struct{}, done chan<- struct{}) {
 	defer close(done)
-	cfgAny := currCfg.Load()
-	cfg, _ := cfgAny.(Config)
-	// cfg.LogInterval is guaranteed > 0 by the starter
-	ticker := time.NewTicker(cfg.LogInterval)
+	ticker := time.NewTicker(interval)
 	defer ticker.Stop()
 	for {
 		select {
diff --git a/internal/ratelimiter/telemetry/churn/prom_counters.go b/internal/ratelimiter/telemetry/churn/prom_counters.go
index 09b373d..7fef677 100644
--- a/internal/ratelimiter/telemetry/churn/prom_counters.go
+++ b/internal/ratelimiter/telemetry/churn/prom_counters.go
@@ -7,6 +7,7 @@ import (
 	"hash/fnv"
 	"math"
 	"net/http"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -35,6 +36,7 @@ type Config struct {
 
 var (
 	modEnabled atomic.Bool
+	enableMu   sync.Mutex // serializes Enable
 
 	// samplingThreshold is a fixed cut in the 64-bit hash space representing SampleRate.
 	samplingThreshold atomic.Uint64
@@ -79,6 +81,11 @@ func init() {
 
 // Enable configures the module. Safe to call multiple times; subsequent calls replace config.
 func Enable(cfg Config) {
+	// Concurrent calls must not interleave: sampling, the enabled flag and the
+	// exporter all belong to one configuration.
+	enableMu.Lock()
+	defer enableMu.Unlock()
+
 	if cfg.SampleRate < 0 {
 		cfg.SampleRate = 0
 	}
-- 
2.43.0


From 8fa2c679bfeeed377d0af26807978819675dc99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:31 +0000
Subject: [PATCH 25/33] fix: a churn snapshot does not evict a key that is
 being recorded

publishSnapshot deleted an idle key's aggregate while a recorder that had
already looked it up was adding to it; the event was lost from the per-key
numbers and the key was missing from the tracked count.
---
 .../ratelimiter/telemetry/churn/exporter.go   | 31 ++++++++++++++-----
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/internal/ratelimiter/telemetry/churn/exporter.go b/internal/ratelimiter/telemetry/churn/exporter.go
index 875a4bb..f3700dd 100644
--- a/internal/ratelimiter/telemetry/churn/exporter.go
+++ b/internal/ratelimiter/telemetry/churn/exporter.go
@@ -25,9 +25,12 @@ type point struct {
 type keyAgg struct {
 	abs        atomic.Int64 // sum of absolute updates (admitted requests)
 	net        atomic.Int64 // sum of absolute committed vectors
-	lastUpdate atomic.Int64 // unix nano
+	lastUpdate atomic.Int64 // unix nano, or aggRetired
 }
 
+// aggRetired marks, in lastUpdate, an aggregate a snapshot has evicted.
+const aggRetired = -1
+
 var (
 	agg sync.Map // map[uint64]*keyAgg
 
@@ -124,8 +127,8 @@ func publishSnapshot() {
 	agg.Range(func(k, v any) bool {
 		ka := v.(*keyAgg)
 		last := ka.lastUpdate.Load()
-		if last > 0 && last < cutoff {
-			agg.Delete(k)
+		if last > 0 && last < cutoff && ka.lastUpdate.CompareAndSwap(last, aggRetired) {
+			agg.CompareAndDelete(k, ka)
 			return true
 		}
 		tracked++
@@ -244,26 +247,40 @@ func sampleRate() float64 {
 // --- recording helpers (called from prom_counters.go) ---
 
 func exporterRecordAdmit(keyHash uint64) {
-	ka := getAgg(keyHash)
+	ka := touchAgg(keyHash)
 	ka.abs.Add(1)
-	ka.lastUpdate.Store(time.Now().UnixNano())
 	naiveWritesInternal.Add(1)
 	// Update global sampled abs sum for churn KPI
 	sumAbsGlobal.Add(1)
 }
 
 func exporterRecordCommit(keyHash uint64, vector int64) {
-	ka := getAgg(keyHash)
+	ka := touchAgg(keyHash)
 	v := vector
 	if v < 0 {
 		v = -v
 	}
 	ka.net.Add(v)
-	ka.lastUpdate.Store(time.Now().UnixNano())
 	// Update global sampled net sum for churn KPI
 	sumNetGlobal.Add(v)
 }
 
+// touchAgg returns the tracked aggregate of a key, marked as updated now, so that
+// a concurrent snapshot cannot evict it as idle and lose what is recorded next.
+func touchAgg(keyHash uint64) *keyAgg {
+	for {
+		ka := getAgg(keyHash)
+		last := ka.lastUpdate.Load()
+		if last == aggRetired {
+			agg.CompareAndDelete(keyHash, ka)
+			continue
+		}
+		if ka.lastUpdate.CompareAndSwap(last, time.Now().UnixNano()) {
+			return ka
+		}
+	}
+}
+
 func getAgg(keyHash uint64) *keyAgg {
 	if v, ok := agg.Load(keyHash); ok {
 		return v.(*keyAgg)
-- 
2.43.0


From 549e070854cd39288e54220b0368eada80264d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:38 +0000
Subject: [PATCH 26/33] fix: a Redis commit whose counter update fails stays
 retryable

Redis does not undo the commands before a failing one, so the idempotency
marker survived a failed HINCRBY (without an expiry) and the retry of the
commit was silently skipped.
---
 internal/ratelimiter/persistence/redis.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/ratelimiter/persistence/redis.go b/internal/ratelimiter/persistence/redis.go
index f77618d..7fefe1d 100644
--- a/internal/ratelimiter/persistence/redis.go
+++ b/internal/ratelimiter/persistence/redis.go
@@ -59,7 +59,12 @@ local ttlSeconds = tonumber(ARGV[2])
 local set = redis.call('SETNX', markerKey, 1)
 if set == 1 then
   -- apply the update; convention: scalar = scalar - vector
-  redis.call('HINCRBY', counterKey, 'scalar', -vector)
+  local res = redis.pcall('HINCRBY', counterKey, 'scalar', -vector)
+  if type(res) == 'table' and res.err then
+    -- a failing script is not rolled back: drop the marker so that a retry applies the commit
+    redis.call('DEL', markerKey)
+    return res
+  end
   if ttlSeconds and ttlSeconds > 0 then
     redis.call('EXPIRE', markerKey, ttlSeconds)
   end
-- 
2.43.0


From 34076733f2b8db83c7291c0124b5e7f6a28d7d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:38 +0000
Subject: [PATCH 27/33] fix: Redis commits apply vectors beyond 2^53 exactly

The script negated the vector as a Lua number, a double: larger vectors were
rounded or rendered in a form HINCRBY rejects, and 0 became -0.
---
 internal/ratelimiter/persistence/redis.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/ratelimiter/persistence/redis.go b/internal/ratelimiter/persistence/redis.go
index 7fefe1d..3b10724 100644
--- a/internal/ratelimiter/persistence/redis.go
+++ b/internal/ratelimiter/persistence/redis.go
@@ -53,13 +53,19 @@ func NewRedisPersister(client RedisEvaler, markerTTL time.Duration) *RedisPersis
 const redisLuaScript = `
 local counterKey = KEYS[1]
 local markerKey = KEYS[2]
-local vector = tonumber(ARGV[1])
+-- negate as text: Lua numbers are doubles and do not hold every int64
+local delta = ARGV[1]
+if string.sub(delta, 1, 1) == '-' then
+  delta = string.sub(delta, 2)
+elseif delta ~= '0' then
+  delta = '-' .. delta
+end
 local ttlSeconds = tonumber(ARGV[2])
 -- try to set the idempotency marker
 local set = redis.call('SETNX', markerKey, 1)
 if set == 1 then
   -- apply the update; convention: scalar = scalar - vector
-  local res = redis.pcall('HINCRBY', counterKey, 'scalar', -vector)
+  local res = redis.pcall('HINCRBY', counterKey, 'scalar', delta)
   if type(res) == 'table' and res.err then
     -- a failing script is not rolled back: drop the marker so that a retry applies the commit
     redis.call('DEL', markerKey)
-- 
2.43.0


From 97572374dc7dce68d9d280ab2aa1b2837f33b872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:38 +0000
Subject: [PATCH 28/33] fix: Redis commit markers never expire before the
 configured lifetime

The lifetime was truncated to whole seconds, so markers expired early, or
never for lifetimes below one second.
---
 internal/ratelimiter/persistence/redis.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/ratelimiter/persistence/redis.go b/internal/ratelimiter/persistence/redis.go
index 3b10724..fd25150 100644
--- a/internal/ratelimiter/persistence/redis.go
+++ b/internal/ratelimiter/persistence/redis.go
@@ -98,10 +98,20 @@ func (r *RedisPersister) CommitBatch(ctx context.Context, entries []CommitEntry)
 			return errors.New("CommitEntry.CommitID must be set")
 		}
 		keys := []string{RedisCounterKey(e.Key), RedisCommitMarkerKey(e.Key, e.CommitID)}
-		args := []interface{}{e.Vector, int(r.markerTTL.Seconds())}
+		args := []interface{}{e.Vector, r.markerTTLSeconds()}
 		if _, err := r.client.Eval(ctx, redisLuaScript, keys, args...); err != nil {
 			return fmt.Errorf("redis eval key=%s commit=%s: %w", e.Key, e.CommitID, err)
 		}
 	}
 	return nil
 }
+
+// markerTTLSeconds rounds up to whole seconds: a marker must not expire early, and 0 would
+// mean that it never does.
+func (r *RedisPersister) markerTTLSeconds() int {
+	secs := r.markerTTL / time.Second
+	if r.markerTTL%time.Second > 0 {
+		secs++
+	}
+	return int(secs)
+}
-- 
2.43.0


From 316af03525dbdcb688d8fac333bb7baa2103dcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:38 +0000
Subject: [PATCH 29/33] fix: Redis commit markers of different keys never
 coincide

The marker of key a:b with id c was also that of key a with id b:c, so one
commit suppressed the other.
---
 internal/ratelimiter/persistence/redis.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/ratelimiter/persistence/redis.go b/internal/ratelimiter/persistence/redis.go
index fd25150..0ddafc9 100644
--- a/internal/ratelimiter/persistence/redis.go
+++ b/internal/ratelimiter/persistence/redis.go
@@ -20,6 +20,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"strings"
 	"time"
 )
 
@@ -84,9 +85,13 @@ end
 // Keys layout helpers (public for interoperability with other components)
 func RedisCounterKey(key string) string { return fmt.Sprintf("counter:%s", key) }
 func RedisCommitMarkerKey(key, commitID string) string {
-	return fmt.Sprintf("commit:%s:%s", key, commitID)
+	// Colons in the id are escaped so that the last one always ends the key; otherwise
+	// ("a", "b:c") and ("a:b", "c") would share a marker.
+	return fmt.Sprintf("commit:%s:%s", key, commitIDEscaper.Replace(commitID))
 }
 
+var commitIDEscaper = strings.NewReplacer("%", "%25", ":", "%3A")
+
 // CommitBatch applies entries using a single EVAL to reduce RTT via scripting per entry.
 // Some clients support pipelining; callers can wrap batching externally if needed.
 func (r *RedisPersister) CommitBatch(ctx context.Context, entries []CommitEntry) error {
-- 
2.43.0


From edddc9d90ed7656653ae32a195cb4e646734c6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:02 +0000
Subject: [PATCH 30/33] fix: SService never admits an envelope its final drain
 misses

An envelope accepted between the worker's final drain and the return of Stop
was lost, and Ingest on a stopped service blocked for ever once the buffer was
full. Admissions are now ordered against Stop.
---
 plugin/tfd/sservice.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/plugin/tfd/sservice.go b/plugin/tfd/sservice.go
index 6f46539..70b31dd 100644
--- a/plugin/tfd/sservice.go
+++ b/plugin/tfd/sservice.go
@@ -51,6 +51,10 @@ type SService struct {
 	once   sync.Once
 	// stopOnce lets Stop be called more than once
 	stopOnce sync.Once
+	// admit orders admissions against Stop: once stopped is set nothing more
+	// enters the buffer, so the final drain cannot miss an accepted envelope
+	admit   sync.RWMutex
+	stopped bool
 	// flushReqCh allows external callers to request an immediate flush on the service goroutine and wait for completion
 	flushReqCh chan chan struct{}
 }
@@ -86,7 +90,12 @@ func (s *SService) Start() {
 // Stop asks the worker to stop, performs a final flush, and waits for completion.
 func (s *SService) Stop() {
 	s.Start() // a service that never ran still owes the final drain and flush
-	s.stopOnce.Do(func() { close(s.stopCh) })
+	s.stopOnce.Do(func() {
+		s.admit.Lock() // the worker still drains for senders blocked on a full buffer
+		s.stopped = true
+		s.admit.Unlock()
+		close(s.stopCh)
+	})
 	<-s.doneCh
 }
 
@@ -109,19 +118,30 @@ func (s *SService) Flush() {
 }
 
 // Ingest enqueues a Scalar envelope (Vector is ignored). It blocks if the buffer
-// is full.
+// is full. A stopped service ignores it.
 func (s *SService) Ingest(env Envelope) {
 	if env.Channel != ChannelScalar {
 		return
 	}
+	s.admit.RLock()
+	defer s.admit.RUnlock()
+	if s.stopped {
+		return
+	}
 	s.in <- env
 }
 
-// TryIngest attempts to enqueue without blocking. Returns false if the buffer is full.
+// TryIngest attempts to enqueue without blocking. Returns false if the buffer is full
+// or the service was stopped.
 func (s *SService) TryIngest(env Envelope) bool {
 	if env.Channel != ChannelScalar {
 		return true
 	}
+	s.admit.RLock()
+	defer s.admit.RUnlock()
+	if s.stopped {
+		return false
+	}
 	select {
 	case s.in <- env:
 		return true
-- 
2.43.0


From 27b235f89b43398a242d2ac32d3a31477587b078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:25 +0000
Subject: [PATCH 31/33] fix: committing the smallest vector moves the pending
 units, not 2^63

---
 vsa.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vsa.go b/vsa.go
index 553eff5..3b9032b 100644
--- a/vsa.go
+++ b/vsa.go
@@ -308,7 +308,7 @@ func (v *VSA) Commit(committedVector int64) {
 	// Magnitude we can safely commit is limited by the current net, and we must
 	// move towards zero with the sign of the current net (not the possibly-stale input).
 	mag := abs(committedVector)
-	if mag > abs(net) {
+	if mag > abs(net) || mag < 0 { // the magnitude of MinInt64 overflows to itself
 		mag = abs(net)
 	}
 	var delta int64
-- 
2.43.0


From 3813e4371ac43669fe0887d880eb4184bf96cac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:27 +0000
Subject: [PATCH 32/33] fix: a fast-path guard larger than the availability
 never wraps into a grant

---
 vsa.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vsa.go b/vsa.go
index 3b9032b..1a92c67 100644
--- a/vsa.go
+++ b/vsa.go
@@ -338,7 +338,8 @@ func (v *VSA) TryConsume(n int64) bool {
 		// estimate more conservative (it lowers s before it lowers approx).
 		approx := v.approxNet.Load()
 		s := v.scalar.Load()
-		if s-abs(approx)-v.fastPathGuard >= n && v.reserveFast(s, approx, n) {
+		avail := s - abs(approx)
+		if avail >= n && avail-v.fastPathGuard >= n && v.reserveFast(s, approx, n) {
 			// Reserved without taking the lock; publish it on a stripe.
 			idx := int(v.chooser.Add(1)) & v.mask
 			v.stripes[idx].val.Add(n)
-- 
2.43.0


From 47986be28430330d149fff1a96cd773df3f597be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:55 +0000
Subject: [PATCH 33/33] fix: a delayed access never moves a key's idle clock
 back

---
 internal/ratelimiter/core/store.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/internal/ratelimiter/core/store.go b/internal/ratelimiter/core/store.go
index f228d4c..68ac65c 100644
--- a/internal/ratelimiter/core/store.go
+++ b/internal/ratelimiter/core/store.go
@@ -52,6 +52,17 @@ type managedVSA struct {
 	overPersisted int64
 }
 
+// touch records an access at now. A delayed access never moves the idle clock back
+// past a later one.
+func (m *managedVSA) touch(now int64) {
+	for {
+		last := atomic.LoadInt64(&m.lastAccessed)
+		if last >= now || atomic.CompareAndSwapInt64(&m.lastAccessed, last, now) {
+			return
+		}
+	}
+}
+
 // Store manages a collection of VSA instances in memory.
 // It is thread-safe and designed for high-performance concurrent access.
 type Store struct {
@@ -86,7 +97,7 @@ func (s *Store) GetOrCreate(key string) *vsa.VSA {
 	// Fast path: key already present → no allocations.
 	if actual, ok := s.counters.Load(key); ok {
 		managed := actual.(*managedVSA)
-		atomic.StoreInt64(&managed.lastAccessed, time.Now().UnixNano())
+		managed.touch(time.Now().UnixNano())
 		return managed.instance
 	}
 
@@ -101,7 +112,7 @@ func (s *Store) GetOrCreate(key string) *vsa.VSA {
 	if actual, loaded := s.counters.LoadOrStore(key, newManaged); loaded {
 		inst.Close() // stop the discarded instance's background work, if any
 		managed := actual.(*managedVSA)
-		atomic.StoreInt64(&managed.lastAccessed, now)
+		managed.touch(now)
 		return managed.instance
 	}
 	// We stored our new instance.
-- 
2.43.0

