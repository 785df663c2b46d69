From 47c925561e09412c94246a7065ed3c4a3017654a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:54 +0000
Subject: [PATCH 01/31] fix: do not merge empty snapshots, which collapsed
 cumulative histogram scale

Releasing an idle synchronous record merges its (empty) snapshot into the
output storage.  An empty exponential histogram reports scale zero, so the
merge reduced a cumulative histogram to scale zero permanently.
---
 lightstep/sdk/metric/internal/viewstate/accumulators.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lightstep/sdk/metric/internal/viewstate/accumulators.go b/lightstep/sdk/metric/internal/viewstate/accumulators.go
index 6df19ef..4da1f64 100644
--- a/lightstep/sdk/metric/internal/viewstate/accumulators.go
+++ b/lightstep/sdk/metric/internal/viewstate/accumulators.go
@@ -113,7 +113,11 @@ func (a *syncAccumulator[N, Storage, Methods]) SnapshotAndProcess(release bool)
 	a.syncLock.Lock()
 	defer a.syncLock.Unlock()
 	methods.Move(&a.current, &a.snapshot)
-	methods.Merge(&a.snapshot, &a.holder.storage)
+	// Merging an empty histogram would reduce the output to the
+	// default scale, so only merge when there is something new.
+	if methods.HasChange(&a.snapshot) {
+		methods.Merge(&a.snapshot, &a.holder.storage)
+	}
 	if release {
 		// On the final snapshot-and-process, decrement the auxiliary reference count.
 		atomic.AddInt64(&a.holder.auxiliary, -1)
-- 
2.43.0


From 14c61e381d73d6fac3326a40a9fa5c447cc88d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:25 +0000
Subject: [PATCH 02/31] fix: apply an instrument hint to every matching view

The hint was parsed (and erased from the description) by the first
matching view only, so later matching views ignored it.
---
 .../metric/internal/viewstate/viewstate.go    | 30 ++++++++-----------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/lightstep/sdk/metric/internal/viewstate/viewstate.go b/lightstep/sdk/metric/internal/viewstate/viewstate.go
index 3bb06c0..c0d1f38 100644
--- a/lightstep/sdk/metric/internal/viewstate/viewstate.go
+++ b/lightstep/sdk/metric/internal/viewstate/viewstate.go
@@ -271,15 +271,16 @@ func (v *Compiler) Compile(instrument sdkinstrument.Descriptor) (Instrument, Vie
 		matches = append(matches, view)
 	}
 
+	// The hint erases itself from the description, thus is applied
+	// once for all matching views.
+	instrument, hintAkind, tempo, hintAcfg, defCfg, hinted := v.tryToApplyHint(instrument)
+
 	for _, view := range matches {
 		akind := view.Aggregation()
 		if akind == aggregation.DropKind {
 			continue
 		}
 
-		modified, hintAkind, tempo, hintAcfg, defCfg, hinted := v.tryToApplyHint(instrument)
-		instrument = modified // the hint erases itself from the description
-
 		if akind == aggregation.UndefinedKind {
 			akind = hintAkind
 		}
@@ -302,20 +303,15 @@ func (v *Compiler) Compile(instrument sdkinstrument.Descriptor) (Instrument, Vie
 	}
 
 	// If there were no matching views, set the default aggregation.
-	if len(matches) == 0 {
-		modified, akind, tempo, acfg, _, hinted := v.tryToApplyHint(instrument)
-		instrument = modified // the hint erases itself from the description
-
-		if akind != aggregation.DropKind {
-			behaviors = append(behaviors, singleBehavior{
-				fromName: instrument.Name,
-				desc:     instrument,
-				kind:     akind,
-				acfg:     acfg,
-				tempo:    tempo,
-				hinted:   hinted,
-			})
-		}
+	if len(matches) == 0 && hintAkind != aggregation.DropKind {
+		behaviors = append(behaviors, singleBehavior{
+			fromName: instrument.Name,
+			desc:     instrument,
+			kind:     hintAkind,
+			acfg:     hintAcfg,
+			tempo:    tempo,
+			hinted:   hinted,
+		})
 	}
 
 	v.compilerLock.Lock()
-- 
2.43.0


From b552a3749b1b29d60bfc5ad377372a307c2adb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:25 +0000
Subject: [PATCH 03/31] fix: honor drop aggregation from defaults and hints for
 view-matched instruments

A matching view that does not set an aggregation uses the default (or
hinted) aggregation; when that is drop the instrument was compiled as a
monotonic sum instead of being dropped.
---
 lightstep/sdk/metric/internal/viewstate/viewstate.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lightstep/sdk/metric/internal/viewstate/viewstate.go b/lightstep/sdk/metric/internal/viewstate/viewstate.go
index c0d1f38..62d4c2c 100644
--- a/lightstep/sdk/metric/internal/viewstate/viewstate.go
+++ b/lightstep/sdk/metric/internal/viewstate/viewstate.go
@@ -277,13 +277,12 @@ func (v *Compiler) Compile(instrument sdkinstrument.Descriptor) (Instrument, Vie
 
 	for _, view := range matches {
 		akind := view.Aggregation()
-		if akind == aggregation.DropKind {
-			continue
-		}
-
 		if akind == aggregation.UndefinedKind {
 			akind = hintAkind
 		}
+		if akind == aggregation.DropKind {
+			continue
+		}
 
 		cf := singleBehavior{
 			fromName: instrument.Name,
-- 
2.43.0


From a318d87be2cd0d0abd701164e3c5a49c582ae6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:25 +0000
Subject: [PATCH 04/31] fix: resolve the hinted sum aggregation to a monotonic
 or non-monotonic sum

A hint of "sum" was left unresolved: up-down counters and gauges became
monotonic sums and every re-registration of the same instrument was
treated as a conflicting duplicate.
---
 lightstep/sdk/metric/internal/viewstate/viewstate.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lightstep/sdk/metric/internal/viewstate/viewstate.go b/lightstep/sdk/metric/internal/viewstate/viewstate.go
index 62d4c2c..b196780 100644
--- a/lightstep/sdk/metric/internal/viewstate/viewstate.go
+++ b/lightstep/sdk/metric/internal/viewstate/viewstate.go
@@ -627,7 +627,16 @@ func pickAggConfig(hintCfg, defCfg, viewCfg aggregator.Config) aggregator.Config
 // aggregator pairing is well defined.
 func checkSemanticCompatibility(ik sdkinstrument.Kind, behavior *singleBehavior) error {
 	if behavior.hinted {
-		// Anything goes!
+		// Anything goes!  Only the unspecified kind of sum has
+		// to be resolved.
+		if behavior.kind == aggregation.AnySumKind {
+			switch ik {
+			case sdkinstrument.SyncCounter, sdkinstrument.AsyncCounter, sdkinstrument.SyncHistogram:
+				behavior.kind = aggregation.MonotonicSumKind
+			default:
+				behavior.kind = aggregation.NonMonotonicSumKind
+			}
+		}
 		return nil
 	}
 
-- 
2.43.0


From e697ecf131231e31702293508e77641e1b761313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:04 +0000
Subject: [PATCH 05/31] fix: do not register a synchronous instrument that
 every reader drops

The nil instrument was appended to the collection list and dereferenced
by the next collection.
---
 lightstep/sdk/metric/meter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lightstep/sdk/metric/meter.go b/lightstep/sdk/metric/meter.go
index 90e877d..b763056 100644
--- a/lightstep/sdk/metric/meter.go
+++ b/lightstep/sdk/metric/meter.go
@@ -173,8 +173,8 @@ func configureInstrument[T any](
 
 	if inst != nil {
 		m.byDesc[desc] = inst
+		*listPtr = append(*listPtr, inst)
 	}
-	*listPtr = append(*listPtr, inst)
 	if err != nil {
 		// Handle instrument creation errors when they're new,
 		// not for repeat entries above.
-- 
2.43.0


From b5633e83e46fa475bd57d70ef4a9570f78042e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:13 +0000
Subject: [PATCH 06/31] fix: do not count measurements twice when two views
 have identical behavior

---
 .../sdk/metric/internal/viewstate/viewstate.go    | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lightstep/sdk/metric/internal/viewstate/viewstate.go b/lightstep/sdk/metric/internal/viewstate/viewstate.go
index b196780..5e432ba 100644
--- a/lightstep/sdk/metric/internal/viewstate/viewstate.go
+++ b/lightstep/sdk/metric/internal/viewstate/viewstate.go
@@ -390,11 +390,24 @@ func (v *Compiler) Compile(instrument sdkinstrument.Descriptor) (Instrument, Vie
 			}
 			conflicts.Add(v.views.Name, c)
 		}
-		compiled = append(compiled, leaf)
+		// Two matching views may have identical behavior, in
+		// which case there is one output to update.
+		if !containsInstrument(compiled, leaf) {
+			compiled = append(compiled, leaf)
+		}
 	}
 	return Combine(instrument, compiled...), conflicts
 }
 
+func containsInstrument(list []Instrument, inst Instrument) bool {
+	for _, item := range list {
+		if item == inst {
+			return true
+		}
+	}
+	return false
+}
+
 // buildView compiles either a synchronous or asynchronous instrument
 // given its behavior and generic number type/traits.
 func buildView[N number.Any, Traits number.Traits[N]](behavior singleBehavior) leafInstrument {
-- 
2.43.0


From 2418b31eaee3a3611deece25cb81cec387e9604a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:36 +0000
Subject: [PATCH 07/31] fix: do not truncate the caller's attributes in place

The attribute size limit was applied to the slice passed by the
application, modifying (and racing on) memory the caller owns.
---
 .../sdk/metric/sdkinstrument/performance.go   | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/lightstep/sdk/metric/sdkinstrument/performance.go b/lightstep/sdk/metric/sdkinstrument/performance.go
index fce29c5..60b149b 100644
--- a/lightstep/sdk/metric/sdkinstrument/performance.go
+++ b/lightstep/sdk/metric/sdkinstrument/performance.go
@@ -96,20 +96,31 @@ func (p Performance) Validate() Performance {
 	return p
 }
 
+// TruncateAttributes returns the attributes with the size limit
+// applied.  The input belongs to the caller and is not modified; it is
+// copied only when something has to be truncated.
 func (p Performance) TruncateAttributes(attrs []attribute.KeyValue) []attribute.KeyValue {
 	sizeLimit := p.AttributeSizeLimit
 	if sizeLimit == 0 {
 		return attrs
 	}
+	output := attrs
+	modify := func(idx int) *attribute.KeyValue {
+		if &output[0] == &attrs[0] {
+			output = make([]attribute.KeyValue, len(attrs))
+			copy(output, attrs)
+		}
+		return &output[idx]
+	}
 	for idx, kv := range attrs {
 		if len(kv.Key) > int(sizeLimit) {
-			attrs[idx].Key = kv.Key[:sizeLimit]
+			modify(idx).Key = kv.Key[:sizeLimit]
 		}
-		switch attrs[idx].Value.Type() {
+		switch kv.Value.Type() {
 		case attribute.STRING:
 			s := kv.Value.AsString()
 			if len(s) > int(sizeLimit) {
-				attrs[idx].Value = attribute.StringValue(s[:sizeLimit])
+				modify(idx).Value = attribute.StringValue(s[:sizeLimit])
 			}
 
 		case attribute.STRINGSLICE:
@@ -122,9 +133,9 @@ func (p Performance) TruncateAttributes(attrs []attribute.KeyValue) []attribute.
 				}
 			}
 			if any {
-				attrs[idx].Value = attribute.StringSliceValue(ss)
+				modify(idx).Value = attribute.StringSliceValue(ss)
 			}
 		}
 	}
-	return attrs
+	return output
 }
-- 
2.43.0


From eae0e5bd81451998d63e63aaeb66fa55b8526229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:37 +0000
Subject: [PATCH 08/31] fix: do not report a zero for a cumulative gauge that
 has no value yet

A collection racing with the first measurement of an attribute set
exported a spurious zero.
---
 .../sdk/metric/internal/viewstate/collectors.go     | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lightstep/sdk/metric/internal/viewstate/collectors.go b/lightstep/sdk/metric/internal/viewstate/collectors.go
index dd2a7b3..de8e93a 100644
--- a/lightstep/sdk/metric/internal/viewstate/collectors.go
+++ b/lightstep/sdk/metric/internal/viewstate/collectors.go
@@ -32,6 +32,8 @@ type statefulSyncInstrument[N number.Any, Storage any, Methods aggregator.Method
 
 // Collect for synchronous cumulative temporality.
 func (p *statefulSyncInstrument[N, Storage, Methods]) Collect(seq data.Sequence, output *[]data.Instrument) {
+	var methods Methods
+
 	p.instLock.Lock()
 	defer p.instLock.Unlock()
 
@@ -39,6 +41,17 @@ func (p *statefulSyncInstrument[N, Storage, Methods]) Collect(seq data.Sequence,
 
 	for set, entry := range p.data {
 		p.appendPoint(ioutput, set, &entry.storage, aggregation.CumulativeTemporality, seq.Start, seq.Now, false)
+
+		if methods.Kind() != aggregation.GaugeKind {
+			continue
+		}
+
+		// The first measurement of this attribute set may not
+		// have been processed yet, then there is no gauge value.
+		ptsArr := ioutput.Points
+		if cpy, _ := methods.ToStorage(ptsArr[len(ptsArr)-1].Aggregation); !methods.HasChange(cpy) {
+			ioutput.Points = ptsArr[0 : len(ptsArr)-1 : cap(ptsArr)]
+		}
 	}
 }
 
-- 
2.43.0


From ba2dbfa75c5ff2535017ec82ff43b21472a7bb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:40 +0000
Subject: [PATCH 09/31] fix: take the gauge sequence number under the lock

A measurement could replace a newer value of the same attribute set with
an older sequence number, so that merging with another attribute set (a
view with a key filter) reported a value older than the last one.
---
 lightstep/sdk/metric/aggregator/gauge/gauge.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lightstep/sdk/metric/aggregator/gauge/gauge.go b/lightstep/sdk/metric/aggregator/gauge/gauge.go
index d2b060c..8428b4d 100644
--- a/lightstep/sdk/metric/aggregator/gauge/gauge.go
+++ b/lightstep/sdk/metric/aggregator/gauge/gauge.go
@@ -138,13 +138,13 @@ func (Methods[N, Traits]) Copy(from, to *State[N, Traits]) {
 }
 
 func (Methods[N, Traits]) Update(state *State[N, Traits], number N) {
-	newSeq := atomic.AddUint64(&sequenceVar, 1)
-
 	state.lock.Lock()
 	defer state.lock.Unlock()
 
+	// The sequence number has to be taken under the lock: the value
+	// kept here must not have an older number than one it replaced.
 	state.value = number
-	state.seq = newSeq
+	state.seq = atomic.AddUint64(&sequenceVar, 1)
 }
 
 func (Methods[N, Traits]) Merge(from, to *State[N, Traits]) {
-- 
2.43.0


From 555195e0310a3e5f59d5799ad57f6ad3f6ac03a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:42 +0000
Subject: [PATCH 10/31] fix: synchronize Unregister with registration and
 collection

Unregister modified the meter's callback list without the meter lock, and
in place while a collection could be iterating over it: callbacks were
skipped, run twice, lost or left registered.
---
 lightstep/sdk/metric/meter.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/lightstep/sdk/metric/meter.go b/lightstep/sdk/metric/meter.go
index b763056..d0ba373 100644
--- a/lightstep/sdk/metric/meter.go
+++ b/lightstep/sdk/metric/meter.go
@@ -99,15 +99,20 @@ func (mr *metricRegistration) Unregister() error {
 	}
 
 	mycb := mr.callback
-	cbs := mr.meter.callbacks
 
-	for i := 0; i < len(cbs); i++ {
-		if mycb == cbs[i] {
-			cbs[i] = cbs[len(cbs)-1]
-			mr.meter.callbacks = cbs[:len(cbs)-1]
-			break
+	mr.meter.lock.Lock()
+	defer mr.meter.lock.Unlock()
+
+	// Note that collectFor() uses a shallow copy of the list outside
+	// the lock, so build a new list.
+	cbs := make([]*asyncstate.Callback, 0, len(mr.meter.callbacks))
+
+	for _, cb := range mr.meter.callbacks {
+		if cb != mycb {
+			cbs = append(cbs, cb)
 		}
 	}
+	mr.meter.callbacks = cbs
 
 	mr.callback = nil
 
-- 
2.43.0


From 7f839d86ebb40ba5b886568572f08ef73a63f06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:42 +0000
Subject: [PATCH 11/31] fix: make collections by one reader exclusive

Produce may be called concurrently, but two overlapping collections by
one reader mixed their asynchronous observations: values were reported
twice, added together, or missing.
---
 lightstep/sdk/metric/producer.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/lightstep/sdk/metric/producer.go b/lightstep/sdk/metric/producer.go
index b9bb66c..24d21b3 100644
--- a/lightstep/sdk/metric/producer.go
+++ b/lightstep/sdk/metric/producer.go
@@ -46,18 +46,14 @@ func (mp *MeterProvider) producerFor(pipe int) Producer {
 func (pp *providerProducer) Produce(inout *data.Metrics) data.Metrics {
 	ordered := pp.provider.getOrdered()
 
-	// Note: the Last time is only used in delta-temporality
-	// scenarios.  This lock protects the only stateful change in
-	// `pp` but does not prevent concurrent collection.  If a
-	// delta-temporality reader were to call Produce
-	// concurrently, the results would be be recorded with
-	// non-overlapping timestamps but would have been collected in
-	// an overlapping way.
+	// Note: collections by the same reader are exclusive, because
+	// asynchronous instruments are observed into per-reader state
+	// which would otherwise mix observations of two collections.
 	pp.lock.Lock()
+	defer pp.lock.Unlock()
 	lastTime := pp.lastCollect
 	nowTime := time.Now()
 	pp.lastCollect = nowTime
-	pp.lock.Unlock()
 
 	var output data.Metrics
 	if inout != nil {
-- 
2.43.0


From 75848b048c37bc28380200215ae1346779aee9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:54 +0000
Subject: [PATCH 12/31] fix: enforce the instrument cardinality limit when
 inserting a record

The limit was only tested under the read lock, so that concurrent first
uses of distinct attribute sets exceeded it.
---
 .../sdk/metric/internal/syncstate/bykeyvalue.go  | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lightstep/sdk/metric/internal/syncstate/bykeyvalue.go b/lightstep/sdk/metric/internal/syncstate/bykeyvalue.go
index 41b421d..fe3c873 100644
--- a/lightstep/sdk/metric/internal/syncstate/bykeyvalue.go
+++ b/lightstep/sdk/metric/internal/syncstate/bykeyvalue.go
@@ -219,6 +219,10 @@ func acquireWriteKV(inst *Observer, fp uint64, newRec *recordKV) (*recordKV, boo
 	inst.lock.Lock()
 	defer inst.lock.Unlock()
 
+	return acquireWriteLockedKV(inst, fp, newRec)
+}
+
+func acquireWriteLockedKV(inst *Observer, fp uint64, newRec *recordKV) (*recordKV, bool) {
 	for oldRec := inst.currentFP[fp]; oldRec != nil; oldRec = oldRec.next {
 
 		if inst.performance.IgnoreCollisions || attributesEqual(oldRec.attrsList, newRec.attrsList) {
@@ -230,6 +234,18 @@ func acquireWriteKV(inst *Observer, fp uint64, newRec *recordKV) (*recordKV, boo
 		}
 	}
 
+	if fp != overflowAttributesFingerprint && uint32(len(inst.currentFP)) >= inst.performance.InstrumentCardinalityLimit-1 {
+		// The limit was reached by other callers after the
+		// read lock was released, use the overflow attributes.
+		return acquireWriteLockedKV(inst, overflowAttributesFingerprint, &recordKV{
+			record: record{
+				inst:      inst,
+				refMapped: newRefcountMapped(),
+			},
+			attrsList: pipeline.OverflowAttributes,
+		})
+	}
+
 	newRec.next = inst.currentFP[fp]
 	inst.currentFP[fp] = newRec
 	return newRec, true
-- 
2.43.0


From 427dc85aa27cd2d3f941ac5895f0b39f108e0470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:30 +0000
Subject: [PATCH 13/31] fix: do not collect or export from a periodic reader
 after Shutdown

ForceFlush after (or waiting during) Shutdown exported measurements
through the exporter that had been shut down.
---
 lightstep/sdk/metric/periodic.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lightstep/sdk/metric/periodic.go b/lightstep/sdk/metric/periodic.go
index 54fef5d..6df30fd 100644
--- a/lightstep/sdk/metric/periodic.go
+++ b/lightstep/sdk/metric/periodic.go
@@ -57,6 +57,9 @@ type PeriodicReader struct {
 	producer Producer
 	stop     context.CancelFunc
 	wait     sync.WaitGroup
+
+	// shutdown is protected by lock.
+	shutdown bool
 }
 
 type PeriodicReaderOption func(*PeriodicReader)
@@ -138,7 +141,10 @@ func (pr *PeriodicReader) collectWithTimeout(ctx context.Context, method func(co
 func (pr *PeriodicReader) Shutdown(ctx context.Context) error {
 	pr.stop()
 	pr.wait.Wait()
-	return pr.collect(ctx, pr.exporter.ShutdownMetrics)
+	return pr.collect(ctx, func(ctx context.Context, data data.Metrics) error {
+		pr.shutdown = true
+		return pr.exporter.ShutdownMetrics(ctx, data)
+	})
 }
 
 // ForceFlush immediately waits for an existing collection, otherwise
@@ -156,6 +162,10 @@ func (pr *PeriodicReader) collect(ctx context.Context, method func(context.Conte
 	pr.lock.Lock()
 	defer pr.lock.Unlock()
 
+	if pr.shutdown {
+		return ErrAlreadyShutdown
+	}
+
 	// The lock ensures that re-use of `pr.data` is successful, it
 	// means that shutdown, flush, and ordinary collection are
 	// exclusive.  Note that shutdown will cancel a concurrent
-- 
2.43.0


From 92b14c26b25d190fe37831fb8ec4be873737251e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:22 +0000
Subject: [PATCH 14/31] fix: take the lock when reading an instrument's
 descriptor

A conflict error formats the descriptor of the existing instruments, which
raced with merging a longer description into one of them.
---
 lightstep/sdk/metric/internal/viewstate/base_instrument.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lightstep/sdk/metric/internal/viewstate/base_instrument.go b/lightstep/sdk/metric/internal/viewstate/base_instrument.go
index fdc6beb..eea9337 100644
--- a/lightstep/sdk/metric/internal/viewstate/base_instrument.go
+++ b/lightstep/sdk/metric/internal/viewstate/base_instrument.go
@@ -77,6 +77,8 @@ func (metric *instrumentBase[N, Storage, Auxiliary, Methods]) OriginalName() str
 }
 
 func (metric *instrumentBase[N, Storage, Auxiliary, Methods]) Descriptor() sdkinstrument.Descriptor {
+	metric.instLock.Lock()
+	defer metric.instLock.Unlock()
 	return metric.desc
 }
 
-- 
2.43.0


From b4f46166b25460b9e144e27dea9bf5acd72b44eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:50 +0000
Subject: [PATCH 15/31] fix: do not panic when exporting an attribute that has
 no value

---
 lightstep/sdk/internal/common.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lightstep/sdk/internal/common.go b/lightstep/sdk/internal/common.go
index bd40754..3496f6f 100644
--- a/lightstep/sdk/internal/common.go
+++ b/lightstep/sdk/internal/common.go
@@ -106,7 +106,8 @@ func CopyAttributes(dest pcommon.Map, src attribute.Set) {
 				sl.AppendEmpty().SetStr(v)
 			}
 		default:
-			panic("unhandled case")
+			// The attribute has no value (i.e., attribute.INVALID).
+			dest.PutEmpty(key)
 		}
 	}
 }
-- 
2.43.0


From 1b9d71e753c7ca2a1547d9b751a6e23fa68ad8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:50 +0000
Subject: [PATCH 16/31] fix: export the min and max of an integer
 MinMaxSumCount as integers

---
 lightstep/sdk/metric/internal/export/export.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lightstep/sdk/metric/internal/export/export.go b/lightstep/sdk/metric/internal/export/export.go
index a226228..dde7b14 100644
--- a/lightstep/sdk/metric/internal/export/export.go
+++ b/lightstep/sdk/metric/internal/export/export.go
@@ -252,8 +252,8 @@ func copyMMSCPoints(m pmetric.Metric, inM data.Instrument) {
 			dp.SetSum(t.Sum().CoerceToFloat64(number.Int64Kind))
 			dp.SetCount(t.Count())
 			if t.Count() != 0 {
-				dp.SetMax(number.ToFloat64(t.Max()))
-				dp.SetMin(number.ToFloat64(t.Min()))
+				dp.SetMax(t.Max().CoerceToFloat64(number.Int64Kind))
+				dp.SetMin(t.Min().CoerceToFloat64(number.Int64Kind))
 			}
 		case *minmaxsumcount.Float64:
 			dp.SetSum(number.ToFloat64(t.Sum()))
-- 
2.43.0


From 767c31223775f514828e3d5d478843b06cd7e2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:50 +0000
Subject: [PATCH 17/31] fix: convert negative integers in
 Number.CoerceToFloat64

---
 lightstep/sdk/metric/number/number.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lightstep/sdk/metric/number/number.go b/lightstep/sdk/metric/number/number.go
index ee4dd61..28d0272 100644
--- a/lightstep/sdk/metric/number/number.go
+++ b/lightstep/sdk/metric/number/number.go
@@ -40,7 +40,7 @@ type Any interface {
 // CoerceToFloat64 converts Number to float64 according to Kind.
 func (n Number) CoerceToFloat64(k Kind) float64 {
 	if k == Int64Kind {
-		return float64(n)
+		return float64(int64(n))
 	}
 	return math.Float64frombits(uint64(n))
 }
-- 
2.43.0


From 90bc8fb1bad90bc399da2e12c3fddcf0cd9a8c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:03 +0000
Subject: [PATCH 18/31] fix: export spans under their own resource and scope

---
 .../sdk/trace/exporters/otlp/otelcol/otlp.go  | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go b/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
index 93a3048..8b52b2f 100644
--- a/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
+++ b/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
@@ -81,17 +81,20 @@ func (c *client) d2pd(in []trace.ReadOnlySpan) ptrace.Traces {
 	if len(in) == 0 {
 		return out
 	}
-	rs := out.ResourceSpans().AppendEmpty()
 
-	c.ResourceMap.Get(in[0].Resource()).CopyTo(rs.Resource())
-
-	curName := ""
+	var rs ptrace.ResourceSpans
 	var ss ptrace.ScopeSpans
-	for _, tr := range in {
-		// input is list of ReadOnlySpans. Add spans to the same scopespan
-		// until new scope name is encountered.
-		if ssName := tr.InstrumentationScope().Name; ssName != curName {
-			curName = ssName
+	for i, tr := range in {
+		// input is list of ReadOnlySpans. Add spans to the same
+		// resourcespan until a new resource is encountered.
+		newResource := i == 0 || !tr.Resource().Equal(in[i-1].Resource())
+		if newResource {
+			rs = out.ResourceSpans().AppendEmpty()
+			c.ResourceMap.Get(tr.Resource()).CopyTo(rs.Resource())
+		}
+
+		// Add spans to the same scopespan until a new scope is encountered.
+		if newResource || tr.InstrumentationScope() != in[i-1].InstrumentationScope() {
 			ss = rs.ScopeSpans().AppendEmpty()
 			ss.SetSchemaUrl(tr.InstrumentationScope().SchemaURL)
 			ss.Scope().SetName(tr.InstrumentationScope().Name)
-- 
2.43.0


From e57ae0f2886a5c81a8084f7e173c2636bdc30641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:01 +0000
Subject: [PATCH 19/31] fix: do not reorder the attributes of exported spans

---
 lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go b/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
index 8b52b2f..4ca0825 100644
--- a/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
+++ b/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
@@ -24,6 +24,13 @@ import (
 	apitrace "go.opentelemetry.io/otel/trace"
 )
 
+// newSet returns the attributes as a set.  Note that attribute.NewSet()
+// sorts its argument in place, whereas spans are read-only and shared
+// with other processors and exporters.
+func newSet(attrs []attribute.KeyValue) attribute.Set {
+	return attribute.NewSet(append([]attribute.KeyValue(nil), attrs...)...)
+}
+
 func copyEvents(dest ptrace.SpanEventSlice, events []trace.Event) {
 	for _, event := range events {
 		e1 := dest.AppendEmpty()
@@ -31,7 +38,7 @@ func copyEvents(dest ptrace.SpanEventSlice, events []trace.Event) {
 		e1.SetName(event.Name)
 		e1.SetTimestamp(pcommon.NewTimestampFromTime(event.Time))
 
-		internal.CopyAttributes(e1.Attributes(), attribute.NewSet(event.Attributes...))
+		internal.CopyAttributes(e1.Attributes(), newSet(event.Attributes))
 	}
 }
 
@@ -43,7 +50,7 @@ func copyLinks(dest ptrace.SpanLinkSlice, links []trace.Link) {
 		l1.SetTraceID(pcommon.TraceID(link.SpanContext.TraceID()))
 		l1.TraceState().FromRaw(link.SpanContext.TraceState().String())
 
-		internal.CopyAttributes(l1.Attributes(), attribute.NewSet(link.Attributes...))
+		internal.CopyAttributes(l1.Attributes(), newSet(link.Attributes))
 	}
 }
 
@@ -116,7 +123,7 @@ func (c *client) d2pd(in []trace.ReadOnlySpan) ptrace.Traces {
 		s.Status().SetCode(translateSpanStatusCode(tr.Status().Code))
 		s.Status().SetMessage(tr.Status().Description)
 
-		internal.CopyAttributes(s.Attributes(), attribute.NewSet(tr.Attributes()...))
+		internal.CopyAttributes(s.Attributes(), newSet(tr.Attributes()))
 		copyEvents(s.Events(), tr.Events())
 		copyLinks(s.Links(), tr.Links())
 	}
-- 
2.43.0


From 60f1ddff8630c0a50e9563132755d00b28abcfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:27 +0000
Subject: [PATCH 20/31] fix: convert histograms of any scale and sign to
 explicit buckets

---
 .../sdk/metric/internal/export/export.go      | 66 +++++++++++++------
 1 file changed, 46 insertions(+), 20 deletions(-)

diff --git a/lightstep/sdk/metric/internal/export/export.go b/lightstep/sdk/metric/internal/export/export.go
index dde7b14..82b04e2 100644
--- a/lightstep/sdk/metric/internal/export/export.go
+++ b/lightstep/sdk/metric/internal/export/export.go
@@ -18,6 +18,8 @@ import (
 	"context"
 	"errors"
 
+	"github.com/lightstep/go-expohisto/mapping"
+	"github.com/lightstep/go-expohisto/mapping/exponent"
 	"github.com/lightstep/go-expohisto/mapping/logarithm"
 	"github.com/lightstep/otel-launcher-go/lightstep/sdk/internal"
 	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
@@ -117,7 +119,7 @@ func copyExplicitHistogramPoints(m pmetric.Metric, inM data.Instrument) {
 				dp.SetMin(t.Min().CoerceToFloat64(number.Int64Kind))
 			}
 
-			copyExplicitHistogramBuckets(t.Positive(), t.ZeroCount(), t.Scale(), dp)
+			copyExplicitHistogramBuckets(t.Positive(), t.Negative(), t.ZeroCount(), t.Scale(), dp)
 
 		case *histogram.Float64:
 			dp.SetSum(number.ToFloat64(t.Sum()))
@@ -127,52 +129,76 @@ func copyExplicitHistogramPoints(m pmetric.Metric, inM data.Instrument) {
 				dp.SetMin(number.ToFloat64(t.Min()))
 			}
 
-			copyExplicitHistogramBuckets(t.Positive(), t.ZeroCount(), t.Scale(), dp)
+			copyExplicitHistogramBuckets(t.Positive(), t.Negative(), t.ZeroCount(), t.Scale(), dp)
 		default:
 			panic("unhandled case")
 		}
 	}
 }
 
+// minNormal is the smallest normal value.  Subnormal values are counted
+// in the same bucket with this value.
+const minNormal = 0x1p-1022
+
+// newMapping returns the mapping used by a histogram having this scale.
+func newMapping(scale int32) (mapping.Mapping, error) {
+	if scale <= exponent.MaxScale {
+		return exponent.NewMapping(scale)
+	}
+	return logarithm.NewMapping(scale)
+}
+
+func bucketsTotal(buckets aggregation.Buckets) (total uint64) {
+	for i := uint32(0); i < buckets.Len(); i++ {
+		total += buckets.At(i)
+	}
+	return total
+}
+
 // copyExplicitHistogramBuckets converts a Lightstep exponential histogram to an OTel histogram with
 // explicitly defined buckets.
 func copyExplicitHistogramBuckets(
 	sourcePositiveBuckets aggregation.Buckets,
+	sourceNegativeBuckets aggregation.Buckets,
 	sourceZeroCount uint64,
 	sourceScale int32,
 	dest pmetric.HistogramDataPoint,
 ) {
-	// add the zero bucket in: (-Inf, 0]
+	// add the negative and zero buckets in: (-Inf, 0]
 	dest.ExplicitBounds().Append(0)
-	dest.BucketCounts().Append(sourceZeroCount)
+	dest.BucketCounts().Append(sourceZeroCount + bucketsTotal(sourceNegativeBuckets))
 
-	if sourcePositiveBuckets.Len() > 0 {
+	// Counts elements having no representable upper bound, in the (..., +Inf] bucket.
+	var overflow uint64
+
+	if mapping, err := newMapping(sourceScale); err != nil {
+		overflow = bucketsTotal(sourcePositiveBuckets)
+	} else if sourcePositiveBuckets.Len() > 0 {
 		positiveOffset := sourcePositiveBuckets.Offset()
 		positiveNumElements := int32(sourcePositiveBuckets.Len())
-		mapping, _ := logarithm.NewMapping(sourceScale)
-		leftBound, _ := mapping.LowerBoundary(positiveOffset)
 
-		for element := int32(0); element < positiveNumElements; element++ {
-			index := element + positiveOffset
+		// We have to add a bucket to get from zero to the start of the first user-defined bucket.
+		// This has no count. It is omitted when the first bucket extends to zero.
+		if leftBound, err := mapping.LowerBoundary(positiveOffset); err == nil && leftBound >= minNormal {
+			dest.ExplicitBounds().Append(leftBound)
+			dest.BucketCounts().Append(0)
+		}
 
-			rightBound, _ := mapping.LowerBoundary(index + 1)
+		for element := int32(0); element < positiveNumElements; element++ {
+			count := sourcePositiveBuckets.At(uint32(element))
 
-			// We have to add a bucket to get from zero to the start of the first user-defined bucket.
-			// This has no count.
-			if element == 0 {
-				dest.ExplicitBounds().Append(leftBound)
-				dest.BucketCounts().Append(0)
+			rightBound, err := mapping.LowerBoundary(element + positiveOffset + 1)
+			if err != nil {
+				overflow += count
+				continue
 			}
 
 			dest.ExplicitBounds().Append(rightBound)
-			dest.BucketCounts().Append(sourcePositiveBuckets.At(uint32(element)))
-
-			leftBound = rightBound
+			dest.BucketCounts().Append(count)
 		}
 	}
 
-	// There are no elements in the (..., +Inf] bucket.
-	dest.BucketCounts().Append(0)
+	dest.BucketCounts().Append(overflow)
 }
 
 func copyExponentialHistogramPoints(m pmetric.Metric, inM data.Instrument) {
-- 
2.43.0


From 83b8397156e5556c58830126a3b8a3a518aa0252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:42 +0000
Subject: [PATCH 21/31] fix: disable metrics when the metric endpoint is empty

---
 launcher/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/launcher/config.go b/launcher/config.go
index c19ff12..a7b0d74 100644
--- a/launcher/config.go
+++ b/launcher/config.go
@@ -387,7 +387,7 @@ func setupTracing(c Config) (func() error, error) {
 type setupFunc func(Config) (func() error, error)
 
 func setupMetrics(c Config) (func() error, error) {
-	if !c.MetricsEnabled {
+	if !c.MetricsEnabled || c.MetricExporterEndpoint == "" {
 		c.logger.Debugf("metrics are disabled by configuration: no endpoint set")
 		return nil, nil
 	}
-- 
2.43.0


From c6bc242c8bd0671ebcafaf51bc8dc411e275bc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:39 +0000
Subject: [PATCH 22/31] fix: do not share the sample buffer between readers of
 runtime metrics

---
 lightstep/instrumentation/runtime/builtin.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lightstep/instrumentation/runtime/builtin.go b/lightstep/instrumentation/runtime/builtin.go
index a5685de..2d9d2ba 100644
--- a/lightstep/instrumentation/runtime/builtin.go
+++ b/lightstep/instrumentation/runtime/builtin.go
@@ -18,6 +18,7 @@ import (
 	"context"
 	"fmt"
 	"runtime/metrics"
+	"sync"
 
 	"go.opentelemetry.io/otel"
 	"go.opentelemetry.io/otel/metric"
@@ -184,7 +185,14 @@ func (r *builtinRuntime) register(desc *builtinDescriptor) error {
 		})
 	}
 
+	// lock protects samples, since several readers can run the
+	// callback at the same moment.
+	var lock sync.Mutex
+
 	if _, err := r.meter.RegisterCallback(func(ctx context.Context, obs metric.Observer) error {
+		lock.Lock()
+		defer lock.Unlock()
+
 		r.readFunc(samples)
 
 		for idx, samp := range samples {
-- 
2.43.0


From 6c20eee4ab181a0b541e40b5ae61c313f25ae586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:39 +0000
Subject: [PATCH 23/31] fix: do not count guest CPU time twice

---
 lightstep/instrumentation/host/host.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lightstep/instrumentation/host/host.go b/lightstep/instrumentation/host/host.go
index fe43adc..7481170 100644
--- a/lightstep/instrumentation/host/host.go
+++ b/lightstep/instrumentation/host/host.go
@@ -210,13 +210,13 @@ func (h *host) register() error {
 			obs.ObserveFloat64(hostCPUTime, hostTime.System, AttributeCPUTimeSystem...)
 
 			// Note: "other" is the sum of all other known states.
+			// Guest and GuestNice are not included because they
+			// are already part of User and Nice.
 			other := hostTime.Nice +
 				hostTime.Iowait +
 				hostTime.Irq +
 				hostTime.Softirq +
-				hostTime.Steal +
-				hostTime.Guest +
-				hostTime.GuestNice
+				hostTime.Steal
 
 			obs.ObserveFloat64(hostCPUTime, other, AttributeCPUTimeOther...)
 			obs.ObserveFloat64(hostCPUTime, hostTime.Idle, AttributeCPUTimeIdle...)
-- 
2.43.0


From c7fc1c3c7faa419e98c22c6eba5e5beb8333c999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:36 +0000
Subject: [PATCH 24/31] fix: count colliding attribute sets against the
 instrument cardinality limit

---
 lightstep/sdk/metric/internal/syncstate/bykeyvalue.go | 5 +++--
 lightstep/sdk/metric/internal/syncstate/sync.go       | 7 +++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/lightstep/sdk/metric/internal/syncstate/bykeyvalue.go b/lightstep/sdk/metric/internal/syncstate/bykeyvalue.go
index fe3c873..6bf8516 100644
--- a/lightstep/sdk/metric/internal/syncstate/bykeyvalue.go
+++ b/lightstep/sdk/metric/internal/syncstate/bykeyvalue.go
@@ -162,7 +162,7 @@ func acquireReadLockedKV(inst *Observer, fp uint64, attrs []attribute.KeyValue,
 	// attribute set.  Note this means we are performing
 	// two map lookups for overflowing attributes and only
 	// one lookup if the attribute set was preexisting.
-	if !*overflow && uint32(len(inst.currentFP)) >= inst.performance.InstrumentCardinalityLimit-1 {
+	if !*overflow && inst.numRecords >= inst.performance.InstrumentCardinalityLimit-1 {
 		// Use the overflow attributes, repeat.
 		attrs = pipeline.OverflowAttributes
 		fp = overflowAttributesFingerprint
@@ -234,7 +234,7 @@ func acquireWriteLockedKV(inst *Observer, fp uint64, newRec *recordKV) (*recordK
 		}
 	}
 
-	if fp != overflowAttributesFingerprint && uint32(len(inst.currentFP)) >= inst.performance.InstrumentCardinalityLimit-1 {
+	if fp != overflowAttributesFingerprint && inst.numRecords >= inst.performance.InstrumentCardinalityLimit-1 {
 		// The limit was reached by other callers after the
 		// read lock was released, use the overflow attributes.
 		return acquireWriteLockedKV(inst, overflowAttributesFingerprint, &recordKV{
@@ -248,5 +248,6 @@ func acquireWriteLockedKV(inst *Observer, fp uint64, newRec *recordKV) (*recordK
 
 	newRec.next = inst.currentFP[fp]
 	inst.currentFP[fp] = newRec
+	inst.numRecords++
 	return newRec, true
 }
diff --git a/lightstep/sdk/metric/internal/syncstate/sync.go b/lightstep/sdk/metric/internal/syncstate/sync.go
index 2ac340a..600b016 100644
--- a/lightstep/sdk/metric/internal/syncstate/sync.go
+++ b/lightstep/sdk/metric/internal/syncstate/sync.go
@@ -55,6 +55,11 @@ type Observer struct {
 
 	// currentFP is protected by lock.
 	currentFP map[uint64]*recordKV
+
+	// numRecords is the number of records in currentFP, which has
+	// more than one per fingerprint in case of collisions.  It is
+	// protected by lock.
+	numRecords uint32
 }
 
 // New builds a new synchronous instrument *Observer given the
@@ -123,6 +128,8 @@ func (inst *Observer) SnapshotAndProcess() {
 					tail.next = rec
 					tail = rec
 				}
+			} else {
+				inst.numRecords--
 			}
 		}
 
-- 
2.43.0


From 7a21e3a1e2147150ee77a5eef08241a366f64025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:28 +0000
Subject: [PATCH 25/31] fix: stop the trace pipeline's exporter when its
 propagators are refused

---
 pipelines/trace.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pipelines/trace.go b/pipelines/trace.go
index 694aebb..19a0c83 100644
--- a/pipelines/trace.go
+++ b/pipelines/trace.go
@@ -45,6 +45,10 @@ func NewTracePipeline(c PipelineConfig) (func() error, error) {
 	)
 
 	if err = configurePropagators(c); err != nil {
+		// The pipeline is not used, stop its processor and exporter.
+		if err2 := bsp.Shutdown(context.Background()); err2 != nil {
+			otel.Handle(err2)
+		}
 		return nil, err
 	}
 
-- 
2.43.0


From d95b13c4339adef8269a3292070c5edf878a09c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:40 +0000
Subject: [PATCH 26/31] fix: configure histograms whose memory is re-used

Storage taken from a previous collection kept the maximum size of the
instrument it was made for, and passed it on to the instrument that
re-uses it.
---
 lightstep/sdk/metric/internal/viewstate/base_instrument.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lightstep/sdk/metric/internal/viewstate/base_instrument.go b/lightstep/sdk/metric/internal/viewstate/base_instrument.go
index eea9337..5763e38 100644
--- a/lightstep/sdk/metric/internal/viewstate/base_instrument.go
+++ b/lightstep/sdk/metric/internal/viewstate/base_instrument.go
@@ -220,6 +220,10 @@ func (metric *instrumentBase[N, Storage, Auxiliary, Methods]) appendPoint(inst *
 	point, out := metric.appendOrReusePoint(inst)
 	if out == nil {
 		out = metric.newStorage()
+	} else {
+		// The storage may come from an instrument that was
+		// configured differently.
+		metric.initStorage(out)
 	}
 
 	if reset {
-- 
2.43.0


From e6e9634d538ba4d413403308118deaf8c44fef1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:10 +0000
Subject: [PATCH 27/31] fix: keep the resolution of a histogram when merging
 zeros

A histogram of zeros reports scale zero, and merging it reduced the
output to that scale.
---
 lightstep/sdk/metric/aggregator/histogram/histogram.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lightstep/sdk/metric/aggregator/histogram/histogram.go b/lightstep/sdk/metric/aggregator/histogram/histogram.go
index 27fdeef..c582a87 100644
--- a/lightstep/sdk/metric/aggregator/histogram/histogram.go
+++ b/lightstep/sdk/metric/aggregator/histogram/histogram.go
@@ -152,6 +152,12 @@ func (Methods[N, Traits]) Copy(from, to *Histogram[N, Traits]) {
 func (Methods[N, Traits]) Merge(from, to *Histogram[N, Traits]) {
 	to.lock.Lock()
 	defer to.lock.Unlock()
+	if zeros := from.Histogram.ZeroCount(); zeros != 0 && zeros == from.Histogram.Count() {
+		// The scale of a histogram of zeros is reported as zero,
+		// merging it would reduce the output to that scale.
+		to.Histogram.UpdateByIncr(0, zeros)
+		return
+	}
 	to.Histogram.MergeFrom(&from.Histogram)
 }
 
-- 
2.43.0


From 2e4564ff29a728b35a6f04f73db1a69d4d953faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:40 +0000
Subject: [PATCH 28/31] fix: keep the overflow attribute set apart under a
 view's key filter

The filter removed the overflow attribute, so that measurements beyond
the instrument's cardinality limit were added to an unrelated set.
---
 lightstep/sdk/metric/internal/viewstate/base_instrument.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lightstep/sdk/metric/internal/viewstate/base_instrument.go b/lightstep/sdk/metric/internal/viewstate/base_instrument.go
index 5763e38..f8f304f 100644
--- a/lightstep/sdk/metric/internal/viewstate/base_instrument.go
+++ b/lightstep/sdk/metric/internal/viewstate/base_instrument.go
@@ -117,6 +117,11 @@ func (metric *instrumentBase[N, Storage, Auxiliary, Methods]) invalidAttributeFi
 }
 
 func (metric *instrumentBase[N, Storage, Auxiliary, Methods]) applyKeysFilter(kvs attribute.Set) attribute.Set {
+	// The instrument's overflow attribute set stands for measurements
+	// of any attributes, they do not belong to the filtered set.
+	if kvs == overflowAttributeSet {
+		return kvs
+	}
 	invalidFilter := false
 	for iter := kvs.Iter(); iter.Next(); {
 		kv := iter.Attribute()
-- 
2.43.0


From b61cf2f6e413c0bb60cd75e8339823bb06561a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:43 +0000
Subject: [PATCH 29/31] fix: keep one record for an attribute set measured in
 several orders

Each order of the same attributes took a place of its own under the
instrument's cardinality limit, so that overflow began below the limit
and a set that was tracked already went to overflow in another order.
---
 .../metric/internal/syncstate/bykeyvalue.go   | 40 ++++++++++++++++++-
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/lightstep/sdk/metric/internal/syncstate/bykeyvalue.go b/lightstep/sdk/metric/internal/syncstate/bykeyvalue.go
index 6bf8516..52d2541 100644
--- a/lightstep/sdk/metric/internal/syncstate/bykeyvalue.go
+++ b/lightstep/sdk/metric/internal/syncstate/bykeyvalue.go
@@ -117,6 +117,42 @@ func attributesEqual(a, b []attribute.KeyValue) bool {
 	return true
 }
 
+// attributesReordered returns true if two slices list the same
+// attributes in any order.  A slice that repeats a key is never equal
+// to another order, because the last value for a key takes effect.
+func attributesReordered(a, b []attribute.KeyValue) bool {
+	if len(a) != len(b) {
+		return false
+	}
+	for i := range a {
+		for j := range a[:i] {
+			if a[i].Key == a[j].Key {
+				return false
+			}
+		}
+		found := false
+		for j := range b {
+			if a[i].Key == b[j].Key {
+				if found || !attributesEqual(a[i:i+1], b[j:j+1]) {
+					return false
+				}
+				found = true
+			}
+		}
+		if !found {
+			return false
+		}
+	}
+	return true
+}
+
+// matches returns true if the record is the one for the attributes,
+// in any order, so that a set has one record and counts once against
+// the cardinality limit.
+func (rec *recordKV) matches(attrs []attribute.KeyValue) bool {
+	return attributesEqual(attrs, rec.attrsList) || attributesReordered(attrs, rec.attrsList)
+}
+
 // acquireRead acquires the lock and searches for a `*record`.
 // This returns the overflow attributes and fingerprint in case the
 // the cardinality limit is reached.  The caller should exchange their
@@ -146,7 +182,7 @@ func acquireReadLockedKV(inst *Observer, fp uint64, attrs []attribute.KeyValue,
 
 	// Potentially test for hash collisions.
 	if !inst.performance.IgnoreCollisions {
-		for rec != nil && !attributesEqual(attrs, rec.attrsList) {
+		for rec != nil && !rec.matches(attrs) {
 			rec = rec.next
 		}
 	}
@@ -225,7 +261,7 @@ func acquireWriteKV(inst *Observer, fp uint64, newRec *recordKV) (*recordKV, boo
 func acquireWriteLockedKV(inst *Observer, fp uint64, newRec *recordKV) (*recordKV, bool) {
 	for oldRec := inst.currentFP[fp]; oldRec != nil; oldRec = oldRec.next {
 
-		if inst.performance.IgnoreCollisions || attributesEqual(oldRec.attrsList, newRec.attrsList) {
+		if inst.performance.IgnoreCollisions || oldRec.matches(newRec.attrsList) {
 			if oldRec.refMapped.ref() {
 				return oldRec, true
 			}
-- 
2.43.0


From 4919c5e7e673396e6a4f78a63e5cb12ce2ff94cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:37 +0000
Subject: [PATCH 30/31] fix: apply the default configuration where a view
 clause sets none

A view clause without an aggregator configuration (one that renames, say)
was given the library's own defaults, which then replaced the configuration
of WithDefaultAggregationConfigSelector and of the instrument's hint. A
configuration that a clause sets now wins over the hint even where it is
equal to the default one.
---
 .../metric/internal/viewstate/viewstate.go    | 21 +++++++++----------
 lightstep/sdk/metric/view/views.go            |  6 +++++-
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/lightstep/sdk/metric/internal/viewstate/viewstate.go b/lightstep/sdk/metric/internal/viewstate/viewstate.go
index 5e432ba..ae734e9 100644
--- a/lightstep/sdk/metric/internal/viewstate/viewstate.go
+++ b/lightstep/sdk/metric/internal/viewstate/viewstate.go
@@ -195,26 +195,25 @@ func (v *Compiler) Collectors() []data.Collector {
 // tryToApplyHint looks for a Lightstep-specified hint structure
 // encoded as JSON in the description.  If valid, returns the modified
 // configuration, otherwise returns the default for the instrument.
-func (v *Compiler) tryToApplyHint(instrument sdkinstrument.Descriptor) (_ sdkinstrument.Descriptor, akind aggregation.Kind, tempo aggregation.Temporality, acfg, defCfg aggregator.Config, hinted bool) {
+func (v *Compiler) tryToApplyHint(instrument sdkinstrument.Descriptor) (_ sdkinstrument.Descriptor, akind aggregation.Kind, tempo aggregation.Temporality, acfg aggregator.Config, hinted bool) {
 	// These are the default behaviors, we'll use them unless there's a valid hint.
 	akind = v.views.Defaults.Aggregation(instrument.Kind)
 	tempo = v.views.Defaults.Temporality(instrument.Kind)
-	defCfg = v.views.Defaults.AggregationConfig(
+	acfg = v.views.Defaults.AggregationConfig(
 		instrument.Kind,
 		instrument.NumberKind,
 	)
-	acfg = defCfg
 
 	// Check for required JSON symbols, empty strings, ...
 	if !strings.Contains(instrument.Description, "{") {
-		return instrument, akind, tempo, acfg, defCfg, hinted
+		return instrument, akind, tempo, acfg, hinted
 	}
 
 	var hint view.Hint
 	if err := json.Unmarshal([]byte(instrument.Description), &hint); err != nil {
 		// This could be noisy if valid descriptions contain spurious '{' chars.
 		otel.Handle(fmt.Errorf("hint parse error: %w", err))
-		return instrument, akind, tempo, acfg, defCfg, hinted
+		return instrument, akind, tempo, acfg, hinted
 	}
 
 	// Replace the hint input with its embedded description.
@@ -254,7 +253,7 @@ func (v *Compiler) tryToApplyHint(instrument sdkinstrument.Descriptor) (_ sdkins
 		acfg.CardinalityLimit = hint.Config.CardinalityLimit
 	}
 
-	return instrument, akind, tempo, acfg, defCfg, hinted
+	return instrument, akind, tempo, acfg, hinted
 }
 
 // Compile is called during NewInstrument by the Meter
@@ -273,7 +272,7 @@ func (v *Compiler) Compile(instrument sdkinstrument.Descriptor) (Instrument, Vie
 
 	// The hint erases itself from the description, thus is applied
 	// once for all matching views.
-	instrument, hintAkind, tempo, hintAcfg, defCfg, hinted := v.tryToApplyHint(instrument)
+	instrument, hintAkind, tempo, hintAcfg, hinted := v.tryToApplyHint(instrument)
 
 	for _, view := range matches {
 		akind := view.Aggregation()
@@ -288,7 +287,7 @@ func (v *Compiler) Compile(instrument sdkinstrument.Descriptor) (Instrument, Vie
 			fromName: instrument.Name,
 			desc:     viewDescriptor(instrument, view),
 			kind:     akind,
-			acfg:     pickAggConfig(hintAcfg, defCfg, view.AggregatorConfig()),
+			acfg:     pickAggConfig(hintAcfg, view.AggregatorConfig()),
 			tempo:    tempo,
 			hinted:   hinted,
 		}
@@ -628,9 +627,9 @@ func equalConfigs(a, b aggregator.Config) bool {
 }
 
 // pickAggConfig returns the aggregator configuration prescribed by a
-// view clause when it not the default value, otherwise the hinted config.
-func pickAggConfig(hintCfg, defCfg, viewCfg aggregator.Config) aggregator.Config {
-	if viewCfg != defCfg {
+// view clause when it is set, otherwise the hinted config.
+func pickAggConfig(hintCfg, viewCfg aggregator.Config) aggregator.Config {
+	if viewCfg != (aggregator.Config{}) {
 		return viewCfg
 	}
 	return hintCfg
diff --git a/lightstep/sdk/metric/view/views.go b/lightstep/sdk/metric/view/views.go
index 49bd207..283d6c3 100644
--- a/lightstep/sdk/metric/view/views.go
+++ b/lightstep/sdk/metric/view/views.go
@@ -107,7 +107,11 @@ func Validate(v *Views) (*Views, error) {
 		clause := &valid.Clauses[i]
 
 		err = v.checkAggregation(err, &clause.aggregation, aggregation.UndefinedKind)
-		err = v.checkAggConfig(err, &clause.acfg)
+		// An unset configuration stays unset, it means that the
+		// default or hinted one applies.
+		if clause.acfg != (aggregator.Config{}) {
+			err = v.checkAggConfig(err, &clause.acfg)
+		}
 
 		if clause.instrumentName != "" && clause.instrumentNameRegexp != nil {
 			err = multierr.Append(err, fmt.Errorf("view has instrument name and regexp matches"))
-- 
2.43.0


From bc5331b365e19b94c376155e39b750b61c01a080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:04 +0000
Subject: [PATCH 31/31] fix: collect nothing for an export that shutdown has
 already canceled

---
 lightstep/sdk/metric/periodic.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lightstep/sdk/metric/periodic.go b/lightstep/sdk/metric/periodic.go
index 6df30fd..0398e06 100644
--- a/lightstep/sdk/metric/periodic.go
+++ b/lightstep/sdk/metric/periodic.go
@@ -121,6 +121,13 @@ func (pr *PeriodicReader) start(ctx context.Context) {
 		case <-ctx.Done():
 			return
 		case <-ticker.C:
+			// Both may be ready, e.g., when the shutdown has canceled
+			// an export that took longer than the interval.  Data
+			// collected now would be lost in a canceled export, it
+			// is left to the final one.
+			if ctx.Err() != nil {
+				return
+			}
 			if err := pr.collectWithTimeout(ctx, pr.exporter.ExportMetrics); err != nil {
 				otel.Handle(err)
 			}
-- 
2.43.0

