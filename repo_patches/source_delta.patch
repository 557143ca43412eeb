From e25312a58912ec0ef51b0f72277118fe2596819c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:19 +0000
Subject: [PATCH 1/4] fix: never use more than MaxGor goroutines per Sort*()
 call

The quota was read and the counter increased in two steps, the goroutine
partitioning the other half was not counted at all, and the goroutine sorting
the shorter range was started without looking at the quota. With MaxGor=3,
four goroutines could be sorting at the same time.
---
 sorty.go     | 15 ++++++++++++---
 sortyB.go    | 18 ++++++++++--------
 sortyF4.go   | 18 ++++++++++--------
 sortyF8.go   | 18 ++++++++++--------
 sortyI4.go   | 18 ++++++++++--------
 sortyI8.go   | 18 ++++++++++--------
 sortyLenB.go | 18 ++++++++++--------
 sortyLenS.go | 18 ++++++++++--------
 sortyLsw.go  | 18 ++++++++++--------
 sortyS.go    | 18 ++++++++++--------
 sortyU4.go   | 18 ++++++++++--------
 sortyU8.go   | 18 ++++++++++--------
 12 files changed, 122 insertions(+), 91 deletions(-)

diff --git a/sorty.go b/sorty.go
index 0ca4b2b..a555f22 100644
--- a/sorty.go
+++ b/sorty.go
@@ -19,6 +19,7 @@ package sorty
 
 import (
 	"reflect"
+	"sync/atomic"
 	"unsafe"
 
 	"github.com/jfcg/sixb"
@@ -83,12 +84,20 @@ type syncVar struct {
 	done chan int // end signal
 }
 
-// gorFull returns true if goroutine quota is full, inlined
+// gorFull returns true if goroutine quota is full, otherwise
+// reserves a goroutine from the quota and returns false
 //
 //go:norace
 func gorFull(sv *syncVar) bool {
-	mg := MaxGor
-	return sv.nGor >= mg
+	for {
+		n := atomic.LoadUint64(&sv.nGor)
+		if mg := MaxGor; n >= mg {
+			return true
+		}
+		if atomic.CompareAndSwapUint64(&sv.nGor, n, n+1) {
+			return false
+		}
+	}
 }
 
 const (
diff --git a/sortyB.go b/sortyB.go
index e5f93d0..fa31b49 100644
--- a/sortyB.go
+++ b/sortyB.go
@@ -298,7 +298,7 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
+	// max goroutines? otherwise increases goroutine counter
 	if sv == nil || gorFull(sv) {
 		longB(aq, sv) // recurse on the shorter range
 		goto start
@@ -306,7 +306,6 @@ start:
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongB(ar, sv)
 	ar = aq
 	goto start
@@ -328,7 +327,7 @@ func sortB(ar [][]byte) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & for partitioning
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -345,13 +344,16 @@ func sortB(ar [][]byte) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRecFC {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongB(aq, &sv)
+			go gLongB(aq, &sv) // replaces partitioning goroutine
 
-		} else if len(aq) > MaxLenInsFC {
-			shortB(aq)
 		} else {
-			insertionB(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // decrease goroutine counter
+
+			if len(aq) > MaxLenInsFC {
+				shortB(aq)
+			} else {
+				insertionB(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
diff --git a/sortyF4.go b/sortyF4.go
index 48355a8..4ec5731 100644
--- a/sortyF4.go
+++ b/sortyF4.go
@@ -313,7 +313,7 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
+	// max goroutines? otherwise increases goroutine counter
 	if sv == nil || gorFull(sv) {
 		longF4(aq, sv) // recurse on the shorter range
 		goto start
@@ -321,7 +321,6 @@ start:
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongF4(ar, sv)
 	ar = aq
 	goto start
@@ -377,7 +376,7 @@ func sortF4(ar []float32) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & for partitioning
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -394,13 +393,16 @@ func sortF4(ar []float32) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongF4(aq, &sv)
+			go gLongF4(aq, &sv) // replaces partitioning goroutine
 
-		} else if len(aq) > MaxLenIns {
-			shortF4(aq)
 		} else {
-			insertionF4(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // decrease goroutine counter
+
+			if len(aq) > MaxLenIns {
+				shortF4(aq)
+			} else {
+				insertionF4(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
diff --git a/sortyF8.go b/sortyF8.go
index 7afe6af..e04dcb4 100644
--- a/sortyF8.go
+++ b/sortyF8.go
@@ -313,7 +313,7 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
+	// max goroutines? otherwise increases goroutine counter
 	if sv == nil || gorFull(sv) {
 		longF8(aq, sv) // recurse on the shorter range
 		goto start
@@ -321,7 +321,6 @@ start:
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongF8(ar, sv)
 	ar = aq
 	goto start
@@ -377,7 +376,7 @@ func sortF8(ar []float64) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & for partitioning
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -394,13 +393,16 @@ func sortF8(ar []float64) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongF8(aq, &sv)
+			go gLongF8(aq, &sv) // replaces partitioning goroutine
 
-		} else if len(aq) > MaxLenIns {
-			shortF8(aq)
 		} else {
-			insertionF8(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // decrease goroutine counter
+
+			if len(aq) > MaxLenIns {
+				shortF8(aq)
+			} else {
+				insertionF8(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
diff --git a/sortyI4.go b/sortyI4.go
index 0476f29..77db28f 100644
--- a/sortyI4.go
+++ b/sortyI4.go
@@ -302,7 +302,7 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
+	// max goroutines? otherwise increases goroutine counter
 	if sv == nil || gorFull(sv) {
 		longI4(aq, sv) // recurse on the shorter range
 		goto start
@@ -310,7 +310,6 @@ start:
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongI4(ar, sv)
 	ar = aq
 	goto start
@@ -334,7 +333,7 @@ func sortI4(ar []int32) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & for partitioning
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -351,13 +350,16 @@ func sortI4(ar []int32) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongI4(aq, &sv)
+			go gLongI4(aq, &sv) // replaces partitioning goroutine
 
-		} else if len(aq) > MaxLenIns {
-			shortI4(aq)
 		} else {
-			insertionI4(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // decrease goroutine counter
+
+			if len(aq) > MaxLenIns {
+				shortI4(aq)
+			} else {
+				insertionI4(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
diff --git a/sortyI8.go b/sortyI8.go
index c546035..96c519a 100644
--- a/sortyI8.go
+++ b/sortyI8.go
@@ -302,7 +302,7 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
+	// max goroutines? otherwise increases goroutine counter
 	if sv == nil || gorFull(sv) {
 		longI8(aq, sv) // recurse on the shorter range
 		goto start
@@ -310,7 +310,6 @@ start:
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongI8(ar, sv)
 	ar = aq
 	goto start
@@ -334,7 +333,7 @@ func sortI8(ar []int64) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & for partitioning
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -351,13 +350,16 @@ func sortI8(ar []int64) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongI8(aq, &sv)
+			go gLongI8(aq, &sv) // replaces partitioning goroutine
 
-		} else if len(aq) > MaxLenIns {
-			shortI8(aq)
 		} else {
-			insertionI8(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // decrease goroutine counter
+
+			if len(aq) > MaxLenIns {
+				shortI8(aq)
+			} else {
+				insertionI8(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
diff --git a/sortyLenB.go b/sortyLenB.go
index e8d4874..cc9caea 100644
--- a/sortyLenB.go
+++ b/sortyLenB.go
@@ -303,7 +303,7 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
+	// max goroutines? otherwise increases goroutine counter
 	if sv == nil || gorFull(sv) {
 		longLenB(aq, sv) // recurse on the shorter range
 		goto start
@@ -311,7 +311,6 @@ start:
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongLenB(ar, sv)
 	ar = aq
 	goto start
@@ -335,7 +334,7 @@ func sortLenB(ar [][]byte) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & for partitioning
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -352,13 +351,16 @@ func sortLenB(ar [][]byte) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongLenB(aq, &sv)
+			go gLongLenB(aq, &sv) // replaces partitioning goroutine
 
-		} else if len(aq) > MaxLenIns {
-			shortLenB(aq)
 		} else {
-			insertionLenB(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // decrease goroutine counter
+
+			if len(aq) > MaxLenIns {
+				shortLenB(aq)
+			} else {
+				insertionLenB(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
diff --git a/sortyLenS.go b/sortyLenS.go
index d9f590e..e790f8f 100644
--- a/sortyLenS.go
+++ b/sortyLenS.go
@@ -303,7 +303,7 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
+	// max goroutines? otherwise increases goroutine counter
 	if sv == nil || gorFull(sv) {
 		longLenS(aq, sv) // recurse on the shorter range
 		goto start
@@ -311,7 +311,6 @@ start:
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongLenS(ar, sv)
 	ar = aq
 	goto start
@@ -335,7 +334,7 @@ func sortLenS(ar []string) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & for partitioning
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -352,13 +351,16 @@ func sortLenS(ar []string) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongLenS(aq, &sv)
+			go gLongLenS(aq, &sv) // replaces partitioning goroutine
 
-		} else if len(aq) > MaxLenIns {
-			shortLenS(aq)
 		} else {
-			insertionLenS(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // decrease goroutine counter
+
+			if len(aq) > MaxLenIns {
+				shortLenS(aq)
+			} else {
+				insertionLenS(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
diff --git a/sortyLsw.go b/sortyLsw.go
index 7612f92..347cfbb 100644
--- a/sortyLsw.go
+++ b/sortyLsw.go
@@ -299,7 +299,7 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
+	// max goroutines? otherwise increases goroutine counter
 	if sv == nil || gorFull(sv) {
 		long(lsw, l, h, sv) // recurse on the shorter range
 		goto start
@@ -307,7 +307,6 @@ start:
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLong(lsw, lo, hi, sv)
 	lo, hi = l, h
 	goto start
@@ -350,7 +349,7 @@ func Sort(n int, lsw Lesswap) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & for partitioning
 		make(chan int)} // end signal
 	lo, hi := 0, n
 	for {
@@ -368,13 +367,16 @@ func Sort(n int, lsw Lesswap) {
 
 		// handle shorter range
 		if n >= MaxLenRecFC {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLong(lsw, l, h, &sv)
+			go gLong(lsw, l, h, &sv) // replaces partitioning goroutine
 
-		} else if n >= MaxLenInsFC {
-			short(lsw, l, h)
 		} else {
-			insertion(lsw, l, h)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // decrease goroutine counter
+
+			if n >= MaxLenInsFC {
+				short(lsw, l, h)
+			} else {
+				insertion(lsw, l, h)
+			}
 		}
 
 		// longer range big enough? max goroutines?
diff --git a/sortyS.go b/sortyS.go
index 621df0d..58e2e5d 100644
--- a/sortyS.go
+++ b/sortyS.go
@@ -298,7 +298,7 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
+	// max goroutines? otherwise increases goroutine counter
 	if sv == nil || gorFull(sv) {
 		longS(aq, sv) // recurse on the shorter range
 		goto start
@@ -306,7 +306,6 @@ start:
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongS(ar, sv)
 	ar = aq
 	goto start
@@ -328,7 +327,7 @@ func sortS(ar []string) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & for partitioning
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -345,13 +344,16 @@ func sortS(ar []string) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRecFC {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongS(aq, &sv)
+			go gLongS(aq, &sv) // replaces partitioning goroutine
 
-		} else if len(aq) > MaxLenInsFC {
-			shortS(aq)
 		} else {
-			insertionS(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // decrease goroutine counter
+
+			if len(aq) > MaxLenInsFC {
+				shortS(aq)
+			} else {
+				insertionS(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
diff --git a/sortyU4.go b/sortyU4.go
index 8b222f7..b8960a0 100644
--- a/sortyU4.go
+++ b/sortyU4.go
@@ -302,7 +302,7 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
+	// max goroutines? otherwise increases goroutine counter
 	if sv == nil || gorFull(sv) {
 		longU4(aq, sv) // recurse on the shorter range
 		goto start
@@ -310,7 +310,6 @@ start:
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongU4(ar, sv)
 	ar = aq
 	goto start
@@ -334,7 +333,7 @@ func sortU4(ar []uint32) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & for partitioning
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -351,13 +350,16 @@ func sortU4(ar []uint32) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongU4(aq, &sv)
+			go gLongU4(aq, &sv) // replaces partitioning goroutine
 
-		} else if len(aq) > MaxLenIns {
-			shortU4(aq)
 		} else {
-			insertionU4(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // decrease goroutine counter
+
+			if len(aq) > MaxLenIns {
+				shortU4(aq)
+			} else {
+				insertionU4(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
diff --git a/sortyU8.go b/sortyU8.go
index 906f041..9088676 100644
--- a/sortyU8.go
+++ b/sortyU8.go
@@ -302,7 +302,7 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
+	// max goroutines? otherwise increases goroutine counter
 	if sv == nil || gorFull(sv) {
 		longU8(aq, sv) // recurse on the shorter range
 		goto start
@@ -310,7 +310,6 @@ start:
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongU8(ar, sv)
 	ar = aq
 	goto start
@@ -334,7 +333,7 @@ func sortU8(ar []uint64) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & for partitioning
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -351,13 +350,16 @@ func sortU8(ar []uint64) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongU8(aq, &sv)
+			go gLongU8(aq, &sv) // replaces partitioning goroutine
 
-		} else if len(aq) > MaxLenIns {
-			shortU8(aq)
 		} else {
-			insertionU8(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // decrease goroutine counter
+
+			if len(aq) > MaxLenIns {
+				shortU8(aq)
+			} else {
+				insertionU8(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-- 
2.43.0


From 2631a3607b90226ff09af0d887bb825c064acb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:54 +0000
Subject: [PATCH 2/4] fix: IsSortedSlice must return an index of a descent with
 NaNsmall

IsSortedSlice([]float64{1, NaN, 2}) returned 2 when NaNs are small, but
ar[2] < ar[1] does not hold. It returns 1 now.
---
 sortyF4.go | 5 +++++
 sortyF8.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/sortyF4.go b/sortyF4.go
index 4ec5731..99d6d01 100644
--- a/sortyF4.go
+++ b/sortyF4.go
@@ -32,6 +32,11 @@ func isSortedF4(slc []float32) int {
 
 	for i := h; i > l; i-- {
 		if !(slc[i] >= slc[i-1]) {
+			if NaNoption == NaNsmall { // NaN is smaller than what follows it
+				for x := slc[i-1]; x != x; x = slc[i-1] {
+					i--
+				}
+			}
 			return i
 		}
 	}
diff --git a/sortyF8.go b/sortyF8.go
index e04dcb4..30ba6ea 100644
--- a/sortyF8.go
+++ b/sortyF8.go
@@ -32,6 +32,11 @@ func isSortedF8(slc []float64) int {
 
 	for i := h; i > l; i-- {
 		if !(slc[i] >= slc[i-1]) {
+			if NaNoption == NaNsmall { // NaN is smaller than what follows it
+				for x := slc[i-1]; x != x; x = slc[i-1] {
+					i--
+				}
+			}
 			return i
 		}
 	}
-- 
2.43.0


From 21c9cd9793bf6f80b334d6777f04ca7495af8924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:08 +0000
Subject: [PATCH 3/4] fix: SortSlice must move pointers as pointers

[]*T and []unsafe.Pointer were sorted as []uint64 or []uint32, so no write
barrier ran while a pointer was moved. The garbage collector running at the
same time missed objects, and freed what the sorted slice points to.
---
 sorty.go      |  7 +++++--
 sortySlice.go | 20 ++++++++++++++++++++
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/sorty.go b/sorty.go
index a555f22..e40de04 100644
--- a/sorty.go
+++ b/sorty.go
@@ -158,8 +158,11 @@ func extractSK(ar any) (slc sixb.Slice, kind reflect.Kind) {
 	kind = tipe.Kind()
 
 	switch kind {
-	// map int/uint/pointer types to hardware type
-	case reflect.Uintptr, reflect.Pointer, reflect.UnsafePointer:
+	// pointers are handled together
+	case reflect.Pointer, reflect.UnsafePointer:
+		kind = reflect.UnsafePointer
+	// map int/uint types to hardware type
+	case reflect.Uintptr:
 		kind = reflect.Uint32 + reflect.Kind(unsafe.Sizeof(uintptr(0))>>3)
 	case reflect.Uint:
 		kind = reflect.Uint32 + reflect.Kind(unsafe.Sizeof(uint(0))>>3)
diff --git a/sortySlice.go b/sortySlice.go
index 6b3cf81..67af54f 100644
--- a/sortySlice.go
+++ b/sortySlice.go
@@ -11,6 +11,20 @@ import (
 	"unsafe"
 )
 
+// Pointers must be moved as pointers, not as integers. Otherwise
+// garbage collector can miss what they point to during sorting.
+func lesswapP(slc []unsafe.Pointer) Lesswap {
+	return func(i, k, r, s int) bool {
+		if uintptr(slc[i]) < uintptr(slc[k]) {
+			if r != s {
+				slc[r], slc[s] = slc[s], slc[r]
+			}
+			return true
+		}
+		return false
+	}
+}
+
 // IsSortedSlice returns 0 if ar is sorted in ascending order, otherwise
 // it returns i > 0 with ar[i] < ar[i-1]. ar's (underlying) type can be
 //
@@ -42,6 +56,9 @@ func IsSortedSlice(ar any) int {
 	case reflect.Float64:
 		f := *(*[]float64)(unsafe.Pointer(&slc))
 		return isSortedF8(f)
+	case reflect.UnsafePointer: // []*T
+		p := *(*[]unsafe.Pointer)(unsafe.Pointer(&slc))
+		return IsSorted(len(p), lesswapP(p))
 	case sliceBias + reflect.Uint8: // [][]byte
 		b := *(*[][]byte)(unsafe.Pointer(&slc))
 		return isSortedB(b)
@@ -82,6 +99,9 @@ func SortSlice(ar any) {
 	case reflect.Float64:
 		f := *(*[]float64)(unsafe.Pointer(&slc))
 		sortF8(f)
+	case reflect.UnsafePointer: // []*T
+		p := *(*[]unsafe.Pointer)(unsafe.Pointer(&slc))
+		Sort(len(p), lesswapP(p))
 	case sliceBias + reflect.Uint8: // [][]byte
 		b := *(*[][]byte)(unsafe.Pointer(&slc))
 		sortB(b)
-- 
2.43.0


From c2f85373ac5a8a99c83867d7234ba648dfd39e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:56 +0000
Subject: [PATCH 4/4] fix: Sort is not quadratic when many elements are equal

partOne and partTwo only exchanged elements strictly on the wrong side of the pivot, so
that all elements equal to an extreme pivot ended up on one side: with two distinct values
200000 elements took 8*10^9 lesswap calls. Now elements equal to the pivot are exchanged
too, as in the other partitioning functions.
---
 sortyLsw.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/sortyLsw.go b/sortyLsw.go
index 347cfbb..55372ff 100644
--- a/sortyLsw.go
+++ b/sortyLsw.go
@@ -81,7 +81,8 @@ func pivot(lsw Lesswap, lo, hi int, n uint) int {
 }
 
 // partition slc, returns k with slc[:k] ≤ pivot ≤ slc[k:]
-// swap: slc[h] < pv < slc[l]
+// swap: slc[h] < pv ≤ slc[l]
+// swap: slc[h] ≤ pv < slc[l]
 // next: slc[l] ≤ pv ≤ slc[h]
 //
 //go:nosplit
@@ -90,25 +91,24 @@ func partOne(lsw Lesswap, l, pv, h int) int {
 	for ; l < h; l, h = l+1, h-1 {
 
 		if lsw(h, pv, h, h) { // 3rd=4th disables swap
-			for {
-				if lsw(pv, l, h, l) {
-					break
-				}
+			for l == pv || lsw(l, pv, l, l) { // pivot stays in its place
 				l++
 				if l >= h {
 					return l + 1
 				}
 			}
+			lsw(h, pv, h, l)
 		} else if lsw(pv, l, l, l) { // 3rd=4th disables swap
 			for {
 				h--
 				if l >= h {
 					return l
 				}
-				if lsw(h, pv, h, l) {
+				if h != pv && !lsw(pv, h, h, h) { // pivot stays in its place
 					break
 				}
 			}
+			lsw(pv, l, h, l)
 		}
 	}
 	// classify mid element
@@ -120,7 +120,8 @@ func partOne(lsw Lesswap, l, pv, h int) int {
 
 // swaps elements to get slc[lo..l] ≤ pivot ≤ slc[h..hi]
 // Gap (l,h) expands until one of the intervals is fully consumed.
-// swap: slc[h] < pv < slc[l]
+// swap: slc[h] < pv ≤ slc[l]
+// swap: slc[h] ≤ pv < slc[l]
 // next: slc[l] ≤ pv ≤ slc[h]
 //
 //go:nosplit
@@ -128,25 +129,24 @@ func partTwo(lsw Lesswap, lo, l, pv, h, hi int) int {
 	// avoid unnecessary comparisons, extend ranges in balance
 	for {
 		if lsw(h, pv, h, h) { // 3rd=4th disables swap
-			for {
-				if lsw(pv, l, h, l) {
-					break
-				}
+			for lsw(l, pv, l, l) {
 				l--
 				if l < lo {
 					return h
 				}
 			}
+			lsw(h, pv, h, l)
 		} else if lsw(pv, l, l, l) { // 3rd=4th disables swap
 			for {
 				h++
 				if h > hi {
 					return l
 				}
-				if lsw(h, pv, h, l) {
+				if !lsw(pv, h, h, h) {
 					break
 				}
 			}
+			lsw(pv, l, h, l)
 		}
 		l--
 		h++
-- 
2.43.0

