From cbfd57c7b38443b6f001a6fa4ac08c591cd92a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:53 +0000
Subject: [PATCH 01/31] fix: ctree: deleting from an empty tree removes nothing

The root of an empty tree was treated as a leaf holding nil: the condition
and visit functions were called with nil and an empty path was returned as
deleted.
---
 ctree/tree.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ctree/tree.go b/ctree/tree.go
index 7a09669..104b047 100644
--- a/ctree/tree.go
+++ b/ctree/tree.go
@@ -351,6 +351,9 @@ func (t *Tree) WalkDeleted(path []string, condition func(interface{}) bool, f fu
 	// to the entire Tree.
 	defer t.mu.Unlock()
 	t.mu.Lock()
+	if t.leafBranch == nil {
+		return // Nothing to delete in an empty Tree.
+	}
 	if delBr, _ := t.internalDelete(path, condition, f, false); delBr {
 		t.leafBranch = nil
 	}
@@ -436,6 +439,9 @@ func (t *Tree) DeleteConditional(subpath []string, condition func(interface{}) b
 	// to the entire Tree.
 	defer t.mu.Unlock()
 	t.mu.Lock()
+	if t.leafBranch == nil {
+		return nil // Nothing to delete in an empty Tree.
+	}
 	delBr, leaves := t.internalDelete(subpath, condition, func(interface{}) {}, true)
 	if delBr {
 		t.leafBranch = nil
-- 
2.43.0


From 386ac549712054c2dab16acfeea6e9fd6c9ecc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:18 +0000
Subject: [PATCH 02/31] fix: ctree: a delete path that continues past a leaf
 does not match it

A glob that reached a leaf with path elements left over deleted the leaf,
although a query for the same path does not report it.
---
 ctree/tree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ctree/tree.go b/ctree/tree.go
index 104b047..116f8ce 100644
--- a/ctree/tree.go
+++ b/ctree/tree.go
@@ -390,6 +390,10 @@ func (t *Tree) internalDelete(subpath []string, condition func(interface{}) bool
 			}
 			return len(t.leafBranch.(branch)) == 0, allLeaves
 		default:
+			if len(subpath) != 0 {
+				// The subpath continues past this leaf, so it does not match it.
+				return false, nil
+			}
 			if condition(t.leafBranch) {
 				// The second parameter is an empty path that will be filled as recursion
 				// unwinds for this leaf that will be deleted in its parent.
-- 
2.43.0


From 59ce6a3d5e9a523cea6e0b61d8c94282c2445bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:22 +0000
Subject: [PATCH 03/31] fix: ctree: lock nodes while deleting from them

A delete held only the lock of the root, so that it raced with Leaf.Update
and Leaf.Value through a retained leaf handle, and with readers of a node
obtained from Get: a leaf could be removed on the strength of a value that
was already replaced, and the reported value differ from the one tested.
---
 ctree/tree.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/ctree/tree.go b/ctree/tree.go
index 116f8ce..cf543d9 100644
--- a/ctree/tree.go
+++ b/ctree/tree.go
@@ -359,12 +359,21 @@ func (t *Tree) WalkDeleted(path []string, condition func(interface{}) bool, f fu
 	}
 }
 
+// lockedDelete calls internalDelete with the lock of t held. The lock of the
+// root keeps every other access through the Tree out, but not a concurrent
+// access through a node or Leaf retrieved earlier.
+func (t *Tree) lockedDelete(subpath []string, condition func(interface{}) bool, f func(interface{}), retDeletedPaths bool) (bool, [][]string) {
+	defer t.mu.Unlock()
+	t.mu.Lock()
+	return t.internalDelete(subpath, condition, f, retDeletedPaths)
+}
+
 // internalDelete removes nodes recursively that match subpath and satisfy
 // function condition. It also calls function f on every removed leaf. It
 // returns true if the current node is to be removed from the parent and
 // a slice of subpaths ([]string) for all leaves deleted thus far if
 // retDeletedPaths is true. If retDeletedPaths is false, the returned slice
-// of subpaths is nil.
+// of subpaths is nil. The caller must hold the lock of t.
 func (t *Tree) internalDelete(subpath []string, condition func(interface{}) bool, f func(interface{}), retDeletedPaths bool) (bool, [][]string) {
 	if len(subpath) == 0 || subpath[0] == "*" {
 		if len(subpath) != 0 {
@@ -377,7 +386,7 @@ func (t *Tree) internalDelete(subpath []string, condition func(interface{}) bool
 			// progeny leaves.
 			var allLeaves [][]string
 			for k, v := range b {
-				del, leaves := v.internalDelete(subpath, condition, f, retDeletedPaths)
+				del, leaves := v.lockedDelete(subpath, condition, f, retDeletedPaths)
 				if retDeletedPaths {
 					leaf := []string{k}
 					for _, l := range leaves {
@@ -409,7 +418,7 @@ func (t *Tree) internalDelete(subpath []string, condition func(interface{}) bool
 	if b, ok := t.leafBranch.(branch); ok {
 		// Continue to recurse on subpath while it matches nodes in the Tree.
 		if br := b[subpath[0]]; br != nil {
-			delBr, allLeaves := br.internalDelete(subpath[1:], condition, f, retDeletedPaths)
+			delBr, allLeaves := br.lockedDelete(subpath[1:], condition, f, retDeletedPaths)
 			if retDeletedPaths {
 				leaf := []string{subpath[0]}
 				// Prepend branch node name to all progeny leaves of branch.
-- 
2.43.0


From 8e6060a8fdd794cf714136be6015c847de7cc834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:03 +0000
Subject: [PATCH 04/31] fix: cache: announce an update that replaces an atomic
 container

---
 cache/cache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache/cache.go b/cache/cache.go
index 0b974f1..188547c 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -569,7 +569,7 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 		}
 		oldval.Update(n)
 		// Simulate event-driven for all non-atomic updates.
-		if !n.Atomic && value.Equal(old.Update[0].Val, n.Update[0].Val) && t.eventDriven {
+		if !n.Atomic && !old.Atomic && value.Equal(old.Update[0].Val, n.Update[0].Val) && t.eventDriven {
 			t.meta.AddInt(metadata.SuppressedCount, 1)
 			return nil, nil
 		}
-- 
2.43.0


From 4ae7c53e5e08d5c96e197381a40a3f7dc5bf4c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:30 +0000
Subject: [PATCH 05/31] fix: cache: track the latest timestamp of every
 accepted device update

---
 cache/cache.go | 41 +++++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index 188547c..c12312a 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -384,17 +384,6 @@ func (c *Cache) GnmiUpdate(n *pb.Notification) error {
 // each individual Update/Delete is sent to cache as
 // a separate gnmi.Notification.
 func (t *Target) GnmiUpdate(n *pb.Notification) error {
-	updateTS := false
-	if u := n.GetUpdate(); len(u) > 0 {
-		if p := u[0].GetPath().GetElem(); len(p) > 0 && p[0].GetName() != metadata.Root {
-			// Record latest timestamp from the device, excluding all 'meta' paths.
-			defer func(ts int64) {
-				if updateTS {
-					t.checkTimestamp(T(ts))
-				}
-			}(n.GetTimestamp())
-		}
-	}
 	switch {
 	// Store atomic notifications as a single leaf in the tree.
 	case n.Atomic:
@@ -410,7 +399,6 @@ func (t *Target) GnmiUpdate(n *pb.Notification) error {
 		if err != nil {
 			return err
 		}
-		updateTS = true
 		if nd != nil {
 			t.meta.AddInt(metadata.UpdateCount, int64(l))
 			t.client(nd)
@@ -435,7 +423,6 @@ func (t *Target) GnmiUpdate(n *pb.Notification) error {
 				errs.Add(err)
 				continue
 			}
-			updateTS = true
 			if nd != nil {
 				t.meta.AddInt(metadata.UpdateCount, 1)
 				t.client(nd)
@@ -459,7 +446,6 @@ func (t *Target) GnmiUpdate(n *pb.Notification) error {
 		if err != nil {
 			return err
 		}
-		updateTS = true
 		if nd != nil {
 			t.meta.AddInt(metadata.UpdateCount, 1)
 			t.client(nd)
@@ -490,6 +476,14 @@ func (t *Target) checkTimestamp(ts time.Time) {
 	}
 }
 
+// latestTimestamp returns the latest timestamp of the updates accepted from the
+// device, zero if there is none.
+func (t *Target) latestTimestamp() time.Time {
+	defer t.tsmu.Unlock()
+	t.tsmu.Lock()
+	return t.ts
+}
+
 func (t *Target) resetTimestamp() {
 	defer t.tsmu.Unlock()
 	t.tsmu.Lock()
@@ -554,13 +548,14 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 				return nil, ErrStale
 			}
 		case t.futureThreshold > 0 && nts.Sub(Now()) > t.futureThreshold:
-			if t.ts.UnixNano() <= 0 {
-				// This is the first accepted update as t.ts is uninitialized (assuming
+			latest := t.latestTimestamp()
+			if latest.UnixNano() <= 0 {
+				// This is the first accepted update as latest is uninitialized (assuming
 				// the first accepted timestamp is > 0 (1970-01-01 00:00:00 UTC).
 				log.Warningf("Accepting the first update with a timestamp in the future %s", prototext.Format(n))
-			} else if nts.Sub(t.ts) <= t.futureThreshold {
+			} else if nts.Sub(latest) <= t.futureThreshold {
 				if log.V(1) {
-					log.Warningf("Accepting non-first update with a timestamp in the future but not exceeding the threshold comparing with latestTimestamp (%v): %s", t.ts, prototext.Format(n))
+					log.Warningf("Accepting non-first update with a timestamp in the future but not exceeding the threshold comparing with latestTimestamp (%v): %s", latest, prototext.Format(n))
 				}
 			} else {
 				t.meta.AddInt(metadata.FutureCount, 1)
@@ -568,6 +563,10 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 			}
 		}
 		oldval.Update(n)
+		if realData {
+			// Record latest timestamp from the device, excluding all 'meta' paths.
+			t.checkTimestamp(T(n.GetTimestamp()))
+		}
 		// Simulate event-driven for all non-atomic updates.
 		if !n.Atomic && !old.Atomic && value.Equal(old.Update[0].Val, n.Update[0].Val) && t.eventDriven {
 			t.meta.AddInt(metadata.SuppressedCount, 1)
@@ -585,6 +584,7 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 		return nil, err
 	}
 	if realData {
+		t.checkTimestamp(T(n.GetTimestamp()))
 		t.meta.AddInt(metadata.LeafCount, 1)
 		t.meta.AddInt(metadata.AddCount, 1)
 		// Compute latency for new leaves.
@@ -671,10 +671,7 @@ func (t *Target) updateSize(func(*ctree.Leaf)) {
 
 // updateMeta updates the metadata values in the cache.
 func (t *Target) updateMeta(clients func(*ctree.Leaf)) {
-	t.tsmu.Lock()
-	latest := t.ts
-	t.tsmu.Unlock()
-	t.meta.SetInt(metadata.LatestTimestamp, latest.UnixNano())
+	t.meta.SetInt(metadata.LatestTimestamp, t.latestTimestamp().UnixNano())
 	t.lat.UpdateReset(t.meta)
 
 	t.generateMetaUpdates(clients)
-- 
2.43.0


From 2a01e7d02498a311bb7d9d9ca4574d073af90e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:12 +0000
Subject: [PATCH 06/31] fix: cache: the metadata refresh neither counts its own
 writes nor writes metadata back

---
 cache/cache.go | 59 +++++++++++++++++++++++++++++++++++---------------
 1 file changed, 41 insertions(+), 18 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index c12312a..c1b58d0 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -60,7 +60,6 @@ type Target struct {
 	name            string             // name of the target
 	t               *ctree.Tree        // actual cache of target data
 	client          func(*ctree.Leaf)  // Function to pass all cache updates to.
-	sync            bool               // denotes whether this cache is in sync with target
 	meta            *metadata.Metadata // metadata associated with target
 	lat             *latency.Latency   // latency measurements
 	tsmu            sync.Mutex         // protects latest timestamp
@@ -490,16 +489,19 @@ func (t *Target) resetTimestamp() {
 	t.ts = time.Time{}
 }
 
-func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
-	realData := true
-	suffix := n.Update[0].Path
+// notiPath returns the path under which the update of n is stored.
+func notiPath(n *pb.Notification) []string {
 	// If the notification is an atomic group of updates, store them under the prefix only.
 	if n.Atomic {
-		suffix = nil
+		return joinPrefixAndPath(n.Prefix, nil)
 	}
-	path := joinPrefixAndPath(n.Prefix, suffix)
+	return joinPrefixAndPath(n.Prefix, n.Update[0].Path)
+}
+
+// gnmiUpdate stores an update received for the target.
+func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
+	path := notiPath(n)
 	if path[0] == metadata.Root {
-		realData = false
 		u := n.Update[0]
 		switch path[1] {
 		case metadata.Sync:
@@ -508,8 +510,7 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 			if !ok {
 				return nil, fmt.Errorf("%v : has value %v of type %T, expected boolean", metadata.Path(metadata.Sync), u.Val, u.Val)
 			}
-			t.sync = tv.BoolVal
-			t.meta.SetBool(metadata.Sync, t.sync)
+			t.meta.SetBool(metadata.Sync, tv.BoolVal)
 		case metadata.Connected:
 			tv, ok := u.Val.Value.(*pb.TypedValue_BoolVal)
 			if !ok {
@@ -524,6 +525,29 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 			t.meta.SetStr(path[1], tv.StringVal)
 		}
 	}
+	leaf, err := t.store(n)
+	switch {
+	case err == ErrStale:
+		t.meta.AddInt(metadata.StaleCount, 1)
+	case err == ErrFuture:
+		t.meta.AddInt(metadata.FutureCount, 1)
+	case err == nil && leaf == nil:
+		t.meta.AddInt(metadata.SuppressedCount, 1)
+	}
+	return leaf, err
+}
+
+// synced reports whether the target is in sync.
+func (t *Target) synced() bool {
+	sync, err := t.meta.GetBool(metadata.Sync)
+	return err == nil && sync
+}
+
+// store adds or updates the leaf for the update in n. It returns no leaf and no
+// error for an update suppressed by the event-driven emulation.
+func (t *Target) store(n *pb.Notification) (*ctree.Leaf, error) {
+	path := notiPath(n)
+	realData := path[0] != metadata.Root
 	// Update an existing leaf.
 	if oldval := t.t.GetLeaf(path); oldval != nil {
 		// An update with corrupt data is possible to visit a node that does not
@@ -535,7 +559,6 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 		switch nts := T(n.GetTimestamp()); {
 		case n.GetTimestamp() < old.GetTimestamp():
 			// Update rejected. Timestamp < previous recorded timestamp.
-			t.meta.AddInt(metadata.StaleCount, 1)
 			return nil, ErrStale
 		case n.GetTimestamp() == old.GetTimestamp():
 			if !proto.Equal(old, n) {
@@ -544,7 +567,6 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 				}
 				// Allow to continue to update the cache taking the last supplied value for this timestamp.
 			} else {
-				t.meta.AddInt(metadata.StaleCount, 1)
 				return nil, ErrStale
 			}
 		case t.futureThreshold > 0 && nts.Sub(Now()) > t.futureThreshold:
@@ -558,7 +580,6 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 					log.Warningf("Accepting non-first update with a timestamp in the future but not exceeding the threshold comparing with latestTimestamp (%v): %s", latest, prototext.Format(n))
 				}
 			} else {
-				t.meta.AddInt(metadata.FutureCount, 1)
 				return nil, ErrFuture
 			}
 		}
@@ -569,11 +590,10 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 		}
 		// Simulate event-driven for all non-atomic updates.
 		if !n.Atomic && !old.Atomic && value.Equal(old.Update[0].Val, n.Update[0].Val) && t.eventDriven {
-			t.meta.AddInt(metadata.SuppressedCount, 1)
 			return nil, nil
 		}
 		// Compute latency for updated leaves.
-		if t.sync && realData {
+		if realData && t.synced() {
 			// Record latency for post-sync target updates.  Exclude metadata updates.
 			t.lat.Compute(T(n.GetTimestamp()))
 		}
@@ -588,7 +608,7 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 		t.meta.AddInt(metadata.LeafCount, 1)
 		t.meta.AddInt(metadata.AddCount, 1)
 		// Compute latency for new leaves.
-		if t.sync {
+		if t.synced() {
 			// Record latency for post-sync target updates.  Exclude metadata updates.
 			t.lat.Compute(T(n.GetTimestamp()))
 		}
@@ -677,6 +697,9 @@ func (t *Target) updateMeta(clients func(*ctree.Leaf)) {
 	t.generateMetaUpdates(clients)
 }
 
+// generateMetaUpdates stores the metadata values that changed. These writes are
+// neither counted nor recorded as metadata again, so that a value that changes
+// meanwhile is not overwritten.
 func (t *Target) generateMetaUpdates(clients func(*ctree.Leaf)) {
 	for value := range metadata.TargetBoolValues {
 		if t.excludedMeta.Contains(value) {
@@ -690,7 +713,7 @@ func (t *Target) generateMetaUpdates(clients func(*ctree.Leaf)) {
 		prev := t.t.GetLeafValue(path)
 		if prev == nil || prev.(*pb.Notification).Update[0].Val.Value.(*pb.TypedValue_BoolVal).BoolVal != v {
 			noti := metaNotiBool(t.name, value, v)
-			if n, _ := t.gnmiUpdate(noti); n != nil {
+			if n, _ := t.store(noti); n != nil {
 				if clients != nil {
 					clients(n)
 				}
@@ -710,7 +733,7 @@ func (t *Target) generateMetaUpdates(clients func(*ctree.Leaf)) {
 		prev := t.t.GetLeafValue(path)
 		if prev == nil || prev.(*pb.Notification).Update[0].Val.Value.(*pb.TypedValue_IntVal).IntVal != v {
 			noti := metaNotiInt(t.name, value, v)
-			if n, _ := t.gnmiUpdate(noti); n != nil {
+			if n, _ := t.store(noti); n != nil {
 				if clients != nil {
 					clients(n)
 				}
@@ -730,7 +753,7 @@ func (t *Target) generateMetaUpdates(clients func(*ctree.Leaf)) {
 		prev := t.t.GetLeafValue(path)
 		if prev == nil || prev.(*pb.Notification).Update[0].Val.Value.(*pb.TypedValue_StringVal).StringVal != v {
 			noti := metaNotiStr(t.name, value, v)
-			if n, _ := t.gnmiUpdate(noti); n != nil {
+			if n, _ := t.store(noti); n != nil {
 				if clients != nil {
 					clients(n)
 				}
-- 
2.43.0


From a1bc241f90eec5fb20312b59464176c575c92123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:09 +0000
Subject: [PATCH 07/31] fix: cache: deletes announce the whole path and share
 no slice with the stored notification

---
 cache/cache.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index c1b58d0..8eef811 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -616,6 +616,27 @@ func (t *Target) store(n *pb.Notification) (*ctree.Leaf, error) {
 	return t.t.GetLeaf(path), nil
 }
 
+// joinPaths returns a path with the elements of prefix followed by those of path.
+// It shares no slice with either of them, which may belong to other notifications.
+func joinPaths(prefix, path *pb.Path) *pb.Path {
+	if len(prefix.GetElem()) == 0 && len(path.GetElem()) == 0 {
+		var e []string
+		e = append(e, prefix.GetElement()...)
+		return &pb.Path{Element: append(e, path.GetElement()...)}
+	}
+	var pe []*pb.PathElem
+	for _, p := range []*pb.Path{prefix, path} {
+		pe = append(pe, p.GetElem()...)
+		if len(p.GetElem()) == 0 {
+			// Deprecated encoding.
+			for _, e := range p.GetElement() {
+				pe = append(pe, &pb.PathElem{Name: e})
+			}
+		}
+	}
+	return &pb.Path{Elem: pe}
+}
+
 func toDeleteNotification(n *pb.Notification, timestamp int64) *pb.Notification {
 	d := &pb.Notification{
 		Timestamp: timestamp,
@@ -632,11 +653,9 @@ func toDeleteNotification(n *pb.Notification, timestamp int64) *pb.Notification
 	}
 	switch {
 	case n.GetAtomic():
-		d.Delete = []*pb.Path{{Elem: prefix.GetElem(), Element: prefix.GetElement()}}
-	case len(prefix.GetElem()) > 0 || len(path.GetElem()) > 0:
-		d.Delete = []*pb.Path{{Elem: append(prefix.GetElem(), path.GetElem()...)}}
+		d.Delete = []*pb.Path{joinPaths(prefix, nil)}
 	default:
-		d.Delete = []*pb.Path{{Element: append(prefix.GetElement(), path.GetElement()...)}}
+		d.Delete = []*pb.Path{joinPaths(prefix, path)}
 	}
 	return d
 }
-- 
2.43.0


From 12e6b45c223a94e49539b493af51ed138f1d3ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:10 +0000
Subject: [PATCH 08/31] fix: cache: deleting metadata does not count as
 deleting leaves

---
 cache/cache.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cache/cache.go b/cache/cache.go
index 8eef811..dd523ba 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -666,15 +666,18 @@ func (t *Target) gnmiRemove(n *pb.Notification) []*ctree.Leaf {
 		t.meta.ResetEntry(path[1])
 	}
 	var leaves []*ctree.Leaf
+	var deleted int64 // excluding all 'meta' paths, which are not counted when added either
 	f := func(v interface{}) {
 		d := v.(*pb.Notification)
+		if notiPath(d)[0] != metadata.Root {
+			deleted++
+		}
 		leaves = append(leaves, ctree.DetachedLeaf(toDeleteNotification(d, n.GetTimestamp())))
 	}
 	t.t.WalkDeleted(path, func(v interface{}) bool { return v.(*pb.Notification).GetTimestamp() < n.GetTimestamp() }, f)
 	if len(leaves) == 0 {
 		return nil
 	}
-	deleted := int64(len(leaves))
 	t.meta.AddInt(metadata.LeafCount, -deleted)
 	t.meta.AddInt(metadata.DelCount, deleted)
 	return leaves
-- 
2.43.0


From 7e1812abbea719400f680c642d40cf6815bfeba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:03 +0000
Subject: [PATCH 09/31] fix: latency: export zero and negative latencies
 truthfully

---
 latency/latency.go | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/latency/latency.go b/latency/latency.go
index f7e372a..172b089 100644
--- a/latency/latency.go
+++ b/latency/latency.go
@@ -163,21 +163,20 @@ func (w *window) setAvg(name string, m Metadata) {
 		return
 	}
 	avg := w.total / time.Duration(w.count)
-	if n := avg.Nanoseconds(); n != 0 {
-		m.SetInt(name, n*w.sf)
-	}
+	m.SetInt(name, avg.Nanoseconds()*w.sf)
 }
 
 func (w *window) setMax(name string, m Metadata) {
-	var max time.Duration
-	for _, slot := range w.slots {
+	if len(w.slots) == 0 {
+		return
+	}
+	max := w.slots[0].max
+	for _, slot := range w.slots[1:] {
 		if slot.max > max {
 			max = slot.max
 		}
 	}
-	if n := max.Nanoseconds(); n != 0 {
-		m.SetInt(name, n)
-	}
+	m.SetInt(name, max.Nanoseconds())
 }
 
 func (w *window) setMin(name string, m Metadata) {
@@ -190,9 +189,7 @@ func (w *window) setMin(name string, m Metadata) {
 			min = slot.min
 		}
 	}
-	if n := min.Nanoseconds(); n != 0 {
-		m.SetInt(name, n)
-	}
+	m.SetInt(name, min.Nanoseconds())
 }
 
 func (w *window) slide(ts time.Time) {
@@ -292,10 +289,10 @@ func (l *Latency) Compute(ts time.Time) {
 	lat := l.compute(ts, nowTime)
 	l.totalDiff += lat / l.scaleFactor
 	l.count++
-	if lat > l.max {
+	if lat > l.max || l.count == 1 {
 		l.max = lat
 	}
-	if lat < l.min || l.min == 0 {
+	if lat < l.min || l.count == 1 {
 		l.min = lat
 	}
 	if l.start.IsZero() {
-- 
2.43.0


From 81132b6999ac6751ed4e8300bffc1a638c04c045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:56 +0000
Subject: [PATCH 10/31] fix: subscribe: offer an update once to a client whose
 paths overlap

---
 subscribe/subscribe.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/subscribe/subscribe.go b/subscribe/subscribe.go
index 2be7a29..0ffc504 100644
--- a/subscribe/subscribe.go
+++ b/subscribe/subscribe.go
@@ -167,10 +167,7 @@ func NewServer(c *cache.Cache, opts ...Option) (*Server, error) {
 // v should be n itself or the container of n (e.g. a ctree.Leaf) depending
 // on the caller.
 func UpdateNotification(m *match.Match, v interface{}, n *pb.Notification, prefix []string) {
-	var updated map[match.Client]struct{}
-	if len(n.Update)+len(n.Delete) > 1 {
-		updated = make(map[match.Client]struct{})
-	}
+	updated := make(map[match.Client]struct{})
 	for _, u := range n.Update {
 		m.UpdateOnce(v, append(prefix, path.ToStrings(u.Path, false)...), updated)
 	}
-- 
2.43.0


From f6f4fd334d79329eb72d41d9c646b1d4e37355d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:21 +0000
Subject: [PATCH 11/31] fix: subscribe: stream updates for a subscription
 without a path

---
 subscribe/subscribe.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/subscribe/subscribe.go b/subscribe/subscribe.go
index 0ffc504..28180c1 100644
--- a/subscribe/subscribe.go
+++ b/subscribe/subscribe.go
@@ -221,10 +221,8 @@ func addSubscription(m *match.Match, s *pb.SubscriptionList, c *matchClient) (re
 	var removes []func()
 	prefix := path.ToStrings(s.Prefix, true)
 	for _, sub := range s.Subscription {
+		// A subscription without a path matches everything below the prefix.
 		p := sub.GetPath()
-		if p == nil {
-			continue
-		}
 		query := prefix
 		if origin := p.GetOrigin(); s.Prefix.GetOrigin() == "" && origin != "" {
 			query = append(prefix, origin)
-- 
2.43.0


From bb8a9be4c00f6704bf53c09de7bfb29406ebedac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:50 +0000
Subject: [PATCH 12/31] fix: subscribe: remove the registrations of every path
 when a stream ends

---
 subscribe/subscribe.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/subscribe/subscribe.go b/subscribe/subscribe.go
index 28180c1..3b529d3 100644
--- a/subscribe/subscribe.go
+++ b/subscribe/subscribe.go
@@ -223,9 +223,10 @@ func addSubscription(m *match.Match, s *pb.SubscriptionList, c *matchClient) (re
 	for _, sub := range s.Subscription {
 		// A subscription without a path matches everything below the prefix.
 		p := sub.GetPath()
-		query := prefix
+		// Each query keeps its slice until it is removed: share none of them.
+		query := append([]string(nil), prefix...)
 		if origin := p.GetOrigin(); s.Prefix.GetOrigin() == "" && origin != "" {
-			query = append(prefix, origin)
+			query = append(query, origin)
 		}
 		query = append(query, path.ToStrings(p, false)...)
 		removes = append(removes, m.AddQuery(query, c))
-- 
2.43.0


From 5ca9dab95a815c11333925f54e9526e97406fddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:39 +0000
Subject: [PATCH 13/31] fix: cache: announce the changes of a target in the
 order they are made

---
 cache/cache.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/cache/cache.go b/cache/cache.go
index dd523ba..a29548f 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -57,6 +57,8 @@ var (
 
 // A Target hosts an indexed cache of state for a single target.
 type Target struct {
+	mu              sync.Mutex         // held while a change is made and announced
+	removed         bool               // whether the target was removed from the cache
 	name            string             // name of the target
 	t               *ctree.Tree        // actual cache of target data
 	client          func(*ctree.Leaf)  // Function to pass all cache updates to.
@@ -319,6 +321,11 @@ func (c *Cache) Reset(target string) {
 func (c *Cache) Remove(target string) {
 	defer c.mu.Unlock()
 	c.mu.Lock()
+	if t := c.targets[target]; t != nil {
+		defer t.mu.Unlock()
+		t.mu.Lock()
+		t.removed = true
+	}
 	delete(c.targets, target)
 	// Notify clients that the target is removed.
 	c.client(ctree.DetachedLeaf(deleteNoti(target, "", []string{"*"})))
@@ -383,6 +390,11 @@ func (c *Cache) GnmiUpdate(n *pb.Notification) error {
 // each individual Update/Delete is sent to cache as
 // a separate gnmi.Notification.
 func (t *Target) GnmiUpdate(n *pb.Notification) error {
+	defer t.mu.Unlock()
+	t.mu.Lock()
+	if t.removed {
+		return fmt.Errorf("target %q not found in cache", t.name)
+	}
 	switch {
 	// Store atomic notifications as a single leaf in the tree.
 	case n.Atomic:
@@ -713,6 +725,12 @@ func (t *Target) updateSize(func(*ctree.Leaf)) {
 
 // updateMeta updates the metadata values in the cache.
 func (t *Target) updateMeta(clients func(*ctree.Leaf)) {
+	defer t.mu.Unlock()
+	t.mu.Lock()
+	t.refreshMeta(clients)
+}
+
+func (t *Target) refreshMeta(clients func(*ctree.Leaf)) {
 	t.meta.SetInt(metadata.LatestTimestamp, t.latestTimestamp().UnixNano())
 	t.lat.UpdateReset(t.meta)
 
@@ -787,11 +805,13 @@ func (t *Target) generateMetaUpdates(clients func(*ctree.Leaf)) {
 // Reset clears the Target of stale data upon a reconnection and notifies
 // cache client of the removal.
 func (t *Target) Reset() {
+	defer t.mu.Unlock()
+	t.mu.Lock()
 	// Clear latest timestamp received from device.
 	t.resetTimestamp()
 	// Reset metadata to zero values (e.g. connected = false) and notify clients.
 	t.meta.Clear()
-	t.updateMeta(t.client)
+	t.refreshMeta(t.client)
 	for root := range t.t.Children() {
 		if root == metadata.Root {
 			continue
-- 
2.43.0


From 7302cc5d4b25fb1f949cb79747c717bd0e64a37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:18 +0000
Subject: [PATCH 14/31] fix: subscribe: the send timeout covers the sync
 response

---
 subscribe/subscribe.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/subscribe/subscribe.go b/subscribe/subscribe.go
index 3b529d3..d8a76d3 100644
--- a/subscribe/subscribe.go
+++ b/subscribe/subscribe.go
@@ -511,7 +511,10 @@ func (s *Server) sendStreamingResults(c *streamClient) {
 
 		// s.processSubscription will send a sync marker, handle it separately.
 		if _, ok := item.(syncMarker); ok {
-			if err = c.stream.Send(subscribeSync); err != nil {
+			t.Reset(s.o.timeout)
+			err = c.stream.Send(subscribeSync)
+			t.Stop()
+			if err != nil {
 				c.errC <- err
 				return
 			}
-- 
2.43.0


From fd01941335beaad1a1d7d329953d69ea24b0ef6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:18 +0000
Subject: [PATCH 15/31] fix: subscribe: reject a stream whose target was
 removed while it was set up

---
 subscribe/subscribe.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/subscribe/subscribe.go b/subscribe/subscribe.go
index d8a76d3..495b217 100644
--- a/subscribe/subscribe.go
+++ b/subscribe/subscribe.go
@@ -307,6 +307,11 @@ func (s *Server) Subscribe(stream pb.GNMI_SubscribeServer) error {
 		remove := addSubscription(s.m, c.sr.GetSubscribe(),
 			&matchClient{acl: c.acl, q: c.queue})
 		defer remove()
+		// Only a removal from here on ends the stream: the target may have been
+		// removed since it was looked up.
+		if !s.c.HasTarget(c.target) {
+			return status.Errorf(codes.NotFound, "no such target: %q", c.target)
+		}
 		if !c.sr.GetSubscribe().GetUpdatesOnly() {
 			go s.processSubscription(&c)
 		}
-- 
2.43.0


From 86b3c6acfa9b4ced9a4e80a5c1fb4245fe9ef30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:04 +0000
Subject: [PATCH 16/31] fix: manager: ending a session does not reconnect a
 target added later under its name

---
 manager/manager.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/manager/manager.go b/manager/manager.go
index a3b5064..b9d572f 100644
--- a/manager/manager.go
+++ b/manager/manager.go
@@ -212,7 +212,7 @@ func (m *Manager) handleUpdates(ctx context.Context, ta *target, sc gpb.GNMI_Sub
 			case <-ctx.Done():
 			case <-recvTimer.C:
 				log.Errorf("Timed out waiting to receive from %q after %v", ta.name, ta.receiveTimeout)
-				m.Reconnect(ta.name)
+				ta.forceReconnect()
 			}
 		}()
 	}
@@ -293,8 +293,9 @@ func (m *Manager) retryMonitor(ctx context.Context, ta *target) {
 		timer.Stop()
 		log.Infof("Finished monitoring %q", ta.name)
 		close(ta.finished)
-		// Ensure the cancelFunc for the subcontext is called.
-		m.Reconnect(ta.name)
+		// Ensure the cancelFunc for the subcontext is called. By now the name may
+		// stand for a target added later, whose session is to be left alone.
+		ta.forceReconnect()
 	}()
 
 	e := backoff.NewExponentialBackOff()
@@ -436,11 +437,16 @@ func (m *Manager) Reconnect(name string) error {
 	if !ok {
 		return fmt.Errorf("no such target: %q", name)
 	}
+	t.forceReconnect()
+	return nil
+}
+
+// forceReconnect cancels the current subcontext of the target.
+func (t *target) forceReconnect() {
 	t.mu.Lock()
 	if t.reconnect != nil {
 		t.reconnect()
 		t.reconnect = nil
 	}
 	t.mu.Unlock()
-	return nil
 }
-- 
2.43.0


From 8327c7de7fd45f908184ed7a5361c385cab4470e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:21 +0000
Subject: [PATCH 17/31] fix: cache, subscribe: an origin may be set in the path
 of an update

Deletes derived from such an update were announced under the origin while the
update itself was stored and matched without it.
---
 cache/cache.go         |  8 +++++---
 subscribe/subscribe.go | 19 +++++++++++++++++--
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index a29548f..b36d12a 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -822,13 +822,15 @@ func (t *Target) Reset() {
 }
 
 func joinPrefixAndPath(pr, ph *pb.Path) []string {
-	// <target> and <origin> are only valid as prefix gnmi.Path
+	// <target> is only valid as prefix gnmi.Path, <origin> in either of them
 	// https://github.com/openconfig/reference/blob/master/rpc/gnmi-specification.md#222-paths
 	p := path.ToStrings(pr, true)
-	p = append(p, path.ToStrings(ph, false)...)
 	// remove the prepended target name
 	p = p[1:]
-	return p
+	if o := ph.GetOrigin(); o != "" && pr.GetOrigin() == "" {
+		p = append([]string{o}, p...)
+	}
+	return append(p, path.ToStrings(ph, false)...)
 }
 
 func deleteNoti(t, o string, p []string) *pb.Notification {
diff --git a/subscribe/subscribe.go b/subscribe/subscribe.go
index 495b217..e2c2b10 100644
--- a/subscribe/subscribe.go
+++ b/subscribe/subscribe.go
@@ -169,13 +169,28 @@ func NewServer(c *cache.Cache, opts ...Option) (*Server, error) {
 func UpdateNotification(m *match.Match, v interface{}, n *pb.Notification, prefix []string) {
 	updated := make(map[match.Client]struct{})
 	for _, u := range n.Update {
-		m.UpdateOnce(v, append(prefix, path.ToStrings(u.Path, false)...), updated)
+		m.UpdateOnce(v, matchPath(n, prefix, u.Path), updated)
 	}
 	for _, d := range n.Delete {
-		m.UpdateOnce(v, append(prefix, path.ToStrings(d, false)...), updated)
+		m.UpdateOnce(v, matchPath(n, prefix, d), updated)
 	}
 }
 
+// matchPath returns the path of n that p stands for, below prefix. An origin in
+// p goes where that of the prefix would.
+func matchPath(n *pb.Notification, prefix []string, p *pb.Path) []string {
+	elems := path.ToStrings(p, false)
+	if o := p.GetOrigin(); o != "" && n.GetPrefix().GetOrigin() == "" {
+		k := 0
+		if t := n.GetPrefix().GetTarget(); t != "" && len(prefix) > 0 && prefix[0] == t {
+			k = 1
+		}
+		elems = append(append([]string{o}, prefix[k:]...), elems...)
+		prefix = prefix[:k]
+	}
+	return append(prefix[:len(prefix):len(prefix)], elems...)
+}
+
 // Update passes a streaming update to registered clients.
 func (s *Server) Update(n *ctree.Leaf) {
 	switch v := n.Value().(type) {
-- 
2.43.0


From acdeb5e29008ec6474c51ef29231c76bdba1af28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:25 +0000
Subject: [PATCH 18/31] fix: target: keep a copy of the configuration that is
 loaded

Load and NewConfigWithBase kept the caller's message, so a caller that edited
it changed the current configuration without a load, and a load of the edited
message compared it with itself.
---
 target/target.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/target/target.go b/target/target.go
index 08fa875..9dd1aa1 100644
--- a/target/target.go
+++ b/target/target.go
@@ -68,6 +68,7 @@ func NewConfigWithBase(h Handler, config *pb.Configuration) (*Config, error) {
 		if err := Validate(config); err != nil {
 			return nil, fmt.Errorf("invalid configuration: %v", err)
 		}
+		config = proto.Clone(config).(*pb.Configuration)
 	}
 	return &Config{
 		configuration: config,
@@ -100,7 +101,8 @@ func (c *Config) Load(config *pb.Configuration) error {
 	}
 	// Diff before setting new state.
 	c.handleDiffs(config)
-	c.configuration = config
+	// The caller may go on to modify its message.
+	c.configuration = proto.Clone(config).(*pb.Configuration)
 
 	return nil
 }
@@ -120,6 +122,9 @@ func (c *Config) checkRevision(cf *pb.Configuration) error {
 func (c *Config) handleDiffs(config *pb.Configuration) {
 	requestChanged := map[string]bool{}
 	for k, new := range config.Request {
+		if new == nil {
+			new = &gpb.SubscribeRequest{} // As in the copy that is kept.
+		}
 		if old, ok := c.configuration.GetRequest()[k]; ok {
 			if !proto.Equal(old, new) {
 				requestChanged[k] = true
-- 
2.43.0


From 93d8fedb0eb30be4e8fa1c485fc14514aa90f852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:49 +0000
Subject: [PATCH 19/31] fix: start reconnect backoff from RetryBaseDelay

backoff.NewExponentialBackOff initialises the current interval from the
library default, so the first retry ignored RetryBaseDelay/RetryMaxDelay.
---
 client/reconnect.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client/reconnect.go b/client/reconnect.go
index 69aea20..89fbe11 100644
--- a/client/reconnect.go
+++ b/client/reconnect.go
@@ -73,6 +73,7 @@ func Reconnect(c Client, disconnect, reset func()) *ReconnectClient {
 	e.InitialInterval = RetryBaseDelay
 	e.MaxInterval = RetryMaxDelay
 	e.RandomizationFactor = RetryRandomization
+	e.Reset() // Start from RetryBaseDelay.
 	return &ReconnectClient{Client: c, backoff: e, disconnect: disconnect, reset: reset}
 }
 
-- 
2.43.0


From 274c7bd86f80a0142dddbd1f5c2be089c7b5959f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:49 +0000
Subject: [PATCH 20/31] fix: honour a Close called while a BaseClient is
 connecting

Subscribe cleared closed after connecting, so a Close during a second or
later connect was forgotten and Subscribe went on forever.
---
 client/client.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/client/client.go b/client/client.go
index 007bc68..ae2bdac 100644
--- a/client/client.go
+++ b/client/client.go
@@ -132,6 +132,9 @@ func (c *BaseClient) Subscribe(ctx context.Context, q Query, clientType ...strin
 		}
 		return impl, nil
 	}
+	c.mu.Lock()
+	c.closed = false
+	c.mu.Unlock()
 	impl, err := getFirst(ctx, clientType, q, fn)
 	if err != nil {
 		return err
@@ -143,8 +146,12 @@ func (c *BaseClient) Subscribe(ctx context.Context, q Query, clientType ...strin
 		c.clientImpl.Close()
 	}
 	c.clientImpl = impl
-	c.closed = false
+	closed := c.closed
 	c.mu.Unlock()
+	if closed { // Close was called while connecting.
+		impl.Close()
+		return nil
+	}
 
 	return c.run(impl)
 }
-- 
2.43.0


From 869232b0e004e35a3304494c52ca236b865728ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:27 +0000
Subject: [PATCH 21/31] fix: cache: reject updates of the root and of the
 metadata root, accept deletes of them

---
 cache/cache.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index b36d12a..a5f76df 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -513,24 +513,30 @@ func notiPath(n *pb.Notification) []string {
 // gnmiUpdate stores an update received for the target.
 func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 	path := notiPath(n)
-	if path[0] == metadata.Root {
+	switch {
+	case len(path) == 0:
+		return nil, errors.New("update has no path")
+	case path[0] != metadata.Root:
+	case len(path) == 1:
+		return nil, fmt.Errorf("update of %q, which holds the metadata", path)
+	default:
 		u := n.Update[0]
 		switch path[1] {
 		case metadata.Sync:
 			var ok bool
-			tv, ok := u.Val.Value.(*pb.TypedValue_BoolVal)
+			tv, ok := u.GetVal().GetValue().(*pb.TypedValue_BoolVal)
 			if !ok {
 				return nil, fmt.Errorf("%v : has value %v of type %T, expected boolean", metadata.Path(metadata.Sync), u.Val, u.Val)
 			}
 			t.meta.SetBool(metadata.Sync, tv.BoolVal)
 		case metadata.Connected:
-			tv, ok := u.Val.Value.(*pb.TypedValue_BoolVal)
+			tv, ok := u.GetVal().GetValue().(*pb.TypedValue_BoolVal)
 			if !ok {
 				return nil, fmt.Errorf("%v : has value %v of type %T, expected boolean", metadata.Path(metadata.Connected), u.Val, u.Val)
 			}
 			t.meta.SetBool(metadata.Connected, tv.BoolVal)
 		case metadata.ConnectedAddr, metadata.ConnectError:
-			tv, ok := u.Val.Value.(*pb.TypedValue_StringVal)
+			tv, ok := u.GetVal().GetValue().(*pb.TypedValue_StringVal)
 			if !ok {
 				return nil, fmt.Errorf("%v : has value %v of type %T, expected string", metadata.Path(path[1]), u.Val, u.Val)
 			}
@@ -674,7 +680,7 @@ func toDeleteNotification(n *pb.Notification, timestamp int64) *pb.Notification
 
 func (t *Target) gnmiRemove(n *pb.Notification) []*ctree.Leaf {
 	path := joinPrefixAndPath(n.Prefix, n.Delete[0])
-	if path[0] == metadata.Root {
+	if len(path) > 1 && path[0] == metadata.Root {
 		t.meta.ResetEntry(path[1])
 	}
 	var leaves []*ctree.Leaf
-- 
2.43.0


From a86619468ebfbbbad234ac158914e7562f35793c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:27 +0000
Subject: [PATCH 22/31] fix: cache: refresh metadata leaves stored with another
 kind of value

---
 cache/cache.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index a5f76df..7ca4659 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -756,9 +756,8 @@ func (t *Target) generateMetaUpdates(clients func(*ctree.Leaf)) {
 			continue
 		}
 		path := metadata.Path(value)
-		prev := t.t.GetLeafValue(path)
-		if prev == nil || prev.(*pb.Notification).Update[0].Val.Value.(*pb.TypedValue_BoolVal).BoolVal != v {
-			noti := metaNotiBool(t.name, value, v)
+		noti := metaNotiBool(t.name, value, v)
+		if t.metaChanged(path, noti) {
 			if n, _ := t.store(noti); n != nil {
 				if clients != nil {
 					clients(n)
@@ -776,9 +775,8 @@ func (t *Target) generateMetaUpdates(clients func(*ctree.Leaf)) {
 			continue
 		}
 		path := metadata.Path(value)
-		prev := t.t.GetLeafValue(path)
-		if prev == nil || prev.(*pb.Notification).Update[0].Val.Value.(*pb.TypedValue_IntVal).IntVal != v {
-			noti := metaNotiInt(t.name, value, v)
+		noti := metaNotiInt(t.name, value, v)
+		if t.metaChanged(path, noti) {
 			if n, _ := t.store(noti); n != nil {
 				if clients != nil {
 					clients(n)
@@ -796,9 +794,8 @@ func (t *Target) generateMetaUpdates(clients func(*ctree.Leaf)) {
 			continue
 		}
 		path := metadata.Path(value)
-		prev := t.t.GetLeafValue(path)
-		if prev == nil || prev.(*pb.Notification).Update[0].Val.Value.(*pb.TypedValue_StringVal).StringVal != v {
-			noti := metaNotiStr(t.name, value, v)
+		noti := metaNotiStr(t.name, value, v)
+		if t.metaChanged(path, noti) {
 			if n, _ := t.store(noti); n != nil {
 				if clients != nil {
 					clients(n)
@@ -808,6 +805,13 @@ func (t *Target) generateMetaUpdates(clients func(*ctree.Leaf)) {
 	}
 }
 
+// metaChanged reports whether the metadata leaf at path has another value than
+// noti. A target can have stored any kind of value there.
+func (t *Target) metaChanged(path []string, noti *pb.Notification) bool {
+	prev, ok := t.t.GetLeafValue(path).(*pb.Notification)
+	return !ok || !value.Equal(prev.Update[0].GetVal(), noti.Update[0].GetVal())
+}
+
 // Reset clears the Target of stale data upon a reconnection and notifies
 // cache client of the removal.
 func (t *Target) Reset() {
-- 
2.43.0


From 204dba53917fe771e63434bb020f6d455d54fd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:27 +0000
Subject: [PATCH 23/31] fix: value: compare a double with a missing value

---
 value/value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/value/value.go b/value/value.go
index fd1149c..478699d 100644
--- a/value/value.go
+++ b/value/value.go
@@ -196,7 +196,7 @@ func Equal(a, b *pb.TypedValue) bool {
 		}
 		return string(av.BytesVal) == string(bv.BytesVal)
 	case *pb.TypedValue_DoubleVal:
-		bv, ok := b.Value.(*pb.TypedValue_DoubleVal)
+		bv, ok := b.GetValue().(*pb.TypedValue_DoubleVal)
 		if !ok {
 			return false
 		}
-- 
2.43.0


From 8dba135f114ff24c01532134a05da185b095013a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:27 +0000
Subject: [PATCH 24/31] fix: cli: display a value at the root

---
 cli/cli.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cli/cli.go b/cli/cli.go
index 2a305dd..5f58aee 100644
--- a/cli/cli.go
+++ b/cli/cli.go
@@ -404,6 +404,9 @@ func (m pathmap) str(prefix, indent, curindent string) string {
 }
 
 func (m pathmap) add(path []string, v interface{}) {
+	if len(path) == 0 {
+		path = []string{""} // the root
+	}
 	if len(path) == 1 {
 		m[path[0]] = v
 		return
-- 
2.43.0


From 907cda5126f5d3af85dc5d5f1428c13877504560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 25/31] fix: client: CacheClient drops leaves that the response
 to a poll lacks

---
 client/cache.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/client/cache.go b/client/cache.go
index cd2efbd..84221fa 100644
--- a/client/cache.go
+++ b/client/cache.go
@@ -32,6 +32,7 @@ type CacheClient struct {
 	*ctree.Tree
 	synced        chan struct{}
 	clientHandler NotificationHandler
+	polled        *ctree.Tree // leaves received since Poll was called
 }
 
 var _ Client = &CacheClient{}
@@ -67,9 +68,16 @@ func (c *CacheClient) defaultHandler(n Notification) error {
 		return fmt.Errorf("received error: %v", v)
 	case Update:
 		c.Add(v.Path, TreeVal{TS: v.TS, Val: v.Val})
+		if c.polled != nil {
+			c.polled.Add(v.Path, nil)
+		}
 	case Delete:
 		c.Delete(v.Path)
+		if c.polled != nil {
+			c.polled.Delete(v.Path)
+		}
 	case Sync:
+		c.removeUnpolled()
 		select {
 		default:
 			close(c.synced)
@@ -83,16 +91,36 @@ func (c *CacheClient) defaultHandler(n Notification) error {
 }
 
 // Poll implements the Client interface.
-// Poll also closes the channel returned by Synced and resets it.
+// Poll also closes the channel returned by Synced and resets it. The response
+// to a poll is the complete state: leaves that it lacks are removed.
 func (c *CacheClient) Poll() error {
 	select {
 	default:
 		close(c.synced)
 	case <-c.synced:
 	}
+	c.polled = &ctree.Tree{}
 	return c.BaseClient.Poll()
 }
 
+// removeUnpolled removes the leaves that the response to a poll did not contain.
+func (c *CacheClient) removeUnpolled() {
+	if c.polled == nil {
+		return
+	}
+	var stale []Path
+	c.Walk(func(path []string, _ *ctree.Leaf, _ interface{}) error {
+		if c.polled.GetLeaf(path) == nil {
+			stale = append(stale, append(Path{}, path...))
+		}
+		return nil
+	})
+	for _, p := range stale {
+		c.Delete(p)
+	}
+	c.polled = nil
+}
+
 // Synced will close when a sync is recieved from the query.
 func (c *CacheClient) Synced() <-chan struct{} {
 	return c.synced
-- 
2.43.0


From 9d19a494042c4fa3c54a7cb4cb97c6e4aee9e823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 26/31] fix: client/gnmi: keep an origin that is set in a path

---
 client/gnmi/client.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/client/gnmi/client.go b/client/gnmi/client.go
index 7bfe3b2..7d76e1d 100644
--- a/client/gnmi/client.go
+++ b/client/gnmi/client.go
@@ -204,20 +204,19 @@ func (c *Client) defaultRecv(msg proto.Message) error {
 		}
 	case *gpb.SubscribeResponse_Update:
 		n := v.Update
-		p := path.ToStrings(n.Prefix, true)
 		ts := time.Unix(0, n.Timestamp)
 		for _, u := range n.Update {
 			if u.Path == nil {
 				return fmt.Errorf("invalid nil path in update: %v", u)
 			}
-			u, err := noti(p, u.Path, ts, u)
+			u, err := noti(prefixOf(n, u.Path), u.Path, ts, u)
 			if err != nil {
 				return err
 			}
 			c.handler(u)
 		}
 		for _, d := range n.Delete {
-			u, err := noti(p, d, ts, nil)
+			u, err := noti(prefixOf(n, d), d, ts, nil)
 			if err != nil {
 				return err
 			}
@@ -275,6 +274,20 @@ func subscribe(q client.Query) (*gpb.SubscribeRequest, error) {
 	return &gpb.SubscribeRequest{Request: s}, nil
 }
 
+// prefixOf returns what precedes path p of notification n: the target, the
+// origin, which may be set in the prefix or in the path, and the prefix.
+func prefixOf(n *gpb.Notification, p *gpb.Path) []string {
+	if p.GetOrigin() == "" || n.Prefix.GetOrigin() != "" {
+		return path.ToStrings(n.Prefix, true)
+	}
+	var s []string
+	if t := n.Prefix.GetTarget(); t != "" {
+		s = append(s, t)
+	}
+	s = append(s, p.Origin)
+	return append(s, path.ToStrings(n.Prefix, false)...)
+}
+
 func noti(prefix []string, pp *gpb.Path, ts time.Time, u *gpb.Update) (client.Notification, error) {
 	sp := path.ToStrings(pp, false)
 	// Make a full new copy of prefix + u.Path to avoid any reuse of underlying
-- 
2.43.0


From e7d6e7b383c18c34556012bb3325e04345098e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 27/31] fix: gnmi_cli: subscribe with the request in
 -proto_file

---
 cmd/gnmi_cli/gnmi_cli.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gnmi_cli/gnmi_cli.go b/cmd/gnmi_cli/gnmi_cli.go
index c20044e..8c33b3c 100644
--- a/cmd/gnmi_cli/gnmi_cli.go
+++ b/cmd/gnmi_cli/gnmi_cli.go
@@ -293,7 +293,7 @@ func executeSubscribe(ctx context.Context) error {
 	}
 	if s != "" {
 		// Convert SubscribeRequest to a client.Query
-		tq, err := cli.ParseSubscribeProto(*reqProto)
+		tq, err := cli.ParseSubscribeProto(s)
 		if err != nil {
 			log.Exitf("failed to parse gNMI SubscribeRequest text proto: %v", err)
 		}
-- 
2.43.0


From ff70fcd6a8a0b69d6434eff981c9ac7a6f678685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 28/31] fix: gnmi_collector: default origin only where no
 origin is set

---
 cmd/gnmi_collector/gnmi_collector.go | 36 ++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/cmd/gnmi_collector/gnmi_collector.go b/cmd/gnmi_collector/gnmi_collector.go
index 5ce0d99..27866f5 100644
--- a/cmd/gnmi_collector/gnmi_collector.go
+++ b/cmd/gnmi_collector/gnmi_collector.go
@@ -106,6 +106,31 @@ var defaultDialOpts []grpc.DialOption = []grpc.DialOption{
 	grpc.WithTransportCredentials(credentials.NewTLS(&tls.Config{InsecureSkipVerify: true})),
 }
 
+// setDefaultOrigin sets the origin of everything in v that has none. An origin
+// is given either in the prefix or in the paths.
+func setDefaultOrigin(v *gnmipb.Notification) {
+	if v.Prefix.Origin != "" {
+		return
+	}
+	paths := append([]*gnmipb.Path{}, v.GetDelete()...)
+	for _, u := range v.GetUpdate() {
+		paths = append(paths, u.GetPath())
+	}
+	inPath := false
+	for _, p := range paths {
+		inPath = inPath || p.GetOrigin() != ""
+	}
+	if !inPath {
+		v.Prefix.Origin = "openconfig"
+		return
+	}
+	for _, p := range paths {
+		if p != nil && p.Origin == "" {
+			p.Origin = "openconfig"
+		}
+	}
+}
+
 // unimplementedCredentials cache credentials for targets.
 type unimplementedCredentials struct{}
 
@@ -187,14 +212,11 @@ func runCollector(ctx context.Context) error {
 			// the target itself doesn't report or incorrectly reports the target
 			// field. Also promote an empty origin field to 'openconfig', the default
 			// origin for gNMI.
-			if prefix := v.GetPrefix(); prefix == nil {
-				v.Prefix = &gnmipb.Path{Origin: "openconfig", Target: target}
-			} else {
-				if prefix.Origin == "" {
-					prefix.Origin = "openconfig"
-				}
-				prefix.Target = target
+			if v.GetPrefix() == nil {
+				v.Prefix = &gnmipb.Path{}
 			}
+			v.Prefix.Target = target
+			setDefaultOrigin(v)
 			if err := c.cache.GnmiUpdate(v); err != nil {
 				if log.V(2) {
 					log.Infof("dropped cache.Update(%#v): %v", v, err)
-- 
2.43.0


From 0b8e0fc47487c68473706c9023a2fae7dce3d6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 29/31] fix: gnmi_collector: register configured targets with
 the cache

---
 cmd/gnmi_collector/gnmi_collector.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/gnmi_collector/gnmi_collector.go b/cmd/gnmi_collector/gnmi_collector.go
index 27866f5..6b428e9 100644
--- a/cmd/gnmi_collector/gnmi_collector.go
+++ b/cmd/gnmi_collector/gnmi_collector.go
@@ -286,7 +286,10 @@ func (c *collector) add(ctx context.Context, id string, t *tpb.Target, tt *tunne
 		t.Addresses = []string{id}
 	}
 
+	// The cache drops updates of, and rejects subscriptions to, unknown targets.
+	c.cache.Add(id)
 	if err := c.tm.Add(id, t, request); err != nil {
+		c.cache.Remove(id)
 		return fmt.Errorf("Could not add target %q: %v", id, err)
 	}
 	return nil
-- 
2.43.0


From d3c224bf6afe54805fa6b1ea0b9d1bc8301a4a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:28 +0000
Subject: [PATCH 30/31] fix: ctree: leave the inside of stored values alone
 when an add fails

---
 ctree/tree.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctree/tree.go b/ctree/tree.go
index cf543d9..4e2e3b3 100644
--- a/ctree/tree.go
+++ b/ctree/tree.go
@@ -144,7 +144,7 @@ func (t *Tree) slowAdd(path []string, value interface{}) error {
 		}
 		return br.Add(path[1:], value)
 	default:
-		return fmt.Errorf("attempted to add value %#v at path %q which is already a leaf with value %#v", value, path, t.leafBranch)
+		return fmt.Errorf("attempted to add value %v at path %q which is already a leaf with value %v", value, path, t.leafBranch)
 	}
 }
 
@@ -172,7 +172,7 @@ func (t *Tree) intermediateAdd(path []string, value interface{}) error {
 	case branch:
 		br = b[path[0]]
 	default:
-		return fmt.Errorf("attempted to add value %#v at path %q which is already a leaf with value %#v", value, path, t.leafBranch)
+		return fmt.Errorf("attempted to add value %v at path %q which is already a leaf with value %v", value, path, t.leafBranch)
 	}
 	if br == nil {
 		// Exchange the reader lock on t for a writer lock to add new node(s) to the
-- 
2.43.0


From b5be9b12292d9944e27b278bfbde63c7161bbe57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:28 +0000
Subject: [PATCH 31/31] fix: cache: remove the stored value of deleted string
 metadata

Reset deletes the connectError metadata value, but the leaf stored for it
stayed in the cache, so a target that was reset kept showing the error of
the connection it had before.
---
 cache/cache.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cache/cache.go b/cache/cache.go
index 7ca4659..fee9aaf 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -789,11 +789,15 @@ func (t *Target) generateMetaUpdates(clients func(*ctree.Leaf)) {
 		if t.excludedMeta.Contains(value) {
 			continue
 		}
+		path := metadata.Path(value)
 		v, err := t.meta.GetStr(value)
 		if err != nil {
+			// A value that was deleted is not stored any more.
+			if len(t.t.Delete(path)) > 0 && clients != nil {
+				clients(ctree.DetachedLeaf(deleteNoti(t.name, "", path)))
+			}
 			continue
 		}
-		path := metadata.Path(value)
 		noti := metaNotiStr(t.name, value, v)
 		if t.metaChanged(path, noti) {
 			if n, _ := t.store(noti); n != nil {
-- 
2.43.0

