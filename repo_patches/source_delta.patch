From 536fa99ecf1ad3d24e7f08e490f65d6ce9e0d71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:09 +0000
Subject: [PATCH 01/68] fix: update masks with duplicate, overlapping or
 partially writable paths

---
 go.sum              |  1 +
 pkg/masks/update.go | 59 +++++++++++++++++++++++++++++++--------------
 2 files changed, 42 insertions(+), 18 deletions(-)

diff --git a/go.sum b/go.sum
index 36f36f6..0b29f6c 100644
--- a/go.sum
+++ b/go.sum
@@ -27,6 +27,7 @@ github.com/google/go-cmp v0.4.0/go.mod h1:v8dTdLbMG2kIc/vJvl+f65V22dbkXbowE6jgT/
 github.com/google/go-cmp v0.5.5/go.mod h1:v8dTdLbMG2kIc/vJvl+f65V22dbkXbowE6jgT/gNBxE=
 github.com/google/go-cmp v0.6.0 h1:ofyhxvXcZhMsU5ulbFiLKl/XBFqE1GSq7atu8tAmTRI=
 github.com/google/go-cmp v0.6.0/go.mod h1:17dUlkBOakJ0+DkrSSNjCkIjxS6bF9zb3elmeNGIjoY=
+github.com/google/uuid v1.6.0/go.mod h1:TIyPZe4MgqvfeYDBFedMoGGpEw/LqOeaOT+nhxU+yHo=
 github.com/grpc-ecosystem/go-grpc-middleware/v2 v2.1.0 h1:pRhl55Yx1eC7BZ1N+BBWwnKaMyD8uC+34TLdndZMAKk=
 github.com/grpc-ecosystem/go-grpc-middleware/v2 v2.1.0/go.mod h1:XKMd7iuf/RGPSMJ/U4HP0zS2Z9Fh8Ps9a+6X26m/tmI=
 github.com/kr/pretty v0.1.0/go.mod h1:dAy3ld7l9f0ibDNOQOHHMYYIIbhfbHSm3C4ZsoJORNo=
diff --git a/pkg/masks/update.go b/pkg/masks/update.go
index cdf66a0..0093ebc 100644
--- a/pkg/masks/update.go
+++ b/pkg/masks/update.go
@@ -38,9 +38,12 @@ func (f *FieldUpdater) Validate(m proto.Message) error {
 
 		// are fields mentioned in the update mask actually writable?
 		if f.writableFields != nil {
-			common := f.fullMask()
-			if len(common.Paths) != len(f.updateMask.Paths) {
-				return status.Errorf(codes.InvalidArgument, "%v mentions read-only fields", f.updateMaskFieldName)
+			for _, path := range f.updateMask.GetPaths() {
+				// check each path on its own, the update mask may contain duplicate or overlapping paths
+				common := fieldmaskpb.Intersect(f.writableFields, &fieldmaskpb.FieldMask{Paths: []string{path}})
+				if len(common.GetPaths()) == 0 {
+					return status.Errorf(codes.InvalidArgument, "%v mentions read-only fields", f.updateMaskFieldName)
+				}
 			}
 		}
 	}
@@ -55,20 +58,32 @@ func (f *FieldUpdater) Validate(m proto.Message) error {
 
 // Merge copies the values in src into dst based on the configured field masks.
 func (f *FieldUpdater) Merge(dst, src proto.Message) {
+	if f.updateMask != nil && len(f.updateMask.GetPaths()) == 0 {
+		return // non-nil mask with no paths => no changes
+	}
+
+	f.mergeWritable(dst, src)
+
+	if f.resetMask != nil {
+		nestedMaskFromPaths(f.resetMask.GetPaths()).Prune(dst)
+	}
+}
+
+// mergeWritable copies the values in src into dst for fields that are both writable and mentioned in the update mask.
+func (f *FieldUpdater) mergeWritable(dst, src proto.Message) {
 	if f.writableFields != nil && len(f.writableFields.Paths) == 0 {
 		return // nothing is writable
 	}
 
 	var writableMask fmutils.NestedMask
 	if f.writableFields != nil {
-		writableMask = fmutils.NestedMaskFromPaths(f.writableFields.Paths)
+		writableMask = nestedMaskFromPaths(f.writableFields.Paths)
 	}
 
 	// only allow writing writable fields by resetting non-writable fields in src
 	writableMask.Filter(src)
 
-	mask := f.updateMask
-	if mask == nil {
+	if f.updateMask == nil {
 		// no mask, make dst look like src
 		if writableMask == nil {
 			// if all fields are writable then reset all fields
@@ -77,23 +92,19 @@ func (f *FieldUpdater) Merge(dst, src proto.Message) {
 			// if only some fields are writable then reset only those
 			writableMask.Prune(dst)
 		}
-	} else if len(mask.GetPaths()) == 0 {
-		// non-nil mask with no paths => no changes
+		proto.Merge(dst, src)
 		return
 	}
 
-	nestedMask := fmutils.NestedMaskFromPaths(mask.GetPaths())
+	mask := f.fullMask() // never touch fields that aren't writable, even if the update mask mentions a parent of one
+	if len(mask.GetPaths()) == 0 {
+		return // nothing mentioned by the update mask is writable
+	}
+	nestedMask := nestedMaskFromPaths(mask.GetPaths())
 	nestedMask.Filter(src)
 	proto.Merge(dst, src)
-
 	// if a field mentioned by the mask is nil, we should clear it
 	pruneEmpty(dst, src, nestedMask)
-
-	if f.resetMask != nil {
-		fmutils.Prune(dst, f.resetMask.Paths)
-	}
-
-	return
 }
 
 func pruneEmpty(dst, src proto.Message, mask fmutils.NestedMask) {
@@ -104,10 +115,14 @@ func pruneEmpty(dst, src proto.Message, mask fmutils.NestedMask) {
 		if !ok {
 			return true
 		}
-		if !srcPr.Has(d) {
-			dstPr.Clear(d)
+		if len(fieldMask) == 0 {
+			// the mask mentions the field itself
+			if !srcPr.Has(d) {
+				dstPr.Clear(d)
+			}
 			return true
 		}
+		// the mask only mentions some fields of the message, if src doesn't have that message then only those are cleared
 		if d.Kind() == protoreflect.MessageKind && d.Cardinality() != protoreflect.Repeated {
 			pruneEmpty(dstPr.Get(d).Message().Interface(), srcPr.Get(d).Message().Interface(), fieldMask)
 		}
@@ -115,6 +130,14 @@ func pruneEmpty(dst, src proto.Message, mask fmutils.NestedMask) {
 	})
 }
 
+// nestedMaskFromPaths is like fmutils.NestedMaskFromPaths except that paths covered by other paths don't narrow them,
+// for example {a, a.b} is the same as {a}.
+func nestedMaskFromPaths(paths []string) fmutils.NestedMask {
+	normal := &fieldmaskpb.FieldMask{Paths: append([]string(nil), paths...)}
+	normal.Normalize()
+	return fmutils.NestedMaskFromPaths(normal.Paths)
+}
+
 func (f *FieldUpdater) fullMask() *fieldmaskpb.FieldMask {
 	if f.intersectionMask == nil {
 		var nonNilMasks []*fieldmaskpb.FieldMask
-- 
2.43.0


From 4b95207c9a8427e389ff83461bd7af24a1a70ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:57 +0000
Subject: [PATCH 02/68] fix: read masks that overlap or continue through fields
 without sub-fields

---
 pkg/masks/get.go | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/pkg/masks/get.go b/pkg/masks/get.go
index 1767b89..df3754d 100644
--- a/pkg/masks/get.go
+++ b/pkg/masks/get.go
@@ -5,6 +5,7 @@ import (
 	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/status"
 	"google.golang.org/protobuf/proto"
+	"google.golang.org/protobuf/reflect/protoreflect"
 	"google.golang.org/protobuf/types/known/fieldmaskpb"
 )
 
@@ -45,7 +46,7 @@ func (r *ResponseFilter) Filter(msg proto.Message) {
 		proto.Reset(msg)
 		return
 	}
-	fmutils.Filter(msg, r.fields.GetPaths())
+	filter(msg.ProtoReflect(), nestedMaskFromPaths(r.fields.GetPaths()))
 }
 
 // FilterClone is like Filter but clones and returns a new msg instead of modifying the original.
@@ -62,10 +63,35 @@ func (r *ResponseFilter) FilterClone(msg proto.Message) proto.Message {
 		return clone
 	}
 	clone := proto.Clone(msg)
-	fmutils.Filter(clone, r.fields.GetPaths())
+	filter(clone.ProtoReflect(), nestedMaskFromPaths(r.fields.GetPaths()))
 	return clone
 }
 
+// filter is like mask.Filter but does not panic if mask contains paths that continue through fields that don't have any
+// sub-fields: maps, scalars, and lists of scalars. Those paths select the entire field.
+func filter(msg protoreflect.Message, mask fmutils.NestedMask) {
+	if len(mask) == 0 {
+		return
+	}
+	msg.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
+		fieldMask, ok := mask[string(fd.Name())]
+		switch {
+		case !ok:
+			msg.Clear(fd)
+		case fd.Message() == nil || fd.IsMap():
+			// no sub-fields to filter
+		case fd.IsList():
+			list := v.List()
+			for i := 0; i < list.Len(); i++ {
+				filter(list.Get(i).Message(), fieldMask)
+			}
+		default:
+			filter(v.Message(), fieldMask)
+		}
+		return true
+	})
+}
+
 type ResponseFilterOption func(*ResponseFilter)
 
 var emptyResponseFilterOption ResponseFilterOption = func(_ *ResponseFilter) {
-- 
2.43.0


From b9f18f61fec7c767ff3612b21cf0265c8b51ac64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:07 +0000
Subject: [PATCH 03/68] fix: generated ids are stored using the intercepted id
 and don't race

Ids generated by Collection.Update are now passed through the id interceptor before being used, otherwise the item
couldn't be found using the id reported by the id callback. The rng used to generate ids is guarded by a mutex, it
was being used with only a read lock held.
---
 pkg/resource/collection.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index 82fba45..681afb0 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -19,8 +19,10 @@ import (
 type Collection struct {
 	*config
 
-	mu   sync.RWMutex // protects byId and rng from concurrent access
+	mu   sync.RWMutex // protects byId from concurrent access
 	byId map[string]*item
+
+	rngMu sync.Mutex // protects rng from concurrent access
 	// "change" events contain a *CollectionChange instance
 	bus minibus.Bus
 }
@@ -121,6 +123,9 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 				if writeRequest.idCallback != nil {
 					writeRequest.idCallback(id)
 				}
+				if c.idInterceptor != nil {
+					id = c.idInterceptor(id) // items are always stored using the intercepted id
+				}
 			}
 
 			val, exists := c.byId[id]
@@ -343,6 +348,8 @@ func (c *Collection) itemSlice(readConfig *ReadRequest) []idItem {
 }
 
 func (c *Collection) genID() (string, error) {
+	c.rngMu.Lock()
+	defer c.rngMu.Unlock()
 	return GenerateUniqueId(c.rng, func(candidate string) bool {
 		if c.idInterceptor != nil {
 			candidate = c.idInterceptor(candidate)
-- 
2.43.0


From 97e8c7e2cfc94a8bd676e67041489365680123aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:44 +0000
Subject: [PATCH 04/68] fix: concurrent creates of the same id don't overwrite
 each other

Collection.Update checks that an item it is about to create is still absent once it holds the lock, GetAndUpdate
honours errors from the second get.
---
 pkg/resource/atomic.go     |  5 ++++-
 pkg/resource/collection.go | 17 +++++++++++++++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/pkg/resource/atomic.go b/pkg/resource/atomic.go
index 2753f30..a2bae64 100644
--- a/pkg/resource/atomic.go
+++ b/pkg/resource/atomic.go
@@ -45,7 +45,10 @@ func GetAndUpdate(mu *sync.RWMutex, get GetFn, change ChangeFn, save SaveFn) (ol
 
 	mu.Lock()
 	defer mu.Unlock()
-	oldValueAgain, _ := get()
+	oldValueAgain, err := get()
+	if err != nil {
+		return oldValue, newValue, err
+	}
 	if !proto.Equal(oldValue, oldValueAgain) {
 		return oldValue, newValue, status.Errorf(codes.Aborted, "concurrent update detected")
 	}
diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index 681afb0..9910862 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -106,13 +106,26 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 		return nil, err
 	}
 
+	var read bool             // true once GetFn has been called once
 	var created proto.Message // during create, this is returned by GetFn so concurrent reference checks pass
 	oldValue, newValue, err := GetAndUpdate(
 		&c.mu,
 		func() (item proto.Message, err error) {
-			if created != nil {
-				return created, nil
+			if read {
+				// second call, check that our decisions from the first call still hold
+				val, exists := c.byId[id]
+				switch {
+				case exists && created == nil:
+					return val.body, nil
+				case !exists && created != nil:
+					return created, nil
+				case exists && writeRequest.expectAbsent:
+					return nil, ExpectAbsentPreconditionFailed
+				default:
+					return nil, status.Error(codes.Aborted, "concurrent update detected")
+				}
 			}
+			read = true
 
 			// handle empty ids, generating them, and invoking callbacks
 			if id == "" && writeRequest.genEmptyID {
-- 
2.43.0


From 6ee149d4f1e6052a96e5d83d69a7c2159a2ae45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:20 +0000
Subject: [PATCH 05/68] fix: publish changes in the order they were saved

The place of a change in the order of events is now decided while holding the lock that protects the stored value,
before it was a race between writers after they'd released the lock and subscribers could end up with stale values.
It also means a subscriber gets exactly those changes made after its seed, and each event has the change time that was
stored. A listener that doesn't receive an event before the send is cancelled doesn't stop others from receiving it and
Collection.Delete no longer holds the lock while waiting for subscribers.
---
 internal/minibus/bus.go    | 114 +++++++++++++++++++++++++++++--------
 pkg/resource/collection.go |  18 ++++--
 pkg/resource/value.go      |  12 +++-
 3 files changed, 110 insertions(+), 34 deletions(-)

diff --git a/internal/minibus/bus.go b/internal/minibus/bus.go
index d90ab28..c3bdacd 100644
--- a/internal/minibus/bus.go
+++ b/internal/minibus/bus.go
@@ -10,34 +10,28 @@ type Bus struct {
 	listeners []*listener
 }
 
+// Send sends event to all listeners, returning once each listener has received the event or no longer wants it.
+// Send returns false if ctx is done before all listeners have received the event.
+// Listeners are independent of each other, a listener that doesn't receive the event does not affect the others.
 func (b *Bus) Send(ctx context.Context, event any) (ok bool) {
-	// create a copy of the listeners so avoid holding the mutex a long time
-	var listeners []*listener
-	b.listenerM.RLock()
-	for _, l := range b.listeners {
-		listeners = append(listeners, l)
-	}
-	b.listenerM.RUnlock()
-
-	needGc := false
-
-	// send the event to each listener that's not closed
-	for _, l := range listeners {
-		ok, active := l.send(ctx, event)
-		if !ok {
-			return false
-		}
-		if !active {
-			// the listen context on this listener has been cancelled, we need to collect the garbage
-			needGc = true
-		}
-	}
+	return b.Reserve().Send(ctx, event)
+}
 
-	if needGc {
-		b.collect()
+// Reserve captures the current listeners of the bus along with our place in the order of events sent to them.
+// Callers must call Reservation.Send, events with a later reservation are not delivered until this one has been.
+//
+// Reserve does not block on any listener, making it possible to decide on the order of events while holding a lock and
+// to send the event after that lock has been released.
+func (b *Bus) Reserve() *Reservation {
+	b.listenerM.Lock()
+	defer b.listenerM.Unlock()
+	r := &Reservation{bus: b}
+	for _, l := range b.listeners {
+		t := turn{listener: l, prev: l.lastTurn, done: make(chan struct{})}
+		l.lastTurn = t.done
+		r.turns = append(r.turns, t)
 	}
-
-	return true
+	return r
 }
 
 func (b *Bus) collect() {
@@ -75,10 +69,80 @@ func (b *Bus) Listen(ctx context.Context) <-chan any {
 	return ch
 }
 
+// Reservation is a place in the order of events sent to listeners of a Bus.
+type Reservation struct {
+	bus   *Bus
+	turns []turn
+}
+
+// Send is like Bus.Send but only sends to those listeners captured by Bus.Reserve and in the order of reservations.
+// Send must be called exactly once.
+func (r *Reservation) Send(ctx context.Context, event any) (ok bool) {
+	type result struct{ ok, active bool }
+	results := make(chan result, len(r.turns))
+	// send the event to each listener that's not closed
+	for i, t := range r.turns {
+		send := func() {
+			ok, active := t.send(ctx, event)
+			results <- result{ok, active}
+		}
+		if i < len(r.turns)-1 {
+			go send()
+		} else {
+			send() // we'd only be waiting for the go routine anyway
+		}
+	}
+
+	ok = true
+	needGc := false
+	for range r.turns {
+		res := <-results
+		if !res.ok {
+			ok = false
+		}
+		if !res.active {
+			// the listen context on this listener has been cancelled, we need to collect the garbage
+			needGc = true
+		}
+	}
+
+	if needGc {
+		r.bus.collect()
+	}
+
+	return ok
+}
+
+// turn is a place in the order of events sent to a single listener.
+type turn struct {
+	listener *listener
+	prev     <-chan struct{} // closed when it's our turn, nil if there's nobody before us
+	done     chan struct{}   // closed by us when it's the turn of whoever is next
+}
+
+func (t turn) send(ctx context.Context, event any) (ok bool, active bool) {
+	if t.prev != nil {
+		select {
+		case <-t.prev:
+		case <-ctx.Done():
+			// we gave up, but those after us still need to wait for those before us
+			go func() {
+				<-t.prev
+				close(t.done)
+			}()
+			return false, true
+		}
+	}
+	defer close(t.done)
+	return t.listener.send(ctx, event)
+}
+
 type listener struct {
 	m   sync.RWMutex
 	ch  chan any
 	ctx context.Context
+
+	lastTurn <-chan struct{} // turn.done of the most recent reservation, protected by Bus.listenerM
 }
 
 func (l *listener) send(ctx context.Context, event any) (ok bool, active bool) {
diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index 9910862..83ba8fe 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -108,6 +108,8 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 
 	var read bool             // true once GetFn has been called once
 	var created proto.Message // during create, this is returned by GetFn so concurrent reference checks pass
+	var changeTime time.Time
+	var publish *minibus.Reservation
 	oldValue, newValue, err := GetAndUpdate(
 		&c.mu,
 		func() (item proto.Message, err error) {
@@ -159,7 +161,9 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 		},
 		writeRequest.changeFn(writer, msg),
 		func(msg proto.Message) {
-			c.byId[id] = &item{body: msg, changeTime: writeRequest.updateTime(c.clock)}
+			changeTime = writeRequest.updateTime(c.clock)
+			c.byId[id] = &item{body: msg, changeTime: changeTime}
+			publish = c.bus.Reserve() // publish changes in the order they are saved
 		})
 
 	if err != nil {
@@ -173,9 +177,9 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 		changeType = types.ChangeType_ADD
 		oldValue = nil
 	}
-	c.bus.Send(context.TODO(), &CollectionChange{
+	publish.Send(context.TODO(), &CollectionChange{
 		Id:         id,
-		ChangeTime: writeRequest.updateTime(c.clock),
+		ChangeTime: changeTime,
 		ChangeType: changeType,
 		OldValue:   oldValue,
 		NewValue:   newValue,
@@ -224,14 +228,16 @@ func (c *Collection) Delete(id string, opts ...WriteOption) (proto.Message, erro
 		}
 
 		// actually do the delete
+		changeTime := c.clock.Now()
 		delete(c.byId, id)
-		c.bus.Send(context.TODO(), &CollectionChange{
+		publish := c.bus.Reserve() // publish changes in the order they are saved
+		c.mu.Unlock()
+		publish.Send(context.TODO(), &CollectionChange{
 			Id:         id,
-			ChangeTime: c.clock.Now(),
+			ChangeTime: changeTime,
 			ChangeType: types.ChangeType_REMOVE,
 			OldValue:   oldVal.body,
 		})
-		c.mu.Unlock()
 		return oldVal.body, nil
 	}
 
diff --git a/pkg/resource/value.go b/pkg/resource/value.go
index 1a81a43..d5bd9a4 100644
--- a/pkg/resource/value.go
+++ b/pkg/resource/value.go
@@ -58,6 +58,10 @@ func (r *Value) set(value proto.Message, request WriteRequest) (proto.Message, e
 		return nil, err
 	}
 
+	var (
+		changeTime time.Time
+		publish    *minibus.Reservation
+	)
 	disarm := timeoutAlarm(time.Second, "GetAndUpdate took too long")
 	_, newValue, err := GetAndUpdate(
 		&r.mu,
@@ -66,8 +70,10 @@ func (r *Value) set(value proto.Message, request WriteRequest) (proto.Message, e
 		},
 		request.changeFn(writer, value),
 		func(message proto.Message) {
+			changeTime = request.updateTime(r.clock)
 			r.value = message
-			r.changeTime = request.updateTime(r.clock)
+			r.changeTime = changeTime
+			publish = r.bus.Reserve() // publish changes in the order they are saved
 		},
 	)
 	disarm()
@@ -78,9 +84,9 @@ func (r *Value) set(value proto.Message, request WriteRequest) (proto.Message, e
 
 	ctx, cancel := context.WithTimeout(context.TODO(), time.Second*5)
 	defer cancel()
-	r.bus.Send(ctx, &ValueChange{
+	publish.Send(ctx, &ValueChange{
 		Value:      newValue,
-		ChangeTime: request.updateTime(r.clock),
+		ChangeTime: changeTime,
 	})
 	if errors.Is(ctx.Err(), context.DeadlineExceeded) {
 		return nil, errors.New("bus.Send blocked for too long")
-- 
2.43.0


From 53232024ee4676c9d200a84a23d2b67d4a6893b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:20 +0000
Subject: [PATCH 06/68] fix: Collection.Delete uses the given write time

---
 pkg/resource/collection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index 83ba8fe..87c9388 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -228,7 +228,7 @@ func (c *Collection) Delete(id string, opts ...WriteOption) (proto.Message, erro
 		}
 
 		// actually do the delete
-		changeTime := c.clock.Now()
+		changeTime := args.updateTime(c.clock)
 		delete(c.byId, id)
 		publish := c.bus.Reserve() // publish changes in the order they are saved
 		c.mu.Unlock()
-- 
2.43.0


From 873f5ef07cfbc8438a56d8225d6b6fef58a0be1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:33 +0000
Subject: [PATCH 07/68] fix: changes to items that stay included are sent,
 those to items that stay excluded aren't

The include decision in CollectionChange was inverted and asked the predicate about absent values.
---
 pkg/resource/change.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/resource/change.go b/pkg/resource/change.go
index b52cf69..9749725 100644
--- a/pkg/resource/change.go
+++ b/pkg/resource/change.go
@@ -84,11 +84,12 @@ func (c *CollectionChange) include(includeFunc FilterFunc) (newChange *Collectio
 		return c, true
 	}
 
-	oldInclude := includeFunc(c.Id, c.OldValue)
-	newInclude := includeFunc(c.Id, c.NewValue)
+	// absent values are never part of the collection, no matter what the includeFunc has to say about them
+	oldInclude := c.OldValue != nil && includeFunc(c.Id, c.OldValue)
+	newInclude := c.NewValue != nil && includeFunc(c.Id, c.NewValue)
 	if oldInclude == newInclude {
 		// the only time we want to skip sending the update is if both the old and new values are excluded
-		return c, !newInclude
+		return c, newInclude
 	}
 
 	if newInclude {
-- 
2.43.0


From e16e3eb9f879f637884fbc2ff5183583f144eebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:55 +0000
Subject: [PATCH 08/68] fix: PullID subscribes before returning and ends its
 subscription when the item is removed

When the item was removed the subscription to the collection was left behind, with nobody receiving from it, blocking
writes to the collection when using backpressure.
---
 pkg/resource/collection.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index 87c9388..9111145 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -305,10 +305,14 @@ func (c *Collection) PullID(ctx context.Context, id string, opts ...ReadOption)
 		id = c.idInterceptor(id)
 	}
 
+	// make sure the underlying subscription ends when this one does, i.e. if the item is removed
+	ctx, cancel := context.WithCancel(ctx)
+	changes := c.Pull(ctx, opts...) // before we return, so the caller doesn't miss any changes they make
 	send := make(chan *ValueChange)
 	go func() {
 		defer close(send)
-		for change := range c.Pull(ctx, opts...) {
+		defer cancel()
+		for change := range changes {
 			if change.Id != id {
 				continue
 			}
-- 
2.43.0


From c7fe96055b3933e65b0e57229d5e220b2564efbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:18 +0000
Subject: [PATCH 09/68] fix: PullID flags its only seed as the last seed

---
 pkg/resource/collection.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index 9111145..311fca3 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -330,7 +330,12 @@ func (c *Collection) PullID(ctx context.Context, id string, opts ...ReadOption)
 			select {
 			case <-ctx.Done():
 				return
-			case send <- &ValueChange{ChangeTime: change.ChangeTime, Value: change.NewValue, SeedValue: change.SeedValue, LastSeedValue: change.LastSeedValue}:
+			case send <- &ValueChange{
+				ChangeTime:    change.ChangeTime,
+				Value:         change.NewValue,
+				SeedValue:     change.SeedValue,
+				LastSeedValue: change.SeedValue, // we're only interested in one item, its seed is the last one
+			}:
 			}
 		}
 	}()
-- 
2.43.0


From 647a669a24e613042375561477aafa03d774585d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:37 +0000
Subject: [PATCH 10/68] fix: equivalence is checked against what the subscriber
 holds

Value compared the first update to the unfiltered seed, Collection compared consecutive writes which meant small changes
could add up without ever being sent.
---
 pkg/resource/collection.go | 24 ++++++++++++++++++++++--
 pkg/resource/value.go      |  5 +++--
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index 311fca3..0deae2f 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -254,6 +254,12 @@ func (c *Collection) Pull(ctx context.Context, opts ...ReadOption) <-chan *Colle
 	go func() {
 		defer close(send)
 
+		// the values, after filtering, that have been sent to the subscriber and not removed, used to check equivalence
+		var sent map[string]proto.Message
+		if c.equivalence != nil {
+			sent = make(map[string]proto.Message)
+		}
+
 		if len(currentValues) > 0 {
 			sort.Slice(currentValues, func(i, j int) bool {
 				return currentValues[i].id < currentValues[j].id
@@ -269,6 +275,9 @@ func (c *Collection) Pull(ctx context.Context, opts ...ReadOption) <-chan *Colle
 					LastSeedValue: i == lastIndex,
 				}
 				change = change.filter(filter)
+				if sent != nil {
+					sent[change.Id] = change.NewValue
+				}
 				select {
 				case <-ctx.Done():
 					return
@@ -284,8 +293,19 @@ func (c *Collection) Pull(ctx context.Context, opts ...ReadOption) <-chan *Colle
 				continue
 			}
 			change = change.filter(filter)
-			if c.equivalence != nil && c.equivalence.Compare(change.OldValue, change.NewValue) {
-				continue
+			if c.equivalence != nil {
+				held, ok := sent[change.Id]
+				if !ok {
+					held = change.OldValue // assume the subscriber knows about the values that existed before it did
+				}
+				if held != nil && change.NewValue != nil && c.equivalence.Compare(held, change.NewValue) {
+					continue
+				}
+				if change.NewValue != nil {
+					sent[change.Id] = change.NewValue
+				} else {
+					delete(sent, change.Id)
+				}
 			}
 			select {
 			case send <- change:
diff --git a/pkg/resource/value.go b/pkg/resource/value.go
index d5bd9a4..aca4448 100644
--- a/pkg/resource/value.go
+++ b/pkg/resource/value.go
@@ -107,9 +107,11 @@ func (r *Value) Pull(ctx context.Context, opts ...ReadOption) <-chan *ValueChang
 	go func() {
 		defer close(typedEvents)
 
+		var last proto.Message // as seen by the subscriber, i.e. after filtering
 		if currentValue != nil {
 			change := &ValueChange{Value: currentValue, ChangeTime: changeTime, SeedValue: true, LastSeedValue: true}
 			change = change.filter(filter)
+			last = change.Value
 			select {
 			case <-ctx.Done():
 				return // give up sending
@@ -117,10 +119,9 @@ func (r *Value) Pull(ctx context.Context, opts ...ReadOption) <-chan *ValueChang
 			}
 		}
 
-		last := currentValue
 		for event := range on {
 			change := event.(*ValueChange).filter(filter)
-			if r.equivalence != nil && r.equivalence.Compare(last, change.Value) {
+			if r.equivalence != nil && last != nil && r.equivalence.Compare(last, change.Value) {
 				continue
 			}
 			last = change.Value
-- 
2.43.0


From af5db11e8ec19f141917414a4cbcfafe24ec17f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:31 +0000
Subject: [PATCH 11/68] fix: masked updates don't modify the message given by
 the caller

---
 pkg/masks/update.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/masks/update.go b/pkg/masks/update.go
index 0093ebc..51a84af 100644
--- a/pkg/masks/update.go
+++ b/pkg/masks/update.go
@@ -80,6 +80,10 @@ func (f *FieldUpdater) mergeWritable(dst, src proto.Message) {
 		writableMask = nestedMaskFromPaths(f.writableFields.Paths)
 	}
 
+	if writableMask != nil || f.updateMask != nil {
+		src = proto.Clone(src) // src belongs to the caller, don't change it
+	}
+
 	// only allow writing writable fields by resetting non-writable fields in src
 	writableMask.Filter(src)
 
-- 
2.43.0


From e65f0c8b25e468abda343215a6b7225a546fc56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:06 +0000
Subject: [PATCH 12/68] verif: yield points for verification tooling, no-ops
 unless built with the verif tag

---
 internal/minibus/bus.go            |  6 ++++++
 internal/verifyield/yield.go       |  8 ++++++++
 internal/verifyield/yield_verif.go | 23 +++++++++++++++++++++++
 pkg/resource/atomic.go             |  4 ++++
 pkg/resource/collection.go         |  5 +++++
 pkg/resource/value.go              |  3 +++
 6 files changed, 49 insertions(+)
 create mode 100644 internal/verifyield/yield.go
 create mode 100644 internal/verifyield/yield_verif.go

diff --git a/internal/minibus/bus.go b/internal/minibus/bus.go
index c3bdacd..26830e2 100644
--- a/internal/minibus/bus.go
+++ b/internal/minibus/bus.go
@@ -3,6 +3,8 @@ package minibus
 import (
 	"context"
 	"sync"
+
+	"github.com/smart-core-os/sc-golang/internal/verifyield"
 )
 
 type Bus struct {
@@ -58,9 +60,11 @@ func (b *Bus) Listen(ctx context.Context) <-chan any {
 
 	go func() {
 		<-ctx.Done()
+		verifyield.At("minibus.stop")
 		l.stop()
 	}()
 
+	verifyield.At("minibus.listen")
 	// store the listener
 	b.listenerM.Lock()
 	defer b.listenerM.Unlock()
@@ -80,6 +84,7 @@ type Reservation struct {
 func (r *Reservation) Send(ctx context.Context, event any) (ok bool) {
 	type result struct{ ok, active bool }
 	results := make(chan result, len(r.turns))
+	verifyield.At("minibus.send")
 	// send the event to each listener that's not closed
 	for i, t := range r.turns {
 		send := func() {
@@ -146,6 +151,7 @@ type listener struct {
 }
 
 func (l *listener) send(ctx context.Context, event any) (ok bool, active bool) {
+	verifyield.At("minibus.listener.send")
 	l.m.RLock()
 	defer l.m.RUnlock()
 
diff --git a/internal/verifyield/yield.go b/internal/verifyield/yield.go
new file mode 100644
index 0000000..9e02020
--- /dev/null
+++ b/internal/verifyield/yield.go
@@ -0,0 +1,8 @@
+//go:build !verif
+
+// Package verifyield marks points in the code where verification tooling can take control of scheduling.
+// Unless built with the verif tag it does nothing.
+package verifyield
+
+// At does nothing unless built with the verif tag.
+func At(string) {}
diff --git a/internal/verifyield/yield_verif.go b/internal/verifyield/yield_verif.go
new file mode 100644
index 0000000..d7fe35a
--- /dev/null
+++ b/internal/verifyield/yield_verif.go
@@ -0,0 +1,23 @@
+//go:build verif
+
+package verifyield
+
+import "sync/atomic"
+
+var hook atomic.Pointer[func(point string)]
+
+// At calls the hook, if there is one.
+func At(point string) {
+	if fn := hook.Load(); fn != nil {
+		(*fn)(point)
+	}
+}
+
+// Set replaces the hook called by At, nil removes it.
+func Set(fn func(point string)) {
+	if fn == nil {
+		hook.Store(nil)
+		return
+	}
+	hook.Store(&fn)
+}
diff --git a/pkg/resource/atomic.go b/pkg/resource/atomic.go
index a2bae64..c377650 100644
--- a/pkg/resource/atomic.go
+++ b/pkg/resource/atomic.go
@@ -6,6 +6,8 @@ import (
 	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/status"
 	"google.golang.org/protobuf/proto"
+
+	"github.com/smart-core-os/sc-golang/internal/verifyield"
 )
 
 // CreateFn is called to generate a message based on the ID the message is going to have.
@@ -38,11 +40,13 @@ func GetAndUpdate(mu *sync.RWMutex, get GetFn, change ChangeFn, save SaveFn) (ol
 		return nil, nil, err
 	}
 
+	verifyield.At("resource.change")
 	newValue = proto.Clone(oldValue)
 	if newValue, err = change(oldValue, newValue); err != nil {
 		return oldValue, newValue, err
 	}
 
+	verifyield.At("resource.save")
 	mu.Lock()
 	defer mu.Unlock()
 	oldValueAgain, err := get()
diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index 0deae2f..9b2bb99 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -14,6 +14,7 @@ import (
 	"github.com/smart-core-os/sc-api/go/types"
 
 	"github.com/smart-core-os/sc-golang/internal/minibus"
+	"github.com/smart-core-os/sc-golang/internal/verifyield"
 )
 
 type Collection struct {
@@ -177,6 +178,7 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 		changeType = types.ChangeType_ADD
 		oldValue = nil
 	}
+	verifyield.At("resource.publish")
 	publish.Send(context.TODO(), &CollectionChange{
 		Id:         id,
 		ChangeTime: changeTime,
@@ -218,6 +220,7 @@ func (c *Collection) Delete(id string, opts ...WriteOption) (proto.Message, erro
 			return oldVal.body, ExpectedValuePreconditionFailed
 		}
 
+		verifyield.At("resource.delete")
 		c.mu.Lock()
 		oldVal2, exists2 := c.byId[id]
 		if oldVal2 != oldVal || exists2 != exists {
@@ -232,6 +235,7 @@ func (c *Collection) Delete(id string, opts ...WriteOption) (proto.Message, erro
 		delete(c.byId, id)
 		publish := c.bus.Reserve() // publish changes in the order they are saved
 		c.mu.Unlock()
+		verifyield.At("resource.publish")
 		publish.Send(context.TODO(), &CollectionChange{
 			Id:         id,
 			ChangeTime: changeTime,
@@ -370,6 +374,7 @@ func (c *Collection) onUpdate(ctx context.Context, config *ReadRequest) (<-chan
 		res = c.itemSlice(config)
 	}
 
+	verifyield.At("resource.listen")
 	ch := c.bus.Listen(ctx)
 	if !config.Backpressure {
 		ch = mergeCollectionExcess(ch)
diff --git a/pkg/resource/value.go b/pkg/resource/value.go
index aca4448..805bbc7 100644
--- a/pkg/resource/value.go
+++ b/pkg/resource/value.go
@@ -10,6 +10,7 @@ import (
 	"google.golang.org/protobuf/proto"
 
 	"github.com/smart-core-os/sc-golang/internal/minibus"
+	"github.com/smart-core-os/sc-golang/internal/verifyield"
 )
 
 // Value represents a simple state field in an object. Think Temperature or Volume or Occupancy. Use a Value to
@@ -84,6 +85,7 @@ func (r *Value) set(value proto.Message, request WriteRequest) (proto.Message, e
 
 	ctx, cancel := context.WithTimeout(context.TODO(), time.Second*5)
 	defer cancel()
+	verifyield.At("resource.publish")
 	publish.Send(ctx, &ValueChange{
 		Value:      newValue,
 		ChangeTime: changeTime,
@@ -147,6 +149,7 @@ func (r *Value) onUpdate(ctx context.Context, config *ReadRequest) (<-chan any,
 		changeTime = r.changeTime
 	}
 
+	verifyield.At("resource.listen")
 	ch := r.bus.Listen(ctx)
 	if !config.Backpressure {
 		ch = minibus.DropExcess(ch)
-- 
2.43.0


From 5e7b58f79ba0c44e3bd64ab78c01252206ed991e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:31 +0000
Subject: [PATCH 13/68] fix: trait model pulls stop when cancelled while
 sending

Pull methods that forward changes sent to their channel without watching ctx, a subscriber that cancelled without
draining the channel left the forwarding go routine blocked forever.
---
 pkg/trait/accesspb/model.go           |  6 +++++-
 pkg/trait/airqualitysensorpb/model.go |  6 +++++-
 pkg/trait/airtemperaturepb/model.go   |  6 +++++-
 pkg/trait/electricpb/model.go         | 19 +++++++++++++++----
 pkg/trait/energystoragepb/model.go    |  6 +++++-
 pkg/trait/lightpb/model.go            |  6 +++++-
 pkg/trait/meterpb/model.go            |  6 +++++-
 pkg/trait/occupancysensorpb/model.go  |  6 +++++-
 pkg/trait/onoffpb/model.go            |  6 +++++-
 pkg/trait/parentpb/model.go           |  6 +++++-
 pkg/trait/presspb/model.go            |  6 +++++-
 pkg/trait/wastepb/model.go            |  6 +++++-
 12 files changed, 70 insertions(+), 15 deletions(-)

diff --git a/pkg/trait/accesspb/model.go b/pkg/trait/accesspb/model.go
index d80e66c..78e4983 100644
--- a/pkg/trait/accesspb/model.go
+++ b/pkg/trait/accesspb/model.go
@@ -41,9 +41,13 @@ func (m *Model) PullAccessAttempts(ctx context.Context, opts ...resource.ReadOpt
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.AccessAttempt)
-			send <- PullAccessAttemptsChange{
+			select {
+			case <-ctx.Done():
+				return // give up sending
+			case send <- PullAccessAttemptsChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/airqualitysensorpb/model.go b/pkg/trait/airqualitysensorpb/model.go
index 4903204..43b16df 100644
--- a/pkg/trait/airqualitysensorpb/model.go
+++ b/pkg/trait/airqualitysensorpb/model.go
@@ -39,9 +39,13 @@ func (m *Model) PullAirQuality(ctx context.Context, opts ...resource.ReadOption)
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.AirQuality)
-			send <- PullAirQualityChange{
+			select {
+			case <-ctx.Done():
+				return // give up sending
+			case send <- PullAirQualityChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/airtemperaturepb/model.go b/pkg/trait/airtemperaturepb/model.go
index bb14527..8d28b39 100644
--- a/pkg/trait/airtemperaturepb/model.go
+++ b/pkg/trait/airtemperaturepb/model.go
@@ -39,9 +39,13 @@ func (m *Model) PullAirTemperature(ctx context.Context, opts ...resource.ReadOpt
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.AirTemperature)
-			send <- PullAirTemperatureChange{
+			select {
+			case <-ctx.Done():
+				return // give up sending
+			case send <- PullAirTemperatureChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/electricpb/model.go b/pkg/trait/electricpb/model.go
index 585c87d..f9c4ec0 100644
--- a/pkg/trait/electricpb/model.go
+++ b/pkg/trait/electricpb/model.go
@@ -78,9 +78,13 @@ func (m *Model) PullDemand(ctx context.Context, opts ...resource.ReadOption) <-c
 		defer close(send)
 		for change := range recv {
 			demand := change.Value.(*traits.ElectricDemand)
-			send <- PullDemandChange{
+			select {
+			case <-ctx.Done():
+				return // give up sending
+			case send <- PullDemandChange{
 				Value:      demand,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
@@ -121,9 +125,13 @@ func (m *Model) PullActiveMode(ctx context.Context, opts ...resource.ReadOption)
 		defer close(send)
 		for change := range recv {
 			activeMode := change.Value.(*traits.ElectricMode)
-			send <- PullActiveModeChange{
+			select {
+			case <-ctx.Done():
+				return // give up sending
+			case send <- PullActiveModeChange{
 				ActiveMode: activeMode,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
@@ -328,7 +336,6 @@ func (m *Model) PullModes(ctx context.Context, opts ...resource.ReadOption) <-ch
 
 	go func() {
 		defer close(send)
-		// no need to listen to ctx.Done, as modes.Pull does that.
 		for change := range recv {
 			var newValue, oldValue *traits.ElectricMode
 			if change.NewValue != nil {
@@ -344,7 +351,11 @@ func (m *Model) PullModes(ctx context.Context, opts ...resource.ReadOption) <-ch
 				NewValue:   newValue,
 				OldValue:   oldValue,
 			}
-			send <- pullChange
+			select {
+			case <-ctx.Done():
+				return // give up sending
+			case send <- pullChange:
+			}
 		}
 	}()
 
diff --git a/pkg/trait/energystoragepb/model.go b/pkg/trait/energystoragepb/model.go
index ef06c0b..46b74b1 100644
--- a/pkg/trait/energystoragepb/model.go
+++ b/pkg/trait/energystoragepb/model.go
@@ -45,9 +45,13 @@ func (m *Model) PullEnergyLevel(ctx context.Context, opts ...resource.ReadOption
 		defer close(send)
 		for change := range recv {
 			demand := change.Value.(*traits.EnergyLevel)
-			send <- PullEnergyLevelChange{
+			select {
+			case <-ctx.Done():
+				return // give up sending
+			case send <- PullEnergyLevelChange{
 				Value:      demand,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/lightpb/model.go b/pkg/trait/lightpb/model.go
index 10c40b6..47fb5b0 100644
--- a/pkg/trait/lightpb/model.go
+++ b/pkg/trait/lightpb/model.go
@@ -44,9 +44,13 @@ func (m *Model) PullBrightness(ctx context.Context, opts ...resource.ReadOption)
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.Brightness)
-			send <- PullBrightnessChange{
+			select {
+			case <-ctx.Done():
+				return // give up sending
+			case send <- PullBrightnessChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/meterpb/model.go b/pkg/trait/meterpb/model.go
index bfccd5a..ed8070b 100644
--- a/pkg/trait/meterpb/model.go
+++ b/pkg/trait/meterpb/model.go
@@ -72,9 +72,13 @@ func (m *Model) PullMeterReadings(ctx context.Context, opts ...resource.ReadOpti
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.MeterReading)
-			send <- PullMeterReadingChange{
+			select {
+			case <-ctx.Done():
+				return // give up sending
+			case send <- PullMeterReadingChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/occupancysensorpb/model.go b/pkg/trait/occupancysensorpb/model.go
index 05fca65..8a2f710 100644
--- a/pkg/trait/occupancysensorpb/model.go
+++ b/pkg/trait/occupancysensorpb/model.go
@@ -40,9 +40,13 @@ func (m *Model) PullOccupancy(ctx context.Context, opts ...resource.ReadOption)
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.Occupancy)
-			send <- PullOccupancyChange{
+			select {
+			case <-ctx.Done():
+				return // give up sending
+			case send <- PullOccupancyChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/onoffpb/model.go b/pkg/trait/onoffpb/model.go
index 0870db7..14d3960 100644
--- a/pkg/trait/onoffpb/model.go
+++ b/pkg/trait/onoffpb/model.go
@@ -39,9 +39,13 @@ func (m *Model) PullOnOff(ctx context.Context, opts ...resource.ReadOption) <-ch
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.OnOff)
-			send <- PullOnOffChange{
+			select {
+			case <-ctx.Done():
+				return // give up sending
+			case send <- PullOnOffChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/parentpb/model.go b/pkg/trait/parentpb/model.go
index a7a8c95..00038ee 100644
--- a/pkg/trait/parentpb/model.go
+++ b/pkg/trait/parentpb/model.go
@@ -118,7 +118,11 @@ func (m *Model) PullChildren(ctx context.Context, opts ...resource.ReadOption) <
 	go func() {
 		defer close(out)
 		for change := range changes {
-			out <- childrenChangeToProto(change)
+			select {
+			case <-ctx.Done():
+				return // give up sending
+			case out <- childrenChangeToProto(change):
+			}
 		}
 	}()
 
diff --git a/pkg/trait/presspb/model.go b/pkg/trait/presspb/model.go
index c025d14..68019d1 100644
--- a/pkg/trait/presspb/model.go
+++ b/pkg/trait/presspb/model.go
@@ -40,10 +40,14 @@ func (m *Model) PullPressedState(ctx context.Context, options ...resource.ReadOp
 		defer close(tx)
 		for change := range rx {
 			value := change.Value.(*traits.PressedState)
-			tx <- PullPressedStateChange{
+			select {
+			case <-ctx.Done():
+				return // give up sending
+			case tx <- PullPressedStateChange{
 				Value:         value,
 				ChangeTime:    change.ChangeTime,
 				LastSeedValue: change.LastSeedValue,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/wastepb/model.go b/pkg/trait/wastepb/model.go
index 7db9ec5..8aa4f7d 100644
--- a/pkg/trait/wastepb/model.go
+++ b/pkg/trait/wastepb/model.go
@@ -143,7 +143,11 @@ func (m *Model) PullWasteRecords(ctx context.Context, opts ...resource.ReadOptio
 				ChangeTime: wr.WasteCreateTime,
 				Type:       types.ChangeType_ADD,
 			}
-			send <- change
+			select {
+			case <-ctx.Done():
+				return // give up sending
+			case send <- change:
+			}
 		}
 	}()
 
-- 
2.43.0


From 92b7177ce4146401490fef76f53d42e0a2fddaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:12 +0000
Subject: [PATCH 14/68] fix: FloatValueApprox is reflexive for NaN and
 infinities

---
 pkg/cmp/number.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/cmp/number.go b/pkg/cmp/number.go
index b874ff2..13324ed 100644
--- a/pkg/cmp/number.go
+++ b/pkg/cmp/number.go
@@ -14,6 +14,12 @@ func FloatValueApprox(fraction, margin float64) Value {
 			return false, false
 		}
 		fx, fy := x.Float(), y.Float()
+		if math.IsNaN(fx) || math.IsNaN(fy) {
+			return math.IsNaN(fx) && math.IsNaN(fy), true
+		}
+		if math.IsInf(fx, 0) || math.IsInf(fy, 0) {
+			return fx == fy, true // nothing is close to infinity
+		}
 		relMarg := fraction * math.Min(math.Abs(fx), math.Abs(fy))
 		return math.Abs(fx-fy) <= math.Max(margin, relMarg), true
 	}
-- 
2.43.0


From 05dd052d8d4dd588f54c4d6ad2d03b7263246057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:12 +0000
Subject: [PATCH 15/68] fix: time and duration comparers don't overflow,
 DurationValueWithinP compares the difference

---
 pkg/cmp/time.go | 49 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/pkg/cmp/time.go b/pkg/cmp/time.go
index f7b980a..5ceef26 100644
--- a/pkg/cmp/time.go
+++ b/pkg/cmp/time.go
@@ -1,6 +1,8 @@
 package cmp
 
 import (
+	"math"
+	"math/big"
 	"time"
 
 	pref "google.golang.org/protobuf/reflect/protoreflect"
@@ -27,15 +29,13 @@ func TimeValueWithin(d time.Duration) Value {
 		}
 
 		xt, yt := toTime(mx), toTime(my)
-		if xt.Before(yt) {
-			return yt.Sub(xt) <= d, true
-		}
-		return xt.Sub(yt) <= d, true
+		return within(xt, yt, d), true
 	}
 }
 
-func toTime(x pref.Message) time.Time {
-	return x.Interface().(*timestamppb.Timestamp).AsTime()
+func toTime(x pref.Message) *big.Int {
+	t := x.Interface().(*timestamppb.Timestamp)
+	return nanos(t.GetSeconds(), t.GetNanos())
 }
 
 // DurationValueWithin considers two durationpb.Duration to be equal if their durations are within d of each other.
@@ -45,10 +45,7 @@ func DurationValueWithin(d time.Duration) Value {
 		if returnEarly {
 			return equal, ok
 		}
-		if xd < yd {
-			return yd-xd <= d, true
-		}
-		return xd-yd <= d, true
+		return within(xd, yd, d), true
 	}
 }
 
@@ -59,15 +56,18 @@ func DurationValueWithinP(p float32) Value {
 		if returnEarly {
 			return equal, ok
 		}
-		pd := float32(xd) / float32(yd)
-		if pd < 0 {
-			pd = -pd
+		smallest := new(big.Int).Abs(xd)
+		if ya := new(big.Int).Abs(yd); ya.Cmp(smallest) < 0 {
+			smallest = ya
 		}
-		return pd < p, true
+		margin, _ := new(big.Float).SetInt(smallest).Float64()
+		margin *= float64(p) / 100
+		diff, _ := new(big.Float).SetInt(new(big.Int).Sub(xd, yd)).Float64()
+		return math.Abs(diff) <= margin, true
 	}
 }
 
-func cmpDuration(fd pref.FieldDescriptor, x, y pref.Value) (xd, yd time.Duration, equal, ok, returnEarly bool) {
+func cmpDuration(fd pref.FieldDescriptor, x, y pref.Value) (xd, yd *big.Int, equal, ok, returnEarly bool) {
 	if fd.Kind() != pref.MessageKind {
 		return xd, yd, false, false, true
 	}
@@ -88,6 +88,21 @@ func cmpDuration(fd pref.FieldDescriptor, x, y pref.Value) (xd, yd time.Duration
 	return xd, yd, false, false, false
 }
 
-func toDuration(x pref.Message) time.Duration {
-	return x.Interface().(*durationpb.Duration).AsDuration()
+func toDuration(x pref.Message) *big.Int {
+	d := x.Interface().(*durationpb.Duration)
+	return nanos(d.GetSeconds(), d.GetNanos())
+}
+
+// nanos returns secs+nanos in nanoseconds.
+// Timestamps and durations cover a much wider range than time.Duration can represent.
+func nanos(secs int64, nanos int32) *big.Int {
+	n := big.NewInt(secs)
+	n.Mul(n, big.NewInt(int64(time.Second)))
+	return n.Add(n, big.NewInt(int64(nanos)))
+}
+
+// within returns whether x and y are at most d apart.
+func within(x, y *big.Int, d time.Duration) bool {
+	diff := new(big.Int).Sub(x, y)
+	return diff.Abs(diff).Cmp(big.NewInt(int64(d))) <= 0
 }
-- 
2.43.0


From 314156842ae22adcfac897047a393935c1c926f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:12 +0000
Subject: [PATCH 16/68] fix: change_time is ignored when only one of the
 messages has it

---
 pkg/cmp/cmp.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pkg/cmp/cmp.go b/pkg/cmp/cmp.go
index 5d37979..66e4caa 100644
--- a/pkg/cmp/cmp.go
+++ b/pkg/cmp/cmp.go
@@ -45,6 +45,9 @@ func (eq equator) equalMessage(mx, my pref.Message) bool {
 	nx := 0
 	equal := true
 	mx.Range(func(fd pref.FieldDescriptor, vx pref.Value) bool {
+		if ignoreField(fd) {
+			return true
+		}
 		nx++
 		vy := my.Get(fd)
 		equal = my.Has(fd) && eq.equalField(fd, vx, vy)
@@ -55,6 +58,9 @@ func (eq equator) equalMessage(mx, my pref.Message) bool {
 	}
 	ny := 0
 	my.Range(func(fd pref.FieldDescriptor, vx pref.Value) bool {
+		if ignoreField(fd) {
+			return true
+		}
 		ny++
 		return true
 	})
@@ -65,12 +71,15 @@ func (eq equator) equalMessage(mx, my pref.Message) bool {
 	return eq.equalUnknown(mx.GetUnknown(), my.GetUnknown())
 }
 
+// ignoreField returns whether fd is not compared, whether it's set or not.
+// This is the case we've added, ignore PullResponse.Change.change_time
+func ignoreField(fd pref.FieldDescriptor) bool {
+	return fd.Name() == "change_time" && fd.ContainingMessage().Name() == "Change"
+}
+
 // equalField compares two fields.
 func (eq equator) equalField(fd pref.FieldDescriptor, x, y pref.Value) bool {
 	switch {
-	// This is the case we've added, ignore PullResponse.Change.change_time
-	case fd.Name() == "change_time" && fd.ContainingMessage().Name() == "Change":
-		return true
 	case fd.IsList():
 		return eq.equalList(fd, x.List(), y.List())
 	case fd.IsMap():
-- 
2.43.0


From 10daa70839dc740927ff368ba0c755fb50c4620e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:00 +0000
Subject: [PATCH 17/68] fix: regenerate the enter leave sensor router, two
 methods were not routed

---
 pkg/trait/enterleavesensorpb/api_router.pb.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pkg/trait/enterleavesensorpb/api_router.pb.go b/pkg/trait/enterleavesensorpb/api_router.pb.go
index 3745447..aae1c5b 100644
--- a/pkg/trait/enterleavesensorpb/api_router.pb.go
+++ b/pkg/trait/enterleavesensorpb/api_router.pb.go
@@ -137,3 +137,21 @@ func (r *ApiRouter) PullEnterLeaveEvents(request *traits.PullEnterLeaveEventsReq
 		return err
 	}
 }
+
+func (r *ApiRouter) GetEnterLeaveEvent(ctx context.Context, request *traits.GetEnterLeaveEventRequest) (*traits.EnterLeaveEvent, error) {
+	child, err := r.GetEnterLeaveSensorApiClient(request.Name)
+	if err != nil {
+		return nil, err
+	}
+
+	return child.GetEnterLeaveEvent(ctx, request)
+}
+
+func (r *ApiRouter) ResetEnterLeaveTotals(ctx context.Context, request *traits.ResetEnterLeaveTotalsRequest) (*traits.ResetEnterLeaveTotalsResponse, error) {
+	child, err := r.GetEnterLeaveSensorApiClient(request.Name)
+	if err != nil {
+		return nil, err
+	}
+
+	return child.ResetEnterLeaveTotals(ctx, request)
+}
-- 
2.43.0


From 2aff84b03a5001f10a6c0d0a208fff1073d0f43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:00 +0000
Subject: [PATCH 18/68] fix: motion sensor info router and wrapper are in the
 files the generators write

---
 .../{info_router.pb.go => sensorinfo_router.pb.go}   | 12 +++++-------
 .../{info_wrap.pb.go => sensorinfo_wrap.pb.go}       |  7 +++----
 2 files changed, 8 insertions(+), 11 deletions(-)
 rename pkg/trait/motionsensorpb/{info_router.pb.go => sensorinfo_router.pb.go} (93%)
 rename pkg/trait/motionsensorpb/{info_wrap.pb.go => sensorinfo_wrap.pb.go} (90%)

diff --git a/pkg/trait/motionsensorpb/info_router.pb.go b/pkg/trait/motionsensorpb/sensorinfo_router.pb.go
similarity index 93%
rename from pkg/trait/motionsensorpb/info_router.pb.go
rename to pkg/trait/motionsensorpb/sensorinfo_router.pb.go
index 6915f8f..cf56851 100644
--- a/pkg/trait/motionsensorpb/info_router.pb.go
+++ b/pkg/trait/motionsensorpb/sensorinfo_router.pb.go
@@ -3,13 +3,11 @@
 package motionsensorpb
 
 import (
-	"context"
-	"fmt"
-
-	"google.golang.org/grpc"
-
-	"github.com/smart-core-os/sc-api/go/traits"
-	"github.com/smart-core-os/sc-golang/pkg/router"
+	context "context"
+	fmt "fmt"
+	traits "github.com/smart-core-os/sc-api/go/traits"
+	router "github.com/smart-core-os/sc-golang/pkg/router"
+	grpc "google.golang.org/grpc"
 )
 
 // SensorInfoRouter is a traits.MotionSensorSensorInfoServer that allows routing named requests to specific traits.MotionSensorSensorInfoClient
diff --git a/pkg/trait/motionsensorpb/info_wrap.pb.go b/pkg/trait/motionsensorpb/sensorinfo_wrap.pb.go
similarity index 90%
rename from pkg/trait/motionsensorpb/info_wrap.pb.go
rename to pkg/trait/motionsensorpb/sensorinfo_wrap.pb.go
index 0a7b258..ab46e2e 100644
--- a/pkg/trait/motionsensorpb/info_wrap.pb.go
+++ b/pkg/trait/motionsensorpb/sensorinfo_wrap.pb.go
@@ -3,10 +3,9 @@
 package motionsensorpb
 
 import (
-	"google.golang.org/grpc"
-
-	"github.com/smart-core-os/sc-api/go/traits"
-	"github.com/smart-core-os/sc-golang/pkg/wrap"
+	traits "github.com/smart-core-os/sc-api/go/traits"
+	wrap "github.com/smart-core-os/sc-golang/pkg/wrap"
+	grpc "google.golang.org/grpc"
 )
 
 // WrapSensorInfo	adapts a traits.MotionSensorSensorInfoServer	and presents it as a traits.MotionSensorSensorInfoClient
-- 
2.43.0


From 921e34f01acae4522b37412f54527e2a5c395ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:52 +0000
Subject: [PATCH 19/68] fix: wrap copies messages while they are sent

Messages were handed over by pointer and merged by the receiver after SendMsg had returned, so the sender changing its
message altered what the receiver got (a data race), and what the receiver had in its message before was kept.
---
 pkg/wrap/stream.go | 47 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/pkg/wrap/stream.go b/pkg/wrap/stream.go
index 39d4121..fa73ee8 100644
--- a/pkg/wrap/stream.go
+++ b/pkg/wrap/stream.go
@@ -7,7 +7,9 @@ import (
 	"sync"
 
 	"google.golang.org/grpc"
+	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/metadata"
+	"google.golang.org/grpc/status"
 	"google.golang.org/protobuf/proto"
 )
 
@@ -19,8 +21,8 @@ type ClientServerStream struct {
 	headerM sync.Mutex    // guards closing of headerC
 	headerC chan struct{} // closed once calls to clientStream.Header should return
 
-	serverSend chan any
-	clientSend chan any
+	serverSend chan proto.Message
+	clientSend chan proto.Message
 	trailer    metadata.MD
 	closed     context.CancelFunc
 	closeErr   error
@@ -32,8 +34,8 @@ func NewClientServerStream(ctx context.Context) *ClientServerStream {
 		ctx:        newCtx,
 		closed:     closed,
 		headerC:    make(chan struct{}),
-		serverSend: make(chan any),
-		clientSend: make(chan any),
+		serverSend: make(chan proto.Message),
+		clientSend: make(chan proto.Message),
 	}
 }
 
@@ -93,10 +95,14 @@ func (c *clientStream) Context() context.Context {
 }
 
 func (c *clientStream) SendMsg(m any) error {
+	msg, err := copyMsg(m)
+	if err != nil {
+		return err
+	}
 	select {
 	case <-c.ctx.Done():
 		return c.closeErrLocked()
-	case c.clientSend <- m:
+	case c.clientSend <- msg:
 		return nil
 	}
 }
@@ -119,7 +125,7 @@ func (c *clientStream) RecvMsg(m any) error {
 		if !ok {
 			return c.closeErrLocked()
 		}
-		return permissiveProtoMerge(m.(proto.Message), val.(proto.Message))
+		return receiveMsg(m, val)
 	}
 }
 
@@ -155,11 +161,15 @@ func (s *serverStream) Context() context.Context {
 }
 
 func (s *serverStream) SendMsg(m any) error {
+	msg, err := copyMsg(m)
+	if err != nil {
+		return err
+	}
 	s.sendHeaderIfNeeded()
 	select {
 	case <-s.ctx.Done():
 		return s.closeErrLocked()
-	case s.serverSend <- m:
+	case s.serverSend <- msg:
 		return nil
 	}
 }
@@ -172,7 +182,7 @@ func (s *serverStream) RecvMsg(m any) error {
 		if !ok {
 			return io.EOF
 		}
-		return permissiveProtoMerge(m.(proto.Message), val.(proto.Message))
+		return receiveMsg(m, val)
 	}
 }
 
@@ -181,6 +191,27 @@ func (s *serverStream) sendHeaderIfNeeded() {
 	_ = s.SendHeader(nil)
 }
 
+// copyMsg copies a message about to be sent.
+// The copy must be made while the sender is still sending: once SendMsg returns the message is the sender's to change.
+func copyMsg(m any) (proto.Message, error) {
+	msg, ok := m.(proto.Message)
+	if !ok {
+		return nil, status.Errorf(codes.Internal, "failed to send, message is %T, want proto.Message", m)
+	}
+	return proto.Clone(msg), nil
+}
+
+// receiveMsg replaces the content of dst with that of src.
+func receiveMsg(dst any, src proto.Message) error {
+	msg, ok := dst.(proto.Message)
+	if !ok {
+		return status.Errorf(codes.Internal, "failed to receive, message is %T, want proto.Message", dst)
+	}
+	// like the gRPC codec, don't mix what is received with what was in the message already
+	proto.Reset(msg)
+	return permissiveProtoMerge(msg, src)
+}
+
 // works like proto.Merge but allows messages with different descriptors by performing a marshal/unmarshal
 //
 // This is the recommended way to do it: https://github.com/golang/protobuf/issues/1163#issuecomment-654334690
-- 
2.43.0


From 6a26998f1864c2c20bca75e3864bbb3967e284d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:20 +0000
Subject: [PATCH 20/68] fix: wrap reports how calls end as gRPC does

- errors of handlers that are no status are converted: io.EOF was taken for success by stream clients, errors of contexts
  had no code
- a call the client cancelled, or whose deadline passed, ends as such, with status, whatever the server does afterwards;
  it could end with io.EOF, or with the server's status, and reading closeErr and trailer was a data race
- the server sees an error in a cancelled stream instead of io.EOF
- the response of a call that isn't server-streaming is one only once the server has returned OK
- the trailer is available only once the server has returned
- the context of unary handlers is done when they return
---
 pkg/wrap/stream.go | 97 +++++++++++++++++++++++++++++++++-------------
 pkg/wrap/wrap.go   | 80 +++++++++++++++++++++++++++++++++-----
 2 files changed, 141 insertions(+), 36 deletions(-)

diff --git a/pkg/wrap/stream.go b/pkg/wrap/stream.go
index fa73ee8..53add77 100644
--- a/pkg/wrap/stream.go
+++ b/pkg/wrap/stream.go
@@ -15,7 +15,8 @@ import (
 
 // ClientServerStream combines both a grpc.ServerStream and grpc.ClientStream
 type ClientServerStream struct {
-	ctx context.Context
+	parent context.Context // the client's
+	ctx    context.Context // done when the parent is, or when the stream is closed
 
 	header  metadata.MD
 	headerM sync.Mutex    // guards closing of headerC
@@ -23,14 +24,19 @@ type ClientServerStream struct {
 
 	serverSend chan proto.Message
 	clientSend chan proto.Message
-	trailer    metadata.MD
 	closed     context.CancelFunc
-	closeErr   error
+
+	endM     sync.Mutex // guards all below
+	trailer  metadata.MD
+	isClosed bool
+	closeErr error
+	abortErr error // not nil if the client gave up before the stream was closed
 }
 
 func NewClientServerStream(ctx context.Context) *ClientServerStream {
 	newCtx, closed := context.WithCancel(ctx)
 	return &ClientServerStream{
+		parent:     ctx,
 		ctx:        newCtx,
 		closed:     closed,
 		headerC:    make(chan struct{}),
@@ -40,19 +46,58 @@ func NewClientServerStream(ctx context.Context) *ClientServerStream {
 }
 
 func (s *ClientServerStream) Close(err error) {
-	s.closeErr = err
-	close(s.serverSend)
+	s.endM.Lock()
+	if s.abortedLocked() == nil {
+		s.isClosed = true
+		s.closeErr = err
+	}
+	s.endM.Unlock()
 	s.closed()
 }
 
-// safe to call if s.serverSend is closed
-func (s *ClientServerStream) closeErrLocked() error {
+// abortedLocked returns the error the client sees if it gave up (its context is done) before the stream was closed.
+func (s *ClientServerStream) abortedLocked() error {
+	if s.abortErr == nil && !s.isClosed && s.parent.Err() != nil {
+		s.abortErr = status.FromContextError(s.parent.Err()).Err()
+	}
+	return s.abortErr
+}
+
+// clientErr returns the outcome of the stream for the client, which ended either because the client gave up or because
+// the stream was closed.
+func (s *ClientServerStream) clientErr() error {
+	s.endM.Lock()
+	defer s.endM.Unlock()
+	if err := s.abortedLocked(); err != nil {
+		return err
+	}
 	if s.closeErr == nil {
 		return io.EOF
 	}
 	return s.closeErr
 }
 
+// clientSendErr returns why the client can't send.
+func (s *ClientServerStream) clientSendErr() error {
+	s.endM.Lock()
+	defer s.endM.Unlock()
+	if err := s.abortedLocked(); err != nil {
+		return err
+	}
+	// as documented on grpc.ClientStream, RecvMsg has the status
+	return io.EOF
+}
+
+// serverErr returns why the server can neither send nor receive.
+func (s *ClientServerStream) serverErr() error {
+	s.endM.Lock()
+	defer s.endM.Unlock()
+	if err := s.abortedLocked(); err != nil {
+		return err
+	}
+	return status.FromContextError(context.Canceled).Err()
+}
+
 func (s *ClientServerStream) Client() grpc.ClientStream {
 	return &clientStream{s}
 }
@@ -82,7 +127,13 @@ func (c *clientStream) Header() (metadata.MD, error) {
 }
 
 func (c *clientStream) Trailer() metadata.MD {
-	return c.trailer
+	c.endM.Lock()
+	defer c.endM.Unlock()
+	if !c.isClosed {
+		// the trailer comes with the status of the server
+		return nil
+	}
+	return c.trailer.Copy()
 }
 
 func (c *clientStream) CloseSend() error {
@@ -101,7 +152,7 @@ func (c *clientStream) SendMsg(m any) error {
 	}
 	select {
 	case <-c.ctx.Done():
-		return c.closeErrLocked()
+		return c.clientSendErr()
 	case c.clientSend <- msg:
 		return nil
 	}
@@ -109,22 +160,9 @@ func (c *clientStream) SendMsg(m any) error {
 
 func (c *clientStream) RecvMsg(m any) error {
 	select {
-	case <-c.Context().Done():
-		// closeErr may or may not be available depending on why the context has ended
-		//  1. if c.closed() was called by c.Close(...), then c.closeErr will be available
-		//  2. if the parent context was cancelled, then c.closeErr may not be available
-		select {
-		case _, ok := <-c.serverSend:
-			if !ok {
-				return c.closeErrLocked()
-			}
-		default:
-		}
-		return c.Context().Err()
-	case val, ok := <-c.serverSend:
-		if !ok {
-			return c.closeErrLocked()
-		}
+	case <-c.ctx.Done():
+		return c.clientErr()
+	case val := <-c.serverSend:
 		return receiveMsg(m, val)
 	}
 }
@@ -153,6 +191,11 @@ func (s *serverStream) SendHeader(md metadata.MD) error {
 }
 
 func (s *serverStream) SetTrailer(md metadata.MD) {
+	s.endM.Lock()
+	defer s.endM.Unlock()
+	if s.isClosed {
+		return
+	}
 	s.trailer = metadata.Join(s.trailer, md)
 }
 
@@ -168,7 +211,7 @@ func (s *serverStream) SendMsg(m any) error {
 	s.sendHeaderIfNeeded()
 	select {
 	case <-s.ctx.Done():
-		return s.closeErrLocked()
+		return s.serverErr()
 	case s.serverSend <- msg:
 		return nil
 	}
@@ -177,7 +220,7 @@ func (s *serverStream) SendMsg(m any) error {
 func (s *serverStream) RecvMsg(m any) error {
 	select {
 	case <-s.Context().Done():
-		return s.closeErrLocked()
+		return s.serverErr()
 	case val, ok := <-s.clientSend:
 		if !ok {
 			return io.EOF
diff --git a/pkg/wrap/wrap.go b/pkg/wrap/wrap.go
index c4cd005..0f46b9d 100644
--- a/pkg/wrap/wrap.go
+++ b/pkg/wrap/wrap.go
@@ -3,12 +3,14 @@ package wrap
 import (
 	"context"
 	"fmt"
+	"io"
 	"reflect"
 
 	"google.golang.org/grpc"
 	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/metadata"
 	"google.golang.org/grpc/status"
+	"google.golang.org/protobuf/proto"
 )
 
 var ErrMethodNotFound = status.Error(codes.Unimplemented, "method not found")
@@ -57,26 +59,29 @@ func (w *wrapper) Invoke(ctx context.Context, method string, args any, reply any
 		return ErrMethodNotFound
 	}
 
-	ctx, clientServerStream, ss, cs := w.startStream(ctx, method)
+	clientServerStream, ss, cs := w.startStream(ctx, method)
 	go func() {
-		res, err := matched.Handler(w.srv, ctx, func(dst any) error {
+		res, err := matched.Handler(w.srv, ss.Context(), func(dst any) error {
 			return ss.RecvMsg(dst)
 		}, nil)
 		if err != nil {
-			clientServerStream.Close(err)
+			clientServerStream.Close(statusError(err))
 			return
 		}
 		err = ss.SendMsg(res)
 		clientServerStream.Close(err)
 	}()
 
-	if err := cs.SendMsg(args); err != nil {
+	if err := cs.SendMsg(args); err != nil && err != io.EOF { // on EOF, RecvMsg returns the status
 		return err
 	}
 	if err := cs.CloseSend(); err != nil {
 		return err
 	}
-	err := cs.RecvMsg(reply)
+	err := recvSingle(cs, reply)
+	if err == io.EOF {
+		err = status.Error(codes.Internal, "server closed the stream without sending a response")
+	}
 
 	mdErr := collectMetadata(cs, opts)
 	if mdErr != nil && err == nil {
@@ -101,16 +106,73 @@ func (w *wrapper) NewStream(ctx context.Context, desc *grpc.StreamDesc, method s
 		return nil, ErrMethodShape
 	}
 
-	ctx, clientServerStream, ss, cs := w.startStream(ctx, method)
+	clientServerStream, ss, cs := w.startStream(ctx, method)
 	go func() {
 		err := matched.Handler(w.srv, ss)
-		clientServerStream.Close(err)
+		clientServerStream.Close(statusError(err))
 	}()
 
+	if !desc.ServerStreams {
+		cs = singleResponseStream{cs}
+	}
+	if !desc.ClientStreams {
+		cs = singleRequestStream{cs}
+	}
 	return cs, nil
 }
 
-func (w *wrapper) startStream(ctx context.Context, method string) (context.Context, *ClientServerStream, grpc.ServerStream, grpc.ClientStream) {
+// singleResponseStream is the client's side of a stream on which the server sends at most one message.
+type singleResponseStream struct {
+	grpc.ClientStream
+}
+
+func (s singleResponseStream) RecvMsg(m any) error {
+	return recvSingle(s.ClientStream, m)
+}
+
+// singleRequestStream is the client's side of a stream on which the client sends one message.
+type singleRequestStream struct {
+	grpc.ClientStream
+}
+
+func (s singleRequestStream) SendMsg(m any) error {
+	err := s.ClientStream.SendMsg(m)
+	if err == io.EOF {
+		// as with gRPC, generated code doesn't expect it, RecvMsg has the status
+		return nil
+	}
+	return err
+}
+
+// recvSingle receives the only response of a call, which is a response only once the server has returned OK.
+func recvSingle(cs grpc.ClientStream, m any) error {
+	if err := cs.RecvMsg(m); err != nil {
+		return err
+	}
+	more := m.(proto.Message).ProtoReflect().New().Interface()
+	switch err := cs.RecvMsg(more); err {
+	case nil:
+		return status.Error(codes.Internal, "server sent more than one message for a non server-streaming call")
+	case io.EOF:
+		return nil
+	default:
+		return err
+	}
+}
+
+// statusError converts an error returned by a handler to the one the client sees.
+func statusError(err error) error {
+	if err == nil {
+		return nil
+	}
+	st, ok := status.FromError(err)
+	if !ok {
+		st = status.FromContextError(err)
+	}
+	return st.Err()
+}
+
+func (w *wrapper) startStream(ctx context.Context, method string) (*ClientServerStream, grpc.ServerStream, grpc.ClientStream) {
 	// convert client's outgoing metadata to server's incoming metadata
 	md, _ := metadata.FromOutgoingContext(ctx)
 	md = cloneMD(md) // to prevent client from concurrently modifying the metadata
@@ -125,7 +187,7 @@ func (w *wrapper) startStream(ctx context.Context, method string) (context.Conte
 	sts.ss = ss
 	cs := clientServerStream.Client()
 
-	return ctx, clientServerStream, ss, cs
+	return clientServerStream, ss, cs
 }
 
 // thin implementation of grpc.ServerTransportStream, only to allow grpc.SetHeader to work,
-- 
2.43.0


From ef93b886e0cf60a947d9d06bef9ad08da416c8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:24 +0000
Subject: [PATCH 21/68] fix: wrap delivers headers that were only set, and none
 after they were sent

Headers a handler set but did not send were lost when it returned without sending a message, and headers set after they
were sent changed what the client sees instead of being refused.
---
 pkg/wrap/stream.go | 47 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 11 deletions(-)

diff --git a/pkg/wrap/stream.go b/pkg/wrap/stream.go
index 53add77..0d11186 100644
--- a/pkg/wrap/stream.go
+++ b/pkg/wrap/stream.go
@@ -19,7 +19,7 @@ type ClientServerStream struct {
 	ctx    context.Context // done when the parent is, or when the stream is closed
 
 	header  metadata.MD
-	headerM sync.Mutex    // guards closing of headerC
+	headerM sync.Mutex    // guards header, and closing of headerC
 	headerC chan struct{} // closed once calls to clientStream.Header should return
 
 	serverSend chan proto.Message
@@ -47,14 +47,31 @@ func NewClientServerStream(ctx context.Context) *ClientServerStream {
 
 func (s *ClientServerStream) Close(err error) {
 	s.endM.Lock()
-	if s.abortedLocked() == nil {
+	aborted := s.abortedLocked() != nil
+	if !aborted {
 		s.isClosed = true
 		s.closeErr = err
 	}
 	s.endM.Unlock()
+	if !aborted {
+		s.sendRemainingHeader()
+	}
 	s.closed()
 }
 
+// sendRemainingHeader sends the header if some was set and none was sent.
+func (s *ClientServerStream) sendRemainingHeader() {
+	s.headerM.Lock()
+	defer s.headerM.Unlock()
+	select {
+	case <-s.headerC:
+	default:
+		if len(s.header) > 0 {
+			close(s.headerC)
+		}
+	}
+}
+
 // abortedLocked returns the error the client sees if it gave up (its context is done) before the stream was closed.
 func (s *ClientServerStream) abortedLocked() error {
 	if s.abortErr == nil && !s.isClosed && s.parent.Err() != nil {
@@ -113,16 +130,17 @@ type clientStream struct {
 func (c *clientStream) Header() (metadata.MD, error) {
 	select {
 	case <-c.ctx.Done():
-		select {
-		case <-c.headerC:
-			// we should still return the headers if we have them, even if the context is done
-			return c.header, nil
-		default:
-			// when the stream is terminated without headers, ClientStream should return a nil error
-			return nil, nil
-		}
 	case <-c.headerC:
-		return c.header, nil
+	}
+	c.headerM.Lock()
+	defer c.headerM.Unlock()
+	select {
+	case <-c.headerC:
+		// we should still return the headers if we have them, even if the context is done
+		return c.header.Copy(), nil
+	default:
+		// when the stream is terminated without headers, ClientStream should return a nil error
+		return nil, nil
 	}
 }
 
@@ -172,6 +190,13 @@ type serverStream struct {
 }
 
 func (s *serverStream) SetHeader(md metadata.MD) error {
+	s.headerM.Lock()
+	defer s.headerM.Unlock()
+	select {
+	case <-s.headerC:
+		return errors.New("headers already sent")
+	default:
+	}
 	s.header = metadata.Join(s.header, md)
 	return nil
 }
-- 
2.43.0


From b8c897760c5f1fefa198fae160d65e30269e6be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:39 +0000
Subject: [PATCH 22/68] fix: wrap allows CloseSend more than once, and refuses
 SendMsg after it

Both panicked, in gRPC the first is allowed and the second an Internal error.
---
 pkg/wrap/stream.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pkg/wrap/stream.go b/pkg/wrap/stream.go
index 0d11186..c58812b 100644
--- a/pkg/wrap/stream.go
+++ b/pkg/wrap/stream.go
@@ -24,6 +24,8 @@ type ClientServerStream struct {
 
 	serverSend chan proto.Message
 	clientSend chan proto.Message
+	sendDone   chan struct{} // closed when the client has closed its side
+	closeSend  sync.Once     // closes sendDone
 	closed     context.CancelFunc
 
 	endM     sync.Mutex // guards all below
@@ -42,6 +44,7 @@ func NewClientServerStream(ctx context.Context) *ClientServerStream {
 		headerC:    make(chan struct{}),
 		serverSend: make(chan proto.Message),
 		clientSend: make(chan proto.Message),
+		sendDone:   make(chan struct{}),
 	}
 }
 
@@ -155,7 +158,7 @@ func (c *clientStream) Trailer() metadata.MD {
 }
 
 func (c *clientStream) CloseSend() error {
-	close(c.clientSend)
+	c.closeSend.Do(func() { close(c.sendDone) })
 	return nil
 }
 
@@ -164,6 +167,11 @@ func (c *clientStream) Context() context.Context {
 }
 
 func (c *clientStream) SendMsg(m any) error {
+	select {
+	case <-c.sendDone:
+		return status.Error(codes.Internal, "SendMsg called after CloseSend")
+	default:
+	}
 	msg, err := copyMsg(m)
 	if err != nil {
 		return err
@@ -246,10 +254,9 @@ func (s *serverStream) RecvMsg(m any) error {
 	select {
 	case <-s.Context().Done():
 		return s.serverErr()
-	case val, ok := <-s.clientSend:
-		if !ok {
-			return io.EOF
-		}
+	case <-s.sendDone:
+		return io.EOF
+	case val := <-s.clientSend:
 		return receiveMsg(m, val)
 	}
 }
-- 
2.43.0


From 77895cfb9b7ed3540db96df0a2922470e04fd93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:55 +0000
Subject: [PATCH 23/68] fix: wrap sends no header to a client that has gone

---
 pkg/wrap/stream.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/wrap/stream.go b/pkg/wrap/stream.go
index c58812b..95fdc52 100644
--- a/pkg/wrap/stream.go
+++ b/pkg/wrap/stream.go
@@ -213,6 +213,10 @@ func (s *serverStream) SendHeader(md metadata.MD) error {
 	s.headerM.Lock()
 	defer s.headerM.Unlock()
 
+	if s.ctx.Err() != nil {
+		// the client is gone, it doesn't get a header any more
+		return s.serverErr()
+	}
 	select {
 	case <-s.headerC:
 		return errors.New("headers already sent")
-- 
2.43.0


From ae013e22d4650cd32da6035bfb363987f4e1b738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 24/68] fix: group execution without members does not panic,
 and members never wait for a caller that has gone

---
 pkg/group/exec.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/pkg/group/exec.go b/pkg/group/exec.go
index 5fc4ad4..0008535 100644
--- a/pkg/group/exec.go
+++ b/pkg/group/exec.go
@@ -39,22 +39,25 @@ func Execute(ctx context.Context, strategy ExecutionStrategy, members []Member)
 		return ExecuteAny(ctx, members)
 	case ExecutionStrategyOne:
 		res, i, err := ExecuteOne(ctx, members)
-		allRes := make([]proto.Message, len(members))
-		allRes[i] = res
-		return allRes, err
+		return resultAt(len(members), i, res), err
 	case ExecutionStrategyFast:
 		res, i, err := ExecuteFast(ctx, members)
-		allRes := make([]proto.Message, len(members))
-		allRes[i] = res
-		return allRes, err
+		return resultAt(len(members), i, res), err
 	case ExecutionStrategyRace:
 		res, i, err := ExecuteRace(ctx, members)
-		allRes := make([]proto.Message, len(members))
-		allRes[i] = res
-		return allRes, err
+		return resultAt(len(members), i, res), err
 	}
 }
 
+// resultAt returns n results with res at index i.
+func resultAt(n, i int, res proto.Message) []proto.Message {
+	results := make([]proto.Message, n)
+	if i < n { // false when there are no members
+		results[i] = res
+	}
+	return results
+}
+
 // ExecuteAll executes all the member functions in parallel,
 // if any return errors then this will return the first reported error.
 // Incomplete executions will have their context cancelled on error,
@@ -169,7 +172,8 @@ func ExecuteRace(ctx context.Context, members []Member) (proto.Message, int, err
 // The returned chan will contain the responses in completion order.
 // The chan will be closed once all members have returned a result.
 func executeEach(ctx context.Context, members []Member) <-chan memberResponse {
-	responses := make(chan memberResponse)
+	// space for all the responses, the caller might not wait for them
+	responses := make(chan memberResponse, len(members))
 	var all sync.WaitGroup
 	all.Add(len(members))
 
-- 
2.43.0


From c67a984728482e96ca7ec9461529e0f75bbcc8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 25/68] fix: lightpb group averages the brightness of the
 members that responded

---
 pkg/trait/lightpb/group.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pkg/trait/lightpb/group.go b/pkg/trait/lightpb/group.go
index 5362aac..4357ca9 100644
--- a/pkg/trait/lightpb/group.go
+++ b/pkg/trait/lightpb/group.go
@@ -163,25 +163,29 @@ func (s *Group) pullBrightnessActions(request *traits.PullBrightnessRequest, mem
 
 func (s *Group) reduce(results []proto.Message) *traits.Brightness {
 	val := new(traits.Brightness)
-	for i, result := range results {
-		if result == nil {
+	n := 0 // how many results are in val, not all members need to have one
+	for _, result := range results {
+		typedResult, _ := result.(*traits.Brightness)
+		if typedResult == nil {
 			continue
 		}
-		typedResult := result.(*traits.Brightness)
-		val = s.reduceBrightness(val, typedResult, i)
+		val = s.reduceBrightness(val, typedResult, n)
+		n++
 	}
 	return val
 }
 
 func (s *Group) reduceBrightnessChanges(arr []*traits.PullBrightnessResponse_Change) *traits.PullBrightnessResponse_Change {
 	val := &traits.PullBrightnessResponse_Change{}
-	for i, change := range arr {
-		if change == nil {
+	n := 0 // how many changes are in val
+	for _, change := range arr {
+		if change.GetBrightness() == nil {
 			// nil changes happen because the incoming array can be partially populated
 			// depending on whether we've received anything from a group member
 			continue
 		}
-		val.Brightness = s.reduceBrightness(val.Brightness, change.Brightness, i)
+		val.Brightness = s.reduceBrightness(val.Brightness, change.Brightness, n)
+		n++
 	}
 	return val
 }
-- 
2.43.0


From 95d6c5571c3b27b88c375a09467d0d378279ecf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:59 +0000
Subject: [PATCH 26/68] fix: paged lists work with any read mask, key, page
 size and page token

---
 pkg/trait/electricpb/model_server.go    | 20 ++++++++++---
 pkg/trait/electricpb/pages.go           | 11 ++++---
 pkg/trait/hailpb/model_server.go        | 20 ++++++++++---
 pkg/trait/hailpb/pages.go               | 11 ++++---
 pkg/trait/parentpb/model_server.go      |  8 +++--
 pkg/trait/parentpb/pages.go             | 11 ++++---
 pkg/trait/publicationpb/model_server.go | 20 ++++++++++---
 pkg/trait/publicationpb/pages.go        | 11 ++++---
 pkg/trait/vendingpb/model_server.go     | 39 ++++++++++++++++++++-----
 pkg/trait/vendingpb/pages.go            | 11 ++++---
 pkg/trait/wastepb/model_server.go       | 15 +++++++---
 11 files changed, 130 insertions(+), 47 deletions(-)

diff --git a/pkg/trait/electricpb/model_server.go b/pkg/trait/electricpb/model_server.go
index 924df5e..f08a48d 100644
--- a/pkg/trait/electricpb/model_server.go
+++ b/pkg/trait/electricpb/model_server.go
@@ -12,6 +12,7 @@ import (
 	"github.com/smart-core-os/sc-api/go/traits"
 	"github.com/smart-core-os/sc-api/go/types"
 
+	"github.com/smart-core-os/sc-golang/pkg/masks"
 	"github.com/smart-core-os/sc-golang/pkg/resource"
 )
 
@@ -104,11 +105,16 @@ func (s *ModelServer) ListModes(_ context.Context, request *traits.ListModesRequ
 	}
 
 	lastKey := pageToken.GetLastResourceName() // the key() of the last item we sent
-	pageSize := capPageSize(int(request.GetPageSize()))
+	pageSize, err := capPageSize(int(request.GetPageSize()))
+	if err != nil {
+		return nil, err
+	}
 
-	sortedModes := s.model.Modes(resource.WithReadMask(request.ReadMask))
+	sortedModes := s.model.Modes() // not filtered, the read mask might not include the key
+	// the model sorts by resource id, which is not the key we search by if there's an IDInterceptor
+	sort.Slice(sortedModes, func(i, j int) bool { return sortedModes[i].Id < sortedModes[j].Id })
 	nextIndex := 0
-	if lastKey != "" {
+	if pageToken.GetPageStart() != nil {
 		nextIndex = sort.Search(len(sortedModes), func(i int) bool {
 			return sortedModes[i].Id > lastKey
 		})
@@ -127,12 +133,18 @@ func (s *ModelServer) ListModes(_ context.Context, request *traits.ListModesRequ
 		}
 	}
 
-	var err error
 	result.NextPageToken, err = encodePageToken(pageToken)
 	if err != nil {
 		return nil, err
 	}
 	result.Modes = sortedModes[nextIndex:upperBound]
+
+	// apply read mask
+	mask := masks.NewResponseFilter(masks.WithFieldMask(request.ReadMask))
+	for i, item := range result.Modes {
+		result.Modes[i] = mask.FilterClone(item).(*traits.ElectricMode)
+	}
+
 	return result, nil
 }
 
diff --git a/pkg/trait/electricpb/pages.go b/pkg/trait/electricpb/pages.go
index 0cad80e..1a458b6 100644
--- a/pkg/trait/electricpb/pages.go
+++ b/pkg/trait/electricpb/pages.go
@@ -15,14 +15,17 @@ const (
 	maxPageSize     = 1000
 )
 
-func capPageSize(pageSize int) int {
+func capPageSize(pageSize int) (int, error) {
+	if pageSize < 0 {
+		return 0, status.Errorf(codes.InvalidArgument, "bad page size: %d", pageSize)
+	}
 	if pageSize == 0 {
-		return defaultPageSize
+		return defaultPageSize, nil
 	}
 	if pageSize > maxPageSize {
-		return maxPageSize
+		return maxPageSize, nil
 	}
-	return pageSize
+	return pageSize, nil
 }
 
 func decodePageToken(token string, pageToken *types.PageToken) error {
diff --git a/pkg/trait/hailpb/model_server.go b/pkg/trait/hailpb/model_server.go
index 663e16f..ee86e91 100644
--- a/pkg/trait/hailpb/model_server.go
+++ b/pkg/trait/hailpb/model_server.go
@@ -11,6 +11,7 @@ import (
 
 	"github.com/smart-core-os/sc-api/go/traits"
 	"github.com/smart-core-os/sc-api/go/types"
+	"github.com/smart-core-os/sc-golang/pkg/masks"
 	"github.com/smart-core-os/sc-golang/pkg/resource"
 )
 
@@ -76,11 +77,16 @@ func (m *ModelServer) ListHails(_ context.Context, request *traits.ListHailsRequ
 	}
 
 	lastKey := pageToken.GetLastResourceName() // the key() of the last item we sent
-	pageSize := capPageSize(int(request.GetPageSize()))
+	pageSize, err := capPageSize(int(request.GetPageSize()))
+	if err != nil {
+		return nil, err
+	}
 
-	sortedItems := m.model.ListHails(resource.WithReadMask(request.ReadMask))
+	sortedItems := m.model.ListHails() // not filtered, the read mask might not include the key
+	// the model sorts by resource id, which is not the key we search by if there's an IDInterceptor
+	sort.Slice(sortedItems, func(i, j int) bool { return sortedItems[i].Id < sortedItems[j].Id })
 	nextIndex := 0
-	if lastKey != "" {
+	if pageToken.GetPageStart() != nil {
 		nextIndex = sort.Search(len(sortedItems), func(i int) bool {
 			return sortedItems[i].Id > lastKey
 		})
@@ -99,12 +105,18 @@ func (m *ModelServer) ListHails(_ context.Context, request *traits.ListHailsRequ
 		}
 	}
 
-	var err error
 	result.NextPageToken, err = encodePageToken(pageToken)
 	if err != nil {
 		return nil, err
 	}
 	result.Hails = sortedItems[nextIndex:upperBound]
+
+	// apply read mask
+	mask := masks.NewResponseFilter(masks.WithFieldMask(request.ReadMask))
+	for i, item := range result.Hails {
+		result.Hails[i] = mask.FilterClone(item).(*traits.Hail)
+	}
+
 	return result, nil
 }
 
diff --git a/pkg/trait/hailpb/pages.go b/pkg/trait/hailpb/pages.go
index 4b8b484..abfe95c 100644
--- a/pkg/trait/hailpb/pages.go
+++ b/pkg/trait/hailpb/pages.go
@@ -15,14 +15,17 @@ const (
 	maxPageSize     = 1000
 )
 
-func capPageSize(pageSize int) int {
+func capPageSize(pageSize int) (int, error) {
+	if pageSize < 0 {
+		return 0, status.Errorf(codes.InvalidArgument, "bad page size: %d", pageSize)
+	}
 	if pageSize == 0 {
-		return defaultPageSize
+		return defaultPageSize, nil
 	}
 	if pageSize > maxPageSize {
-		return maxPageSize
+		return maxPageSize, nil
 	}
-	return pageSize
+	return pageSize, nil
 }
 
 func decodePageToken(token string, pageToken *types.PageToken) error {
diff --git a/pkg/trait/parentpb/model_server.go b/pkg/trait/parentpb/model_server.go
index f03d886..f7d85a8 100644
--- a/pkg/trait/parentpb/model_server.go
+++ b/pkg/trait/parentpb/model_server.go
@@ -31,7 +31,10 @@ func (s *ModelServer) ListChildren(_ context.Context, request *traits.ListChildr
 	}
 
 	lastKey := pageToken.GetLastResourceName() // the key() of the last item we sent
-	pageSize := capPageSize(int(request.GetPageSize()))
+	pageSize, err := capPageSize(int(request.GetPageSize()))
+	if err != nil {
+		return nil, err
+	}
 
 	all := s.model.ListChildren()
 	sort.Slice(all, func(i, j int) bool {
@@ -39,7 +42,7 @@ func (s *ModelServer) ListChildren(_ context.Context, request *traits.ListChildr
 	})
 
 	nextIndex := 0
-	if lastKey != "" {
+	if pageToken.GetPageStart() != nil {
 		nextIndex = sort.Search(len(all), func(i int) bool {
 			return all[i].Name >= lastKey
 		})
@@ -61,7 +64,6 @@ func (s *ModelServer) ListChildren(_ context.Context, request *traits.ListChildr
 		}
 	}
 
-	var err error
 	result.NextPageToken, err = encodePageToken(pageToken)
 	if err != nil {
 		return nil, err
diff --git a/pkg/trait/parentpb/pages.go b/pkg/trait/parentpb/pages.go
index d66501e..fc1b722 100644
--- a/pkg/trait/parentpb/pages.go
+++ b/pkg/trait/parentpb/pages.go
@@ -15,14 +15,17 @@ const (
 	maxPageSize     = 1000
 )
 
-func capPageSize(pageSize int) int {
+func capPageSize(pageSize int) (int, error) {
+	if pageSize < 0 {
+		return 0, status.Errorf(codes.InvalidArgument, "bad page size: %d", pageSize)
+	}
 	if pageSize == 0 {
-		return defaultPageSize
+		return defaultPageSize, nil
 	}
 	if pageSize > maxPageSize {
-		return maxPageSize
+		return maxPageSize, nil
 	}
-	return pageSize
+	return pageSize, nil
 }
 
 func decodePageToken(token string, pageToken *types.PageToken) error {
diff --git a/pkg/trait/publicationpb/model_server.go b/pkg/trait/publicationpb/model_server.go
index 09e24e1..ba1c91d 100644
--- a/pkg/trait/publicationpb/model_server.go
+++ b/pkg/trait/publicationpb/model_server.go
@@ -12,6 +12,7 @@ import (
 
 	"github.com/smart-core-os/sc-api/go/traits"
 	"github.com/smart-core-os/sc-api/go/types"
+	"github.com/smart-core-os/sc-golang/pkg/masks"
 	"github.com/smart-core-os/sc-golang/pkg/resource"
 )
 
@@ -105,11 +106,16 @@ func (m *ModelServer) ListPublications(_ context.Context, request *traits.ListPu
 	}
 
 	lastKey := pageToken.GetLastResourceName() // the key() of the last item we sent
-	pageSize := capPageSize(int(request.GetPageSize()))
+	pageSize, err := capPageSize(int(request.GetPageSize()))
+	if err != nil {
+		return nil, err
+	}
 
-	sortedItems := m.model.ListPublications(resource.WithReadMask(request.ReadMask))
+	sortedItems := m.model.ListPublications() // not filtered, the read mask might not include the key
+	// the model sorts by resource id, which is not the key we search by if there's an IDInterceptor
+	sort.Slice(sortedItems, func(i, j int) bool { return sortedItems[i].Id < sortedItems[j].Id })
 	nextIndex := 0
-	if lastKey != "" {
+	if pageToken.GetPageStart() != nil {
 		nextIndex = sort.Search(len(sortedItems), func(i int) bool {
 			return sortedItems[i].Id > lastKey
 		})
@@ -128,12 +134,18 @@ func (m *ModelServer) ListPublications(_ context.Context, request *traits.ListPu
 		}
 	}
 
-	var err error
 	result.NextPageToken, err = encodePageToken(pageToken)
 	if err != nil {
 		return nil, err
 	}
 	result.Publications = sortedItems[nextIndex:upperBound]
+
+	// apply read mask
+	mask := masks.NewResponseFilter(masks.WithFieldMask(request.ReadMask))
+	for i, item := range result.Publications {
+		result.Publications[i] = mask.FilterClone(item).(*traits.Publication)
+	}
+
 	return result, nil
 }
 
diff --git a/pkg/trait/publicationpb/pages.go b/pkg/trait/publicationpb/pages.go
index bb56648..7456f6a 100644
--- a/pkg/trait/publicationpb/pages.go
+++ b/pkg/trait/publicationpb/pages.go
@@ -15,14 +15,17 @@ const (
 	maxPageSize     = 1000
 )
 
-func capPageSize(pageSize int) int {
+func capPageSize(pageSize int) (int, error) {
+	if pageSize < 0 {
+		return 0, status.Errorf(codes.InvalidArgument, "bad page size: %d", pageSize)
+	}
 	if pageSize == 0 {
-		return defaultPageSize
+		return defaultPageSize, nil
 	}
 	if pageSize > maxPageSize {
-		return maxPageSize
+		return maxPageSize, nil
 	}
-	return pageSize
+	return pageSize, nil
 }
 
 func decodePageToken(token string, pageToken *types.PageToken) error {
diff --git a/pkg/trait/vendingpb/model_server.go b/pkg/trait/vendingpb/model_server.go
index 4e5fb8f..70f8b97 100644
--- a/pkg/trait/vendingpb/model_server.go
+++ b/pkg/trait/vendingpb/model_server.go
@@ -11,6 +11,7 @@ import (
 
 	"github.com/smart-core-os/sc-api/go/traits"
 	"github.com/smart-core-os/sc-api/go/types"
+	"github.com/smart-core-os/sc-golang/pkg/masks"
 	"github.com/smart-core-os/sc-golang/pkg/resource"
 )
 
@@ -39,11 +40,16 @@ func (m *ModelServer) ListConsumables(_ context.Context, request *traits.ListCon
 	}
 
 	lastKey := pageToken.GetLastResourceName() // the key() of the last item we sent
-	pageSize := capPageSize(int(request.GetPageSize()))
+	pageSize, err := capPageSize(int(request.GetPageSize()))
+	if err != nil {
+		return nil, err
+	}
 
-	sortedItems := m.model.ListConsumables(resource.WithReadMask(request.ReadMask))
+	sortedItems := m.model.ListConsumables() // not filtered, the read mask might not include the key
+	// the model sorts by resource id, which is not the key we search by if there's an IDInterceptor
+	sort.Slice(sortedItems, func(i, j int) bool { return sortedItems[i].Name < sortedItems[j].Name })
 	nextIndex := 0
-	if lastKey != "" {
+	if pageToken.GetPageStart() != nil {
 		nextIndex = sort.Search(len(sortedItems), func(i int) bool {
 			return sortedItems[i].Name > lastKey
 		})
@@ -62,12 +68,18 @@ func (m *ModelServer) ListConsumables(_ context.Context, request *traits.ListCon
 		}
 	}
 
-	var err error
 	result.NextPageToken, err = encodePageToken(pageToken)
 	if err != nil {
 		return nil, err
 	}
 	result.Consumables = sortedItems[nextIndex:upperBound]
+
+	// apply read mask
+	mask := masks.NewResponseFilter(masks.WithFieldMask(request.ReadMask))
+	for i, item := range result.Consumables {
+		result.Consumables[i] = mask.FilterClone(item).(*traits.Consumable)
+	}
+
 	return result, nil
 }
 
@@ -117,11 +129,16 @@ func (m *ModelServer) ListInventory(_ context.Context, request *traits.ListInven
 	}
 
 	lastKey := pageToken.GetLastResourceName() // the key() of the last item we sent
-	pageSize := capPageSize(int(request.GetPageSize()))
+	pageSize, err := capPageSize(int(request.GetPageSize()))
+	if err != nil {
+		return nil, err
+	}
 
-	sortedItems := m.model.ListInventory(resource.WithReadMask(request.ReadMask))
+	sortedItems := m.model.ListInventory() // not filtered, the read mask might not include the key
+	// the model sorts by resource id, which is not the key we search by if there's an IDInterceptor
+	sort.Slice(sortedItems, func(i, j int) bool { return sortedItems[i].Consumable < sortedItems[j].Consumable })
 	nextIndex := 0
-	if lastKey != "" {
+	if pageToken.GetPageStart() != nil {
 		nextIndex = sort.Search(len(sortedItems), func(i int) bool {
 			return sortedItems[i].Consumable > lastKey
 		})
@@ -140,12 +157,18 @@ func (m *ModelServer) ListInventory(_ context.Context, request *traits.ListInven
 		}
 	}
 
-	var err error
 	result.NextPageToken, err = encodePageToken(pageToken)
 	if err != nil {
 		return nil, err
 	}
 	result.Inventory = sortedItems[nextIndex:upperBound]
+
+	// apply read mask
+	mask := masks.NewResponseFilter(masks.WithFieldMask(request.ReadMask))
+	for i, item := range result.Inventory {
+		result.Inventory[i] = mask.FilterClone(item).(*traits.Consumable_Stock)
+	}
+
 	return result, nil
 }
 
diff --git a/pkg/trait/vendingpb/pages.go b/pkg/trait/vendingpb/pages.go
index 34f0695..c6b47e9 100644
--- a/pkg/trait/vendingpb/pages.go
+++ b/pkg/trait/vendingpb/pages.go
@@ -15,14 +15,17 @@ const (
 	maxPageSize     = 1000
 )
 
-func capPageSize(pageSize int) int {
+func capPageSize(pageSize int) (int, error) {
+	if pageSize < 0 {
+		return 0, status.Errorf(codes.InvalidArgument, "bad page size: %d", pageSize)
+	}
 	if pageSize == 0 {
-		return defaultPageSize
+		return defaultPageSize, nil
 	}
 	if pageSize > maxPageSize {
-		return maxPageSize
+		return maxPageSize, nil
 	}
-	return pageSize
+	return pageSize, nil
 }
 
 func decodePageToken(token string, pageToken *types.PageToken) error {
diff --git a/pkg/trait/wastepb/model_server.go b/pkg/trait/wastepb/model_server.go
index d94fa22..8f7ce6b 100644
--- a/pkg/trait/wastepb/model_server.go
+++ b/pkg/trait/wastepb/model_server.go
@@ -5,6 +5,8 @@ import (
 	"strconv"
 
 	"google.golang.org/grpc"
+	"google.golang.org/grpc/codes"
+	"google.golang.org/grpc/status"
 
 	"github.com/smart-core-os/sc-api/go/traits"
 )
@@ -33,15 +35,20 @@ func (m *ModelServer) ListWasteRecords(ctx context.Context, req *traits.ListWast
 	pageToken := req.GetPageToken()
 	startIndex := m.model.GetWasteRecordCount()
 	if pageToken != "" {
-		_, err := strconv.Atoi(req.GetPageToken())
+		index, err := strconv.Atoi(pageToken)
 		if err != nil {
-			return nil, err
+			return nil, status.Errorf(codes.InvalidArgument, "bad page token: %v", err)
 		}
-		startIndex, _ = strconv.Atoi(pageToken)
+		if index < 0 || index > startIndex {
+			return nil, status.Errorf(codes.InvalidArgument, "bad page token: %v is not the index of a record", index)
+		}
+		startIndex = index
 	}
 
 	count := req.PageSize
-	if count == 0 {
+	if count < 0 {
+		return nil, status.Errorf(codes.InvalidArgument, "bad page size: %d", count)
+	} else if count == 0 {
 		count = 50
 	} else if count > 1000 {
 		count = 1000
-- 
2.43.0


From 8a226c90f6f291fe78308b85e5ca4c5c6c9eefed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:49 +0000
Subject: [PATCH 27/68] fix: periods intersect only where they have an instant
 in common, timestamps compare as -1, 0 or 1

---
 pkg/time/period.go    |  5 ++++-
 pkg/time/timestamp.go | 15 +++++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/pkg/time/period.go b/pkg/time/period.go
index d775a21..72e98c8 100644
--- a/pkg/time/period.go
+++ b/pkg/time/period.go
@@ -38,7 +38,10 @@ func PeriodsIntersect(p1, p2 *time.Period) bool {
 	p2lower, p2upper := cutPeriod(p2)
 
 	return p1lower.CompareTo(p2upper) < 0 &&
-		p2lower.CompareTo(p1upper) < 0
+		p2lower.CompareTo(p1upper) < 0 &&
+		// an empty period doesn't enclose any non-empty period
+		p1lower.CompareTo(p1upper) < 0 &&
+		p2lower.CompareTo(p2upper) < 0
 }
 
 func AllTime() *time.Period {
diff --git a/pkg/time/timestamp.go b/pkg/time/timestamp.go
index 8c6715e..6cfbdd0 100644
--- a/pkg/time/timestamp.go
+++ b/pkg/time/timestamp.go
@@ -4,9 +4,16 @@ import "google.golang.org/protobuf/types/known/timestamppb"
 
 // CompareAscending returns -1 if t1 is before t2, 1 if t1 is after t2 and 0 if t1 is equal to t2
 func CompareAscending(t1, t2 *timestamppb.Timestamp) int {
-	seconds := t1.Seconds - t2.Seconds
-	if seconds != 0 {
-		return int(seconds)
+	switch {
+	case t1.Seconds < t2.Seconds:
+		return -1
+	case t1.Seconds > t2.Seconds:
+		return 1
+	case t1.Nanos < t2.Nanos:
+		return -1
+	case t1.Nanos > t2.Nanos:
+		return 1
+	default:
+		return 0
 	}
-	return int(t1.Nanos - t2.Nanos)
 }
-- 
2.43.0


From b08edcf0512f1aa107d0fd7e8e386b220745c757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:02 +0000
Subject: [PATCH 28/68] fix: sums of segments and modes keep what never ends,
 and a start at time zero

---
 pkg/trait/electricpb/modepb/sum.go    |  4 ++--
 pkg/trait/electricpb/segmentpb/sum.go | 12 +++++++++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/pkg/trait/electricpb/modepb/sum.go b/pkg/trait/electricpb/modepb/sum.go
index d1c1efd..0a2f9c6 100644
--- a/pkg/trait/electricpb/modepb/sum.go
+++ b/pkg/trait/electricpb/modepb/sum.go
@@ -32,10 +32,10 @@ func Sum(modes ...*traits.ElectricMode) *traits.ElectricMode {
 		if mode.StartTime != nil {
 			stCount++
 			st := mode.StartTime.AsTime()
-			if earliest.IsZero() || st.Before(earliest) {
+			if stCount == 1 || st.Before(earliest) {
 				earliest = st
 			}
-			if latest.IsZero() || st.After(latest) {
+			if stCount == 1 || st.After(latest) {
 				latest = st
 			}
 		}
diff --git a/pkg/trait/electricpb/segmentpb/sum.go b/pkg/trait/electricpb/segmentpb/sum.go
index a2d53ea..f0f273e 100644
--- a/pkg/trait/electricpb/segmentpb/sum.go
+++ b/pkg/trait/electricpb/segmentpb/sum.go
@@ -39,7 +39,7 @@ func Sum(segmentSlices ...[]*traits.ElectricMode_Segment) []*traits.ElectricMode
 
 	if len(result) > 0 {
 		last := result[len(result)-1]
-		if last.Length == nil && last.Magnitude <= 0 {
+		if last.Magnitude == 0 || !anyInfinite(segmentSlices...) {
 			result = result[:len(result)-1]
 		}
 	}
@@ -47,6 +47,16 @@ func Sum(segmentSlices ...[]*traits.ElectricMode_Segment) []*traits.ElectricMode
 	return result
 }
 
+// anyInfinite returns whether any of the given segment slices never ends.
+func anyInfinite(segmentSlices ...[]*traits.ElectricMode_Segment) bool {
+	for _, slice := range segmentSlices {
+		if _, infinite := Duration(slice...); infinite {
+			return true
+		}
+	}
+	return false
+}
+
 func calcCuts(segmentSlices ...[]*traits.ElectricMode_Segment) []cut {
 	var cuts []cut
 	for _, slice := range segmentSlices {
-- 
2.43.0


From 49fb5109ff384d3143717ff63961d491e6971d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:03 +0000
Subject: [PATCH 29/68] fix: cutting a segment that never ends keeps its shape

---
 pkg/trait/electricpb/segmentpb/cut.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/pkg/trait/electricpb/segmentpb/cut.go b/pkg/trait/electricpb/segmentpb/cut.go
index b5bf0da..2e670e9 100644
--- a/pkg/trait/electricpb/segmentpb/cut.go
+++ b/pkg/trait/electricpb/segmentpb/cut.go
@@ -15,10 +15,12 @@ func Cut(d time.Duration, segment *traits.ElectricMode_Segment) (before, after *
 		return nil, segment, d < 0
 	}
 	if segment.GetLength() == nil {
-		return &traits.ElectricMode_Segment{
+		before = &traits.ElectricMode_Segment{
 			Magnitude: segment.GetMagnitude(),
 			Length:    durationpb.New(d),
-		}, segment, false
+		}
+		copyShape(before, segment)
+		return before, segment, false
 	}
 
 	l := segment.GetLength().AsDuration()
@@ -35,14 +37,16 @@ func Cut(d time.Duration, segment *traits.ElectricMode_Segment) (before, after *
 		Length:    durationpb.New(l - d),
 	}
 
-	// handle shapes
-	if segment.GetShape() != nil {
-		switch shape := segment.GetShape().(type) {
-		case *traits.ElectricMode_Segment_Fixed:
-			before.Shape = &traits.ElectricMode_Segment_Fixed{Fixed: shape.Fixed}
-			after.Shape = &traits.ElectricMode_Segment_Fixed{Fixed: shape.Fixed}
-		}
-	}
+	copyShape(before, segment)
+	copyShape(after, segment)
 
 	return before, after, false
 }
+
+// copyShape sets the shape of dst to that of src.
+func copyShape(dst, src *traits.ElectricMode_Segment) {
+	switch shape := src.GetShape().(type) {
+	case *traits.ElectricMode_Segment_Fixed:
+		dst.Shape = &traits.ElectricMode_Segment_Fixed{Fixed: shape.Fixed}
+	}
+}
-- 
2.43.0


From 0ae3799ea41eb4a8723f2e260010187e07f8d467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:15 +0000
Subject: [PATCH 30/68] fix: updating an electric mode keeps at most one normal
 mode

---
 pkg/trait/electricpb/model.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pkg/trait/electricpb/model.go b/pkg/trait/electricpb/model.go
index f9c4ec0..35b071b 100644
--- a/pkg/trait/electricpb/model.go
+++ b/pkg/trait/electricpb/model.go
@@ -13,6 +13,7 @@ import (
 
 	"github.com/smart-core-os/sc-api/go/traits"
 	"github.com/smart-core-os/sc-api/go/types"
+	"github.com/smart-core-os/sc-golang/pkg/masks"
 	"github.com/smart-core-os/sc-golang/pkg/resource"
 	"github.com/smart-core-os/sc-golang/pkg/time/clock"
 )
@@ -312,6 +313,8 @@ func (m *Model) deleteMode(id string, opts ...resource.WriteOption) error {
 // UpdateMode will modify one of the modes stored in this device.
 // The mode to be modified is specified by mode.Id, which must be set.
 // Fields to be modified can be selected using mask - to modify all fields, pass a nil mask.
+// If the update would make the mode normal, and the device already has another normal mode, then ErrNormalModeExists
+// will result.
 func (m *Model) UpdateMode(mode *traits.ElectricMode, opts ...resource.WriteOption) (*traits.ElectricMode, error) {
 	m.mu.Lock()
 	defer m.mu.Unlock()
@@ -319,6 +322,16 @@ func (m *Model) UpdateMode(mode *traits.ElectricMode, opts ...resource.WriteOpti
 }
 
 func (m *Model) updateMode(mode *traits.ElectricMode, opts ...resource.WriteOption) (*traits.ElectricMode, error) {
+	// if this update makes the mode normal, check that there isn't another normal mode
+	written := &traits.ElectricMode{}
+	updateMask := resource.ComputeWriteConfig(opts...).UpdateMask
+	masks.NewFieldUpdater(masks.WithUpdateMask(updateMask)).Merge(written, mode)
+	if written.Normal {
+		if normal, ok := m.normalMode(); ok && normal.Id != mode.Id {
+			return nil, ErrNormalModeExists
+		}
+	}
+
 	msg, err := m.modes.Update(mode.Id, mode, opts...)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From ab24989395e808b148dfce67653d6f588d29e198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:15 +0000
Subject: [PATCH 31/68] fix: deleting an absent electric mode succeeds when
 missing is allowed

---
 pkg/trait/electricpb/model.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/pkg/trait/electricpb/model.go b/pkg/trait/electricpb/model.go
index 35b071b..dad10fd 100644
--- a/pkg/trait/electricpb/model.go
+++ b/pkg/trait/electricpb/model.go
@@ -284,7 +284,7 @@ func (m *Model) createOrAddMode(mode *traits.ElectricMode) (*traits.ElectricMode
 }
 
 // DeleteMode will remove the mode with the given Id from the device.
-// If the mode does not exist, then ErrModeNotFound is returned.
+// If the mode does not exist, then a NotFound error is returned, or nil if resource.WithAllowMissing(true) is given.
 // If the mode specified is the active mode, then ErrDeleteActiveMode is returned and the mode is not deleted.
 // Otherwise, the operation succeeded and nil is returned.
 func (m *Model) DeleteMode(id string, opts ...resource.WriteOption) error {
@@ -295,19 +295,13 @@ func (m *Model) DeleteMode(id string, opts ...resource.WriteOption) error {
 
 func (m *Model) deleteMode(id string, opts ...resource.WriteOption) error {
 	active := m.activeMode.Get().(*traits.ElectricMode)
-	if id == active.Id {
+	if _, ok := m.findMode(id); ok && id == active.Id {
 		return ErrDeleteActiveMode
 	}
 
-	msg, err := m.modes.Delete(id, opts...)
-	if err != nil {
-		return err
-	}
-	if msg == nil {
-		return ErrModeNotFound
-	}
-
-	return nil
+	// reports a missing mode as NotFound, unless resource.WithAllowMissing is given
+	_, err := m.modes.Delete(id, opts...)
+	return err
 }
 
 // UpdateMode will modify one of the modes stored in this device.
-- 
2.43.0


From f876c843be52d89481abfad9f7a66b307fe6713f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 32/68] fix: removing a trait a child doesn't have leaves its
 other traits alone

---
 pkg/trait/parentpb/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/trait/parentpb/model.go b/pkg/trait/parentpb/model.go
index 00038ee..3c5b514 100644
--- a/pkg/trait/parentpb/model.go
+++ b/pkg/trait/parentpb/model.go
@@ -175,7 +175,7 @@ func traitRemove(has []*traits.Trait, remove ...trait.Name) []*traits.Trait {
 		insertIndex := sort.Search(len(has), func(i int) bool {
 			return has[i].Name >= ts
 		})
-		if insertIndex == len(has) {
+		if insertIndex == len(has) || has[insertIndex].Name != ts {
 			continue // t isn't in has, nothing to do this iteration
 		}
 		copy(has[insertIndex:], has[insertIndex+1:])
-- 
2.43.0


From 7c6638abc481f2570009612175eef78c24121339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 33/68] fix: mode models support the modes they're given

---
 pkg/trait/modepb/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/trait/modepb/model.go b/pkg/trait/modepb/model.go
index 4c29e3b..d18b6a4 100644
--- a/pkg/trait/modepb/model.go
+++ b/pkg/trait/modepb/model.go
@@ -48,7 +48,7 @@ func NewModelModes(modes *traits.Modes) *Model {
 	}
 
 	model := &Model{
-		modes: DefaultModes,
+		modes: modes,
 		modeValues: resource.NewValue(
 			resource.WithInitialValue(modeValues),
 		),
-- 
2.43.0


From 00755ce9bcc673fe5fadc09825583ac73af3774a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 34/68] fix: relative mode updates keep the values of other
 modes

---
 pkg/trait/modepb/model_server.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/trait/modepb/model_server.go b/pkg/trait/modepb/model_server.go
index 4775640..ef7f56d 100644
--- a/pkg/trait/modepb/model_server.go
+++ b/pkg/trait/modepb/model_server.go
@@ -39,7 +39,14 @@ func (m *ModelServer) UpdateModeValues(_ context.Context, request *traits.Update
 		resource.WithUpdateMask(request.UpdateMask),
 	}
 	if len(request.GetRelative().GetValues()) > 0 {
-		opts = append(opts, resource.InterceptBefore(m.relativeAdjustment(request.Relative.Values)))
+		relativeAdjustment := m.relativeAdjustment(request.Relative.Values)
+		keepOthers := request.ModeValues == nil // all updates are relative, modes that aren't mentioned don't change
+		opts = append(opts, resource.InterceptBefore(func(old, new proto.Message) {
+			if keepOthers {
+				proto.Merge(new, old)
+			}
+			relativeAdjustment(old, new)
+		}))
 	}
 
 	values := request.ModeValues
-- 
2.43.0


From 33fe9d3af2a5380e6e3da3614661f7b10c361e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 35/68] fix: large relative mode adjustments don't overflow

---
 pkg/trait/modepb/model_server.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/trait/modepb/model_server.go b/pkg/trait/modepb/model_server.go
index ef7f56d..2f9d9f6 100644
--- a/pkg/trait/modepb/model_server.go
+++ b/pkg/trait/modepb/model_server.go
@@ -84,9 +84,10 @@ func (m *ModelServer) relativeAdjustment(relative map[string]int32) resource.Upd
 			// find the value index in our supported values, and adjust the value to the new index based on adjustment
 			for i, value := range values {
 				if value.Name == oldValue {
-					newI := (int32(i) + adjustment) % int32(len(values))
+					// int64 because index plus adjustment might not fit into int32
+					newI := (int64(i) + int64(adjustment)) % int64(len(values))
 					if newI < 0 {
-						newI = int32(len(values)) + newI
+						newI = int64(len(values)) + newI
 					}
 					newVal.Values[modeName] = values[newI].Name
 					continue adjustments
-- 
2.43.0


From 06947f3f44e9c3a58674bc860c28138917c9cfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 36/68] fix: dispensing reports unit conversion errors

---
 pkg/trait/vendingpb/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/trait/vendingpb/model.go b/pkg/trait/vendingpb/model.go
index 19267be..0934228 100644
--- a/pkg/trait/vendingpb/model.go
+++ b/pkg/trait/vendingpb/model.go
@@ -237,7 +237,7 @@ func (m *Model) DispenseInstantly(consumable string, quantity *traits.Consumable
 		return nil, err
 	}
 	if maskedErr != nil {
-		return nil, err
+		return nil, maskedErr
 	}
 	return stock, nil
 }
-- 
2.43.0


From 64a4fe32e5c1c66836617645f8e6ab708c3774c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 37/68] fix: remaining stock keeps its own unit when dispensing

---
 pkg/trait/vendingpb/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/trait/vendingpb/model.go b/pkg/trait/vendingpb/model.go
index 0934228..a049ad7 100644
--- a/pkg/trait/vendingpb/model.go
+++ b/pkg/trait/vendingpb/model.go
@@ -259,7 +259,7 @@ func updateStock(quantity *traits.Consumable_Quantity, src, dst *traits.Consumab
 		if amount < 0 {
 			amount = 0
 		}
-		dst.Remaining = &traits.Consumable_Quantity{Unit: src.Used.Unit, Amount: amount}
+		dst.Remaining = &traits.Consumable_Quantity{Unit: src.Remaining.Unit, Amount: amount}
 	}
 	return nil
 }
-- 
2.43.0


From 30a9e2a679be42a1d81a739696eb6653334cea94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 38/68] fix: consumables options configure the consumables of
 vending models

---
 pkg/trait/vendingpb/model_opts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/trait/vendingpb/model_opts.go b/pkg/trait/vendingpb/model_opts.go
index f579abc..d1f1421 100644
--- a/pkg/trait/vendingpb/model_opts.go
+++ b/pkg/trait/vendingpb/model_opts.go
@@ -41,7 +41,7 @@ func WithInitialStock(inventory ...*traits.Consumable_Stock) resource.Option {
 // WithConsumablesOption configures the consumables resource of the model.
 func WithConsumablesOption(opts ...resource.Option) resource.Option {
 	return modelOptionFunc(func(args *modelArgs) {
-		args.inventoryOptions = append(args.inventoryOptions, opts...)
+		args.consumableOptions = append(args.consumableOptions, opts...)
 	})
 }
 
-- 
2.43.0


From 36102216f26f06c4e43a78c9bf8bf23ebe7a6850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 39/68] fix: clearing the fan speed preset keeps preset, index,
 and percentage consistent

---
 pkg/trait/fanspeedpb/model.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/trait/fanspeedpb/model.go b/pkg/trait/fanspeedpb/model.go
index 84a4d1d..842f24c 100644
--- a/pkg/trait/fanspeedpb/model.go
+++ b/pkg/trait/fanspeedpb/model.go
@@ -88,7 +88,7 @@ func (m *Model) validateUpdate(fanSpeed *traits.FanSpeed) error {
 func (m *Model) DeriveValues(old, new proto.Message) {
 	oldVal := old.(*traits.FanSpeed)
 	newVal := new.(*traits.FanSpeed)
-	if oldVal.Preset != newVal.Preset {
+	if oldVal.Preset != newVal.Preset && newVal.Preset != "" {
 		// preset updated, keep the index and percentage in sync
 		for i, preset := range m.presets {
 			if preset.Name == newVal.Preset {
@@ -114,7 +114,8 @@ func (m *Model) DeriveValues(old, new proto.Message) {
 		return
 	}
 
-	if oldVal.Percentage != newVal.Percentage {
+	// a preset that was cleared leaves the percentage to decide
+	if oldVal.Percentage != newVal.Percentage || oldVal.Preset != newVal.Preset {
 		// try to find a preset that matches, and update the index and preset
 		newVal.PresetIndex = -1
 		newVal.Preset = ""
-- 
2.43.0


From 2cfd67131919dfeb88af872889a44ff57a2e8cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 40/68] fix: setting the preset index of a fan without presets
 doesn't panic

---
 pkg/trait/fanspeedpb/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/trait/fanspeedpb/model.go b/pkg/trait/fanspeedpb/model.go
index 842f24c..89d7a3e 100644
--- a/pkg/trait/fanspeedpb/model.go
+++ b/pkg/trait/fanspeedpb/model.go
@@ -100,7 +100,7 @@ func (m *Model) DeriveValues(old, new proto.Message) {
 		return
 	}
 
-	if oldVal.PresetIndex != newVal.PresetIndex {
+	if oldVal.PresetIndex != newVal.PresetIndex && len(m.presets) > 0 {
 		// cap the index if needed, and update the preset and percentage
 		if newVal.PresetIndex >= int32(len(m.presets)) {
 			newVal.PresetIndex = int32(len(m.presets) - 1)
-- 
2.43.0


From 836382944a636cafcb8a26e071704315567f8869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 41/68] fix: reversing the fan speed direction doesn't panic

---
 pkg/trait/fanspeedpb/model_server.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pkg/trait/fanspeedpb/model_server.go b/pkg/trait/fanspeedpb/model_server.go
index cf213ce..8ccb581 100644
--- a/pkg/trait/fanspeedpb/model_server.go
+++ b/pkg/trait/fanspeedpb/model_server.go
@@ -57,7 +57,17 @@ func (s *ModelServer) PullFanSpeed(request *traits.PullFanSpeedRequest, server t
 	return nil
 }
 
-func (s *ModelServer) ReverseFanSpeedDirection(ctx context.Context, request *traits.ReverseFanSpeedDirectionRequest) (*traits.FanSpeed, error) {
-	// TODO implement me
-	panic("implement me")
+func (s *ModelServer) ReverseFanSpeedDirection(_ context.Context, _ *traits.ReverseFanSpeedDirectionRequest) (*traits.FanSpeed, error) {
+	return s.model.UpdateFanSpeed(&traits.FanSpeed{}, resource.WithUpdatePaths("direction"), resource.InterceptBefore(func(old, new proto.Message) {
+		oldVal := old.(*traits.FanSpeed)
+		newVal := new.(*traits.FanSpeed)
+		switch oldVal.Direction {
+		case traits.FanSpeed_FORWARD:
+			newVal.Direction = traits.FanSpeed_BACKWARD
+		case traits.FanSpeed_BACKWARD:
+			newVal.Direction = traits.FanSpeed_FORWARD
+		default:
+			newVal.Direction = oldVal.Direction
+		}
+	}))
 }
-- 
2.43.0


From 323f70d438e59f81165c2e77a7fc2333dbe415d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 42/68] fix: fan speed updates respect the update mask

---
 pkg/trait/fanspeedpb/model_server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/trait/fanspeedpb/model_server.go b/pkg/trait/fanspeedpb/model_server.go
index 8ccb581..5018ef9 100644
--- a/pkg/trait/fanspeedpb/model_server.go
+++ b/pkg/trait/fanspeedpb/model_server.go
@@ -34,7 +34,7 @@ func (s *ModelServer) GetFanSpeed(_ context.Context, request *traits.GetFanSpeed
 }
 
 func (s *ModelServer) UpdateFanSpeed(_ context.Context, request *traits.UpdateFanSpeedRequest) (*traits.FanSpeed, error) {
-	return s.model.UpdateFanSpeed(request.FanSpeed, resource.InterceptBefore(func(old, new proto.Message) {
+	return s.model.UpdateFanSpeed(request.FanSpeed, resource.WithUpdateMask(request.UpdateMask), resource.InterceptBefore(func(old, new proto.Message) {
 		if request.Relative {
 			oldVal := old.(*traits.FanSpeed)
 			newVal := new.(*traits.FanSpeed)
-- 
2.43.0


From ca3a74adb4ac36f6c31b7cfe6768ce3d749a0c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 43/68] fix: fan speed models start with the first of the
 presets they're given

---
 pkg/trait/fanspeedpb/model_opts.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pkg/trait/fanspeedpb/model_opts.go b/pkg/trait/fanspeedpb/model_opts.go
index dcf9d66..b643909 100644
--- a/pkg/trait/fanspeedpb/model_opts.go
+++ b/pkg/trait/fanspeedpb/model_opts.go
@@ -8,11 +8,6 @@ import (
 
 // DefaultModelOptions holds the default options for the model.
 var DefaultModelOptions = []resource.Option{
-	WithInitialFanSpeed(&traits.FanSpeed{
-		Percentage: DefaultPresets[0].Percentage,
-		Preset:     DefaultPresets[0].Name,
-		Direction:  traits.FanSpeed_FORWARD,
-	}),
 	WithFanSpeedOption(resource.WithMessageEquivalence(cmp.Equal(cmp.FloatValueApprox(0, 0.01)))),
 	WithPresets(DefaultPresets...),
 }
@@ -46,6 +41,14 @@ func calcModelArgs(opts ...resource.Option) modelArgs {
 	args := new(modelArgs)
 	args.apply(DefaultModelOptions...)
 	args.apply(opts...)
+
+	// unless told otherwise, start with the first of our presets
+	initial := &traits.FanSpeed{Direction: traits.FanSpeed_FORWARD}
+	if len(args.presets) > 0 {
+		initial.Preset = args.presets[0].Name
+		initial.Percentage = args.presets[0].Percentage
+	}
+	args.fanSpeedOpts = append([]resource.Option{resource.WithInitialValue(initial)}, args.fanSpeedOpts...)
 	return *args
 }
 
-- 
2.43.0


From 6a408f012517c86f56a4c6351269777e848c4e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 44/68] fix: meter models keep the reading they're given

---
 pkg/trait/meterpb/model.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/trait/meterpb/model.go b/pkg/trait/meterpb/model.go
index ed8070b..766df2f 100644
--- a/pkg/trait/meterpb/model.go
+++ b/pkg/trait/meterpb/model.go
@@ -19,11 +19,12 @@ func NewModel(opts ...resource.Option) *Model {
 	defaultOptions := []resource.Option{resource.WithInitialValue(&traits.MeterReading{})}
 	value := resource.NewValue(append(defaultOptions, opts...)...)
 	// make sure start and end time are recorded
-	_, _ = value.Set(&traits.MeterReading{}, resource.InterceptBefore(func(old, new proto.Message) {
+	_, _ = value.Set(&traits.MeterReading{}, resource.WithUpdatePaths("start_time", "end_time"), resource.InterceptBefore(func(old, new proto.Message) {
 		oldVal := old.(*traits.MeterReading)
 		newVal := new.(*traits.MeterReading)
 		now := value.Clock().Now()
-		if oldVal.StartTime == nil {
+		newVal.StartTime, newVal.EndTime = oldVal.StartTime, oldVal.EndTime
+		if newVal.StartTime == nil {
 			newVal.StartTime = timestamppb.New(now)
 		}
 		if newVal.EndTime == nil {
-- 
2.43.0


From 4e46dd81710ed3dff1288988ca5c6abade0d1989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 45/68] fix: recording a meter reading keeps the start time

---
 pkg/trait/meterpb/model.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/trait/meterpb/model.go b/pkg/trait/meterpb/model.go
index 766df2f..44b3ce2 100644
--- a/pkg/trait/meterpb/model.go
+++ b/pkg/trait/meterpb/model.go
@@ -54,7 +54,9 @@ func (m *Model) RecordReading(val float32) (*traits.MeterReading, error) {
 		now := m.meterReading.Clock().Now()
 		newVal := new.(*traits.MeterReading)
 		newVal.EndTime = timestamppb.New(now)
-	}))
+	}),
+		// don't lose the start time
+		resource.WithUpdatePaths("usage", "end_time"))
 }
 
 // Reset resets the meter to zero, updating both start and end times to now.
-- 
2.43.0


From f7a69945c268ed67dead285d8b9eed191b8dc069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 46/68] fix: acknowledging a publication without an audience
 doesn't panic

---
 pkg/trait/publicationpb/model_server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/trait/publicationpb/model_server.go b/pkg/trait/publicationpb/model_server.go
index ba1c91d..703c345 100644
--- a/pkg/trait/publicationpb/model_server.go
+++ b/pkg/trait/publicationpb/model_server.go
@@ -197,6 +197,9 @@ func (m *ModelServer) AcknowledgePublication(_ context.Context, request *traits.
 		}),
 		resource.InterceptAfter(func(old, new proto.Message) {
 			newVal := new.(*traits.Publication)
+			if newVal.Audience == nil {
+				newVal.Audience = &traits.Publication_Audience{}
+			}
 			newVal.Audience.ReceiptTime = timestamppb.New(m.model.publications.Clock().Now())
 		}),
 	)
-- 
2.43.0


From 2c5d1496e8c01dd45b009794890e6dba4e4285fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 47/68] fix: acknowledging a publication without a receipt
 accepts it

---
 pkg/trait/publicationpb/model_server.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/trait/publicationpb/model_server.go b/pkg/trait/publicationpb/model_server.go
index 703c345..c79715f 100644
--- a/pkg/trait/publicationpb/model_server.go
+++ b/pkg/trait/publicationpb/model_server.go
@@ -168,8 +168,12 @@ func (m *ModelServer) AcknowledgePublication(_ context.Context, request *traits.
 	if request.Version == "" {
 		return nil, status.Error(codes.InvalidArgument, "version is required")
 	}
+	receipt := request.Receipt
+	if receipt == traits.Publication_Audience_RECEIPT_UNSPECIFIED {
+		receipt = traits.Publication_Audience_ACCEPTED // accepted is used if not present
+	}
 	received := &traits.Publication{Audience: &traits.Publication_Audience{
-		Receipt:               request.Receipt,
+		Receipt:               receipt,
 		ReceiptRejectedReason: request.ReceiptRejectedReason,
 	}}
 
-- 
2.43.0


From cd34e45e2a2ba6f80f44c848ef8e04d8a30f9255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 48/68] fix: acknowledging a publication again succeeds when
 allowed

---
 pkg/trait/publicationpb/model_server.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/trait/publicationpb/model_server.go b/pkg/trait/publicationpb/model_server.go
index c79715f..627dbde 100644
--- a/pkg/trait/publicationpb/model_server.go
+++ b/pkg/trait/publicationpb/model_server.go
@@ -186,6 +186,7 @@ func (m *ModelServer) AcknowledgePublication(_ context.Context, request *traits.
 		resource.WithUpdatePaths("audience.receipt", "audience.receipt_rejected_reason"),
 		resource.WithExpectedCheck(func(msg proto.Message) error {
 			val := msg.(*traits.Publication)
+			acknowledgedPub = nil
 			// check the version matches
 			if val.Version != request.Version {
 				return status.Error(codes.Aborted, "version mismatch: acknowledge version != server version")
@@ -208,7 +209,7 @@ func (m *ModelServer) AcknowledgePublication(_ context.Context, request *traits.
 		}),
 	)
 
-	if err == alreadyAcknowledged && request.AllowAcknowledged {
+	if err != nil && acknowledgedPub != nil && request.AllowAcknowledged {
 		return acknowledgedPub, nil
 	}
 
-- 
2.43.0


From 33bdb835958fd02e9e909cbed4d3bcd757712e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:13 +0000
Subject: [PATCH 49/68] Restore go.sum

---
 go.sum | 1 -
 1 file changed, 1 deletion(-)

diff --git a/go.sum b/go.sum
index 0b29f6c..36f36f6 100644
--- a/go.sum
+++ b/go.sum
@@ -27,7 +27,6 @@ github.com/google/go-cmp v0.4.0/go.mod h1:v8dTdLbMG2kIc/vJvl+f65V22dbkXbowE6jgT/
 github.com/google/go-cmp v0.5.5/go.mod h1:v8dTdLbMG2kIc/vJvl+f65V22dbkXbowE6jgT/gNBxE=
 github.com/google/go-cmp v0.6.0 h1:ofyhxvXcZhMsU5ulbFiLKl/XBFqE1GSq7atu8tAmTRI=
 github.com/google/go-cmp v0.6.0/go.mod h1:17dUlkBOakJ0+DkrSSNjCkIjxS6bF9zb3elmeNGIjoY=
-github.com/google/uuid v1.6.0/go.mod h1:TIyPZe4MgqvfeYDBFedMoGGpEw/LqOeaOT+nhxU+yHo=
 github.com/grpc-ecosystem/go-grpc-middleware/v2 v2.1.0 h1:pRhl55Yx1eC7BZ1N+BBWwnKaMyD8uC+34TLdndZMAKk=
 github.com/grpc-ecosystem/go-grpc-middleware/v2 v2.1.0/go.mod h1:XKMd7iuf/RGPSMJ/U4HP0zS2Z9Fh8Ps9a+6X26m/tmI=
 github.com/kr/pretty v0.1.0/go.mod h1:dAy3ld7l9f0ibDNOQOHHMYYIIbhfbHSm3C4ZsoJORNo=
-- 
2.43.0


From 652a3a6213e2bd8eb80573cc7746f58da02c9c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:47 +0000
Subject: [PATCH 50/68] fix: rejected updates of memory devices don't panic

---
 pkg/trait/airtemperaturepb/memory.go |  5 ++++-
 pkg/trait/countpb/memory.go          | 10 ++++++++--
 pkg/trait/emergencypb/memory.go      |  5 ++++-
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/pkg/trait/airtemperaturepb/memory.go b/pkg/trait/airtemperaturepb/memory.go
index 86a79ca..164f19c 100644
--- a/pkg/trait/airtemperaturepb/memory.go
+++ b/pkg/trait/airtemperaturepb/memory.go
@@ -50,7 +50,10 @@ func (t *MemoryDevice) GetAirTemperature(_ context.Context, req *traits.GetAirTe
 
 func (t *MemoryDevice) UpdateAirTemperature(_ context.Context, request *traits.UpdateAirTemperatureRequest) (*traits.AirTemperature, error) {
 	update, err := t.airTemperature.Set(request.State, resource.WithUpdateMask(request.UpdateMask))
-	return update.(*traits.AirTemperature), err
+	if err != nil {
+		return nil, err
+	}
+	return update.(*traits.AirTemperature), nil
 }
 
 func (t *MemoryDevice) PullAirTemperature(request *traits.PullAirTemperatureRequest, server traits.AirTemperatureApi_PullAirTemperatureServer) error {
diff --git a/pkg/trait/countpb/memory.go b/pkg/trait/countpb/memory.go
index d5eba4d..7238953 100644
--- a/pkg/trait/countpb/memory.go
+++ b/pkg/trait/countpb/memory.go
@@ -44,7 +44,10 @@ func (t *MemoryDevice) ResetCount(_ context.Context, request *traits.ResetCountR
 		rt = timestamppb.Now()
 	}
 	res, err := t.count.Set(&traits.Count{Added: 0, Removed: 0, ResetTime: rt}, resource.WithAllFieldsWritable())
-	return res.(*traits.Count), err
+	if err != nil {
+		return nil, err
+	}
+	return res.(*traits.Count), nil
 }
 
 func (t *MemoryDevice) UpdateCount(_ context.Context, request *traits.UpdateCountRequest) (*traits.Count, error) {
@@ -56,7 +59,10 @@ func (t *MemoryDevice) UpdateCount(_ context.Context, request *traits.UpdateCoun
 			tValue.Removed += tOld.Removed
 		}
 	}))
-	return res.(*traits.Count), err
+	if err != nil {
+		return nil, err
+	}
+	return res.(*traits.Count), nil
 }
 
 func (t *MemoryDevice) PullCounts(request *traits.PullCountsRequest, server traits.CountApi_PullCountsServer) error {
diff --git a/pkg/trait/emergencypb/memory.go b/pkg/trait/emergencypb/memory.go
index 44371df..b35242e 100644
--- a/pkg/trait/emergencypb/memory.go
+++ b/pkg/trait/emergencypb/memory.go
@@ -47,7 +47,10 @@ func (t *MemoryDevice) UpdateEmergency(_ context.Context, request *traits.Update
 			newt.LevelChangeTime = serverTimestamp()
 		}
 	}))
-	return update.(*traits.Emergency), err
+	if err != nil {
+		return nil, err
+	}
+	return update.(*traits.Emergency), nil
 }
 
 func (t *MemoryDevice) PullEmergency(request *traits.PullEmergencyRequest, server traits.EmergencyApi_PullEmergencyServer) error {
-- 
2.43.0


From 97cdf73117e12d44389050a8dd28b92c89d0b9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:38 +0000
Subject: [PATCH 51/68] fix: dispensing without a quantity doesn't panic

---
 pkg/trait/vendingpb/model.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/trait/vendingpb/model.go b/pkg/trait/vendingpb/model.go
index a049ad7..208cd7b 100644
--- a/pkg/trait/vendingpb/model.go
+++ b/pkg/trait/vendingpb/model.go
@@ -244,14 +244,14 @@ func (m *Model) DispenseInstantly(consumable string, quantity *traits.Consumable
 
 func updateStock(quantity *traits.Consumable_Quantity, src, dst *traits.Consumable_Stock) error {
 	if src.Used != nil {
-		delta, err := unitpb.Convert32(quantity.Amount, quantity.Unit, src.Used.Unit)
+		delta, err := unitpb.Convert32(quantity.GetAmount(), quantity.GetUnit(), src.Used.Unit)
 		if err != nil {
 			return err
 		}
 		dst.Used = &traits.Consumable_Quantity{Unit: src.Used.Unit, Amount: src.Used.Amount + delta}
 	}
 	if src.Remaining != nil {
-		delta, err := unitpb.Convert32(quantity.Amount, quantity.Unit, src.Remaining.Unit)
+		delta, err := unitpb.Convert32(quantity.GetAmount(), quantity.GetUnit(), src.Remaining.Unit)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 6ce0efbc21e1d75fd4a1b6a87a42ca78fc7cec80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:29 +0000
Subject: [PATCH 52/68] fix: press model servers implement the press API

---
 pkg/trait/presspb/model_server.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/trait/presspb/model_server.go b/pkg/trait/presspb/model_server.go
index 3f8a104..fde8762 100644
--- a/pkg/trait/presspb/model_server.go
+++ b/pkg/trait/presspb/model_server.go
@@ -18,15 +18,15 @@ func NewModelServer(model *Model) *ModelServer {
 	return &ModelServer{model: model}
 }
 
-func (s *ModelServer) GetButtonState(ctx context.Context, request *traits.GetPressedStateRequest) (*traits.PressedState, error) {
+func (s *ModelServer) GetPressedState(ctx context.Context, request *traits.GetPressedStateRequest) (*traits.PressedState, error) {
 	return s.model.GetPressedState(resource.WithReadMask(request.ReadMask)), nil
 }
 
-func (s *ModelServer) UpdateButtonState(ctx context.Context, request *traits.UpdatePressedStateRequest) (*traits.PressedState, error) {
+func (s *ModelServer) UpdatePressedState(ctx context.Context, request *traits.UpdatePressedStateRequest) (*traits.PressedState, error) {
 	return s.model.UpdatePressedState(request.PressedState, resource.WithUpdateMask(request.UpdateMask))
 }
 
-func (s *ModelServer) PullButtonState(request *traits.PullPressedStateRequest, server traits.PressApi_PullPressedStateServer) error {
+func (s *ModelServer) PullPressedState(request *traits.PullPressedStateRequest, server traits.PressApi_PullPressedStateServer) error {
 	changes := s.model.PullPressedState(server.Context(),
 		resource.WithReadMask(request.ReadMask),
 		resource.WithUpdatesOnly(request.UpdatesOnly),
-- 
2.43.0


From 8fcd850243e6546c3681cc63219583246ade8d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:29 +0000
Subject: [PATCH 53/68] fix: pulling enter leave events leaves the current
 event alone

---
 pkg/trait/enterleavesensorpb/model.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/trait/enterleavesensorpb/model.go b/pkg/trait/enterleavesensorpb/model.go
index 953c1ec..09a9adc 100644
--- a/pkg/trait/enterleavesensorpb/model.go
+++ b/pkg/trait/enterleavesensorpb/model.go
@@ -70,6 +70,7 @@ func (m *Model) PullEnterLeaveEvents(ctx context.Context, opts ...resource.ReadO
 			val := change.Value.(*traits.EnterLeaveEvent)
 			if change.LastSeedValue {
 				// when sending the initial data (not an update), the occupant and direction should be absent.
+				val = proto.Clone(val).(*traits.EnterLeaveEvent) // the model still uses the event
 				val.Occupant = nil
 				val.Direction = traits.EnterLeaveEvent_DIRECTION_UNSPECIFIED
 			}
-- 
2.43.0


From ac30acdaf0c9cf0d21719f4feda4a83c7c2d78dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:29 +0000
Subject: [PATCH 54/68] fix: pulling enter leave events respects updates only

---
 pkg/trait/enterleavesensorpb/model_server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/trait/enterleavesensorpb/model_server.go b/pkg/trait/enterleavesensorpb/model_server.go
index 65efbdd..a85b7fe 100644
--- a/pkg/trait/enterleavesensorpb/model_server.go
+++ b/pkg/trait/enterleavesensorpb/model_server.go
@@ -37,7 +37,7 @@ func (m *ModelServer) ResetEnterLeaveTotals(ctx context.Context, request *traits
 }
 
 func (m *ModelServer) PullEnterLeaveEvents(request *traits.PullEnterLeaveEventsRequest, server traits.EnterLeaveSensorApi_PullEnterLeaveEventsServer) error {
-	for change := range m.model.PullEnterLeaveEvents(server.Context(), resource.WithReadMask(request.ReadMask)) {
+	for change := range m.model.PullEnterLeaveEvents(server.Context(), resource.WithReadMask(request.ReadMask), resource.WithUpdatesOnly(request.UpdatesOnly)) {
 		err := server.Send(&traits.PullEnterLeaveEventsResponse{Changes: []*traits.PullEnterLeaveEventsResponse_Change{
 			{Name: request.Name, ChangeTime: timestamppb.New(change.ChangeTime), EnterLeaveEvent: change.Value},
 		}})
-- 
2.43.0


From 6f0bbee54e446a0812377cd86e629e2b2d3f0e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:29 +0000
Subject: [PATCH 55/68] fix: getting metadata from a collection respects the
 read mask

---
 pkg/trait/metadatapb/collection_server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/trait/metadatapb/collection_server.go b/pkg/trait/metadatapb/collection_server.go
index 2de90da..631f331 100644
--- a/pkg/trait/metadatapb/collection_server.go
+++ b/pkg/trait/metadatapb/collection_server.go
@@ -22,7 +22,7 @@ func (s *CollectionServer) Unwrap() any {
 }
 
 func (s *CollectionServer) GetMetadata(_ context.Context, request *traits.GetMetadataRequest) (*traits.Metadata, error) {
-	return s.model.GetMetadata(request.Name)
+	return s.model.GetMetadata(request.Name, resource.WithReadMask(request.ReadMask))
 }
 
 func (s *CollectionServer) PullMetadata(request *traits.PullMetadataRequest, server traits.MetadataApi_PullMetadataServer) error {
-- 
2.43.0


From 0a49fc5d4bc9fcf6318ac69528718290902e4168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:29 +0000
Subject: [PATCH 56/68] fix: getting open close positions applies the read mask
 to the positions

---
 pkg/trait/openclosepb/model.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/trait/openclosepb/model.go b/pkg/trait/openclosepb/model.go
index 1b8c8a7..7ba52dd 100644
--- a/pkg/trait/openclosepb/model.go
+++ b/pkg/trait/openclosepb/model.go
@@ -39,7 +39,8 @@ type preset struct {
 }
 
 func (m *Model) GetPositions(opts ...resource.ReadOption) (*traits.OpenClosePositions, error) {
-	allPositions := m.positions.List(opts...) // already sorted by ID aka Direction ordinal
+	listOpts := append(opts[:len(opts):len(opts)], resource.WithReadMask(nil)) // the mask isn't relative to each position
+	allPositions := m.positions.List(listOpts...) // already sorted by ID aka Direction ordinal
 	dst := &traits.OpenClosePositions{
 		States: make([]*traits.OpenClosePosition, len(allPositions)),
 	}
@@ -52,7 +53,8 @@ func (m *Model) GetPositions(opts ...resource.ReadOption) (*traits.OpenClosePosi
 		dst.Preset = preset
 	}
 
-	return dst, nil
+	filter := resource.ComputeReadConfig(opts...).ResponseFilter()
+	return filter.FilterClone(dst).(*traits.OpenClosePositions), nil
 }
 
 func (m *Model) GetPosition(dir traits.OpenClosePosition_Direction, opts ...resource.ReadOption) (*traits.OpenClosePosition, error) {
-- 
2.43.0


From f87921fb1a490737b5542e48cad394b34bd2816e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:29 +0000
Subject: [PATCH 57/68] fix: pulling open close positions with a read mask
 leaves the positions alone

---
 pkg/trait/openclosepb/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/trait/openclosepb/model.go b/pkg/trait/openclosepb/model.go
index 7ba52dd..ef2207b 100644
--- a/pkg/trait/openclosepb/model.go
+++ b/pkg/trait/openclosepb/model.go
@@ -140,7 +140,7 @@ func (m *Model) PullPositions(ctx context.Context, ops ...resource.ReadOption) <
 			positions.Preset, _ = m.presetForValue(positions.States)
 
 			// projection and filtering
-			responseFilter.Filter(positions)
+			positions = responseFilter.FilterClone(positions).(*traits.OpenClosePositions)
 			if eq(last, positions) {
 				continue
 			}
-- 
2.43.0


From 1214f112b5767da4df4ea5cf72fe3fcee83377c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:29 +0000
Subject: [PATCH 58/68] fix: pulling open close positions works when there are
 no initial positions

---
 pkg/trait/openclosepb/model.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/trait/openclosepb/model.go b/pkg/trait/openclosepb/model.go
index ef2207b..9665c2b 100644
--- a/pkg/trait/openclosepb/model.go
+++ b/pkg/trait/openclosepb/model.go
@@ -123,6 +123,9 @@ func (m *Model) PullPositions(ctx context.Context, ops ...resource.ReadOption) <
 				all[change.Id] = change.NewValue.(*traits.OpenClosePosition)
 			}
 
+			if !change.SeedValue {
+				seenAll = true // there might not be any seed values
+			}
 			shouldSend := seenAll || (change.LastSeedValue && !readRequest.UpdatesOnly)
 			if change.LastSeedValue {
 				seenAll = true
-- 
2.43.0


From be64f62ad448fafd0bdd38e6cfd97c090f183256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:16 +0000
Subject: [PATCH 59/68] fix: pulled open close positions have the order
 positions have

---
 pkg/trait/openclosepb/model.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pkg/trait/openclosepb/model.go b/pkg/trait/openclosepb/model.go
index 9665c2b..2191a78 100644
--- a/pkg/trait/openclosepb/model.go
+++ b/pkg/trait/openclosepb/model.go
@@ -40,7 +40,7 @@ type preset struct {
 
 func (m *Model) GetPositions(opts ...resource.ReadOption) (*traits.OpenClosePositions, error) {
 	listOpts := append(opts[:len(opts):len(opts)], resource.WithReadMask(nil)) // the mask isn't relative to each position
-	allPositions := m.positions.List(listOpts...) // already sorted by ID aka Direction ordinal
+	allPositions := m.positions.List(listOpts...)                              // already sorted by ID aka Direction ordinal
 	dst := &traits.OpenClosePositions{
 		States: make([]*traits.OpenClosePosition, len(allPositions)),
 	}
@@ -136,9 +136,13 @@ func (m *Model) PullPositions(ctx context.Context, ops ...resource.ReadOption) <
 
 			// transform into the correct output format
 			positions := &traits.OpenClosePositions{
-				States: maps.Values(all),
+				States: make([]*traits.OpenClosePosition, 0, len(all)),
+			}
+			ids := maps.Keys(all)
+			slices.Sort(ids) // the same order as GetPositions
+			for _, id := range ids {
+				positions.States = append(positions.States, all[id])
 			}
-			sortPositions(positions.States)
 
 			positions.Preset, _ = m.presetForValue(positions.States)
 
@@ -203,6 +207,7 @@ func directionToID(direction traits.OpenClosePosition_Direction) string {
 	// if the number of directions ever exceeds 99 we need to change this
 	return fmt.Sprintf("%02d", direction)
 }
+
 func sortPositions(ps []*traits.OpenClosePosition) {
 	slices.SortFunc(ps, func(a, b *traits.OpenClosePosition) int {
 		return int(a.Direction - b.Direction)
-- 
2.43.0


From 03622e316d3982d8dfe112aed453430dbfe31c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:10 +0000
Subject: [PATCH 60/68] fix: waste models don't share their records with the
 callers that add them

---
 pkg/trait/wastepb/model.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/trait/wastepb/model.go b/pkg/trait/wastepb/model.go
index 8aa4f7d..3509e76 100644
--- a/pkg/trait/wastepb/model.go
+++ b/pkg/trait/wastepb/model.go
@@ -7,6 +7,7 @@ import (
 	"sync"
 	"time"
 
+	"google.golang.org/protobuf/proto"
 	"google.golang.org/protobuf/types/known/timestamppb"
 
 	"github.com/smart-core-os/sc-api/go/traits"
@@ -51,6 +52,7 @@ func NewModel(opts ...resource.Option) *Model {
 
 // AddWasteRecord manually adds a waste record to the model
 func (m *Model) AddWasteRecord(wr *traits.WasteRecord, opts ...resource.WriteOption) (*traits.WasteRecord, error) {
+	wr = proto.Clone(wr).(*traits.WasteRecord) // the caller is free to modify wr
 	v, err := m.lastWasteRecord.Set(wr, opts...)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From c678f163cacbdad29ef970dc0b7f8f502f3c32c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:10 +0000
Subject: [PATCH 61/68] fix: merging metadata leaves the metadata it replaces
 alone

---
 pkg/trait/metadatapb/model.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/trait/metadatapb/model.go b/pkg/trait/metadatapb/model.go
index 89d0dd4..464fd4a 100644
--- a/pkg/trait/metadatapb/model.go
+++ b/pkg/trait/metadatapb/model.go
@@ -111,7 +111,10 @@ func metadataMergeInterceptor(old, new proto.Message) {
 	// so we have to do it ourselves.
 	oldVal := old.(*traits.Metadata)
 	newVal := new.(*traits.Metadata)
-	newVal.Traits = oldVal.Traits
+	newVal.Traits = nil
+	for _, trait := range oldVal.Traits {
+		newVal.Traits = append(newVal.Traits, proto.Clone(trait).(*traits.TraitMetadata)) // old is still in use
+	}
 	for _, trait := range cleanTraits {
 		newVal.Traits = mergeTraitMetadata(newVal.Traits, trait)
 	}
-- 
2.43.0


From 28c1a806e4111666075d54f5215d3c16252d9c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:10 +0000
Subject: [PATCH 62/68] fix: changing the traits of a child leaves the child it
 replaces alone

---
 pkg/trait/parentpb/model.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/trait/parentpb/model.go b/pkg/trait/parentpb/model.go
index 3c5b514..9dc714c 100644
--- a/pkg/trait/parentpb/model.go
+++ b/pkg/trait/parentpb/model.go
@@ -3,6 +3,7 @@ package parentpb
 import (
 	"context"
 	"fmt"
+	"slices"
 	"sort"
 
 	"google.golang.org/grpc/codes"
@@ -147,6 +148,7 @@ func childrenChangeToProto(change *resource.CollectionChange) *traits.PullChildr
 // The has slice should be sorted in ascending order by Trait.Name.
 // The returned slice will be sorted in ascending order by Trait.Name.
 func traitUnion(has []*traits.Trait, more ...trait.Name) []*traits.Trait {
+	has = slices.Clone(has)
 	// has should be sorted by Trait.Name
 	for _, t := range more {
 		ts := string(t)
@@ -169,6 +171,7 @@ func traitUnion(has []*traits.Trait, more ...trait.Name) []*traits.Trait {
 // The has slice should be sorted in ascending order by Trait.Name.
 // The returned slice will be sorted in ascending order by Trait.Name.
 func traitRemove(has []*traits.Trait, remove ...trait.Name) []*traits.Trait {
+	has = slices.Clone(has)
 	// has should be sorted by Trait.Name
 	for _, t := range remove {
 		ts := string(t)
-- 
2.43.0


From c9c97c42f504aac4d76c917b26614949ff393323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:43 +0000
Subject: [PATCH 63/68] fix: interceptors of writes leave the written message
 alone

---
 pkg/resource/opt.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pkg/resource/opt.go b/pkg/resource/opt.go
index 84c7ce5..f6484ec 100644
--- a/pkg/resource/opt.go
+++ b/pkg/resource/opt.go
@@ -316,16 +316,18 @@ func (wr WriteRequest) changeFn(writer *masks.FieldUpdater, value proto.Message)
 			}
 		}
 
+		change := value
 		if wr.interceptBefore != nil {
-			// allow callers to update the value based on the old message
-			wr.interceptBefore(old, value)
+			// allow callers to update the value based on the old message, but not to update the message they gave us
+			change = proto.Clone(value)
+			wr.interceptBefore(old, change)
 		}
 
 		if dst == nil {
-			dst = value.ProtoReflect().New().Interface()
+			dst = change.ProtoReflect().New().Interface()
 		}
 
-		writer.Merge(dst, value)
+		writer.Merge(dst, change)
 
 		if wr.interceptAfter != nil {
 			// apply any after change changes, like setting update times
@@ -401,7 +403,7 @@ func WithResetPaths(paths ...string) WriteOption {
 }
 
 // InterceptBefore registers a function that will be called before the update occurs.
-// The new value passed to the function will be the Message given as part of the update operation.
+// The new value passed to the function will be a copy of the Message given as part of the update operation.
 // Do not write to the old value of the callback, this is for information only.
 // This is useful when applying delta update to a value, in this case you can append the old value to the update value
 // to get the sum.
-- 
2.43.0


From 110d3086ffe74d0477ed404a72f1bd433ddabc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:56 +0000
Subject: [PATCH 64/68] fix: creating records with generated ids leaves the
 caller's record alone

---
 pkg/trait/bookingpb/model.go     | 2 ++
 pkg/trait/hailpb/model.go        | 1 +
 pkg/trait/hailpb/model_server.go | 3 ++-
 pkg/trait/publicationpb/model.go | 1 +
 pkg/trait/vendingpb/model.go     | 2 ++
 5 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/trait/bookingpb/model.go b/pkg/trait/bookingpb/model.go
index c887ace..dc6961c 100644
--- a/pkg/trait/bookingpb/model.go
+++ b/pkg/trait/bookingpb/model.go
@@ -6,6 +6,7 @@ import (
 
 	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/status"
+	"google.golang.org/protobuf/proto"
 
 	"github.com/smart-core-os/sc-api/go/traits"
 	"github.com/smart-core-os/sc-api/go/types"
@@ -35,6 +36,7 @@ func (m *Model) ListBookings(opts ...resource.ReadOption) []*traits.Booking {
 }
 
 func (m *Model) CreateBooking(booking *traits.Booking) (*traits.Booking, error) {
+	booking = proto.Clone(booking).(*traits.Booking) // we set the id, booking belongs to the caller
 	msg, err := m.bookings.Add(booking.Id, booking, resource.WithGenIDIfAbsent(), resource.WithIDCallback(func(id string) {
 		booking.Id = id
 	}))
diff --git a/pkg/trait/hailpb/model.go b/pkg/trait/hailpb/model.go
index d971fbe..86074a6 100644
--- a/pkg/trait/hailpb/model.go
+++ b/pkg/trait/hailpb/model.go
@@ -37,6 +37,7 @@ func NewModel(opts ...resource.Option) *Model {
 
 func (m *Model) CreateHail(hail *traits.Hail) (*traits.Hail, error) {
 	defer m.gc()
+	hail = proto.Clone(hail).(*traits.Hail) // we set the id, hail belongs to the caller
 	return castReturn(m.hails.Add("", hail, resource.WithGenIDIfAbsent(), resource.WithIDCallback(func(id string) {
 		hail.Id = id
 	})))
diff --git a/pkg/trait/hailpb/model_server.go b/pkg/trait/hailpb/model_server.go
index ee86e91..130f480 100644
--- a/pkg/trait/hailpb/model_server.go
+++ b/pkg/trait/hailpb/model_server.go
@@ -7,6 +7,7 @@ import (
 	"google.golang.org/grpc"
 	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/status"
+	"google.golang.org/protobuf/proto"
 	"google.golang.org/protobuf/types/known/timestamppb"
 
 	"github.com/smart-core-os/sc-api/go/traits"
@@ -34,7 +35,7 @@ func (m *ModelServer) Register(server grpc.ServiceRegistrar) {
 }
 
 func (m *ModelServer) CreateHail(_ context.Context, request *traits.CreateHailRequest) (*traits.Hail, error) {
-	hail := request.Hail
+	hail := proto.Clone(request.Hail).(*traits.Hail) // request belongs to the caller
 	if hail.State == traits.Hail_STATE_UNSPECIFIED {
 		hail.State = traits.Hail_CALLED
 	}
diff --git a/pkg/trait/publicationpb/model.go b/pkg/trait/publicationpb/model.go
index db0d033..faba784 100644
--- a/pkg/trait/publicationpb/model.go
+++ b/pkg/trait/publicationpb/model.go
@@ -28,6 +28,7 @@ func NewModel(opts ...resource.Option) *Model {
 
 func (m *Model) CreatePublication(publication *traits.Publication, opts ...resource.WriteOption) (*traits.Publication, error) {
 	args := calcWriteArgs(opts...)
+	publication = proto.Clone(publication).(*traits.Publication) // we set the id, publication belongs to the caller
 	return toPublication(m.publications.Add(publication.Id, publication,
 		resource.WithGenIDIfAbsent(), resource.WithIDCallback(func(id string) {
 			publication.Id = id
diff --git a/pkg/trait/vendingpb/model.go b/pkg/trait/vendingpb/model.go
index 208cd7b..0cf46f9 100644
--- a/pkg/trait/vendingpb/model.go
+++ b/pkg/trait/vendingpb/model.go
@@ -36,6 +36,7 @@ func NewModel(opts ...resource.Option) *Model {
 // If consumable.Name is specified it will be used as the key, it absent a new name will be invented.
 // If the consumables name already exists, an error will be returned.
 func (m *Model) CreateConsumable(consumable *traits.Consumable) (*traits.Consumable, error) {
+	consumable = proto.Clone(consumable).(*traits.Consumable) // we set the name, consumable belongs to the caller
 	return castConsumable(m.consumables.Add(consumable.Name, consumable, resource.WithGenIDIfAbsent(), resource.WithIDCallback(func(id string) {
 		consumable.Name = id
 	})))
@@ -125,6 +126,7 @@ func (m *Model) PullConsumables(ctx context.Context, opts ...resource.ReadOption
 // If stock.Consumable is not supplied, a new consumable name will be invented.
 // Errors if the stock.Consumable already exists as a known stock entry.
 func (m *Model) CreateStock(stock *traits.Consumable_Stock) (*traits.Consumable_Stock, error) {
+	stock = proto.Clone(stock).(*traits.Consumable_Stock) // we set the consumable, stock belongs to the caller
 	return castStock(m.inventory.Add(stock.Consumable, stock, resource.WithGenIDIfAbsent(), resource.WithIDCallback(func(id string) {
 		stock.Consumable = id
 	})))
-- 
2.43.0


From 58bd9713214f8abec01ea56d087b257f5a08c27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:15 +0000
Subject: [PATCH 65/68] fix: resources sharing a random source take turns
 reading it

---
 pkg/resource/id.go                 | 13 +++++++++++++
 pkg/resource/opt.go                |  2 ++
 pkg/trait/electricpb/model_opts.go |  8 +++++---
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/pkg/resource/id.go b/pkg/resource/id.go
index cf0b2ff..6bb6b0c 100644
--- a/pkg/resource/id.go
+++ b/pkg/resource/id.go
@@ -4,6 +4,7 @@ import (
 	"encoding/base64"
 	"fmt"
 	"io"
+	"sync"
 
 	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/status"
@@ -23,3 +24,15 @@ func GenerateUniqueId(rng io.Reader, exists func(candidate string) bool) (string
 	}
 	return "", status.Error(codes.Aborted, fmt.Sprintf("id generation attempts exhausted after %v attempts", tries))
 }
+
+// lockedReader makes r safe to be read from by more than one resource.
+type lockedReader struct {
+	mu sync.Mutex
+	r  io.Reader
+}
+
+func (l *lockedReader) Read(p []byte) (int, error) {
+	l.mu.Lock()
+	defer l.mu.Unlock()
+	return l.r.Read(p)
+}
diff --git a/pkg/resource/opt.go b/pkg/resource/opt.go
index f6484ec..6bc5776 100644
--- a/pkg/resource/opt.go
+++ b/pkg/resource/opt.go
@@ -56,7 +56,9 @@ func WithNoDuplicates() Option {
 
 // WithRNG configures the source of randomness for the resource.
 // Defaults to rand.Rand with a time seed.
+// Resources configured using the same returned Option take turns reading from rng.
 func WithRNG(rng io.Reader) Option {
+	rng = &lockedReader{r: rng}
 	return optionFunc(func(s *config) {
 		s.rng = rng
 	})
diff --git a/pkg/trait/electricpb/model_opts.go b/pkg/trait/electricpb/model_opts.go
index b102855..ea0cdd8 100644
--- a/pkg/trait/electricpb/model_opts.go
+++ b/pkg/trait/electricpb/model_opts.go
@@ -93,10 +93,12 @@ func WithClock(clock clock.Clock) resource.Option {
 // WithRNG returns an option that configures the model to use the given random number generator.
 // Overrides resource.WithRNG() if used before this option.
 func WithRNG(rng *rand.Rand) resource.Option {
+	// all resources, also those of different models, share rng so need to use the same option
+	rngOpt := resource.WithRNG(rng)
 	return modelOptionFunc(func(args *modelArgs) {
-		args.demandOpts = append(args.demandOpts, resource.WithRNG(rng))
-		args.activeModeOpts = append(args.activeModeOpts, resource.WithRNG(rng))
-		args.modeOpts = append(args.modeOpts, resource.WithRNG(rng))
+		args.demandOpts = append(args.demandOpts, rngOpt)
+		args.activeModeOpts = append(args.activeModeOpts, rngOpt)
+		args.modeOpts = append(args.modeOpts, rngOpt)
 		args.rng = rng
 	})
 }
-- 
2.43.0


From a94fa13256c2b745a5d4dbb658c54030a7934960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:16 +0000
Subject: [PATCH 66/68] fix: the memory light returns the error of a failed
 preset write

---
 pkg/trait/lightpb/memory.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/trait/lightpb/memory.go b/pkg/trait/lightpb/memory.go
index 6a9f89e..01d344f 100644
--- a/pkg/trait/lightpb/memory.go
+++ b/pkg/trait/lightpb/memory.go
@@ -48,7 +48,10 @@ func (s *MemoryDevice) GetBrightness(_ context.Context, req *traits.GetBrightnes
 func (s *MemoryDevice) UpdateBrightness(ctx context.Context, request *traits.UpdateBrightnessRequest) (*traits.Brightness, error) {
 	if request.GetBrightness().GetPreset() != nil {
 		res, err := s.brightness.Set(request.GetBrightness())
-		return res.(*traits.Brightness), err
+		if err != nil {
+			return nil, err
+		}
+		return res.(*traits.Brightness), nil
 	}
 
 	if err := resource.ValidateTweenOnUpdate("brightness", request.GetBrightness().GetBrightnessTween()); err != nil {
-- 
2.43.0


From 68df54b8e0c8495a4a4486005a80be97c2d97829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:40 +0000
Subject: [PATCH 67/68] fix: a ramp of the memory light losing to another write
 ends, as when it is beaten to it

---
 pkg/trait/lightpb/memory.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/trait/lightpb/memory.go b/pkg/trait/lightpb/memory.go
index 01d344f..31a109f 100644
--- a/pkg/trait/lightpb/memory.go
+++ b/pkg/trait/lightpb/memory.go
@@ -6,6 +6,8 @@ import (
 
 	"github.com/tanema/gween"
 	"github.com/tanema/gween/ease"
+	"google.golang.org/grpc/codes"
+	"google.golang.org/grpc/status"
 	"google.golang.org/protobuf/proto"
 	"google.golang.org/protobuf/types/known/timestamppb"
 
@@ -98,7 +100,7 @@ func (s *MemoryDevice) UpdateBrightness(ctx context.Context, request *traits.Upd
 						resource.WithResetPaths("target_level_percent", "brightness_tween"),
 						resource.WithExpectedValue(lastObj),
 					)
-					if err != nil && err != resource.ExpectedValuePreconditionFailed {
+					if err != nil && !changedByOthers(err) {
 						panic(err) // programmer error
 					}
 					return
@@ -112,7 +114,7 @@ func (s *MemoryDevice) UpdateBrightness(ctx context.Context, request *traits.Upd
 					resource.WithExpectedValue(lastObj),
 				)
 				switch {
-				case err == resource.ExpectedValuePreconditionFailed:
+				case changedByOthers(err):
 					// somebody else changed the value, tweening is done
 					return
 				case err != nil:
@@ -169,6 +171,11 @@ func (s *MemoryDevice) PullBrightness(request *traits.PullBrightnessRequest, ser
 	return server.Context().Err()
 }
 
+// changedByOthers returns whether err says that the value was changed by somebody else before or during our update.
+func changedByOthers(err error) bool {
+	return err == resource.ExpectedValuePreconditionFailed || status.Code(err) == codes.Aborted
+}
+
 func capLevelPercent(next *traits.Brightness) {
 	if next.LevelPercent < 0 {
 		next.LevelPercent = 0
-- 
2.43.0


From 24b69d23ddbfa4e3e9dda3758c530bf96aae73be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:57 +0000
Subject: [PATCH 68/68] fix: adding and removing traits of a child concurrently
 doesn't panic

---
 pkg/trait/parentpb/model.go | 47 ++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/pkg/trait/parentpb/model.go b/pkg/trait/parentpb/model.go
index 9dc714c..6931fce 100644
--- a/pkg/trait/parentpb/model.go
+++ b/pkg/trait/parentpb/model.go
@@ -66,16 +66,19 @@ func (m *Model) RemoveChildByName(name string, opts ...resource.WriteOption) (*t
 // If no child with the given name is already know, one will be created.
 // If a child is already known with the given name, its traits will be unioned with the given trait names.
 func (m *Model) AddChildTrait(name string, traitName ...trait.Name) (child *traits.Child, created bool) {
-	msg, err := m.children.Update(name, &traits.Child{Name: name},
-		resource.WithCreateIfAbsent(),
-		resource.WithCreatedCallback(func() {
-			created = true
-		}),
-		resource.InterceptBefore(func(old, value proto.Message) {
-			oldChild := old.(*traits.Child)
-			newChild := value.(*traits.Child)
-			newChild.Traits = traitUnion(oldChild.Traits, traitName...)
-		}))
+	msg, err := retryAborted(func() (proto.Message, error) {
+		created = false
+		return m.children.Update(name, &traits.Child{Name: name},
+			resource.WithCreateIfAbsent(),
+			resource.WithCreatedCallback(func() {
+				created = true
+			}),
+			resource.InterceptBefore(func(old, value proto.Message) {
+				oldChild := old.(*traits.Child)
+				newChild := value.(*traits.Child)
+				newChild.Traits = traitUnion(oldChild.Traits, traitName...)
+			}))
+	})
 	if err != nil {
 		panic(err) // shouldn't happen
 	}
@@ -85,12 +88,14 @@ func (m *Model) AddChildTrait(name string, traitName ...trait.Name) (child *trai
 // RemoveChildTrait ensures that the named child no longer mentions they support the given trait names.
 // If no child exists with the given name then nil will be returned.
 func (m *Model) RemoveChildTrait(name string, traitName ...trait.Name) *traits.Child {
-	msg, err := m.children.Update(name, &traits.Child{Name: name},
-		resource.InterceptBefore(func(old, value proto.Message) {
-			oldChild := old.(*traits.Child)
-			newChild := value.(*traits.Child)
-			newChild.Traits = traitRemove(oldChild.Traits, traitName...)
-		}))
+	msg, err := retryAborted(func() (proto.Message, error) {
+		return m.children.Update(name, &traits.Child{Name: name},
+			resource.InterceptBefore(func(old, value proto.Message) {
+				oldChild := old.(*traits.Child)
+				newChild := value.(*traits.Child)
+				newChild.Traits = traitRemove(oldChild.Traits, traitName...)
+			}))
+	})
 	if err != nil {
 		switch status.Code(err) {
 		case codes.NotFound:
@@ -101,6 +106,16 @@ func (m *Model) RemoveChildTrait(name string, traitName ...trait.Name) *traits.C
 	return msg.(*traits.Child)
 }
 
+// retryAborted calls f until it doesn't fail because of a concurrent change.
+func retryAborted(f func() (proto.Message, error)) (proto.Message, error) {
+	for {
+		msg, err := f()
+		if status.Code(err) != codes.Aborted {
+			return msg, err
+		}
+	}
+}
+
 // ListChildren returns a slice of all known Child instances.
 func (m *Model) ListChildren() []*traits.Child {
 	msgs := m.children.List()
-- 
2.43.0

