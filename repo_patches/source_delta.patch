From 153deee15459abdec1430eca2c6578e8e0d919b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:10 +0000
Subject: [PATCH 01/33] fix: bufmap.Get copies the whole buffer of the slot

The upper bound of the slice was x*(s+1) instead of (x+1)*s, so slots near
the start of the map were truncated (slot 0 always read as empty), and slots
near the end of a full-size map panicked with a slice out of range.
---
 internal/bufmap/bufmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/bufmap/bufmap.go b/internal/bufmap/bufmap.go
index 080c5fd..4dffa9c 100644
--- a/internal/bufmap/bufmap.go
+++ b/internal/bufmap/bufmap.go
@@ -73,7 +73,7 @@ func (m *Map) Get(k uint64, buf []byte) bool {
 		}
 
 		// Get a copy of the data
-		copy(buf, m.values[x*m.s:x*(m.s+1)])
+		copy(buf, m.values[x*m.s:(x+1)*m.s])
 
 		// Check that the data was not updated during the copy
 		seq2 := atomic.LoadUint32(&s.seq)
-- 
2.43.0


From f0027fb29397ef4a33f6259c97bf798be11b6c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:10 +0000
Subject: [PATCH 02/33] fix: bufmap initialises the buffer of a key exactly
 once

Update passed init=true whenever the first slot probed was not the key's own,
so a key displaced by a probe collision was re-initialised by every update
(min, max and cardinality forgot everything), and two writers adding the same
key could run in either order, or both, with init set. Decide under the slot
lock, and do not let readers see a key whose first update has not succeeded.
Get(0) matched empty slots and reported them as found.
---
 internal/bufmap/bufmap.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/internal/bufmap/bufmap.go b/internal/bufmap/bufmap.go
index 4dffa9c..8929b3f 100644
--- a/internal/bufmap/bufmap.go
+++ b/internal/bufmap/bufmap.go
@@ -38,6 +38,7 @@ func New(l, s int) *Map {
 type slot struct {
 	key uint64 // key occupying this slot
 	seq uint32 // monotonically increasing write counter
+	set uint32 // non-zero once an update of this slot has succeeded
 	mu  sync.Mutex
 }
 
@@ -47,6 +48,11 @@ const maxReprobe = 10
 // Get atomically reads a buffer value stored against key k into buffer buf.
 // The return value will be false if the key could not be found in the map.
 func (m *Map) Get(k uint64, buf []byte) bool {
+	// 0 indicates an empty slot so it is never a valid key
+	if k == 0 {
+		return false
+	}
+
 	// Locate the correct slot
 	x := -1
 	i := 0
@@ -65,6 +71,10 @@ func (m *Map) Get(k uint64, buf []byte) bool {
 
 	// Read the buffer from the slot using the seqlock
 	s := &m.keys[x]
+	if atomic.LoadUint32(&s.set) == 0 {
+		// The key has claimed the slot but no value has been written yet
+		return false
+	}
 	for {
 		seq1 := atomic.LoadUint32(&s.seq)
 		// Is a writer currently writing?
@@ -100,7 +110,6 @@ func (m *Map) Update(k uint64, fn func(data []byte, init bool) error) error {
 	}
 	x := -1
 	i := 0
-	init := false
 	for {
 		x = m.pos(k, i)
 
@@ -109,9 +118,6 @@ func (m *Map) Update(k uint64, fn func(data []byte, init bool) error) error {
 		if kexist == k {
 			break
 		}
-		// Signal that the is a new value
-		init = true
-
 		// Is it an empty slot?
 		if kexist == 0 {
 			// Try and store key into slot
@@ -143,7 +149,12 @@ func (m *Map) Update(k uint64, fn func(data []byte, init bool) error) error {
 	// Notify readers that we are writing
 	atomic.AddUint32(&s.seq, 1)
 
-	err := fn(m.values[x*m.s:(x+1)*m.s], init)
+	// The value is new until an update has succeeded. This can only be decided
+	// while holding the lock since other writers may be adding the same key.
+	err := fn(m.values[x*m.s:(x+1)*m.s], s.set == 0)
+	if err == nil {
+		atomic.StoreUint32(&s.set, 1)
+	}
 
 	// Notify readers that we are done
 	atomic.AddUint32(&s.seq, 1)
-- 
2.43.0


From 5b5c89bfffb7e39d5e728f9832f911c718a175b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:10 +0000
Subject: [PATCH 03/33] fix: a failed or panicking bufmap update leaves the
 buffer unchanged

Update ran the function on the live buffer, so an update that returned an error
half way (an observation with a value that is not a number) stayed partially
applied, and one that panicked left the slot locked and every reader spinning.
---
 internal/bufmap/bufmap.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/internal/bufmap/bufmap.go b/internal/bufmap/bufmap.go
index 8929b3f..bdd7ba5 100644
--- a/internal/bufmap/bufmap.go
+++ b/internal/bufmap/bufmap.go
@@ -145,23 +145,27 @@ func (m *Map) Update(k uint64, fn func(data []byte, init bool) error) error {
 
 	// Writers need to take a lock
 	s.mu.Lock()
+	defer s.mu.Unlock()
 
-	// Notify readers that we are writing
-	atomic.AddUint32(&s.seq, 1)
+	// Update a copy so that nothing changes if the function fails
+	data := make([]byte, m.s)
+	copy(data, m.values[x*m.s:(x+1)*m.s])
 
 	// The value is new until an update has succeeded. This can only be decided
 	// while holding the lock since other writers may be adding the same key.
-	err := fn(m.values[x*m.s:(x+1)*m.s], s.set == 0)
-	if err == nil {
-		atomic.StoreUint32(&s.set, 1)
+	if err := fn(data, s.set == 0); err != nil {
+		return err
 	}
 
-	// Notify readers that we are done
+	// Notify readers that we are writing
 	atomic.AddUint32(&s.seq, 1)
 
-	// Allow access by other writers
-	s.mu.Unlock()
-	return err
+	copy(m.values[x*m.s:(x+1)*m.s], data)
+	atomic.StoreUint32(&s.set, 1)
+
+	// Notify readers that we are done
+	atomic.AddUint32(&s.seq, 1)
+	return nil
 }
 
 // pos maps the key and probe index to a slot location in the map.
-- 
2.43.0


From beb7273ea5db34f90a8459126c6e68c0a4af7fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:33 +0000
Subject: [PATCH 04/33] fix: data race between bufmap readers and writers

Readers copied the bytes of a slot while a writer was changing them. The
seqlock detects that, but only if the copy cannot be reordered with the loads
of the sequence number, which the Go memory model does not promise for plain
memory accesses (nor does arm64). Hold the values in words that are accessed
atomically.
---
 internal/bufmap/bufmap.go | 40 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/internal/bufmap/bufmap.go b/internal/bufmap/bufmap.go
index bdd7ba5..73a4fb6 100644
--- a/internal/bufmap/bufmap.go
+++ b/internal/bufmap/bufmap.go
@@ -5,6 +5,7 @@
 package bufmap
 
 import (
+	"encoding/binary"
 	"errors"
 	"sync"
 	"sync/atomic"
@@ -21,17 +22,20 @@ var (
 type Map struct {
 	l      int // length
 	s      int // stride
+	w      int // stride in words
 	keys   []slot
-	values []byte
+	values []uint64 // accessed atomically since readers do not lock
 }
 
 // New creates a Map with l buffers each consisting of s bytes
 func New(l, s int) *Map {
+	w := (s + 7) / 8
 	return &Map{
 		l:      l,
 		s:      s,
+		w:      w,
 		keys:   make([]slot, l),
-		values: make([]byte, l*s),
+		values: make([]uint64, l*w),
 	}
 }
 
@@ -83,7 +87,7 @@ func (m *Map) Get(k uint64, buf []byte) bool {
 		}
 
 		// Get a copy of the data
-		copy(buf, m.values[x*m.s:(x+1)*m.s])
+		m.load(x, buf)
 
 		// Check that the data was not updated during the copy
 		seq2 := atomic.LoadUint32(&s.seq)
@@ -149,7 +153,7 @@ func (m *Map) Update(k uint64, fn func(data []byte, init bool) error) error {
 
 	// Update a copy so that nothing changes if the function fails
 	data := make([]byte, m.s)
-	copy(data, m.values[x*m.s:(x+1)*m.s])
+	m.load(x, data)
 
 	// The value is new until an update has succeeded. This can only be decided
 	// while holding the lock since other writers may be adding the same key.
@@ -160,7 +164,7 @@ func (m *Map) Update(k uint64, fn func(data []byte, init bool) error) error {
 	// Notify readers that we are writing
 	atomic.AddUint32(&s.seq, 1)
 
-	copy(m.values[x*m.s:(x+1)*m.s], data)
+	m.store(x, data)
 	atomic.StoreUint32(&s.set, 1)
 
 	// Notify readers that we are done
@@ -174,3 +178,29 @@ func (m *Map) Update(k uint64, fn func(data []byte, init bool) error) error {
 func (m *Map) pos(k uint64, i int) int {
 	return int((k%uint64(m.l) + uint64(i)) % uint64(m.l))
 }
+
+// load copies the value in slot x into buf, which may be shorter than the value.
+func (m *Map) load(x int, buf []byte) {
+	if len(buf) > m.s {
+		buf = buf[:m.s]
+	}
+	var word [8]byte
+	for i := x * m.w; len(buf) > 0; i++ {
+		binary.LittleEndian.PutUint64(word[:], atomic.LoadUint64(&m.values[i]))
+		buf = buf[copy(buf, word[:]):]
+	}
+}
+
+// store copies data, which must be the length of a value, into slot x. The
+// caller must hold the lock of the slot.
+func (m *Map) store(x int, data []byte) {
+	for i := x * m.w; len(data) > 0; i++ {
+		var word [8]byte
+		n := copy(word[:], data)
+		data = data[n:]
+		// Most of a large value is unchanged by an update
+		if v := binary.LittleEndian.Uint64(word[:]); v != m.values[i] {
+			atomic.StoreUint64(&m.values[i], v)
+		}
+	}
+}
-- 
2.43.0


From 9ec03f001e1a3667c2ce0051fdebf62a30a4d7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:57 +0000
Subject: [PATCH 05/33] fix: data race between seqlock readers and writers

As in bufmap: readers copied the data with plain loads while a writer changed
it with plain stores.
---
 internal/seqlock/seqlock.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/internal/seqlock/seqlock.go b/internal/seqlock/seqlock.go
index 41cb8d4..8021eb9 100644
--- a/internal/seqlock/seqlock.go
+++ b/internal/seqlock/seqlock.go
@@ -5,14 +5,15 @@
 package seqlock
 
 import (
+	"encoding/binary"
 	"sync"
 	"sync/atomic"
 )
 
 type Seqlock struct {
-	seq  uint32 // monotonically increasing write counter
+	data [1024 / 8]uint64 // accessed atomically since readers do not lock
+	seq  uint32           // monotonically increasing write counter
 	mu   sync.Mutex
-	data [1024]byte
 }
 
 func New() *Seqlock {
@@ -29,7 +30,7 @@ func (s *Seqlock) Get() (ret [1024]byte) {
 		}
 
 		// Get a copy of the data
-		copy(ret[:], s.data[:])
+		s.load(&ret)
 
 		// Check that the data was not updated during the copy
 		seq2 := atomic.LoadUint32(&s.seq)
@@ -49,7 +50,7 @@ func (s *Seqlock) Put(v [1024]byte) {
 	// Notify readers that we are writing
 	atomic.AddUint32(&s.seq, 1)
 
-	copy(s.data[:], v[:])
+	s.store(&v)
 
 	// Notify readers that we are done
 	atomic.AddUint32(&s.seq, 1)
@@ -66,10 +67,10 @@ func (s *Seqlock) Update(fn func(data []byte) error) error {
 	atomic.AddUint32(&s.seq, 1)
 
 	var d [1024]byte
-	copy(d[:], s.data[:])
+	s.load(&d)
 	err := fn(d[:])
 	if err == nil {
-		copy(s.data[:], d[:])
+		s.store(&d)
 	}
 
 	// Notify readers that we are done
@@ -77,3 +78,15 @@ func (s *Seqlock) Update(fn func(data []byte) error) error {
 	s.mu.Unlock()
 	return err
 }
+
+func (s *Seqlock) load(buf *[1024]byte) {
+	for i := range s.data {
+		binary.LittleEndian.PutUint64(buf[i*8:], atomic.LoadUint64(&s.data[i]))
+	}
+}
+
+func (s *Seqlock) store(buf *[1024]byte) {
+	for i := range s.data {
+		atomic.StoreUint64(&s.data[i], binary.LittleEndian.Uint64(buf[i*8:]))
+	}
+}
-- 
2.43.0


From 90869ba5db09e8afa0911f130f955eca725b0d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:57 +0000
Subject: [PATCH 06/33] fix: incmap.Get(0) matched an empty slot and reported
 it as found

---
 internal/incmap/incmap.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/incmap/incmap.go b/internal/incmap/incmap.go
index 1244064..ca527b6 100644
--- a/internal/incmap/incmap.go
+++ b/internal/incmap/incmap.go
@@ -74,6 +74,10 @@ func (m *Map) Inc(k uint64, d uint64) bool {
 // Get retrieves the value stored against key k. The second return
 // value will be false if the key could not be found in the map.
 func (m *Map) Get(k uint64) (uint64, bool) {
+	// 0 indicates an empty slot so it is never a valid key
+	if k == 0 {
+		return 0, false
+	}
 
 	x := -1
 	i := 0
-- 
2.43.0


From a5923a9d62b10d3d1508d6d6cf50fb0690cf5f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 07/33] fix: initialise all measures of an instance when it is
 created

A measure whose field was missing from the first row of an instance was never
initialised: max and min started from 0, so the max of negative values and the
min of positive ones were wrong, and every later row with a field measured for
cardinality was rejected with 'hll: incompatible version', as were all queries
for it. Initialise every measure, including those documented as overwriting
uninitialised data, before the first row is written.
---
 internal/collation/compile.go | 13 +++++++++++++
 internal/collation/measure.go | 32 ++++++++++++++++++++++++++++++++
 internal/collation/schema.go  | 28 ++++++++++++++++++++++++++++
 3 files changed, 73 insertions(+)

diff --git a/internal/collation/compile.go b/internal/collation/compile.go
index d07f67f..577c3b2 100644
--- a/internal/collation/compile.go
+++ b/internal/collation/compile.go
@@ -19,6 +19,7 @@ func (s *Schema) Compile() (Collator, error) {
 	pos := 0
 	for _, m := range s.RecordMeasures {
 		size := m.Size()
+		coll.addInit(m, pos, pos+size)
 		coll.writers = append(coll.writers, anyWriter{
 			Low:  pos,
 			High: pos + size,
@@ -80,6 +81,7 @@ func (s *Schema) Compile() (Collator, error) {
 				}
 
 				if !skipWriter {
+					coll.addInit(m, low, hi)
 					ws := coll.contWriters[ms.Field.Pattern]
 					ws = append(ws, contWriter{
 						Low:  low,
@@ -120,6 +122,7 @@ func (s *Schema) Compile() (Collator, error) {
 			}
 
 			if dm, ok := m.(DiscreteInput); ok {
+				coll.addInit(m, pos, pos+size)
 				ws := coll.discWriters[ms.Field.Pattern]
 				ws = append(ws, discWriter{
 					Low:  pos,
@@ -163,3 +166,13 @@ func (s *Schema) Compile() (Collator, error) {
 
 	return coll, nil
 }
+
+// addInit arranges for the state of measure m, held in the range low to high of the
+// buffer, to be initialised before the first row is written.
+func (c *Collator) addInit(m Measure, low, high int) {
+	w := initWriter{Low: low, High: high}
+	if im, ok := m.(Initializer); ok {
+		w.Fn = im.InitWriter()
+	}
+	c.inits = append(c.inits, w)
+}
diff --git a/internal/collation/measure.go b/internal/collation/measure.go
index 030ac8e..69efc9f 100644
--- a/internal/collation/measure.go
+++ b/internal/collation/measure.go
@@ -33,6 +33,12 @@ type DiscreteOutput interface {
 	DiscReader() DiscReaderFunc
 }
 
+// An Initializer is a measure whose initial state is not all zero bytes.
+type Initializer interface {
+	InitWriter() InitWriterFunc
+}
+
+type InitWriterFunc func(buf []byte) error
 type RowWriterFunc func(buf []byte, init bool) error
 type ContWriterFunc func(buf []byte, init bool, v float64) error
 type DiscWriterFunc func(buf []byte, init bool, v []byte) error
@@ -138,6 +144,13 @@ func (Variance) ContReader() ContReaderFunc {
 	}
 }
 
+// initNaN marks the float64 in buf as not having a value yet. It compares as
+// neither greater nor less than the first observation, which replaces it.
+func initNaN(buf []byte) error {
+	binary.LittleEndian.PutUint64(buf, math.Float64bits(math.NaN()))
+	return nil
+}
+
 // Max is a precise maximum of continuous observations over all time.
 type Max struct{}
 
@@ -147,6 +160,10 @@ func (Max) Size() int { return 8 }
 
 func (Max) Name() string { return "max" }
 
+func (Max) InitWriter() InitWriterFunc {
+	return initNaN
+}
+
 func (Max) ContWriter() ContWriterFunc {
 	return func(buf []byte, init bool, v float64) error {
 		if !init {
@@ -176,6 +193,10 @@ func (Min) Size() int { return 8 }
 
 func (Min) Name() string { return "min" }
 
+func (Min) InitWriter() InitWriterFunc {
+	return initNaN
+}
+
 func (Min) ContWriter() ContWriterFunc {
 	return func(buf []byte, init bool, v float64) error {
 		if !init {
@@ -231,6 +252,17 @@ type Cardinality struct {
 var _ DiscreteInput = Cardinality{}
 var _ ContinuousOutput = Cardinality{}
 
+func (c Cardinality) InitWriter() InitWriterFunc {
+	return func(buf []byte) error {
+		s := hll.New(uint8(c.Precision))
+
+		var b bytes.Buffer
+		_, err := s.WriteTo(&b)
+		copy(buf, b.Bytes())
+		return err
+	}
+}
+
 func (c Cardinality) DiscWriter() DiscWriterFunc {
 	return func(buf []byte, init bool, v []byte) error {
 
diff --git a/internal/collation/schema.go b/internal/collation/schema.go
index a7f6caf..0c8db43 100644
--- a/internal/collation/schema.go
+++ b/internal/collation/schema.go
@@ -145,6 +145,7 @@ type Result struct {
 type Collator struct {
 	name        string
 	keys        [][]byte
+	inits       []initWriter
 	writers     []anyWriter
 	contWriters map[string][]contWriter
 	discWriters map[string][]discWriter
@@ -160,6 +161,17 @@ type Collator struct {
 // their state. If an error is returned then the buffer may be in an
 // inconsistent state and should not be used further.
 func (c Collator) Update(r Row, buf []byte, init bool) error {
+	if init {
+		// Initialise every measure now, not when its field is first seen, since
+		// a row need not contain all the fields.
+		for _, w := range c.inits {
+			if err := w.Init(buf); err != nil {
+				return err
+			}
+		}
+		init = false
+	}
+
 	// Update measures that operate on the row
 	for _, w := range c.writers {
 		if err := w.Update(buf, init); err != nil {
@@ -248,6 +260,22 @@ func (c Collator) Name() string {
 	return c.name
 }
 
+type initWriter struct {
+	Low, High int // index range of data within buffer
+	Fn        InitWriterFunc
+}
+
+func (w initWriter) Init(buf []byte) error {
+	buf = buf[w.Low:w.High]
+	for i := range buf {
+		buf[i] = 0
+	}
+	if w.Fn == nil {
+		return nil
+	}
+	return w.Fn(buf)
+}
+
 type anyWriter struct {
 	Low, High int // index range of data within buffer
 	Fn        RowWriterFunc
-- 
2.43.0


From 9adaa330ef3db7e7f57fe924f3e88cb4de6cd377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 08/33] fix: count of a field was silently ignored

Compile handles count together with sum, mean and variance, but Count was not a
continuous measure so a field's count was neither written nor readable.
---
 internal/collation/compile.go |  4 ++++
 internal/collation/measure.go | 11 +++++++++++
 2 files changed, 15 insertions(+)

diff --git a/internal/collation/compile.go b/internal/collation/compile.go
index 577c3b2..6100bd7 100644
--- a/internal/collation/compile.go
+++ b/internal/collation/compile.go
@@ -64,6 +64,10 @@ func (s *Schema) Compile() (Collator, error) {
 
 		for _, m := range ms.Measures {
 			size := m.Size()
+			if _, ok := m.(Count); ok {
+				// The count of a field is read from a stat64 summary
+				size = Sum{}.Size()
+			}
 			low, hi := pos, pos+size
 			skipWriter := false
 			if cm, ok := m.(ContinuousInput); ok {
diff --git a/internal/collation/measure.go b/internal/collation/measure.go
index 69efc9f..918996a 100644
--- a/internal/collation/measure.go
+++ b/internal/collation/measure.go
@@ -52,6 +52,7 @@ type DiscReaderFunc func(buf []byte) ([]byte, error)
 type Count struct{}
 
 var _ RowMeasure = Count{}
+var _ ContinuousInput = Count{}
 
 func (Count) Size() int { return 8 }
 
@@ -66,6 +67,16 @@ func (Count) RowWriter() RowWriterFunc {
 	}
 }
 
+// ContWriter counts the observations of a field using the stat64 summary that is
+// shared with the other measures of the field.
+func (Count) ContWriter() ContWriterFunc {
+	return func(buf []byte, init bool, v float64) error {
+		s := stat64.WithBytes(buf)
+		s.Update(v)
+		return nil
+	}
+}
+
 func (Count) ContReader() ContReaderFunc {
 	return func(buf []byte) (float64, error) {
 		c := binary.LittleEndian.Uint64(buf)
-- 
2.43.0


From 7504f5cdd6e235433dbeaf833ff7a7aa2c7db8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 09/33] fix: Compile rejects a cardinality precision that is
 out of range

It was accepted and then panicked when the first observation was received.
---
 internal/collation/compile.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/collation/compile.go b/internal/collation/compile.go
index 6100bd7..46c0404 100644
--- a/internal/collation/compile.go
+++ b/internal/collation/compile.go
@@ -1,5 +1,9 @@
 package collation
 
+import (
+	"fmt"
+)
+
 func (s *Schema) Compile() (Collator, error) {
 	coll := Collator{
 		name:        s.Name,
@@ -63,6 +67,10 @@ func (s *Schema) Compile() (Collator, error) {
 		stat64Low, stat64Hi := 0, 0
 
 		for _, m := range ms.Measures {
+			if c, ok := m.(Cardinality); ok && (c.Precision < 4 || c.Precision > 18) {
+				return Collator{}, fmt.Errorf("cardinality precision for field %q must be in range [4,18], got %d", ms.Field.Pattern, c.Precision)
+			}
+
 			size := m.Size()
 			if _, ok := m.(Count); ok {
 				// The count of a field is read from a stat64 summary
-- 
2.43.0


From 46160ee1bc2eb5dabc9c3c1162b382415cdbddf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 10/33] fix: query fields are returned in the order they were
 selected

RoughParse ranged over a map so the order of the fields in the parsed query, and
of the lines in the response, was random.
---
 internal/query/rough.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/internal/query/rough.go b/internal/query/rough.go
index c98b613..8d4f9b8 100644
--- a/internal/query/rough.go
+++ b/internal/query/rough.go
@@ -22,18 +22,20 @@ func RoughParse(in string) (collation.Query, error) {
 		return q, fmt.Errorf("query: syntax error; expected query to have format 'select xxx where yyy'")
 	}
 
-	fields := map[string][][]byte{}
+	fields := map[string]int{} // index of each field in q.FieldMeasures
 
 	selections := selectRe.FindAllStringSubmatch(parts[1], -1)
 	for _, s := range selections {
 		if len(s) != 3 {
 			return q, fmt.Errorf("query: syntax error; expected query to have format 'select xxx where yyy'")
 		}
-		fields[string(s[2])] = append(fields[string(s[2])], []byte(s[1]))
-	}
-
-	for f, vs := range fields {
-		q.FieldMeasures = append(q.FieldMeasures, collation.FM{F: []byte(f), M: vs})
+		i, found := fields[s[2]]
+		if !found {
+			i = len(q.FieldMeasures)
+			fields[s[2]] = i
+			q.FieldMeasures = append(q.FieldMeasures, collation.FM{F: []byte(s[2])})
+		}
+		q.FieldMeasures[i].M = append(q.FieldMeasures[i].M, []byte(s[1]))
 	}
 
 	wheres := whereRe.FindAllStringSubmatch(parts[2], -1)
-- 
2.43.0


From 52870625e31c1eb56398f799de2a2de9c7f6b979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 11/33] fix: queries for values that contain ' where '

The select part of the query was matched greedily so it extended to the last
'where', even one inside a quoted value, and the criteria before it were lost.
---
 internal/query/rough.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/query/rough.go b/internal/query/rough.go
index 8d4f9b8..ac0c979 100644
--- a/internal/query/rough.go
+++ b/internal/query/rough.go
@@ -8,7 +8,7 @@ import (
 )
 
 var (
-	queryRe  = regexp.MustCompile(`(?i)^\s*select\s+(.+)\s+where\s+(.+)\s*$`)
+	queryRe  = regexp.MustCompile(`(?i)^\s*select\s+(.+?)\s+where\s+(.+)\s*$`)
 	selectRe = regexp.MustCompile(`([^,\s]+)\(([^,\s]+)\)`)
 	whereRe  = regexp.MustCompile(`(\S+)='([^']+)'`)
 )
-- 
2.43.0


From 1ff70162a7bb765582963052684f06821e456aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 12/33] fix: queries for values that end in '=' or are empty

A value ending in '=' was taken as part of the field name of the criterion
following it, and criteria with an empty value were dropped even though
observations can have one.
---
 internal/query/rough.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/query/rough.go b/internal/query/rough.go
index ac0c979..6c007cb 100644
--- a/internal/query/rough.go
+++ b/internal/query/rough.go
@@ -10,7 +10,7 @@ import (
 var (
 	queryRe  = regexp.MustCompile(`(?i)^\s*select\s+(.+?)\s+where\s+(.+)\s*$`)
 	selectRe = regexp.MustCompile(`([^,\s]+)\(([^,\s]+)\)`)
-	whereRe  = regexp.MustCompile(`(\S+)='([^']+)'`)
+	whereRe  = regexp.MustCompile(`([^\s']+)='([^']*)'`)
 )
 
 // RoughParse is a quick and dirty query parser that uses regular expressions.
-- 
2.43.0


From 00d65a4bcd10ab438489e855553ba39ceee9981e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 13/33] fix: hyperloglog estimates for values that differ only
 in their last bytes

FNV-1 xors the last byte into the low 8 bits of the hash and the one before it
only reaches bit 48, but the register and rank are taken from the high bits. A
set of 1000 decimal numbers was estimated as 5 and 1352 IATA-like codes as 3.
---
 internal/summary/hll/hll.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/summary/hll/hll.go b/internal/summary/hll/hll.go
index d2b299d..3cfb58a 100644
--- a/internal/summary/hll/hll.go
+++ b/internal/summary/hll/hll.go
@@ -89,7 +89,7 @@ type Counter struct {
 }
 
 func (c *Counter) Add(v []byte) {
-	h := fnv.Sum64(v)
+	h := mix(fnv.Sum64(v))
 	idx := int((h & c.mask) >> (64 - c.p))
 
 	// Count leading zeros - there are faster ways to do this
@@ -107,6 +107,18 @@ func (c *Counter) Add(v []byte) {
 	}
 }
 
+// mix is the 64-bit finalizer of MurmurHash3. FNV-1 alone is not suitable here because
+// the last bytes of the data only affect the low bits of the hash, whereas the
+// register is chosen by the high bits.
+func mix(h uint64) uint64 {
+	h ^= h >> 33
+	h *= 0xff51afd7ed558ccd
+	h ^= h >> 33
+	h *= 0xc4ceb9fe1a85ec53
+	h ^= h >> 33
+	return h
+}
+
 // Count returns an estimate of the number of distinct items that have been added to the counter.
 func (c *Counter) Count() int64 {
 	h := 0.0
-- 
2.43.0


From 990d0bd49e280cf68128cf65136091355282ce28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 14/33] fix: harmonic mean of hyperloglog counts empty
 registers as 1/2 not 1

---
 internal/summary/hll/hll.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/summary/hll/hll.go b/internal/summary/hll/hll.go
index 3cfb58a..0845928 100644
--- a/internal/summary/hll/hll.go
+++ b/internal/summary/hll/hll.go
@@ -164,7 +164,7 @@ func (c *Counter) harmonic(m int) float64 {
 	for i := 0; i < m; i++ {
 		reg := c.bits.Get(i)
 		if reg == 0 {
-			z += 0.5
+			z++ // 2^-0
 			continue
 		}
 
-- 
2.43.0


From 47c62e7d7bc40a6fcf05687d015631556f3a42f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 15/33] fix: bloom ErrorRate took the number of bits set as the
 number of items

It reported 0.83 for a full filter with a false positive rate of 0.01. A lookup
of an absent item succeeds when all k bits probed happen to be set.
---
 internal/summary/bloom/bloom.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/summary/bloom/bloom.go b/internal/summary/bloom/bloom.go
index 762843a..1e25a06 100644
--- a/internal/summary/bloom/bloom.go
+++ b/internal/summary/bloom/bloom.go
@@ -120,7 +120,7 @@ func (b *Bloom) Count() int64 {
 // ErrorRate returns an estimate of the rate of false positives returned by the bloom filter's Has method.
 func (b *Bloom) ErrorRate() float64 {
 	x := b.bits.CountN(1)
-	return math.Pow(1-math.Exp(-float64(b.k)*float64(x)/float64(b.m)), float64(b.k))
+	return math.Pow(float64(x)/float64(b.m), float64(b.k))
 }
 
 // WriteTo writes a binary representation of the bloom filter to w. It adheres
-- 
2.43.0


From 036e8dfffe951d88625553204ab4ed9e70405ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 16/33] fix: stats.Meanvar returned the population variance not
 the sample variance

---
 internal/stats/stats.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index 4515bb2..32d9f68 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -20,7 +20,7 @@ func Meanvar(vals []float64) (mean, variance float64) {
 	for i := range vals {
 		variance += (vals[i] - mean) * (vals[i] - mean)
 	}
-	variance /= count
+	variance /= count - 1
 	return
 }
 
-- 
2.43.0


From ebe3597b13033048f80de7defbe3fdc963bc60fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 17/33] fix: bitbucket panics on corrupt serialized data

The number of buckets was trusted, so a corrupt header caused a panic in make or
a slice bounds panic, or a bucket with less data than buckets.
---
 internal/bitbucket/bitbucket.go | 37 +++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/internal/bitbucket/bitbucket.go b/internal/bitbucket/bitbucket.go
index 80969ad..e1bdbb2 100644
--- a/internal/bitbucket/bitbucket.go
+++ b/internal/bitbucket/bitbucket.go
@@ -8,11 +8,14 @@ import (
 	"encoding/binary"
 	"errors"
 	"io"
+	"io/ioutil"
 )
 
 const (
 	Version = 1
 	hdrLen  = 10 // number of bytes needed for header data when serializing (version, n and w)
+
+	maxCount = (int(^uint(0)>>1) - 7) / 8 // largest n for which length cannot overflow
 )
 
 var ErrIncompatibleVersion = errors.New("bitbucket: incompatible version")
@@ -58,7 +61,11 @@ func WithBytes(buf []byte) (BitBucket, error) {
 		return BitBucket{}, ErrUnsupportedWidth
 	}
 
-	n := int(binary.LittleEndian.Uint64(buf[2:hdrLen]))
+	nraw := binary.LittleEndian.Uint64(buf[2:hdrLen])
+	if nraw > uint64(maxCount) {
+		return BitBucket{}, io.ErrShortBuffer
+	}
+	n := int(nraw)
 
 	buflen := length(n, w)
 	if len(buf) < hdrLen+buflen {
@@ -196,18 +203,30 @@ func (b *BitBucket) ReadFrom(r io.Reader) (int64, error) {
 		return int64(n), ErrIncompatibleVersion
 	}
 
-	b.w = buf[1]
-	b.n = int(binary.LittleEndian.Uint64(buf[2:hdrLen]))
-	b.data = make([]byte, length(b.n, b.w))
+	w := buf[1]
+	if w > 8 {
+		return int64(n), ErrUnsupportedWidth
+	}
 
-	n0, err := io.ReadFull(r, b.data)
-	n += n0
+	count := binary.LittleEndian.Uint64(buf[2:hdrLen])
+	if count > uint64(maxCount) {
+		return int64(n), io.ErrUnexpectedEOF
+	}
+
+	// Do not trust count to allocate memory for data that may not be there
+	l := length(int(count), w)
+	data, err := ioutil.ReadAll(io.LimitReader(r, int64(l)))
+	n += len(data)
 	if err != nil {
-		if err == io.EOF {
-			return int64(n), io.ErrUnexpectedEOF
-		}
 		return int64(n), err
 	}
+	if len(data) < l {
+		return int64(n), io.ErrUnexpectedEOF
+	}
+
+	b.w = w
+	b.n = int(count)
+	b.data = data
 
 	n1, err := r.Read(buf[:])
 	n += n1
-- 
2.43.0


From 9b6c32ccf3a1cc151d6c59e8eca87f1e2b0fa488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 18/33] fix: trailing data is detected when the reader returns
 it with io.EOF

---
 internal/bitbucket/bitbucket.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/bitbucket/bitbucket.go b/internal/bitbucket/bitbucket.go
index e1bdbb2..969b53c 100644
--- a/internal/bitbucket/bitbucket.go
+++ b/internal/bitbucket/bitbucket.go
@@ -230,7 +230,7 @@ func (b *BitBucket) ReadFrom(r io.Reader) (int64, error) {
 
 	n1, err := r.Read(buf[:])
 	n += n1
-	if err != io.EOF {
+	if n1 > 0 || err != io.EOF {
 		// Unexpected trailing data
 		return int64(n), io.ErrShortBuffer
 	}
-- 
2.43.0


From 574286d427fb6873d480e13b7412d1efe1c983a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 19/33] fix: hll and bloom panic on truncated or inconsistent
 serialized data

Buffers too short for the header, and headers that do not agree with the bit
bucket that follows them, were accepted or caused an index out of range panic,
either at once or when the counter or filter was next used.
---
 internal/summary/bloom/bloom.go | 26 ++++++++++++++++++++++----
 internal/summary/hll/hll.go     | 25 ++++++++++++++++++++++---
 2 files changed, 44 insertions(+), 7 deletions(-)

diff --git a/internal/summary/bloom/bloom.go b/internal/summary/bloom/bloom.go
index 1e25a06..6280950 100644
--- a/internal/summary/bloom/bloom.go
+++ b/internal/summary/bloom/bloom.go
@@ -19,6 +19,7 @@ const (
 )
 
 var ErrIncompatibleVersion = errors.New("bloom: incompatible version")
+var ErrInvalidData = errors.New("bloom: invalid data")
 
 // Bloom is a bloom filter which can be used to probabilisticly test whether an item is a
 // member of a set. False positives are possible but false negatives are not.
@@ -40,6 +41,10 @@ func New(n int, p float64) Bloom {
 // the bloom filter will mutate buf. The layout of the byte buffer must match
 // the layout used by the WriteTo method.
 func WithBytes(buf []byte) (Bloom, error) {
+	if len(buf) < hdrLen {
+		return Bloom{}, io.ErrShortBuffer
+	}
+
 	version := buf[0]
 	if version != Version {
 		return Bloom{}, ErrIncompatibleVersion
@@ -50,6 +55,9 @@ func WithBytes(buf []byte) (Bloom, error) {
 	if err != nil {
 		return Bloom{}, err
 	}
+	if !valid(&bits) {
+		return Bloom{}, ErrInvalidData
+	}
 
 	return Bloom{
 		m:    bits.Count(),
@@ -58,6 +66,11 @@ func WithBytes(buf []byte) (Bloom, error) {
 	}, nil
 }
 
+// valid reports whether bits can hold a bloom filter.
+func valid(bits *bitbucket.BitBucket) bool {
+	return bits.Width() == 1 && bits.Count() > 0
+}
+
 func mk(n int, p float64) (int, uint8) {
 	m := int(math.Ceil(-float64(n) * math.Log(p) / (math.Ln2 * math.Ln2)))
 	kraw := math.Ceil(math.Ln2 * float64(m) / float64(n))
@@ -166,10 +179,10 @@ func (b *Bloom) ReadFrom(r io.Reader) (int64, error) {
 		return int64(n), ErrIncompatibleVersion
 	}
 
-	b.k = buf[1]
-	b.bits = bitbucket.BitBucket{}
+	k := buf[1]
 
-	n0, err := b.bits.ReadFrom(r)
+	var bits bitbucket.BitBucket
+	n0, err := bits.ReadFrom(r)
 	n += int(n0)
 	if err != nil {
 		if err == io.EOF {
@@ -177,7 +190,12 @@ func (b *Bloom) ReadFrom(r io.Reader) (int64, error) {
 		}
 		return int64(n), err
 	}
-	b.m = b.bits.Count()
+	if !valid(&bits) {
+		return int64(n), ErrInvalidData
+	}
+	b.k = k
+	b.bits = bits
+	b.m = bits.Count()
 
 	n1, err := r.Read(buf[:])
 	n += n1
diff --git a/internal/summary/hll/hll.go b/internal/summary/hll/hll.go
index 0845928..f9d9dba 100644
--- a/internal/summary/hll/hll.go
+++ b/internal/summary/hll/hll.go
@@ -20,6 +20,7 @@ const (
 )
 
 var ErrIncompatibleVersion = errors.New("hll: incompatible version")
+var ErrInvalidData = errors.New("hll: invalid data")
 
 // New creates a new hyperloglog counter with the specified precision. p must be in the range [4,18]
 func New(p uint8) Counter {
@@ -41,6 +42,10 @@ func New(p uint8) Counter {
 // writes to the counter will mutate buf. The layout of the byte buffer
 // must match the layout used by the WriteTo method.
 func WithBytes(buf []byte) (Counter, error) {
+	if len(buf) < hdrLen {
+		return Counter{}, io.ErrShortBuffer
+	}
+
 	version := buf[0]
 	if version != Version {
 		return Counter{}, ErrIncompatibleVersion
@@ -51,6 +56,9 @@ func WithBytes(buf []byte) (Counter, error) {
 	if err != nil {
 		return Counter{}, err
 	}
+	if !valid(p, &bits) {
+		return Counter{}, ErrInvalidData
+	}
 
 	c := Counter{
 		p:    p,
@@ -60,6 +68,11 @@ func WithBytes(buf []byte) (Counter, error) {
 	return c, nil
 }
 
+// valid reports whether p is a valid precision and bits holds the registers for it.
+func valid(p uint8, bits *bitbucket.BitBucket) bool {
+	return p >= 4 && p <= 18 && bits.Width() == 6 && bits.Count() == 1<<p
+}
+
 func (c *Counter) initParams() {
 	m := int(1 << uint(c.p))
 
@@ -298,10 +311,10 @@ func (c *Counter) ReadFrom(r io.Reader) (int64, error) {
 		return int64(n), ErrIncompatibleVersion
 	}
 
-	c.p = buf[1]
-	c.initParams()
+	p := buf[1]
 
-	n0, err := c.bits.ReadFrom(r)
+	var bits bitbucket.BitBucket
+	n0, err := bits.ReadFrom(r)
 	n += int(n0)
 	if err != nil {
 		if err == io.EOF {
@@ -309,6 +322,12 @@ func (c *Counter) ReadFrom(r io.Reader) (int64, error) {
 		}
 		return int64(n), err
 	}
+	if !valid(p, &bits) {
+		return int64(n), ErrInvalidData
+	}
+	c.p = p
+	c.bits = bits
+	c.initParams()
 
 	n1, err := r.Read(buf[:])
 	n += n1
-- 
2.43.0


From 94406d13967c4483b3a03e0e874cf345473127c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 20/33] fix: bloom Count of a saturated filter was a large
 negative number

---
 internal/summary/bloom/bloom.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/summary/bloom/bloom.go b/internal/summary/bloom/bloom.go
index 6280950..9d13e72 100644
--- a/internal/summary/bloom/bloom.go
+++ b/internal/summary/bloom/bloom.go
@@ -127,6 +127,11 @@ func Len(n int, p float64) int {
 // Count returns an estimate of the number of items that have been added to the bloom filter.
 func (b *Bloom) Count() int64 {
 	x := b.bits.CountN(1)
+	if x == b.m {
+		// The filter is saturated so no estimate is possible, report the
+		// largest one that is
+		x--
+	}
 	return int64(math.Ceil(-math.Log(1-float64(x)/float64(b.m)) * float64(b.m) / float64(b.k)))
 }
 
-- 
2.43.0


From af3e99363865ad490d8ff1a0b5c20eb9c00f2876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 21/33] fix: an upload that is cut short stored the fragment of
 its last row

bufio.Scanner returns the unterminated data before a read error as a final
token, so when a connection was lost in the middle of a row the part received
(height=31 of height=3129, say) was collated as an observation.
---
 internal/server/server.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/server/server.go b/internal/server/server.go
index a4c386f..f5ff1ba 100644
--- a/internal/server/server.go
+++ b/internal/server/server.go
@@ -168,6 +168,11 @@ func (s *Server) recvObservation(ctx context.Context, w http.ResponseWriter, req
 	now := time.Now()
 	sc := bufio.NewScanner(r)
 	for sc.Scan() {
+		// After a failed read the scanner still returns the data it has as a
+		// row, but if the upload was cut short then the row is incomplete
+		if sc.Err() != nil {
+			break
+		}
 
 		// Check whether context has been cancelled
 		select {
-- 
2.43.0


From 39f28153bdfec98fd256f8eb319bfd7ed8c275f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 22/33] fix: hyperloglog estimated 2 distinct items when there
 was 1

The linear counting estimate for one item is just over 1 and was rounded up.
---
 internal/summary/hll/hll.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/summary/hll/hll.go b/internal/summary/hll/hll.go
index f9d9dba..319426f 100644
--- a/internal/summary/hll/hll.go
+++ b/internal/summary/hll/hll.go
@@ -141,7 +141,7 @@ func (c *Counter) Count() int64 {
 	v := c.bits.CountN(0)
 	if v > 0 {
 		// Count is in the low region so try linear counting
-		h = math.Ceil(float64(m) * math.Log(float64(m)/float64(v)))
+		h = math.Round(float64(m) * math.Log(float64(m)/float64(v)))
 		if h <= c.threshold {
 			return int64(h)
 		}
-- 
2.43.0


From 69b577d3ebaa7c555c20f0a3422f0c4a9280ce99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 23/33] verif: yield points in bufmap, incmap and seqlock
 (no-ops without build tag verif)

---
 internal/bufmap/bufmap.go   | 11 +++++++++++
 internal/incmap/incmap.go   |  5 +++++
 internal/seqlock/seqlock.go |  8 ++++++++
 internal/yield/off.go       | 10 ++++++++++
 internal/yield/on.go        | 18 ++++++++++++++++++
 internal/yield/points.go    | 28 ++++++++++++++++++++++++++++
 6 files changed, 80 insertions(+)
 create mode 100644 internal/yield/off.go
 create mode 100644 internal/yield/on.go
 create mode 100644 internal/yield/points.go

diff --git a/internal/bufmap/bufmap.go b/internal/bufmap/bufmap.go
index 73a4fb6..873e10d 100644
--- a/internal/bufmap/bufmap.go
+++ b/internal/bufmap/bufmap.go
@@ -9,6 +9,8 @@ import (
 	"errors"
 	"sync"
 	"sync/atomic"
+
+	"github.com/iand/starbow/internal/yield"
 )
 
 var (
@@ -73,6 +75,8 @@ func (m *Map) Get(k uint64, buf []byte) bool {
 		}
 	}
 
+	yield.At(yield.BufmapFound)
+
 	// Read the buffer from the slot using the seqlock
 	s := &m.keys[x]
 	if atomic.LoadUint32(&s.set) == 0 {
@@ -89,6 +93,8 @@ func (m *Map) Get(k uint64, buf []byte) bool {
 		// Get a copy of the data
 		m.load(x, buf)
 
+		yield.At(yield.BufmapReadCheck)
+
 		// Check that the data was not updated during the copy
 		seq2 := atomic.LoadUint32(&s.seq)
 
@@ -124,6 +130,7 @@ func (m *Map) Update(k uint64, fn func(data []byte, init bool) error) error {
 		}
 		// Is it an empty slot?
 		if kexist == 0 {
+			yield.At(yield.BufmapEmpty)
 			// Try and store key into slot
 			if atomic.CompareAndSwapUint64(&m.keys[x].key, 0, k) {
 				// Stored key successfully
@@ -145,6 +152,7 @@ func (m *Map) Update(k uint64, fn func(data []byte, init bool) error) error {
 		}
 	}
 
+	yield.At(yield.BufmapClaimed)
 	s := &m.keys[x]
 
 	// Writers need to take a lock
@@ -165,6 +173,7 @@ func (m *Map) Update(k uint64, fn func(data []byte, init bool) error) error {
 	atomic.AddUint32(&s.seq, 1)
 
 	m.store(x, data)
+	yield.At(yield.BufmapStored)
 	atomic.StoreUint32(&s.set, 1)
 
 	// Notify readers that we are done
@@ -186,6 +195,7 @@ func (m *Map) load(x int, buf []byte) {
 	}
 	var word [8]byte
 	for i := x * m.w; len(buf) > 0; i++ {
+		yield.At(yield.BufmapReadWord)
 		binary.LittleEndian.PutUint64(word[:], atomic.LoadUint64(&m.values[i]))
 		buf = buf[copy(buf, word[:]):]
 	}
@@ -200,6 +210,7 @@ func (m *Map) store(x int, data []byte) {
 		data = data[n:]
 		// Most of a large value is unchanged by an update
 		if v := binary.LittleEndian.Uint64(word[:]); v != m.values[i] {
+			yield.At(yield.BufmapStoreWord)
 			atomic.StoreUint64(&m.values[i], v)
 		}
 	}
diff --git a/internal/incmap/incmap.go b/internal/incmap/incmap.go
index ca527b6..c35f81f 100644
--- a/internal/incmap/incmap.go
+++ b/internal/incmap/incmap.go
@@ -3,6 +3,8 @@ package incmap
 
 import (
 	"sync/atomic"
+
+	"github.com/iand/starbow/internal/yield"
 )
 
 // Map is a write-only lock free map. Its implementation is
@@ -47,6 +49,7 @@ func (m *Map) Inc(k uint64, d uint64) bool {
 
 		// Is it an empty slot?
 		if kexist == 0 {
+			yield.At(yield.IncmapEmpty)
 			// Try and store key into slot
 			if atomic.CompareAndSwapUint64(&m.keys[x], 0, k) {
 				// Stored key successfully
@@ -67,6 +70,7 @@ func (m *Map) Inc(k uint64, d uint64) bool {
 		}
 	}
 
+	yield.At(yield.IncmapClaimed)
 	atomic.AddUint64(&m.values[x], d)
 	return true
 }
@@ -94,6 +98,7 @@ func (m *Map) Get(k uint64) (uint64, bool) {
 		}
 	}
 
+	yield.At(yield.IncmapFound)
 	return atomic.LoadUint64(&m.values[x]), true
 }
 
diff --git a/internal/seqlock/seqlock.go b/internal/seqlock/seqlock.go
index 8021eb9..c184cd9 100644
--- a/internal/seqlock/seqlock.go
+++ b/internal/seqlock/seqlock.go
@@ -8,6 +8,8 @@ import (
 	"encoding/binary"
 	"sync"
 	"sync/atomic"
+
+	"github.com/iand/starbow/internal/yield"
 )
 
 type Seqlock struct {
@@ -32,6 +34,8 @@ func (s *Seqlock) Get() (ret [1024]byte) {
 		// Get a copy of the data
 		s.load(&ret)
 
+		yield.At(yield.SeqlockReadCheck)
+
 		// Check that the data was not updated during the copy
 		seq2 := atomic.LoadUint32(&s.seq)
 
@@ -51,6 +55,7 @@ func (s *Seqlock) Put(v [1024]byte) {
 	atomic.AddUint32(&s.seq, 1)
 
 	s.store(&v)
+	yield.At(yield.SeqlockStored)
 
 	// Notify readers that we are done
 	atomic.AddUint32(&s.seq, 1)
@@ -71,6 +76,7 @@ func (s *Seqlock) Update(fn func(data []byte) error) error {
 	err := fn(d[:])
 	if err == nil {
 		s.store(&d)
+		yield.At(yield.SeqlockStored)
 	}
 
 	// Notify readers that we are done
@@ -81,12 +87,14 @@ func (s *Seqlock) Update(fn func(data []byte) error) error {
 
 func (s *Seqlock) load(buf *[1024]byte) {
 	for i := range s.data {
+		yield.At(yield.SeqlockReadWord)
 		binary.LittleEndian.PutUint64(buf[i*8:], atomic.LoadUint64(&s.data[i]))
 	}
 }
 
 func (s *Seqlock) store(buf *[1024]byte) {
 	for i := range s.data {
+		yield.At(yield.SeqlockStoreWord)
 		atomic.StoreUint64(&s.data[i], binary.LittleEndian.Uint64(buf[i*8:]))
 	}
 }
diff --git a/internal/yield/off.go b/internal/yield/off.go
new file mode 100644
index 0000000..e692b7b
--- /dev/null
+++ b/internal/yield/off.go
@@ -0,0 +1,10 @@
+//go:build !verif
+// +build !verif
+
+// Package yield marks points between the steps of concurrent algorithms. The marks do
+// nothing unless the program is built with the tag verif, when they call a function
+// that can be used to provoke unusual interleavings.
+package yield
+
+// At marks a point in an algorithm.
+func At(p Point) {}
diff --git a/internal/yield/on.go b/internal/yield/on.go
new file mode 100644
index 0000000..fb66c58
--- /dev/null
+++ b/internal/yield/on.go
@@ -0,0 +1,18 @@
+//go:build verif
+// +build verif
+
+// Package yield marks points between the steps of concurrent algorithms. The marks do
+// nothing unless the program is built with the tag verif, when they call a function
+// that can be used to provoke unusual interleavings.
+package yield
+
+// Fn is called at each point if it is not nil. It must not be changed while any
+// instrumented algorithm is running.
+var Fn func(p Point)
+
+// At marks a point in an algorithm.
+func At(p Point) {
+	if Fn != nil {
+		Fn(p)
+	}
+}
diff --git a/internal/yield/points.go b/internal/yield/points.go
new file mode 100644
index 0000000..0446cbf
--- /dev/null
+++ b/internal/yield/points.go
@@ -0,0 +1,28 @@
+package yield
+
+// A Point identifies a point in an algorithm.
+type Point int
+
+// Points in package bufmap
+const (
+	BufmapFound     Point = iota // reader has located the slot
+	BufmapReadWord               // reader is about to read a word of the value
+	BufmapReadCheck              // reader is about to check that the value did not change
+	BufmapEmpty                  // writer has seen an empty slot and is about to claim it
+	BufmapClaimed                // writer has located its slot and is about to lock it
+	BufmapStoreWord              // writer is about to write a word of the value
+	BufmapStored                 // writer has written the value but not yet announced it
+
+	// Points in package incmap
+	IncmapEmpty   // writer has seen an empty slot and is about to claim it
+	IncmapClaimed // writer has located its slot and is about to add to it
+	IncmapFound   // reader has located the slot
+
+	// Points in package seqlock
+	SeqlockReadWord  // reader is about to read a word of the value
+	SeqlockReadCheck // reader is about to check that the value did not change
+	SeqlockStoreWord // writer is about to write a word of the value
+	SeqlockStored    // writer has written the value but not yet announced it
+
+	NumPoints int = iota
+)
-- 
2.43.0


From 5cd5857d6fbc88c5c461098110d6d77a0c6c2137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:46 +0000
Subject: [PATCH 24/33] fix: a reader that fails after the last byte was
 reported as having trailing data

---
 internal/bitbucket/bitbucket.go | 7 +++++--
 internal/summary/bloom/bloom.go | 7 +++++--
 internal/summary/hll/hll.go     | 7 +++++--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/internal/bitbucket/bitbucket.go b/internal/bitbucket/bitbucket.go
index 969b53c..eee60bd 100644
--- a/internal/bitbucket/bitbucket.go
+++ b/internal/bitbucket/bitbucket.go
@@ -228,12 +228,15 @@ func (b *BitBucket) ReadFrom(r io.Reader) (int64, error) {
 	b.n = int(count)
 	b.data = data
 
-	n1, err := r.Read(buf[:])
+	n1, err := io.ReadFull(r, buf[:1])
 	n += n1
-	if n1 > 0 || err != io.EOF {
+	if n1 > 0 {
 		// Unexpected trailing data
 		return int64(n), io.ErrShortBuffer
 	}
+	if err != io.EOF {
+		return int64(n), err
+	}
 
 	return int64(n), nil
 }
diff --git a/internal/summary/bloom/bloom.go b/internal/summary/bloom/bloom.go
index 9d13e72..975701c 100644
--- a/internal/summary/bloom/bloom.go
+++ b/internal/summary/bloom/bloom.go
@@ -202,12 +202,15 @@ func (b *Bloom) ReadFrom(r io.Reader) (int64, error) {
 	b.bits = bits
 	b.m = bits.Count()
 
-	n1, err := r.Read(buf[:])
+	n1, err := io.ReadFull(r, buf[:1])
 	n += n1
-	if err != io.EOF {
+	if n1 > 0 {
 		// Unexpected trailing data
 		return int64(n), io.ErrShortBuffer
 	}
+	if err != io.EOF {
+		return int64(n), err
+	}
 
 	return int64(n), nil
 }
diff --git a/internal/summary/hll/hll.go b/internal/summary/hll/hll.go
index 319426f..fd5b8aa 100644
--- a/internal/summary/hll/hll.go
+++ b/internal/summary/hll/hll.go
@@ -329,12 +329,15 @@ func (c *Counter) ReadFrom(r io.Reader) (int64, error) {
 	c.bits = bits
 	c.initParams()
 
-	n1, err := r.Read(buf[:])
+	n1, err := io.ReadFull(r, buf[:1])
 	n += n1
-	if err != io.EOF {
+	if n1 > 0 {
 		// Unexpected trailing data
 		return int64(n), io.ErrShortBuffer
 	}
+	if err != io.EOF {
+		return int64(n), err
+	}
 
 	return int64(n), nil
 }
-- 
2.43.0


From c6cf208070eaefb543c22cfe013ebd272c4a54bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:07 +0000
Subject: [PATCH 25/33] fix: bitbucket accepted serialized buckets of width 0,
 which cannot be read

---
 internal/bitbucket/bitbucket.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/bitbucket/bitbucket.go b/internal/bitbucket/bitbucket.go
index eee60bd..6fe2a63 100644
--- a/internal/bitbucket/bitbucket.go
+++ b/internal/bitbucket/bitbucket.go
@@ -66,6 +66,9 @@ func WithBytes(buf []byte) (BitBucket, error) {
 		return BitBucket{}, io.ErrShortBuffer
 	}
 	n := int(nraw)
+	if w == 0 && n > 0 {
+		return BitBucket{}, ErrUnsupportedWidth
+	}
 
 	buflen := length(n, w)
 	if len(buf) < hdrLen+buflen {
@@ -213,6 +216,10 @@ func (b *BitBucket) ReadFrom(r io.Reader) (int64, error) {
 		return int64(n), io.ErrUnexpectedEOF
 	}
 
+	if w == 0 && count > 0 {
+		return int64(n), ErrUnsupportedWidth
+	}
+
 	// Do not trust count to allocate memory for data that may not be there
 	l := length(int(count), w)
 	data, err := ioutil.ReadAll(io.LimitReader(r, int64(l)))
-- 
2.43.0


From 40d76f5bde17310dded8e9a989bd6708723387aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 26/33] fix: bloom probes of items that differ only in their
 last bytes collide

The probes are a+i*b where a is the FNV-1 hash, which is nearly consecutive for
such items. A filter for 1194 items at rate 0.31 holding 1194 8-byte numbers
estimated 691 items.
---
 internal/summary/bloom/bloom.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/internal/summary/bloom/bloom.go b/internal/summary/bloom/bloom.go
index 975701c..93a3822 100644
--- a/internal/summary/bloom/bloom.go
+++ b/internal/summary/bloom/bloom.go
@@ -237,11 +237,11 @@ type hasher struct {
 func newHasher(data []byte, m int) hasher {
 	h1 := fnv.New64()
 	h1.Write(data)
-	a := h1.Sum64()
+	a := mix(h1.Sum64())
 
 	h2 := fnv.New64a()
 	h2.Write(data)
-	b := h2.Sum64()
+	b := mix(h2.Sum64())
 
 	// b should be non-zero and relatively prime to m
 	if m&1 == 0 {
@@ -267,6 +267,18 @@ func newHasher(data []byte, m int) hasher {
 	}
 }
 
+// mix is the 64-bit finalizer of MurmurHash3. FNV alone is not suitable here because
+// the hashes of items that differ only in their last bytes are close to each other,
+// which makes their probes collide.
+func mix(h uint64) uint64 {
+	h ^= h >> 33
+	h *= 0xff51afd7ed558ccd
+	h ^= h >> 33
+	h *= 0xc4ceb9fe1a85ec53
+	h ^= h >> 33
+	return h
+}
+
 // next returns the next hash in the sequence
 func (h *hasher) next() uint64 {
 	v := h.a % uint64(h.m)
-- 
2.43.0


From a146accc8ba1b4c9fd43d447b5476c4a88f5626b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:16 +0000
Subject: [PATCH 27/33] fix: observations whose key values hash to zero were
 refused

---
 internal/collation/schema.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/collation/schema.go b/internal/collation/schema.go
index 0c8db43..99a1208 100644
--- a/internal/collation/schema.go
+++ b/internal/collation/schema.go
@@ -81,7 +81,12 @@ outer:
 		return 0, false
 	}
 
-	return h.Sum64(), true
+	k := h.Sum64()
+	if k == 0 {
+		// Backends do not accept zero as a key
+		k = 1
+	}
+	return k, true
 }
 
 // KeyValue builds a key value by locating Row fields corresponding to the key names supplied
-- 
2.43.0


From 77ba5ffd079533af659217b1765f2246dbec2f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:32 +0000
Subject: [PATCH 28/33] fix: bloom false positive rate of small filters for low
 rates

Two items shared all their probes whenever both their hashes agreed modulo the
number of bits. A filter for 500 items and rate 1e-6 had a rate of 5e-5.
---
 internal/summary/bloom/bloom.go | 23 ++++-------------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/internal/summary/bloom/bloom.go b/internal/summary/bloom/bloom.go
index 93a3822..4583625 100644
--- a/internal/summary/bloom/bloom.go
+++ b/internal/summary/bloom/bloom.go
@@ -243,23 +243,6 @@ func newHasher(data []byte, m int) hasher {
 	h2.Write(data)
 	b := mix(h2.Sum64())
 
-	// b should be non-zero and relatively prime to m
-	if m&1 == 0 {
-		// m is even, so ensure b is odd
-		if b&1 == 0 {
-			b++
-		}
-	} else {
-		// m is not even; make it so
-		if m > 2 {
-			m--
-		}
-		// Ensure b is not even too
-		if b&1 == 0 {
-			b++
-		}
-	}
-
 	return hasher{
 		a: a,
 		b: b,
@@ -281,7 +264,9 @@ func mix(h uint64) uint64 {
 
 // next returns the next hash in the sequence
 func (h *hasher) next() uint64 {
-	v := h.a % uint64(h.m)
-	h.a = (h.a + h.b) % uint64(h.m)
+	// Mix each value since otherwise two items share all their probes whenever both
+	// hashes agree modulo m, which is likely for small filters.
+	v := mix(h.a) % uint64(h.m)
+	h.a += h.b
 	return v
 }
-- 
2.43.0


From 6aad89674368ce8d2147d62994b3d8f5acfc23e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:09 +0000
Subject: [PATCH 29/33] fix: a failed first update no longer uses up a slot of
 the map

---
 internal/bufmap/bufmap.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/bufmap/bufmap.go b/internal/bufmap/bufmap.go
index 873e10d..f6304cb 100644
--- a/internal/bufmap/bufmap.go
+++ b/internal/bufmap/bufmap.go
@@ -131,6 +131,11 @@ func (m *Map) Update(k uint64, fn func(data []byte, init bool) error) error {
 		// Is it an empty slot?
 		if kexist == 0 {
 			yield.At(yield.BufmapEmpty)
+			// A slot is never given up, so do not take one for a value that
+			// cannot be created
+			if err := fn(make([]byte, m.s), true); err != nil {
+				return err
+			}
 			// Try and store key into slot
 			if atomic.CompareAndSwapUint64(&m.keys[x].key, 0, k) {
 				// Stored key successfully
-- 
2.43.0


From f1625c103b2d561a50ff1d5f28210ac63fa74432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:12 +0000
Subject: [PATCH 30/33] yield point in the signal handling of the server

---
 internal/server/server.go | 2 ++
 internal/yield/points.go  | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/internal/server/server.go b/internal/server/server.go
index f5ff1ba..42e72f6 100644
--- a/internal/server/server.go
+++ b/internal/server/server.go
@@ -21,6 +21,7 @@ import (
 	"github.com/iand/starbow/internal/collation"
 	"github.com/iand/starbow/internal/query"
 	"github.com/iand/starbow/internal/storage"
+	"github.com/iand/starbow/internal/yield"
 )
 
 type Logger interface {
@@ -85,6 +86,7 @@ func (s *Server) Serve() error {
 func (s *Server) waitSignal() {
 	ch := make(chan os.Signal)
 	signal.Notify(ch, syscall.SIGINT, syscall.SIGTERM)
+	yield.At(yield.ServerNotified)
 
 signalloop:
 	for sig := range ch {
diff --git a/internal/yield/points.go b/internal/yield/points.go
index 0446cbf..79a3e14 100644
--- a/internal/yield/points.go
+++ b/internal/yield/points.go
@@ -24,5 +24,8 @@ const (
 	SeqlockStoreWord // writer is about to write a word of the value
 	SeqlockStored    // writer has written the value but not yet announced it
 
+	// Points in package server
+	ServerNotified // server has asked for signals and is about to wait for them
+
 	NumPoints int = iota
 )
-- 
2.43.0


From 3280142da33c443363827fbb7e1efe03fb314f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:34 +0000
Subject: [PATCH 31/33] fix: a signal that came as soon as it was asked for did
 not stop the server

---
 internal/server/server.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/server/server.go b/internal/server/server.go
index 42e72f6..21dfa58 100644
--- a/internal/server/server.go
+++ b/internal/server/server.go
@@ -84,7 +84,8 @@ func (s *Server) Serve() error {
 
 // waitSignal blocks waiting for operating system signals
 func (s *Server) waitSignal() {
-	ch := make(chan os.Signal)
+	// A signal that comes before we are waiting must not be lost
+	ch := make(chan os.Signal, 1)
 	signal.Notify(ch, syscall.SIGINT, syscall.SIGTERM)
 	yield.At(yield.ServerNotified)
 
-- 
2.43.0


From c8c648d9e6fc600dea3f340b51844e27fec2d42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:50 +0000
Subject: [PATCH 32/33] fix: the program ended silently, and with success, if
 it could not listen

---
 starbow.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/starbow.go b/starbow.go
index 73f4f1e..6c38b8e 100644
--- a/starbow.go
+++ b/starbow.go
@@ -11,5 +11,7 @@ func main() {
 	if err := setupDemo(s); err != nil {
 		log.Fatal(err.Error())
 	}
-	s.Serve()
+	if err := s.Serve(); err != nil {
+		log.Fatal(err.Error())
+	}
 }
-- 
2.43.0


From 218ffb48dca2550f94a76eb1416a60665fcc2c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:41 +0000
Subject: [PATCH 33/33] fix: do not acknowledge an upload that is abandoned
 when its client closes its sending side

---
 internal/server/server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/server/server.go b/internal/server/server.go
index 21dfa58..c1eafbb 100644
--- a/internal/server/server.go
+++ b/internal/server/server.go
@@ -180,6 +180,9 @@ func (s *Server) recvObservation(ctx context.Context, w http.ResponseWriter, req
 		// Check whether context has been cancelled
 		select {
 		case <-ctx.Done():
+			// The client may have closed only its sending side, so it must
+			// not be told that all its rows were received
+			http.Error(w, ctx.Err().Error(), http.StatusInternalServerError)
 			return
 		default:
 		}
-- 
2.43.0

