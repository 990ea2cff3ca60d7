From ba179ae15235ecc882e60ab48f009316c07326f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 01/21] fix: bufmap Get copies the whole record of the slot it
 found

The upper bound of the copied range was x*(s+1) rather than (x+1)*s, so a
read returned only the first x bytes of the record in slot x, and panicked
for slots near the end of the map.
---
 internal/bufmap/bufmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/bufmap/bufmap.go b/internal/bufmap/bufmap.go
index 080c5fd..4dffa9c 100644
--- a/internal/bufmap/bufmap.go
+++ b/internal/bufmap/bufmap.go
@@ -73,7 +73,7 @@ func (m *Map) Get(k uint64, buf []byte) bool {
 		}
 
 		// Get a copy of the data
-		copy(buf, m.values[x*m.s:x*(m.s+1)])
+		copy(buf, m.values[x*m.s:(x+1)*m.s])
 
 		// Check that the data was not updated during the copy
 		seq2 := atomic.LoadUint32(&s.seq)
-- 
2.43.0


From ca4eb0c1c3264852266b3c98eb9fe54ba7ff9490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:31 +0000
Subject: [PATCH 02/21] fix: bufmap signals init exactly until a record's first
 successful update

init was set whenever the first probe missed, so a key stored away from its
home slot was reinitialised by every update, losing its data; two writers
racing to insert a key could also initialise it in either order. Decide it
under the slot's lock from a per-slot flag instead, and have Get report a
slot that was claimed but never successfully written as not found rather than
return uninitialised data.

The extra word also makes the slot a multiple of 8 bytes on 32-bit platforms,
where every atomic access to the key of slot 1 used to panic as unaligned.
---
 internal/bufmap/bufmap.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/internal/bufmap/bufmap.go b/internal/bufmap/bufmap.go
index 4dffa9c..f4511ae 100644
--- a/internal/bufmap/bufmap.go
+++ b/internal/bufmap/bufmap.go
@@ -36,9 +36,10 @@ func New(l, s int) *Map {
 }
 
 type slot struct {
-	key uint64 // key occupying this slot
-	seq uint32 // monotonically increasing write counter
-	mu  sync.Mutex
+	key  uint64 // key occupying this slot
+	seq  uint32 // monotonically increasing write counter
+	live uint32 // 1 once the slot's data has been initialised by a successful update
+	mu   sync.Mutex
 }
 
 // maximum number of hops to make during a linear probe.
@@ -65,6 +66,12 @@ func (m *Map) Get(k uint64, buf []byte) bool {
 
 	// Read the buffer from the slot using the seqlock
 	s := &m.keys[x]
+
+	// A slot that has been claimed but not yet initialised holds no data
+	if atomic.LoadUint32(&s.live) == 0 {
+		return false
+	}
+
 	for {
 		seq1 := atomic.LoadUint32(&s.seq)
 		// Is a writer currently writing?
@@ -100,7 +107,6 @@ func (m *Map) Update(k uint64, fn func(data []byte, init bool) error) error {
 	}
 	x := -1
 	i := 0
-	init := false
 	for {
 		x = m.pos(k, i)
 
@@ -109,8 +115,6 @@ func (m *Map) Update(k uint64, fn func(data []byte, init bool) error) error {
 		if kexist == k {
 			break
 		}
-		// Signal that the is a new value
-		init = true
 
 		// Is it an empty slot?
 		if kexist == 0 {
@@ -140,10 +144,16 @@ func (m *Map) Update(k uint64, fn func(data []byte, init bool) error) error {
 	// Writers need to take a lock
 	s.mu.Lock()
 
+	// The data needs initialising until an update has succeeded
+	init := atomic.LoadUint32(&s.live) == 0
+
 	// Notify readers that we are writing
 	atomic.AddUint32(&s.seq, 1)
 
 	err := fn(m.values[x*m.s:(x+1)*m.s], init)
+	if err == nil && init {
+		atomic.StoreUint32(&s.live, 1)
+	}
 
 	// Notify readers that we are done
 	atomic.AddUint32(&s.seq, 1)
-- 
2.43.0


From eb1b6ee2742070cd959437fb1543b777133eef90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:02 +0000
Subject: [PATCH 03/21] fix: an update that fails or panics leaves the record
 intact and usable

bufmap ran the update function directly on the stored record, so an
observation rejected half way (e.g. by an unparsable number) left part of its
effects behind. Run it on a copy and discard the copy on error, as seqlock
already does. In both packages the lock was not released and the sequence was
left odd when the function panicked, hanging every later reader and writer of
the record; net/http recovers such panics, so the server kept running.
---
 internal/bufmap/bufmap.go   | 27 ++++++++++++++++++---------
 internal/seqlock/seqlock.go | 18 ++++++++++--------
 2 files changed, 28 insertions(+), 17 deletions(-)

diff --git a/internal/bufmap/bufmap.go b/internal/bufmap/bufmap.go
index f4511ae..6200051 100644
--- a/internal/bufmap/bufmap.go
+++ b/internal/bufmap/bufmap.go
@@ -95,10 +95,11 @@ func (m *Map) Get(k uint64, buf []byte) bool {
 }
 
 // Update finds the buffer stored against key k and atomically updates it with
-// v using the function fn. It returns the error returned by fn, if any. It
-// will also return an error if the map is full. The function fn may be called
-// multiple times during a single call to Update, or not called at all if the
-// map cannot find space for the key.
+// v using the function fn. It returns the error returned by fn, if any, in which
+// case the update is aborted and the buffer is left unchanged. It will also
+// return an error if the map is full. The function fn may be called multiple
+// times during a single call to Update, or not called at all if the map cannot
+// find space for the key.
 func (m *Map) Update(k uint64, fn func(data []byte, init bool) error) error {
 	// 0 is our value that indicates an empty slot so we can't accept
 	// it as a valid key
@@ -143,24 +144,32 @@ func (m *Map) Update(k uint64, fn func(data []byte, init bool) error) error {
 
 	// Writers need to take a lock
 	s.mu.Lock()
+	// Allow access by other writers, even if fn panics
+	defer s.mu.Unlock()
 
 	// The data needs initialising until an update has succeeded
 	init := atomic.LoadUint32(&s.live) == 0
 
+	// Work on a copy so that an update that fails leaves the data untouched
+	data := m.values[x*m.s : (x+1)*m.s]
+	buf := make([]byte, m.s)
+	copy(buf, data)
+	if err := fn(buf, init); err != nil {
+		return err
+	}
+
 	// Notify readers that we are writing
 	atomic.AddUint32(&s.seq, 1)
 
-	err := fn(m.values[x*m.s:(x+1)*m.s], init)
-	if err == nil && init {
+	copy(data, buf)
+	if init {
 		atomic.StoreUint32(&s.live, 1)
 	}
 
 	// Notify readers that we are done
 	atomic.AddUint32(&s.seq, 1)
 
-	// Allow access by other writers
-	s.mu.Unlock()
-	return err
+	return nil
 }
 
 // pos maps the key and probe index to a slot location in the map.
diff --git a/internal/seqlock/seqlock.go b/internal/seqlock/seqlock.go
index 41cb8d4..8a4fe48 100644
--- a/internal/seqlock/seqlock.go
+++ b/internal/seqlock/seqlock.go
@@ -61,19 +61,21 @@ func (s *Seqlock) Put(v [1024]byte) {
 func (s *Seqlock) Update(fn func(data []byte) error) error {
 	// Writers need to take a lock
 	s.mu.Lock()
-
-	// Notify readers that we are writing
-	atomic.AddUint32(&s.seq, 1)
+	// Allow access by other writers, even if fn panics
+	defer s.mu.Unlock()
 
 	var d [1024]byte
 	copy(d[:], s.data[:])
-	err := fn(d[:])
-	if err == nil {
-		copy(s.data[:], d[:])
+	if err := fn(d[:]); err != nil {
+		return err
 	}
 
+	// Notify readers that we are writing
+	atomic.AddUint32(&s.seq, 1)
+
+	copy(s.data[:], d[:])
+
 	// Notify readers that we are done
 	atomic.AddUint32(&s.seq, 1)
-	s.mu.Unlock()
-	return err
+	return nil
 }
-- 
2.43.0


From 444a543d39c06e7871c70f2726be68a8029397b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 04/21] fix: Get does not report the reserved zero key as found

Zero marks an empty slot in bufmap and incmap and is rejected on write, but a
lookup of it matched the first empty slot in its probe sequence.
---
 internal/bufmap/bufmap.go | 5 +++++
 internal/incmap/incmap.go | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/internal/bufmap/bufmap.go b/internal/bufmap/bufmap.go
index 6200051..cbea57a 100644
--- a/internal/bufmap/bufmap.go
+++ b/internal/bufmap/bufmap.go
@@ -48,6 +48,11 @@ const maxReprobe = 10
 // Get atomically reads a buffer value stored against key k into buffer buf.
 // The return value will be false if the key could not be found in the map.
 func (m *Map) Get(k uint64, buf []byte) bool {
+	// 0 is our value that indicates an empty slot so it can't be a stored key
+	if k == 0 {
+		return false
+	}
+
 	// Locate the correct slot
 	x := -1
 	i := 0
diff --git a/internal/incmap/incmap.go b/internal/incmap/incmap.go
index 1244064..1dea8cd 100644
--- a/internal/incmap/incmap.go
+++ b/internal/incmap/incmap.go
@@ -74,6 +74,10 @@ func (m *Map) Inc(k uint64, d uint64) bool {
 // Get retrieves the value stored against key k. The second return
 // value will be false if the key could not be found in the map.
 func (m *Map) Get(k uint64) (uint64, bool) {
+	// 0 is our value that indicates an empty slot so it can't be a stored key
+	if k == 0 {
+		return 0, false
+	}
 
 	x := -1
 	i := 0
-- 
2.43.0


From 305d67ce2580670c7d7e3743d0a40b318ce7b0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 05/21] fix: initialise every measure of a new record

Measures were told to initialise only when their field appeared in the first
row stored for a key. A field first seen in a later row was then updated from
zeroes: min and max could report a spurious 0, and a cardinality failed with
an incompatible version error for ever. A field repeated in the first row was
initialised twice, forgetting its first value. Initialise all measures up
front when the record is created.
---
 internal/collation/compile.go | 14 +++++++++++++
 internal/collation/measure.go | 39 ++++++++++++++++++++++++++++-------
 internal/collation/schema.go  | 24 +++++++++++++++++++++
 3 files changed, 69 insertions(+), 8 deletions(-)

diff --git a/internal/collation/compile.go b/internal/collation/compile.go
index d07f67f..a57783d 100644
--- a/internal/collation/compile.go
+++ b/internal/collation/compile.go
@@ -16,9 +16,21 @@ func (s *Schema) Compile() (Collator, error) {
 	}
 	// TODO: sort keys
 
+	// addInit registers the initialisation needed by m for its range of data
+	addInit := func(m Measure, low, high int) {
+		if im, ok := m.(Initializer); ok {
+			coll.inits = append(coll.inits, initializer{
+				Low:  low,
+				High: high,
+				Fn:   im.Init,
+			})
+		}
+	}
+
 	pos := 0
 	for _, m := range s.RecordMeasures {
 		size := m.Size()
+		addInit(m, pos, pos+size)
 		coll.writers = append(coll.writers, anyWriter{
 			Low:  pos,
 			High: pos + size,
@@ -80,6 +92,7 @@ func (s *Schema) Compile() (Collator, error) {
 				}
 
 				if !skipWriter {
+					addInit(m, low, hi)
 					ws := coll.contWriters[ms.Field.Pattern]
 					ws = append(ws, contWriter{
 						Low:  low,
@@ -120,6 +133,7 @@ func (s *Schema) Compile() (Collator, error) {
 			}
 
 			if dm, ok := m.(DiscreteInput); ok {
+				addInit(m, pos, pos+size)
 				ws := coll.discWriters[ms.Field.Pattern]
 				ws = append(ws, discWriter{
 					Low:  pos,
diff --git a/internal/collation/measure.go b/internal/collation/measure.go
index 030ac8e..ffe81a4 100644
--- a/internal/collation/measure.go
+++ b/internal/collation/measure.go
@@ -14,6 +14,12 @@ type Measure interface {
 	Name() string
 }
 
+// An Initializer is a measure whose state before its first observation is not
+// represented by a buffer of zeroes.
+type Initializer interface {
+	Init(buf []byte) error
+}
+
 type RowMeasure interface {
 	Measure
 	RowWriter() RowWriterFunc
@@ -147,6 +153,12 @@ func (Max) Size() int { return 8 }
 
 func (Max) Name() string { return "max" }
 
+// Init sets the maximum of no observations.
+func (Max) Init(buf []byte) error {
+	binary.LittleEndian.PutUint64(buf, math.Float64bits(math.Inf(-1)))
+	return nil
+}
+
 func (Max) ContWriter() ContWriterFunc {
 	return func(buf []byte, init bool, v float64) error {
 		if !init {
@@ -176,6 +188,12 @@ func (Min) Size() int { return 8 }
 
 func (Min) Name() string { return "min" }
 
+// Init sets the minimum of no observations.
+func (Min) Init(buf []byte) error {
+	binary.LittleEndian.PutUint64(buf, math.Float64bits(math.Inf(1)))
+	return nil
+}
+
 func (Min) ContWriter() ContWriterFunc {
 	return func(buf []byte, init bool, v float64) error {
 		if !init {
@@ -231,17 +249,22 @@ type Cardinality struct {
 var _ DiscreteInput = Cardinality{}
 var _ ContinuousOutput = Cardinality{}
 
+// Init stores an empty counter.
+func (c Cardinality) Init(buf []byte) error {
+	s := hll.New(uint8(c.Precision))
+
+	var b bytes.Buffer
+	_, err := s.WriteTo(&b) // TODO: ensure bytes.Buffer does not grow
+	copy(buf, b.Bytes())
+	return err
+}
+
 func (c Cardinality) DiscWriter() DiscWriterFunc {
 	return func(buf []byte, init bool, v []byte) error {
-
 		if init {
-			s := hll.New(uint8(c.Precision))
-			s.Add(v)
-
-			var b bytes.Buffer
-			_, err := s.WriteTo(&b) // TODO: ensure bytes.Buffer does not grow
-			copy(buf, b.Bytes())
-			return err
+			if err := c.Init(buf); err != nil {
+				return err
+			}
 		}
 
 		s, err := hll.WithBytes(buf)
diff --git a/internal/collation/schema.go b/internal/collation/schema.go
index a7f6caf..a50e380 100644
--- a/internal/collation/schema.go
+++ b/internal/collation/schema.go
@@ -145,6 +145,7 @@ type Result struct {
 type Collator struct {
 	name        string
 	keys        [][]byte
+	inits       []initializer
 	writers     []anyWriter
 	contWriters map[string][]contWriter
 	discWriters map[string][]discWriter
@@ -160,6 +161,20 @@ type Collator struct {
 // their state. If an error is returned then the buffer may be in an
 // inconsistent state and should not be used further.
 func (c Collator) Update(r Row, buf []byte, init bool) error {
+	if init {
+		// Initialise the state of every measure since there is no guarantee that
+		// this row contains all the fields that are being measured.
+		for i := range buf {
+			buf[i] = 0
+		}
+		for _, in := range c.inits {
+			if err := in.Init(buf); err != nil {
+				return err
+			}
+		}
+		init = false
+	}
+
 	// Update measures that operate on the row
 	for _, w := range c.writers {
 		if err := w.Update(buf, init); err != nil {
@@ -248,6 +263,15 @@ func (c Collator) Name() string {
 	return c.name
 }
 
+type initializer struct {
+	Low, High int // index range of data within buffer
+	Fn        func(buf []byte) error
+}
+
+func (in initializer) Init(buf []byte) error {
+	return in.Fn(buf[in.Low:in.High])
+}
+
 type anyWriter struct {
 	Low, High int // index range of data within buffer
 	Fn        RowWriterFunc
-- 
2.43.0


From fa2a78fc199bc76c57f8076641d513397226ff00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 06/21] fix: an observation of NaN does not discard the maximum
 or minimum

NaN compares false with everything, so it replaced the stored extreme and was
then itself replaced by the next observation, however unremarkable.
---
 internal/collation/measure.go | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/internal/collation/measure.go b/internal/collation/measure.go
index ffe81a4..b9e5f18 100644
--- a/internal/collation/measure.go
+++ b/internal/collation/measure.go
@@ -159,15 +159,18 @@ func (Max) Init(buf []byte) error {
 	return nil
 }
 
-func (Max) ContWriter() ContWriterFunc {
+func (m Max) ContWriter() ContWriterFunc {
 	return func(buf []byte, init bool, v float64) error {
-		if !init {
-			c := math.Float64frombits(binary.LittleEndian.Uint64(buf))
-			if c >= v {
-				return nil
+		if init {
+			if err := m.Init(buf); err != nil {
+				return err
 			}
 		}
-		binary.LittleEndian.PutUint64(buf, math.Float64bits(v))
+		c := math.Float64frombits(binary.LittleEndian.Uint64(buf))
+		// NaN is unordered so is never the maximum
+		if v > c {
+			binary.LittleEndian.PutUint64(buf, math.Float64bits(v))
+		}
 		return nil
 	}
 }
@@ -194,15 +197,18 @@ func (Min) Init(buf []byte) error {
 	return nil
 }
 
-func (Min) ContWriter() ContWriterFunc {
+func (m Min) ContWriter() ContWriterFunc {
 	return func(buf []byte, init bool, v float64) error {
-		if !init {
-			c := math.Float64frombits(binary.LittleEndian.Uint64(buf))
-			if c <= v {
-				return nil
+		if init {
+			if err := m.Init(buf); err != nil {
+				return err
 			}
 		}
-		binary.LittleEndian.PutUint64(buf, math.Float64bits(v))
+		c := math.Float64frombits(binary.LittleEndian.Uint64(buf))
+		// NaN is unordered so is never the minimum
+		if v < c {
+			binary.LittleEndian.PutUint64(buf, math.Float64bits(v))
+		}
 		return nil
 	}
 }
-- 
2.43.0


From 2d127feaef9619c84a98ce06fb6475270ebdb795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:57 +0000
Subject: [PATCH 07/21] fix: count can be measured for a field

Compile expects Count to share the summary used for sum, mean and variance but
Count had no writer for continuous values, so Compile skipped it silently and
count(field) was missing from every result.
---
 internal/collation/compile.go |  4 ++++
 internal/collation/measure.go | 12 ++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/internal/collation/compile.go b/internal/collation/compile.go
index a57783d..161dd22 100644
--- a/internal/collation/compile.go
+++ b/internal/collation/compile.go
@@ -75,6 +75,10 @@ func (s *Schema) Compile() (Collator, error) {
 
 		for _, m := range ms.Measures {
 			size := m.Size()
+			if _, ok := m.(Count); ok {
+				// A count of a field is written as part of a stat64 summary
+				size = Sum{}.Size()
+			}
 			low, hi := pos, pos+size
 			skipWriter := false
 			if cm, ok := m.(ContinuousInput); ok {
diff --git a/internal/collation/measure.go b/internal/collation/measure.go
index b9e5f18..8125ada 100644
--- a/internal/collation/measure.go
+++ b/internal/collation/measure.go
@@ -52,6 +52,7 @@ type DiscReaderFunc func(buf []byte) ([]byte, error)
 type Count struct{}
 
 var _ RowMeasure = Count{}
+var _ ContinuousInput = Count{}
 
 func (Count) Size() int { return 8 }
 
@@ -66,6 +67,17 @@ func (Count) RowWriter() RowWriterFunc {
 	}
 }
 
+// ContWriter returns a function that counts observations of a field. It
+// maintains a stat64 summary, which starts with the count, so that it may be
+// shared with the other measures of the field.
+func (Count) ContWriter() ContWriterFunc {
+	return func(buf []byte, init bool, v float64) error {
+		s := stat64.WithBytes(buf)
+		s.Update(v)
+		return nil
+	}
+}
+
 func (Count) ContReader() ContReaderFunc {
 	return func(buf []byte) (float64, error) {
 		c := binary.LittleEndian.Uint64(buf)
-- 
2.43.0


From ce8a76341c8b5af2b20a4fac6fbdc0a7f8e717bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 08/21] fix: Compile rejects measures that cannot be maintained

A field measure with no writer was dropped silently, and a cardinality whose
precision is out of range compiled but panicked (or, when it wrapped around as
a uint8, counted at another precision) on the first observation.
---
 internal/collation/compile.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/internal/collation/compile.go b/internal/collation/compile.go
index 161dd22..1dc872b 100644
--- a/internal/collation/compile.go
+++ b/internal/collation/compile.go
@@ -1,5 +1,9 @@
 package collation
 
+import (
+	"fmt"
+)
+
 func (s *Schema) Compile() (Collator, error) {
 	coll := Collator{
 		name:        s.Name,
@@ -74,6 +78,10 @@ func (s *Schema) Compile() (Collator, error) {
 		stat64Low, stat64Hi := 0, 0
 
 		for _, m := range ms.Measures {
+			if err := validateMeasure(m); err != nil {
+				return Collator{}, fmt.Errorf("field %q: %v", ms.Field.Pattern, err)
+			}
+
 			size := m.Size()
 			if _, ok := m.(Count); ok {
 				// A count of a field is written as part of a stat64 summary
@@ -181,3 +189,18 @@ func (s *Schema) Compile() (Collator, error) {
 
 	return coll, nil
 }
+
+// validateMeasure reports whether m can be used to measure a field.
+func validateMeasure(m Measure) error {
+	_, cont := m.(ContinuousInput)
+	_, disc := m.(DiscreteInput)
+	if !cont && !disc {
+		return fmt.Errorf("measure %q cannot measure a field", m.Name())
+	}
+
+	if c, ok := m.(Cardinality); ok && (c.Precision < 4 || c.Precision > 18) {
+		return fmt.Errorf("measure %q: precision %d is not in the range [4,18]", m.Name(), c.Precision)
+	}
+
+	return nil
+}
-- 
2.43.0


From 849ca153e362f7616e70a3ee442509ce1e60f8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 09/21] fix: query results are in the order of the query

RoughParse collected the selected measures in a map and ranged over it, so a
query over several fields gave its results in a random order.
---
 internal/query/rough.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/internal/query/rough.go b/internal/query/rough.go
index c98b613..ec95932 100644
--- a/internal/query/rough.go
+++ b/internal/query/rough.go
@@ -22,18 +22,21 @@ func RoughParse(in string) (collation.Query, error) {
 		return q, fmt.Errorf("query: syntax error; expected query to have format 'select xxx where yyy'")
 	}
 
-	fields := map[string][][]byte{}
+	// position of each field in q.FieldMeasures, which are kept in the order of the query
+	fields := map[string]int{}
 
 	selections := selectRe.FindAllStringSubmatch(parts[1], -1)
 	for _, s := range selections {
 		if len(s) != 3 {
 			return q, fmt.Errorf("query: syntax error; expected query to have format 'select xxx where yyy'")
 		}
-		fields[string(s[2])] = append(fields[string(s[2])], []byte(s[1]))
-	}
-
-	for f, vs := range fields {
-		q.FieldMeasures = append(q.FieldMeasures, collation.FM{F: []byte(f), M: vs})
+		i, found := fields[s[2]]
+		if !found {
+			i = len(q.FieldMeasures)
+			fields[s[2]] = i
+			q.FieldMeasures = append(q.FieldMeasures, collation.FM{F: []byte(s[2])})
+		}
+		q.FieldMeasures[i].M = append(q.FieldMeasures[i].M, []byte(s[1]))
 	}
 
 	wheres := whereRe.FindAllStringSubmatch(parts[2], -1)
-- 
2.43.0


From b9d8775e8507e167fb5971d16bcceb9bee1ae875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 10/21] fix: errors starting or running the server are reported

main ignored the error from Serve, so the process exited with status 0 when it
could not listen, the demo setup ignored errors compiling its collations, and
nothing noticed if the HTTP server stopped. The channel given to signal.Notify
was unbuffered, so a signal arriving while it was not being received was lost.
---
 demo.go                   |  9 +++++----
 internal/server/server.go | 35 +++++++++++++++++++++--------------
 starbow.go                |  4 +++-
 3 files changed, 29 insertions(+), 19 deletions(-)

diff --git a/demo.go b/demo.go
index cff4d61..df1549c 100644
--- a/demo.go
+++ b/demo.go
@@ -8,7 +8,7 @@ import (
 )
 
 func setupDemo(s *server.Server) error {
-	addDemoCollation(s, collation.Schema{
+	err := addDemoCollation(s, collation.Schema{
 		Name: "country",
 		Keys: []collation.KeySpec{
 			{Field: collation.FieldSpec{Pattern: "country"}},
@@ -25,8 +25,11 @@ func setupDemo(s *server.Server) error {
 			},
 		},
 	})
+	if err != nil {
+		return err
+	}
 
-	addDemoCollation(s, collation.Schema{
+	return addDemoCollation(s, collation.Schema{
 		Name: "tz",
 		Keys: []collation.KeySpec{
 			{Field: collation.FieldSpec{Pattern: "tz"}},
@@ -43,8 +46,6 @@ func setupDemo(s *server.Server) error {
 			},
 		},
 	})
-
-	return nil
 }
 
 func addDemoCollation(s *server.Server, sch collation.Schema) error {
diff --git a/internal/server/server.go b/internal/server/server.go
index a4c386f..7681836 100644
--- a/internal/server/server.go
+++ b/internal/server/server.go
@@ -75,23 +75,30 @@ func (s *Server) Serve() error {
 		Handler: s,
 	}
 
-	go hs.Serve(listener)
+	// Signals may arrive at any time from now on so there must be room to hold one
+	ch := make(chan os.Signal, 1)
+	signal.Notify(ch, syscall.SIGINT, syscall.SIGTERM)
 
-	s.waitSignal()
-	return nil
-}
+	errs := make(chan error, 1)
+	go func() {
+		errs <- hs.Serve(listener)
+	}()
 
-// waitSignal blocks waiting for operating system signals
-func (s *Server) waitSignal() {
-	ch := make(chan os.Signal)
-	signal.Notify(ch, syscall.SIGINT, syscall.SIGTERM)
+	return s.waitSignal(ch, errs)
+}
 
-signalloop:
-	for sig := range ch {
-		switch sig {
-		case syscall.SIGINT, syscall.SIGTERM:
-			break signalloop
-			// TODO: support HUP to reload config
+// waitSignal blocks waiting for operating system signals or an error that stops the server
+func (s *Server) waitSignal(ch <-chan os.Signal, errs <-chan error) error {
+	for {
+		select {
+		case sig := <-ch:
+			switch sig {
+			case syscall.SIGINT, syscall.SIGTERM:
+				return nil
+				// TODO: support HUP to reload config
+			}
+		case err := <-errs:
+			return fmt.Errorf("fatal error serving on %s: %v", s.Addr, err)
 		}
 	}
 }
diff --git a/starbow.go b/starbow.go
index 73f4f1e..6c38b8e 100644
--- a/starbow.go
+++ b/starbow.go
@@ -11,5 +11,7 @@ func main() {
 	if err := setupDemo(s); err != nil {
 		log.Fatal(err.Error())
 	}
-	s.Serve()
+	if err := s.Serve(); err != nil {
+		log.Fatal(err.Error())
+	}
 }
-- 
2.43.0


From 799a8da7ffe333f0558cd48ac3e73b409183ef74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 11/21] fix: observation timestamps are parsed as 64 bits and
 do not overflow

Atoi rejected every microsecond timestamp on 32-bit platforms, and converting
the timestamp to nanoseconds overflowed for times after the year 2262.
---
 internal/server/server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/server/server.go b/internal/server/server.go
index 7681836..bb2f7e1 100644
--- a/internal/server/server.go
+++ b/internal/server/server.go
@@ -234,12 +234,12 @@ func parseRow(data []byte) (collation.Row, error) {
 	}
 
 	// Timestamp is in microseconds
-	ts, err := strconv.Atoi(string(data[:p]))
+	ts, err := strconv.ParseInt(string(data[:p]), 10, 64)
 	if err != nil {
 		return row, err
 	}
 
-	row.DataTime = time.Unix(0, int64(ts)*1000)
+	row.DataTime = time.Unix(ts/1000000, ts%1000000*1000)
 
 	if p == len(data) {
 		// No fields or values
-- 
2.43.0


From 177b9abb10dddce3caf30bae7d9cd87045284880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 12/21] fix: a cancelled request is not acknowledged as
 successful

Returning from the handler without writing a response sends a 200 status even
though the remaining observations in the request were not stored.
---
 internal/server/server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/server/server.go b/internal/server/server.go
index bb2f7e1..fa9593b 100644
--- a/internal/server/server.go
+++ b/internal/server/server.go
@@ -179,6 +179,7 @@ func (s *Server) recvObservation(ctx context.Context, w http.ResponseWriter, req
 		// Check whether context has been cancelled
 		select {
 		case <-ctx.Done():
+			http.Error(w, ctx.Err().Error(), http.StatusServiceUnavailable)
 			return
 		default:
 		}
-- 
2.43.0


From 82175af21ae6e921a329e197dc464aa155a7c5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 13/21] fix: Meanvar calculates the sample variance

It divided by the number of values, giving the population variance, unlike its
documentation and stat64.Summary.Variance.
---
 internal/stats/stats.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index 4515bb2..32d9f68 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -20,7 +20,7 @@ func Meanvar(vals []float64) (mean, variance float64) {
 	for i := range vals {
 		variance += (vals[i] - mean) * (vals[i] - mean)
 	}
-	variance /= count
+	variance /= count - 1
 	return
 }
 
-- 
2.43.0


From 05478f0780112114f9f66a7868d76496d79727a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 14/21] fix: ReadFrom detects trailing data whatever the reader
 does at EOF

A reader may return its last bytes together with io.EOF, in which case the
trailing data was accepted, or no bytes and no error, in which case valid data
was rejected. A read error was also reported as trailing data.
---
 internal/bitbucket/bitbucket.go | 7 +++++--
 internal/summary/bloom/bloom.go | 7 +++++--
 internal/summary/hll/hll.go     | 7 +++++--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/internal/bitbucket/bitbucket.go b/internal/bitbucket/bitbucket.go
index 80969ad..9ca2843 100644
--- a/internal/bitbucket/bitbucket.go
+++ b/internal/bitbucket/bitbucket.go
@@ -209,12 +209,15 @@ func (b *BitBucket) ReadFrom(r io.Reader) (int64, error) {
 		return int64(n), err
 	}
 
-	n1, err := r.Read(buf[:])
+	n1, err := io.ReadFull(r, buf[:1])
 	n += n1
-	if err != io.EOF {
+	if err == nil {
 		// Unexpected trailing data
 		return int64(n), io.ErrShortBuffer
 	}
+	if err != io.EOF {
+		return int64(n), err
+	}
 
 	return int64(n), nil
 }
diff --git a/internal/summary/bloom/bloom.go b/internal/summary/bloom/bloom.go
index 762843a..b4fe583 100644
--- a/internal/summary/bloom/bloom.go
+++ b/internal/summary/bloom/bloom.go
@@ -179,12 +179,15 @@ func (b *Bloom) ReadFrom(r io.Reader) (int64, error) {
 	}
 	b.m = b.bits.Count()
 
-	n1, err := r.Read(buf[:])
+	n1, err := io.ReadFull(r, buf[:1])
 	n += n1
-	if err != io.EOF {
+	if err == nil {
 		// Unexpected trailing data
 		return int64(n), io.ErrShortBuffer
 	}
+	if err != io.EOF {
+		return int64(n), err
+	}
 
 	return int64(n), nil
 }
diff --git a/internal/summary/hll/hll.go b/internal/summary/hll/hll.go
index d2b299d..6afff9e 100644
--- a/internal/summary/hll/hll.go
+++ b/internal/summary/hll/hll.go
@@ -298,12 +298,15 @@ func (c *Counter) ReadFrom(r io.Reader) (int64, error) {
 		return int64(n), err
 	}
 
-	n1, err := r.Read(buf[:])
+	n1, err := io.ReadFull(r, buf[:1])
 	n += n1
-	if err != io.EOF {
+	if err == nil {
 		// Unexpected trailing data
 		return int64(n), io.ErrShortBuffer
 	}
+	if err != io.EOF {
+		return int64(n), err
+	}
 
 	return int64(n), nil
 }
-- 
2.43.0


From bd9163b2fad0c4c9ec4a60813f9ab0877dbb93af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:59 +0000
Subject: [PATCH 15/21] fix: malformed serialized summaries are rejected

WithBytes in bloom and hll panicked on a buffer shorter than their header, and
no package checked the bucket count: a negative or huge count panicked when
slicing or allocating, or overflowed and was accepted. ReadFrom did not check
the bucket width as WithBytes does, and hll and bloom accepted registers that
did not match the precision or could not be indexed. A failed ReadFrom left
the receiver partly overwritten.
---
 internal/bitbucket/bitbucket.go | 39 +++++++++++++++++++++++++--------
 internal/summary/bloom/bloom.go | 27 +++++++++++++++++++----
 internal/summary/hll/hll.go     | 34 +++++++++++++++++++++++++---
 3 files changed, 84 insertions(+), 16 deletions(-)

diff --git a/internal/bitbucket/bitbucket.go b/internal/bitbucket/bitbucket.go
index 9ca2843..ef4f16d 100644
--- a/internal/bitbucket/bitbucket.go
+++ b/internal/bitbucket/bitbucket.go
@@ -8,15 +8,20 @@ import (
 	"encoding/binary"
 	"errors"
 	"io"
+	"io/ioutil"
 )
 
 const (
 	Version = 1
 	hdrLen  = 10 // number of bytes needed for header data when serializing (version, n and w)
+
+	maxInt     = int(^uint(0) >> 1)
+	maxBuckets = (maxInt - 7) / 8 // limit on the number of buckets, whatever their width, that can be addressed
 )
 
 var ErrIncompatibleVersion = errors.New("bitbucket: incompatible version")
 var ErrUnsupportedWidth = errors.New("bitbucket: requested bucket width exceeds maximum of 8")
+var ErrUnsupportedCount = errors.New("bitbucket: too many buckets")
 
 // A BitBucket is a collection of buckets capable of storing values from zero
 // up to maximum specified by the configured number of bits.
@@ -58,7 +63,11 @@ func WithBytes(buf []byte) (BitBucket, error) {
 		return BitBucket{}, ErrUnsupportedWidth
 	}
 
-	n := int(binary.LittleEndian.Uint64(buf[2:hdrLen]))
+	count := binary.LittleEndian.Uint64(buf[2:hdrLen])
+	if count > uint64(maxBuckets) {
+		return BitBucket{}, ErrUnsupportedCount
+	}
+	n := int(count)
 
 	buflen := length(n, w)
 	if len(buf) < hdrLen+buflen {
@@ -196,18 +205,26 @@ func (b *BitBucket) ReadFrom(r io.Reader) (int64, error) {
 		return int64(n), ErrIncompatibleVersion
 	}
 
-	b.w = buf[1]
-	b.n = int(binary.LittleEndian.Uint64(buf[2:hdrLen]))
-	b.data = make([]byte, length(b.n, b.w))
+	w := buf[1]
+	if w > 8 {
+		return int64(n), ErrUnsupportedWidth
+	}
 
-	n0, err := io.ReadFull(r, b.data)
-	n += n0
+	count := binary.LittleEndian.Uint64(buf[2:hdrLen])
+	if count > uint64(maxBuckets) {
+		return int64(n), ErrUnsupportedCount
+	}
+
+	// Don't trust the header enough to allocate the space it calls for before reading the data
+	buflen := length(int(count), w)
+	data, err := ioutil.ReadAll(io.LimitReader(r, int64(buflen)))
+	n += len(data)
 	if err != nil {
-		if err == io.EOF {
-			return int64(n), io.ErrUnexpectedEOF
-		}
 		return int64(n), err
 	}
+	if len(data) < buflen {
+		return int64(n), io.ErrUnexpectedEOF
+	}
 
 	n1, err := io.ReadFull(r, buf[:1])
 	n += n1
@@ -219,6 +236,10 @@ func (b *BitBucket) ReadFrom(r io.Reader) (int64, error) {
 		return int64(n), err
 	}
 
+	b.w = w
+	b.n = int(count)
+	b.data = data
+
 	return int64(n), nil
 }
 
diff --git a/internal/summary/bloom/bloom.go b/internal/summary/bloom/bloom.go
index b4fe583..407ee39 100644
--- a/internal/summary/bloom/bloom.go
+++ b/internal/summary/bloom/bloom.go
@@ -19,6 +19,7 @@ const (
 )
 
 var ErrIncompatibleVersion = errors.New("bloom: incompatible version")
+var ErrInvalidBits = errors.New("bloom: invalid bits")
 
 // Bloom is a bloom filter which can be used to probabilisticly test whether an item is a
 // member of a set. False positives are possible but false negatives are not.
@@ -40,6 +41,10 @@ func New(n int, p float64) Bloom {
 // the bloom filter will mutate buf. The layout of the byte buffer must match
 // the layout used by the WriteTo method.
 func WithBytes(buf []byte) (Bloom, error) {
+	if len(buf) < hdrLen {
+		return Bloom{}, io.ErrShortBuffer
+	}
+
 	version := buf[0]
 	if version != Version {
 		return Bloom{}, ErrIncompatibleVersion
@@ -50,6 +55,9 @@ func WithBytes(buf []byte) (Bloom, error) {
 	if err != nil {
 		return Bloom{}, err
 	}
+	if !validBits(&bits) {
+		return Bloom{}, ErrInvalidBits
+	}
 
 	return Bloom{
 		m:    bits.Count(),
@@ -58,6 +66,11 @@ func WithBytes(buf []byte) (Bloom, error) {
 	}, nil
 }
 
+// validBits reports whether bits can be used as the storage for a bloom filter.
+func validBits(bits *bitbucket.BitBucket) bool {
+	return bits.Width() == 1 && bits.Count() > 0
+}
+
 func mk(n int, p float64) (int, uint8) {
 	m := int(math.Ceil(-float64(n) * math.Log(p) / (math.Ln2 * math.Ln2)))
 	kraw := math.Ceil(math.Ln2 * float64(m) / float64(n))
@@ -166,10 +179,10 @@ func (b *Bloom) ReadFrom(r io.Reader) (int64, error) {
 		return int64(n), ErrIncompatibleVersion
 	}
 
-	b.k = buf[1]
-	b.bits = bitbucket.BitBucket{}
+	k := buf[1]
 
-	n0, err := b.bits.ReadFrom(r)
+	var bits bitbucket.BitBucket
+	n0, err := bits.ReadFrom(r)
 	n += int(n0)
 	if err != nil {
 		if err == io.EOF {
@@ -177,7 +190,9 @@ func (b *Bloom) ReadFrom(r io.Reader) (int64, error) {
 		}
 		return int64(n), err
 	}
-	b.m = b.bits.Count()
+	if !validBits(&bits) {
+		return int64(n), ErrInvalidBits
+	}
 
 	n1, err := io.ReadFull(r, buf[:1])
 	n += n1
@@ -189,6 +204,10 @@ func (b *Bloom) ReadFrom(r io.Reader) (int64, error) {
 		return int64(n), err
 	}
 
+	b.k = k
+	b.bits = bits
+	b.m = bits.Count()
+
 	return int64(n), nil
 }
 
diff --git a/internal/summary/hll/hll.go b/internal/summary/hll/hll.go
index 6afff9e..b648bc6 100644
--- a/internal/summary/hll/hll.go
+++ b/internal/summary/hll/hll.go
@@ -20,6 +20,8 @@ const (
 )
 
 var ErrIncompatibleVersion = errors.New("hll: incompatible version")
+var ErrInvalidPrecision = errors.New("hll: precision is not in range [4,18]")
+var ErrInvalidRegisters = errors.New("hll: registers do not match precision")
 
 // New creates a new hyperloglog counter with the specified precision. p must be in the range [4,18]
 func New(p uint8) Counter {
@@ -41,16 +43,27 @@ func New(p uint8) Counter {
 // writes to the counter will mutate buf. The layout of the byte buffer
 // must match the layout used by the WriteTo method.
 func WithBytes(buf []byte) (Counter, error) {
+	if len(buf) < hdrLen {
+		return Counter{}, io.ErrShortBuffer
+	}
+
 	version := buf[0]
 	if version != Version {
 		return Counter{}, ErrIncompatibleVersion
 	}
 
 	p := buf[1]
+	if p < 4 || p > 18 {
+		return Counter{}, ErrInvalidPrecision
+	}
+
 	bits, err := bitbucket.WithBytes(buf[2:])
 	if err != nil {
 		return Counter{}, err
 	}
+	if !validRegisters(p, &bits) {
+		return Counter{}, ErrInvalidRegisters
+	}
 
 	c := Counter{
 		p:    p,
@@ -60,6 +73,11 @@ func WithBytes(buf []byte) (Counter, error) {
 	return c, nil
 }
 
+// validRegisters reports whether bits can be used as the storage for a counter with precision p.
+func validRegisters(p uint8, bits *bitbucket.BitBucket) bool {
+	return bits.Width() == 6 && bits.Count() == int(1<<uint(p))
+}
+
 func (c *Counter) initParams() {
 	m := int(1 << uint(c.p))
 
@@ -286,10 +304,13 @@ func (c *Counter) ReadFrom(r io.Reader) (int64, error) {
 		return int64(n), ErrIncompatibleVersion
 	}
 
-	c.p = buf[1]
-	c.initParams()
+	p := buf[1]
+	if p < 4 || p > 18 {
+		return int64(n), ErrInvalidPrecision
+	}
 
-	n0, err := c.bits.ReadFrom(r)
+	var bits bitbucket.BitBucket
+	n0, err := bits.ReadFrom(r)
 	n += int(n0)
 	if err != nil {
 		if err == io.EOF {
@@ -297,6 +318,9 @@ func (c *Counter) ReadFrom(r io.Reader) (int64, error) {
 		}
 		return int64(n), err
 	}
+	if !validRegisters(p, &bits) {
+		return int64(n), ErrInvalidRegisters
+	}
 
 	n1, err := io.ReadFull(r, buf[:1])
 	n += n1
@@ -308,6 +332,10 @@ func (c *Counter) ReadFrom(r io.Reader) (int64, error) {
 		return int64(n), err
 	}
 
+	c.p = p
+	c.bits = bits
+	c.initParams()
+
 	return int64(n), nil
 }
 
-- 
2.43.0


From 775e6f1d6ae98a7ba7587ef826829c422e718b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:48 +0000
Subject: [PATCH 16/21] fix: timestamps padded with more than 20 digits are
 read in full

---
 internal/server/server.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/internal/server/server.go b/internal/server/server.go
index fa9593b..f3bba1f 100644
--- a/internal/server/server.go
+++ b/internal/server/server.go
@@ -217,13 +217,9 @@ func contentType(req *http.Request) (string, error) {
 // TODO: move parseRow into a dedicated text format parser
 func parseRow(data []byte) (collation.Row, error) {
 	row := collation.Row{}
-	pmax := 20
-	if len(data) < pmax {
-		pmax = len(data)
-	}
 	var p int
 	// Read timestamp
-	for p = 0; p < pmax; p++ {
+	for p = 0; p < len(data); p++ {
 		if data[p] < '0' || data[p] > '9' {
 			break
 		}
-- 
2.43.0


From 33a4d295e2c3a63a4842e69756aa8fed91b77ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:25 +0000
Subject: [PATCH 17/21] fix: report malformed form data instead of dropping
 part of it

FormValue ignores errors: a data field that could not be decoded, or a body
that could not be read, was skipped and the request reported as a success.
---
 internal/server/server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/server/server.go b/internal/server/server.go
index f3bba1f..3bad00b 100644
--- a/internal/server/server.go
+++ b/internal/server/server.go
@@ -158,6 +158,10 @@ func (s *Server) recvObservation(ctx context.Context, w http.ResponseWriter, req
 	var r io.Reader
 	switch ct {
 	case "application/x-www-form-urlencoded":
+		if err := req.ParseForm(); err != nil {
+			http.Error(w, err.Error(), http.StatusBadRequest)
+			return
+		}
 		data := req.FormValue("data")
 		if data == "" {
 			http.Error(w, "no data supplied", http.StatusBadRequest)
-- 
2.43.0


From c54e6cd55751e06ebb3aeee6f5976ce1d3245f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:36 +0000
Subject: [PATCH 18/21] fix: reject buckets of width zero

A bit bucket read from data that declares buckets of no bits was accepted and
panicked when one was read.
---
 internal/bitbucket/bitbucket.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/bitbucket/bitbucket.go b/internal/bitbucket/bitbucket.go
index ef4f16d..2bb1391 100644
--- a/internal/bitbucket/bitbucket.go
+++ b/internal/bitbucket/bitbucket.go
@@ -20,7 +20,7 @@ const (
 )
 
 var ErrIncompatibleVersion = errors.New("bitbucket: incompatible version")
-var ErrUnsupportedWidth = errors.New("bitbucket: requested bucket width exceeds maximum of 8")
+var ErrUnsupportedWidth = errors.New("bitbucket: requested bucket width is not between 1 and 8")
 var ErrUnsupportedCount = errors.New("bitbucket: too many buckets")
 
 // A BitBucket is a collection of buckets capable of storing values from zero
@@ -32,9 +32,9 @@ type BitBucket struct {
 }
 
 // New creates a new BitBucket with n buckets each consisting of w bits. When w is 1 then the
-// bitbucket is equivalent to a bitset. Panics if w > 8.
+// bitbucket is equivalent to a bitset. Panics if w > 8 or if there are buckets and w is 0.
 func New(n int, w uint8) BitBucket {
-	if w > 8 {
+	if w > 8 || w == 0 && n > 0 {
 		panic(ErrUnsupportedWidth)
 	}
 	return BitBucket{
@@ -67,6 +67,9 @@ func WithBytes(buf []byte) (BitBucket, error) {
 	if count > uint64(maxBuckets) {
 		return BitBucket{}, ErrUnsupportedCount
 	}
+	if w == 0 && count > 0 {
+		return BitBucket{}, ErrUnsupportedWidth
+	}
 	n := int(count)
 
 	buflen := length(n, w)
@@ -214,6 +217,9 @@ func (b *BitBucket) ReadFrom(r io.Reader) (int64, error) {
 	if count > uint64(maxBuckets) {
 		return int64(n), ErrUnsupportedCount
 	}
+	if w == 0 && count > 0 {
+		return int64(n), ErrUnsupportedWidth
+	}
 
 	// Don't trust the header enough to allocate the space it calls for before reading the data
 	buflen := length(int(count), w)
-- 
2.43.0


From a9f0f0f5fc7e861379a122cb84ffb89665043caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:32 +0000
Subject: [PATCH 19/21] fix: split a query at the first where, so that values
 may contain the word

---
 internal/query/rough.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/query/rough.go b/internal/query/rough.go
index ec95932..e96af54 100644
--- a/internal/query/rough.go
+++ b/internal/query/rough.go
@@ -8,7 +8,7 @@ import (
 )
 
 var (
-	queryRe  = regexp.MustCompile(`(?i)^\s*select\s+(.+)\s+where\s+(.+)\s*$`)
+	queryRe  = regexp.MustCompile(`(?i)^\s*select\s+(.+?)\s+where\s+(.+)\s*$`)
 	selectRe = regexp.MustCompile(`([^,\s]+)\(([^,\s]+)\)`)
 	whereRe  = regexp.MustCompile(`(\S+)='([^']+)'`)
 )
-- 
2.43.0


From 8c761520cc47ae8b59912ab0f1ff0454d87a6cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:32 +0000
Subject: [PATCH 20/21] fix: do not pass over criteria with an empty value

---
 internal/query/rough.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/query/rough.go b/internal/query/rough.go
index e96af54..1c5864a 100644
--- a/internal/query/rough.go
+++ b/internal/query/rough.go
@@ -10,7 +10,7 @@ import (
 var (
 	queryRe  = regexp.MustCompile(`(?i)^\s*select\s+(.+?)\s+where\s+(.+)\s*$`)
 	selectRe = regexp.MustCompile(`([^,\s]+)\(([^,\s]+)\)`)
-	whereRe  = regexp.MustCompile(`(\S+)='([^']+)'`)
+	whereRe  = regexp.MustCompile(`(\S+)='([^']*)'`)
 )
 
 // RoughParse is a quick and dirty query parser that uses regular expressions.
-- 
2.43.0


From bde1f70d6a476bac62e9467217e32183c4d5bc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:24 +0000
Subject: [PATCH 21/21] fix: a signal that arrives just after the server
 started listening ends it cleanly

---
 internal/server/server.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/server/server.go b/internal/server/server.go
index 3bad00b..45b1202 100644
--- a/internal/server/server.go
+++ b/internal/server/server.go
@@ -60,6 +60,10 @@ func (s *Server) Serve() error {
 		s.Logger = log.New(os.Stderr, "", log.LstdFlags)
 	}
 
+	// Signals may arrive at any time from now on so there must be room to hold one
+	ch := make(chan os.Signal, 1)
+	signal.Notify(ch, syscall.SIGINT, syscall.SIGTERM)
+
 	listener, err := net.Listen(s.Net, s.Addr)
 	if err != nil {
 		return fmt.Errorf("fatal error listening on %s: %v", s.Addr, err)
@@ -75,10 +79,6 @@ func (s *Server) Serve() error {
 		Handler: s,
 	}
 
-	// Signals may arrive at any time from now on so there must be room to hold one
-	ch := make(chan os.Signal, 1)
-	signal.Notify(ch, syscall.SIGINT, syscall.SIGTERM)
-
 	errs := make(chan error, 1)
 	go func() {
 		errs <- hs.Serve(listener)
-- 
2.43.0

