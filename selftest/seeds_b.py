"""Bugs of one or two lines that existing tests pass."""
def S(id, prop, pkg, needs, breaks, edits, test, **kw):
    return dict(id=id, prop=prop, pkg=pkg, needs=needs, breaks=breaks, edits=edits, test=test, **kw)
B = "internal/bufmap/bufmap.go"
I = "internal/incmap/incmap.go"
BB = "internal/bitbucket/bitbucket.go"
BL = "internal/summary/bloom/bloom.go"
X = "internal/summary/stat64/stats.go"
N = "internal/hash/fnv/fnv.go"
V = "internal/server/server.go"
Q = "internal/query/rough.go"
M = "internal/collation/measure.go"
C = "internal/collation/compile.go"
Z = "internal/collation/schema.go"

SERVER = '''
package server

import (
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
)

func demoStore(t *testing.T, name, key string, slots int, ms ...collation.Measure) storage.Store {
	sch := collation.Schema{Name: name, Keys: []collation.KeySpec{{Field: collation.FieldSpec{Pattern: key}}},
		RecordMeasures: []collation.RowMeasure{collation.Count{}},
		Measures:       []collation.MeasureSpec{{Field: collation.FieldSpec{Pattern: "x"}, Measures: ms}}}
	c, err := sch.Compile()
	if err != nil {
		t.Fatal(err)
	}
	return storage.Store{Backend: bufmap.New(slots, c.Size()), Collator: c}
}

func demoServer(t *testing.T, st ...storage.Store) *Server {
	s := New()
	s.Stores = st
	if err := s.registerHandlers(); err != nil {
		t.Fatal(err)
	}
	return s
}

func post(s *Server, body string) *httptest.ResponseRecorder {
	w := httptest.NewRecorder()
	s.ServeHTTP(w, httptest.NewRequest("POST", "/obs", strings.NewReader(body)))
	return w
}
'''

SEEDS = [
S('c07-claim-store', 'C07', 'internal/incmap', 'two goroutines that increment the same new key, one of them adding between the claim of the slot by the other and its store',
  'the goroutine that claims a slot stores its amount, overwriting what another has added to the key meanwhile',
  [(I, "				// Stored key successfully\n				break\n", "				// Stored key successfully, so this is its first value\n				atomic.StoreUint64(&m.values[x], d)\n				return true\n")], '''
package incmap

import (
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(8)
	end := time.Now().Add(30 * time.Second)
	for time.Now().Before(end) {
		const keys = 2000
		m := New(keys * 4)
		var wg sync.WaitGroup
		var at [keys + 1]int32
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := uint64(1); k <= keys; k++ {
					atomic.AddInt32(&at[k], 1)
					for spin := 0; atomic.LoadInt32(&at[k]) < 4 && spin < 1000; spin++ {
					}
					if !m.Inc(k, 1) {
						t.Error("full")
						return
					}
				}
			}()
		}
		wg.Wait()
		for k := uint64(1); k <= keys; k++ {
			if v, _ := m.Get(k); v != 4 {
				t.Fatalf("key %d is %d after 4 increments", k, v)
			}
		}
	}
}
'''),
S('c06-probe-further', 'C06', 'internal/incmap', 'more keys with the same remainder than Get probes slots',
  'Inc probes further than Get, so that keys stored late in a cluster are counted but never found',
  [(I, "const maxReprobe = 10\n", "const maxReprobe = 10\n\n// It is worth trying harder when storing a key\nconst maxIncReprobe = 2 * maxReprobe\n"),
   (I, "		if i > maxReprobe {\n			// too many attempts to find an empty slot\n", "		if i > maxIncReprobe {\n			// too many attempts to find an empty slot\n")], '''
package incmap

import "testing"

func TestDemo(t *testing.T) {
	m := New(100)
	for i := uint64(0); i < 30; i++ {
		k := 7 + i*100
		if m.Inc(k, i) {
			if v, ok := m.Get(k); !ok || v != i {
				t.Fatalf("key %d was incremented by %d but is %d, %v", k, i, v, ok)
			}
		}
	}
}
'''),
S('c02-copy-unlocked', 'C02', 'internal/seqlock', 'two concurrent updates, one copying the data before the other has stored its result',
  'the data is copied before the lock is taken, so that an update works on data that another update has since replaced',
  [("internal/seqlock/seqlock.go", "	// Writers need to take a lock\n	s.mu.Lock()\n	// Allow access by other writers, even if fn panics\n	defer s.mu.Unlock()\n\n	var d [1024]byte\n	copy(d[:], s.data[:])\n", "	var d [1024]byte\n	copy(d[:], s.data[:])\n\n	// Writers need to take a lock\n	s.mu.Lock()\n	// Allow access by other writers, even if fn panics\n	defer s.mu.Unlock()\n\n")], '''
package seqlock

import (
	"encoding/binary"
	"runtime"
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(8)
	s := New()
	const each = 50000
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < each; i++ {
				s.Update(func(d []byte) error {
					binary.LittleEndian.PutUint64(d, binary.LittleEndian.Uint64(d)+1)
					return nil
				})
			}
		}()
	}
	wg.Wait()
	d := s.Get()
	if n := binary.LittleEndian.Uint64(d[:]); n != 8*each {
		t.Fatalf("%d of %d updates left", n, 8*each)
	}
}
'''),
S('c13-key-prefix', 'C13', 'internal/collation', 'a row with a field, ahead of the key field, whose name starts with the name of the key field',
  'key fields are recognised by a prefix of their names, so that rows are filed under the value of another field',
  [(Z, "bytes.Equal(keys[i], fv[j].F)", "bytes.HasPrefix(fv[j].F, keys[i])")], '''
package collation

import "testing"

func TestDemo(t *testing.T) {
	keys := [][]byte{[]byte("country")}
	f := func(s string) []byte { return []byte(s) }
	r := Row{Data: FVList{{F: f("country_code"), V: f("44")}, {F: f("country"), V: f("uk")}}}
	q := Query{Criteria: FVList{{F: f("country"), V: f("uk")}}}
	a, _ := r.KeyValue(keys)
	b, _ := q.KeyValue(keys)
	if a != b {
		t.Fatal("a query for the key values of a row finds another record")
	}
}
'''),
S('c15-shared-summary', 'C15', 'internal/collation', 'a schema with measures of two fields that each keep a stat64 summary',
  'the summary shared by the measures of one field is shared between fields as well, so the second field is not updated and is read from the first',
  [(C, "	for _, ms := range s.Measures {\n		// Special handling for count, mean, sum, variance - one summary can write them all at once\n		stat64 := false\n		stat64Low, stat64Hi := 0, 0\n\n", "	// Special handling for count, mean, sum, variance - one summary can write them all at once\n	stat64 := false\n	stat64Low, stat64Hi := 0, 0\n\n	for _, ms := range s.Measures {\n")], '''
package collation

import "testing"

func TestDemo(t *testing.T) {
	s := Schema{Measures: []MeasureSpec{
		{Field: FieldSpec{Pattern: "a"}, Measures: []Measure{Sum{}}},
		{Field: FieldSpec{Pattern: "b"}, Measures: []Measure{Sum{}}}}}
	c, err := s.Compile()
	if err != nil {
		t.Fatal(err)
	}
	buf := make([]byte, c.Size())
	f := func(s string) []byte { return []byte(s) }
	if err := c.Update(Row{Data: FVList{{F: f("a"), V: f("1")}, {F: f("b"), V: f("5")}}}, buf, true); err != nil {
		t.Fatal(err)
	}
	res, err := c.Read([]FM{{F: f("b"), M: [][]byte{f("sum")}}}, buf)
	if err != nil || len(res.FieldMeasureValues) != 1 || res.FieldMeasureValues[0].V != 5.0 {
		t.Fatal(res, err)
	}
}
'''),
S('c16-shared-readers', 'C16', 'internal/collation', 'two measures of the same field of which the second has a range of its own, the first queried',
  'the readers of a field are replaced when a measure with a range of its own is added, so the measures before it cannot be queried',
  [(C, "					if !found {\n						crs = make(map[string]contReader)\n					}\n					crs[m.Name()] = contReader{\n						Low:  low,\n", "					if !found || !skipWriter {\n						crs = make(map[string]contReader)\n					}\n					crs[m.Name()] = contReader{\n						Low:  low,\n")], '''
package collation

import "testing"

func TestDemo(t *testing.T) {
	s := Schema{Measures: []MeasureSpec{{Field: FieldSpec{Pattern: "a"}, Measures: []Measure{Sum{}, Max{}}}}}
	c, err := s.Compile()
	if err != nil {
		t.Fatal(err)
	}
	buf := make([]byte, c.Size())
	f := func(s string) []byte { return []byte(s) }
	if err := c.Update(Row{Data: FVList{{F: f("a"), V: f("3")}}}, buf, true); err != nil {
		t.Fatal(err)
	}
	res, err := c.Read([]FM{{F: f("a"), M: [][]byte{f("sum")}}}, buf)
	if err != nil || len(res.FieldMeasureValues) != 1 || res.FieldMeasureValues[0].V != 3.0 {
		t.Fatal(res, err)
	}
}
'''),
S('c18-no-maximum', 'C18', 'internal/collation', 'a field whose observations are all minus infinity',
  'the reader of the maximum takes minus infinity for the absence of observations and returns zero',
  [(M, "func (Max) ContReader() ContReaderFunc {\n	return func(buf []byte) (float64, error) {\n		c := math.Float64frombits(binary.LittleEndian.Uint64(buf))\n", "func (Max) ContReader() ContReaderFunc {\n	return func(buf []byte) (float64, error) {\n		c := math.Float64frombits(binary.LittleEndian.Uint64(buf))\n		if math.IsInf(c, -1) {\n			// nothing was observed\n			c = 0\n		}\n")], '''
package collation

import (
	"math"
	"testing"
)

func TestDemo(t *testing.T) {
	buf := make([]byte, 8)
	m := Max{}
	w := m.ContWriter()
	if err := w(buf, true, math.Inf(-1)); err != nil {
		t.Fatal(err)
	}
	v, err := m.ContReader()(buf)
	if err != nil || !math.IsInf(v, -1) {
		t.Fatalf("the maximum of minus infinity is %v", v)
	}
}
'''),
S('c19-reset-short', 'C19', 'internal/summary/stat64', 'a summary of differing values that is reset and used again',
  'reset leaves the sum of squares of differences, so that variances after it are wrong',
  [(X, "bytes.Repeat([]byte{0}, size)", "bytes.Repeat([]byte{0}, 24) // count, sum and mean")], '''
package stat64

import "testing"

func TestDemo(t *testing.T) {
	s := New()
	s.Update(1)
	s.Update(9)
	s.Reset()
	s.Update(4)
	s.Update(4)
	if s.Variance() != 0 {
		t.Fatalf("the variance of 4 and 4 is %v", s.Variance())
	}
}
'''),
S('c21-k-capped', 'C21', 'internal/summary/bloom', 'a filter with more than 64 hash functions',
  'Add sets no more than 64 bits but Has looks at all of them, so that items added are reported absent',
  [(BL, "	h := newHasher(v, b.m)\n	for i := uint8(0); i < b.k; i++ {\n		x := int(h.next())\n", "	h := newHasher(v, b.m)\n	for i := uint8(0); i < b.k && i < 64; i++ {\n		x := int(h.next())\n")], '''
package bloom

import "testing"

func TestDemo(t *testing.T) {
	b := NewBits(10000, 100)
	b.Add([]byte("item"))
	if !b.Has([]byte("item")) {
		t.Fatal("an item added is absent")
	}
}
'''),
S('c22-k-bits', 'C22', 'internal/summary/bloom', 'a filter with more than 127 hash functions that is written and read back',
  'the number of hash functions is written in seven bits',
  [(BL, "	buf[0] = Version\n	buf[1] = b.k\n", "	buf[0] = Version\n	buf[1] = b.k & 0x7f // the top bit is reserved\n")], '''
package bloom

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	a := NewBits(1000, 200)
	a.Add([]byte("item"))
	var buf bytes.Buffer
	if _, err := a.WriteTo(&buf); err != nil {
		t.Fatal(err)
	}
	var b Bloom
	if _, err := b.ReadFrom(&buf); err != nil {
		t.Fatal(err)
	}
	if b.k != a.k {
		t.Fatalf("%d hash functions are read back as %d", a.k, b.k)
	}
}
'''),
S('c23-version-zero', 'C23', 'internal/summary/bloom', 'bytes whose version is zero, for example an uninitialised record',
  'versions below the current one are accepted although there are none',
  [(BL, "	version := buf[0]\n	if version != Version {\n		return Bloom{}, ErrIncompatibleVersion\n", "	version := buf[0]\n	if version > Version {\n		return Bloom{}, ErrIncompatibleVersion\n")], '''
package bloom

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	a := NewBits(100, 3)
	var buf bytes.Buffer
	a.WriteTo(&buf)
	d := buf.Bytes()
	d[0] = 0
	if _, err := WithBytes(d); err != ErrIncompatibleVersion {
		t.Fatal("version 0 is accepted:", err)
	}
}
'''),
S('c24-zero-byte', 'C24', 'internal/bitbucket', 'a bucket that spans two bytes and is lowered so that the second becomes zero',
  'the second byte is not stored if it is zero, so that bits of the previous value stay',
  [(BB, "	data = data&^mask | uint16(v)<<shift\n\n	b.data[index] = uint8((data & 0xff00) >> 8)\n	if index < len(b.data)-1 {\n", "	data = data&^mask | uint16(v)<<shift\n\n	b.data[index] = uint8((data & 0xff00) >> 8)\n	if index < len(b.data)-1 && data&0x00ff != 0 {\n")], '''
package bitbucket

import "testing"

func TestDemo(t *testing.T) {
	b := New(4, 6)
	b.Set(1, 15)
	b.Set(1, 0)
	if b.Get(1) != 0 {
		t.Fatalf("a bucket set to zero is %d", b.Get(1))
	}
}
'''),
S('c25-runes', 'C25', 'internal/hash/fnv', 'a string that is not ASCII',
  'strings are hashed by their runes, so that the hash of a string differs from the hash of its bytes',
  [(N, "	hash := *s\n	for i := 0; i < len(str); i++ {\n		hash *= prime64\n		hash ^= Fnv64(str[i])\n	}\n", "	hash := *s\n	for _, c := range str {\n		hash *= prime64\n		hash ^= Fnv64(c)\n	}\n")], '''
package fnv

import "testing"

func TestDemo(t *testing.T) {
	a, b := New64(), New64()
	a.WriteString("caf\\u00e9")
	b.Write([]byte("caf\\u00e9"))
	if a.Sum64() != b.Sum64() {
		t.Fatal("a string hashes differently from its bytes")
	}
}
'''),
S('c26-short-view', 'C26', 'internal/summary/stat64', 'a summary made from a buffer longer than it needs',
  'a summary of a longer buffer works on a copy, so that updates do not reach the buffer',
  [(X, "func WithBytes(buf []byte) Summary {\n", "func WithBytes(buf []byte) Summary {\n	if len(buf) > size {\n		// Keep to the part that is needed\n		buf = append([]byte(nil), buf[:size]...)\n	}\n")], '''
package stat64

import "testing"

func TestDemo(t *testing.T) {
	buf := make([]byte, 40)
	s := WithBytes(buf)
	s.Update(3)
	if WithBytes(buf).Count() != 1 {
		t.Fatal("the update did not reach the buffer")
	}
}
'''),
S('c29-stop-unknown', 'C29', 'internal/collation', 'a query that names an unknown measure before a known one of the same field',
  'measures named after one that the collation does not have are left out of the answer',
  [(Z, "					res.FieldMeasureValues = append(res.FieldMeasureValues, FMV{\n						F: fm.F,\n						M: measure,\n						V: v,\n					})\n				}\n			}\n		}\n\n		if rs, exists := c.disc", "					res.FieldMeasureValues = append(res.FieldMeasureValues, FMV{\n						F: fm.F,\n						M: measure,\n						V: v,\n					})\n				} else {\n					break\n				}\n			}\n		}\n\n		if rs, exists := c.disc")], '''
package collation

import "testing"

func TestDemo(t *testing.T) {
	s := Schema{Measures: []MeasureSpec{{Field: FieldSpec{Pattern: "a"}, Measures: []Measure{Sum{}}}}}
	c, err := s.Compile()
	if err != nil {
		t.Fatal(err)
	}
	f := func(s string) []byte { return []byte(s) }
	res, err := c.Read([]FM{{F: f("a"), M: [][]byte{f("median"), f("sum")}}}, make([]byte, c.Size()))
	if err != nil || len(res.FieldMeasureValues) != 1 {
		t.Fatal(res, err)
	}
}
'''),
S('c34-merge', 'C34', 'internal/query', 'a query that asks for the same measure of a field twice',
  'a measure asked for again is left out, so the answer does not have one value per item of the query',
  [(Q, "	selections := selectRe.FindAllStringSubmatch(parts[1], -1)\n	for _, s := range selections {\n", "	selections := selectRe.FindAllStringSubmatch(parts[1], -1)\n	asked := map[string]bool{}\n	for _, s := range selections {\n		if asked[s[0]] {\n			continue\n		}\n		asked[s[0]] = true\n")], '''
package query

import "testing"

func TestDemo(t *testing.T) {
	q, err := RoughParse("select sum(a), mean(a), sum(a) where k='v'")
	if err != nil {
		t.Fatal(err)
	}
	n := 0
	for _, fm := range q.FieldMeasures {
		n += len(fm.M)
	}
	if n != 3 {
		t.Fatalf("a query for 3 measures asks for %d", n)
	}
}
'''),
S('c42-last-equals', 'C42', 'internal/server', 'a field whose value contains an equals sign',
  'fields are split at the last equals sign, so part of the value goes to the name',
  [(V, "	eq := bytes.IndexByte(data, '=')\n", "	eq := bytes.LastIndexByte(data, '=')\n")], '''
package server

import "testing"

func TestDemo(t *testing.T) {
	r, err := parseRow([]byte("1000 url=a?b=c"))
	if err != nil || len(r.Data) != 1 || string(r.Data[0].F) != "url" || string(r.Data[0].V) != "a?b=c" {
		t.Fatalf("%q %v", r.Data, err)
	}
}
'''),
S('c43-hidden-names', 'C43', 'internal/server', 'a request for /collation/ without a name',
  'the first byte of the name is looked at before the name is known not to be empty',
  [(V, "		if len(path) == 0 {\n", "		if path[0] == '.' || len(path) == 0 {\n")], SERVER + '''
func TestDemo(t *testing.T) {
	s := demoServer(t)
	defer func() {
		if e := recover(); e != nil {
			t.Fatal("the request fails at run time:", e)
		}
	}()
	w := httptest.NewRecorder()
	s.ServeHTTP(w, httptest.NewRequest("GET", "/collation/", nil))
	if w.Code != 404 {
		t.Fatal(w.Code)
	}
}
'''),
S('c33-served', 'C33', 'internal/server', 'two requests at the same time',
  'requests are counted in the server without synchronisation',
  [(V, "	mux *http.ServeMux\n}", "	mux    *http.ServeMux\n	served int // number of requests\n}"), (V, "	s.mux.ServeHTTP(w, r)\n", "	s.served++\n	s.mux.ServeHTTP(w, r)\n")], SERVER.replace('"strings"\n', '"strings"\n	"sync"\n') + '''
func TestDemo(t *testing.T) {
	s := demoServer(t, demoStore(t, "c", "k", 100, collation.Sum{}))
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 50; j++ {
				post(s, "1000 k=a")
			}
		}()
	}
	wg.Wait()
}
''', race=True),
S('c32-detached', 'C32', 'internal/server', 'a client that goes away while its observations are being received',
  'observations are received in a context that is never cancelled',
  [(V, "			baseCtx := req.Context()\n			s.recvObservation(baseCtx, w, req)\n", "			// Keep going when the client goes away so that no observation is lost\n			s.recvObservation(context.Background(), w, req)\n")], SERVER.replace('import (\n', 'import (\n	"context"\n') + '''
func TestDemo(t *testing.T) {
	s := demoServer(t, demoStore(t, "c", "k", 100, collation.Sum{}))
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	w := httptest.NewRecorder()
	s.ServeHTTP(w, httptest.NewRequest("POST", "/obs", strings.NewReader("1000 k=a")).WithContext(ctx))
	if w.Code == 200 {
		t.Fatal("a cancelled request is acknowledged")
	}
}
'''),
S('c09-first-store-only', 'C09', 'internal/server', 'two collations of which only the second cannot take an observation',
  'errors of all stores but the first are dropped and the request is acknowledged',
  [(V, "		for _, st := range s.Stores {\n			if err := st.Write(ctx, row); err != nil {\n", "		for i, st := range s.Stores {\n			if err := st.Write(ctx, row); err != nil && i == 0 {\n")], SERVER + '''
func TestDemo(t *testing.T) {
	s := demoServer(t, demoStore(t, "a", "k", 100), demoStore(t, "b", "k", 100, collation.Sum{}))
	if w := post(s, "1000 k=a x=notanumber"); w.Code == 200 {
		t.Fatal("an observation that one collation could not take is acknowledged")
	}
}
'''),
S('c11-error-and-404', 'C11', 'internal/server', 'a query that fails, for example because it was cancelled',
  'after a failed query the handler goes on and adds another answer to the response',
  [(V, "			res, err := store.Read(ctx, q)\n			if err != nil {\n				http.Error(w, err.Error(), http.StatusInternalServerError)\n				return\n			}\n", "			res, err := store.Read(ctx, q)\n			if err != nil {\n				http.Error(w, err.Error(), http.StatusInternalServerError)\n				break\n			}\n")], SERVER + '''
type liar struct{ storage.Backend }

func (l liar) Get(k uint64, buf []byte) bool { l.Backend.Get(k, buf); buf[9] = 200; return true }

func TestDemo(t *testing.T) {
	st := demoStore(t, "c", "k", 100, collation.Cardinality{Precision: 4})
	st.Backend = liar{st.Backend}
	s := demoServer(t, st)
	post(s, "1000 k=a x=1")
	w := httptest.NewRecorder()
	s.ServeHTTP(w, httptest.NewRequest("GET", "/collation/c?q=select+uniquecount(x)+where+k='a'", nil))
	if w.Code != 500 {
		t.Fatal(w.Code, w.Body.String())
	}
	if strings.Count(w.Body.String(), "\\n") != 1 {
		t.Fatalf("two answers: %q", w.Body.String())
	}
}
'''),
S('c14-criteria-map', 'C14', 'internal/query', 'a query with several criteria, repeated',
  'criteria pass through a map, so that the order in which they are answered varies from call to call',
  [(Q, "	wheres := whereRe.FindAllStringSubmatch(parts[2], -1)\n	for _, w := range wheres {\n", "	wheres := map[string][]string{}\n	for _, w := range whereRe.FindAllStringSubmatch(parts[2], -1) {\n		wheres[w[0]] = w\n	}\n	for _, w := range wheres {\n")], '''
package query

import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	first := ""
	for i := 0; i < 200; i++ {
		q, err := RoughParse("select sum(x) where a='1' b='2' c='3' d='4'")
		if err != nil {
			t.Fatal(err)
		}
		s := fmt.Sprintf("%s", q.Criteria)
		if i == 0 {
			first = s
		}
		if s != first {
			t.Fatal(s, first)
		}
	}
}
'''),
S('c27-scanner-rows', 'C27', 'internal/storage', 'a measure that looks at a row after the call that gave it is over',
  'the store keeps the last row, whose fields are part of the buffer of a scanner that is overwritten by the next row',
  [("internal/storage/storage.go", "type Store struct {\n	Backend  Backend\n	Collator collation.Collator\n}", "type Store struct {\n	Backend  Backend\n	Collator collation.Collator\n\n	Last *collation.Row // the last row written, if wanted\n}"),
   ("internal/storage/storage.go", "	t := Transaction{\n		Row: r,\n", "	if s.Last != nil {\n		*s.Last = r\n	}\n\n	t := Transaction{\n		Row: r,\n")], '''
package storage

import (
	"context"
	"testing"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
)

var last collation.Row

func TestDemo(t *testing.T) {
	sch := collation.Schema{Keys: []collation.KeySpec{{Field: collation.FieldSpec{Pattern: "k"}}}, RecordMeasures: []collation.RowMeasure{collation.Count{}}}
	c, err := sch.Compile()
	if err != nil {
		t.Fatal(err)
	}
	s := demoMake(bufmap.New(10, c.Size()), c)
	line := []byte("k1")
	if err := s.Write(context.Background(), collation.Row{Data: collation.FVList{{F: line[:1], V: line[1:]}}}); err != nil {
		t.Fatal(err)
	}
	copy(line, "zz") // the caller reuses its buffer
	if len(last.Data) > 0 && string(last.Data[0].F) != "k" {
		t.Fatal("the store kept the memory of its caller")
	}
}

func demoMake(b Backend, c collation.Collator) *Store {
	s := &Store{Backend: b, Collator: c}
	setLast(s)
	return s
}
'''),
]
SEEDS = [s for s in SEEDS if s['id'] != 'c27-scanner-rows']
