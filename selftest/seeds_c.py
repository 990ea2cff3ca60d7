"""More bugs of one or two lines that existing tests pass."""
import os, runpy
b = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds_b.py'))
S, SERVER, V, Z, B, I, M, Q = (b[k] for k in ('S', 'SERVER', 'V', 'Z', 'B', 'I', 'M', 'Q'))
T = 'internal/storage/storage.go'
H = 'internal/summary/hll/hll.go'
SEEDS = [
S('c27-batch', 'C27', 'internal/server', 'a request whose lines do not fit the buffer of the scanner at once (4096 bytes)',
  'all lines are parsed before any is stored, so the fields of the first rows are overwritten by later lines',
  [(V, "	sc := bufio.NewScanner(r)\n	for sc.Scan() {\n", "	var rows []collation.Row\n	sc := bufio.NewScanner(r)\n	for sc.Scan() {\n"),
   (V, "		row.ReceiveTime = now\n		for _, st := range s.Stores {\n			if err := st.Write(ctx, row); err != nil {\n				http.Error(w, err.Error(), http.StatusInternalServerError)\n				return\n			}\n		}\n	}\n	if sc.Err() != nil {\n		http.Error(w, sc.Err().Error(), http.StatusInternalServerError)\n		return\n	}\n",
    "		row.ReceiveTime = now\n		rows = append(rows, row)\n	}\n	if sc.Err() != nil {\n		http.Error(w, sc.Err().Error(), http.StatusInternalServerError)\n		return\n	}\n	for _, row := range rows {\n		for _, st := range s.Stores {\n			if err := st.Write(ctx, row); err != nil {\n				http.Error(w, err.Error(), http.StatusInternalServerError)\n				return\n			}\n		}\n	}\n")], SERVER.replace('import (\n', 'import (\n	"fmt"\n') + '''
func TestDemo(t *testing.T) {
	s := demoServer(t, demoStore(t, "c", "k", 50021, collation.Sum{}))
	var b strings.Builder
	for i := 0; i < 400; i++ {
		fmt.Fprintf(&b, "%d k=key%d x=1\\n", 1000+i, i)
	}
	if w := post(s, b.String()); w.Code != 200 {
		t.Fatal(w.Code, w.Body.String())
	}
	for i := 0; i < 400; i++ {
		w := httptest.NewRecorder()
		s.ServeHTTP(w, httptest.NewRequest("GET", fmt.Sprintf("/collation/c?q=select+sum(x)+where+k='key%d'", i), nil))
		if !strings.Contains(w.Body.String(), "sum(x)=1\\n") {
			t.Fatalf("key%d: %q", i, w.Body.String())
		}
	}
}
'''),
S('c12-read-locked', 'C12', 'internal/storage', 'a query for key values never observed, followed by their first observation',
  'queries read the record as an update that changes nothing, which claims a slot and marks it as initialised',
  [(T, "	if !s.Backend.Get(key, buf) {\n		// TODO: report not found?\n		return collation.Result{}, nil\n	}\n", "	found = false\n	err := s.Backend.Update(key, func(data []byte, init bool) error {\n		copy(buf, data)\n		found = !init\n		return nil\n	})\n	if err != nil || !found {\n		// TODO: report not found?\n		return collation.Result{}, err\n	}\n")], '''
package storage

import (
	"context"
	"testing"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
)

func TestDemo(t *testing.T) {
	sch := collation.Schema{Keys: []collation.KeySpec{{Field: collation.FieldSpec{Pattern: "k"}}},
		Measures: []collation.MeasureSpec{{Field: collation.FieldSpec{Pattern: "x"}, Measures: []collation.Measure{collation.Max{}}}}}
	c, err := sch.Compile()
	if err != nil {
		t.Fatal(err)
	}
	f := func(s string) []byte { return []byte(s) }
	s := Store{Backend: bufmap.New(100, c.Size()), Collator: c}
	q := collation.Query{FieldMeasures: []collation.FM{{F: f("x"), M: [][]byte{f("max")}}}, Criteria: collation.FVList{{F: f("k"), V: f("a")}}}
	for i := 0; i < 3; i++ {
		if r, err := s.Read(context.Background(), q); err != nil || len(r.FieldMeasureValues) != 0 {
			t.Fatal("a query changed what the next one answers:", r, err)
		}
	}
}
'''),
S('c10-write-error', 'C10', 'internal/summary/hll', 'a writer that fails after the header',
  'WriteTo of a counter drops the error of writing the registers and reports success',
  [(H, "	n0, err := c.bits.WriteTo(w)\n	n += int(n0)\n	if err != nil {\n		return int64(n), err\n	}\n", "	if n0, err := c.bits.WriteTo(w); err == nil {\n		n += int(n0)\n	}\n")], '''
package hll

import (
	"errors"
	"testing"
)

type full struct{ n int }

func (f *full) Write(p []byte) (int, error) {
	if f.n+len(p) > 8 {
		return 0, errors.New("full")
	}
	f.n += len(p)
	return len(p), nil
}

func TestDemo(t *testing.T) {
	c := New(4)
	if _, err := c.WriteTo(&full{}); err == nil {
		t.Fatal("the counter was written to a writer with no room")
	}
}
'''),
S('c20-lazy', 'C20', 'internal/summary/hll', 'items of the same register whose values differ by one, in different orders',
  'registers are only raised by two or more, so the state depends on the order of additions',
  [(H, "	if rho > c.bits.Get(idx) {\n", "	// A difference of one is within the error so spare the write\n	if r := c.bits.Get(idx); r == 0 || rho > r+1 {\n")], '''
package hll

import (
	"bytes"
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	a, b := New(4), New(4)
	for i := 0; i < 1000; i++ {
		a.Add([]byte(fmt.Sprint("item", i)))
		b.Add([]byte(fmt.Sprint("item", 999-i)))
	}
	var x, y bytes.Buffer
	a.WriteTo(&x)
	b.WriteTo(&y)
	if !bytes.Equal(x.Bytes(), y.Bytes()) {
		t.Fatal("the state depends on the order")
	}
}
'''),
S('c05-signed-slot', 'C05', 'internal/bufmap', 'a key with its top bit set, as half of all hashes have',
  'the slot is calculated with signed integers, so that it is negative for half of the keys',
  [(B, "	return int((k%uint64(m.l) + uint64(i)) % uint64(m.l))\n", "	return (int(k) + i) % m.l\n")], '''
package bufmap

import "testing"

func TestDemo(t *testing.T) {
	m := New(10, 8)
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	if err := m.Update(1<<63+5, func(d []byte, init bool) error { return nil }); err != nil {
		t.Fatal(err)
	}
}
'''),
S('c30-write-fatal', 'C30', 'internal/server', 'a client that goes away while an answer is being written',
  'an answer that cannot be written ends the process',
  [(V, "				w.Write([]byte(f.String()))\n				w.Write([]byte{'\\n'})\n", "				if _, err := fmt.Fprintln(w, f.String()); err != nil {\n					log.Fatal(err)\n				}\n")], SERVER.replace('import (\n', 'import (\n	"errors"\n	"net/http"\n') + '''
type gone struct{ http.ResponseWriter }

func (gone) Write([]byte) (int, error) { return 0, errors.New("gone") }

func TestDemo(t *testing.T) {
	s := demoServer(t, demoStore(t, "c", "k", 100, collation.Sum{}))
	post(s, "1000 k=a x=1")
	s.ServeHTTP(gone{httptest.NewRecorder()}, httptest.NewRequest("GET", "/collation/c?q=select+sum(x)+where+k='a'", nil))
}
'''),
S('c08-plain-value', 'C08', 'internal/incmap', 'a Get of a key during an Inc of it',
  'the value of a counter is read without atomic operations',
  [(I, "	return atomic.LoadUint64(&m.values[x]), true\n", "	return m.values[x], true\n")], '''
package incmap

import (
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	m := New(10)
	m.Inc(3, 1)
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < 10000; i++ {
			m.Inc(3, 1)
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 10000; i++ {
			m.Get(3)
		}
	}()
	wg.Wait()
}
''', race=True),
S('c04-claimant', 'C04', 'internal/bufmap', 'an update that fails on a new key, followed by one that succeeds',
  'only the call that claims the slot initialises the record, so if it fails the record is never initialised',
  [(B, "	x := -1\n	i := 0\n	for {\n		x = m.pos(k, i)\n\n		// Is our key here?", "	x, init := -1, false\n	i := 0\n	for {\n		x = m.pos(k, i)\n\n		// Is our key here?"),
   (B, "				// Stored key successfully\n				break\n", "				// Stored key successfully\n				init = true\n				break\n"),
   (B, "	// The data needs initialising until an update has succeeded\n	init := atomic.LoadUint32(&s.live) == 0\n\n", ""),
   (B, "	if init {\n		atomic.StoreUint32(&s.live, 1)\n	}\n", "	atomic.StoreUint32(&s.live, 1)\n")], '''
package bufmap

import (
	"errors"
	"testing"
)

func TestDemo(t *testing.T) {
	m := New(10, 8)
	m.Update(3, func(d []byte, init bool) error { return errors.New("no") })
	m.Update(3, func(d []byte, init bool) error {
		if !init {
			t.Fatal("never initialised")
		}
		return nil
	})
}
'''),
]
