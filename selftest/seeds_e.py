"""Bugs that keep an operation from ending."""
import os, runpy
b = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds_b.py'))
S, SERVER, V, Z, B, I, M, Q = (b[k] for k in ('S', 'SERVER', 'V', 'Z', 'B', 'I', 'M', 'Q'))
SERVER = SERVER.replace('import (', 'import (\n\t"time"', 1)
B = "internal/bufmap/bufmap.go"
SEEDS = [
S('c47-blank', 'C47', 'internal/server', 'an empty line among the observations',
  'the loop over the lines goes on without reading the next line, and never ends',
  [(V, "	for sc.Scan() {\n", "	for more := sc.Scan(); more; {\n		if len(sc.Bytes()) == 0 {\n			// nothing on this line\n			continue\n		}\n"),
   (V, "				return\n			}\n		}\n	}\n	if sc.Err()", "				return\n			}\n		}\n		more = sc.Scan()\n	}\n	if sc.Err()")], SERVER + '''
func TestDemo(t *testing.T) {
	s := demoServer(t, demoStore(t, "c", "k", 101, collation.Sum{}))
	done := make(chan bool)
	go func() {
		post(s, "1 k=a x=3\\n\\n2 k=a x=4\\n")
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("the request does not end")
	}
}
'''),
S('c47-hoisted', 'C47', 'internal/bufmap', 'a read that begins while an update of the record is under way',
  'the sequence is loaded once, and a reader that finds an update under way waits for ever',
  [(B, "	for {\n		seq1 := atomic.LoadUint32(&s.seq)\n		// Is a writer", "	seq1 := atomic.LoadUint32(&s.seq)\n	for {\n		// Is a writer"),
   (B, "		if seq1 == seq2 {\n			// No update was made\n			break\n		}\n", "		if seq1 == seq2 {\n			// No update was made\n			break\n		}\n		seq1 = seq2\n")], '''
package bufmap

import (
	"sync/atomic"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	m := New(4, 8)
	if err := m.Update(1, func(data []byte, init bool) error { return nil }); err != nil {
		t.Fatal(err)
	}
	var seq *uint32
	for i := range m.keys {
		if m.keys[i].key == 1 {
			seq = &m.keys[i].seq
		}
	}
	// an update that takes a while
	atomic.AddUint32(seq, 1)
	done := make(chan bool)
	go func() {
		m.Get(1, make([]byte, 8))
		close(done)
	}()
	time.Sleep(100 * time.Millisecond)
	atomic.AddUint32(seq, 1)
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("a read does not end")
	}
}
'''),
S('c47-empty-field', 'C47', 'internal/server', 'two separators in a row in an observation',
  'the position does not move past the separator of an empty field',
  [(V, "		row.Data = append(row.Data, parseFV(data[p:p+offset]))\n		p += offset + 1\n", "		if offset > 0 {\n			row.Data = append(row.Data, parseFV(data[p:p+offset]))\n			p++\n		}\n		p += offset\n")], SERVER + '''
func TestDemo(t *testing.T) {
	s := demoServer(t, demoStore(t, "c", "k", 101, collation.Sum{}))
	done := make(chan bool)
	go func() {
		post(s, "1\\tk=a\\t\\tx=3\\n")
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("the request does not end")
	}
}
'''),
]
