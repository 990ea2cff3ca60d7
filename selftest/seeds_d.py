"""Bugs in what the summaries count and in what the server answers."""
import os, runpy
b = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds_b.py'))
S, SERVER, V, Z, B, I, M, Q = (b[k] for k in ('S', 'SERVER', 'V', 'Z', 'B', 'I', 'M', 'Q'))
H = 'internal/summary/hll/hll.go'
RANK = '''
package hll

import (
	"bytes"
	"testing"

	"github.com/iand/starbow/internal/bitbucket"
	"github.com/iand/starbow/internal/hash/fnv"
)

// An item whose hash is 0 has the largest rank.
func TestDemo(t *testing.T) {
	item := []byte{0x92, 0x06, 0x77, 0x4c, 0xe0, 0x2f, 0x89, 0x2a, 0xd2}
	if fnv.Sum64(item) != 0 {
		item = []byte{0xd5, 0x6b, 0xb9, 0x53, 0x42, 0x87, 0x08, 0x36}
	}
	if fnv.Sum64(item) != 0 {
		t.Fatal("no item with hash 0")
	}
	for p := uint8(4); p <= 18; p++ {
		c := New(p)
		c.Add(item)
		var b bytes.Buffer
		if _, err := c.WriteTo(&b); err != nil {
			t.Fatal(err)
		}
		bits, err := bitbucket.WithBytes(b.Bytes()[2:])
		if err != nil {
			t.Fatal(err)
		}
		if got := bits.Get(0); got != 64-p+1 {
			t.Errorf("precision %d: rank %d, want %d", p, got, 64-p+1)
		}
	}
}
'''
SEEDS = [
S('c44-last-zero', 'C44', 'internal/summary/hll', 'an item whose hash is zero but for the bits that select the register (once in 2^46 to 2^60)',
  'the last bit of the hash is not counted among the zeros, so the largest rank is lost and the saturated registers are not seen by the estimator',
  [(H, "i < 64-int(c.p); i++", "i < 63-int(c.p); i++")], RANK),
S('c44-sentinel', 'C44', 'internal/summary/hll', 'an item whose hash is zero but for the bits that select the register',
  'the zeros shifted in are counted as if they were part of the hash: the rank exceeds 64-p+1 and the estimator does not see the register at all',
  [(H, '	"math"\n', '	"math"\n	mbits "math/bits"\n'),
   (H, "	// Count leading zeros - there are faster ways to do this\n	rho := uint8(1)\n	t := uint64(1 << (63 - c.p))\n	for i := 0; i < 64-int(c.p); i++ {\n		if h&t != 0 {\n			break\n		}\n		rho++\n		t >>= 1\n	}\n",
    "	// A bit is set below the hash so that the zeros come to an end\n	rho := uint8(mbits.LeadingZeros64(h<<c.p|1)) + 1\n")], RANK),
S('c45-format', 'C45', 'internal/server', 'a field whose name contains a percent sign',
  'the text of a value is used as a format',
  [(V, "				w.Write([]byte(f.String()))\n				w.Write([]byte{'\\n'})\n", "				fmt.Fprintf(w, f.String()+\"\\n\")\n")], SERVER + '''
func TestDemo(t *testing.T) {
	store := demoStore(t, "c", "k", 101, collation.Sum{})
	sch := collation.Schema{
		Name:     "c",
		Keys:     []collation.KeySpec{{Field: collation.FieldSpec{Pattern: "k"}}},
		Measures: []collation.MeasureSpec{{Field: collation.FieldSpec{Pattern: "load%s"}, Measures: []collation.Measure{collation.Sum{}}}},
	}
	cl, err := sch.Compile()
	if err != nil {
		t.Fatal(err)
	}
	store.Collator = cl
	s := demoServer(t, store)
	if w := post(s, "1 k=a load%s=3\\n"); w.Code != 200 {
		t.Fatal(w.Code, w.Body.String())
	}
	w := httptest.NewRecorder()
	s.ServeHTTP(w, httptest.NewRequest("GET", "/collation/c?q=select+sum(load%25s)+where+k='a'", nil))
	if want := "k=a\\nsum(load%s)=3\\n"; w.Body.String() != want {
		t.Fatalf("answer %q, want %q", w.Body.String(), want)
	}
}
'''),
S('c45-no-value', 'C45', 'internal/server', 'a condition whose value is empty',
  'conditions with an empty value are left out of the answer',
  [(V, "				w.Write(c.F)\n				w.Write([]byte{'='})\n", "				if len(c.V) == 0 {\n					continue\n				}\n				w.Write(c.F)\n				w.Write([]byte{'='})\n")], SERVER + '''
func TestDemo(t *testing.T) {
	s := demoServer(t, demoStore(t, "c", "k", 101, collation.Sum{}))
	if w := post(s, "1 k= x=3\\n"); w.Code != 200 {
		t.Fatal(w.Code, w.Body.String())
	}
	w := httptest.NewRecorder()
	s.ServeHTTP(w, httptest.NewRequest("GET", "/collation/c?q=select+sum(x)+where+k=''", nil))
	if want := "k=\\nsum(x)=3\\n"; w.Body.String() != want {
		t.Fatalf("answer %q, want %q", w.Body.String(), want)
	}
}
'''),
S('c46-charset', 'C46', 'internal/server', 'observations sent as text/plain with a parameter that is not a charset, or another spelling of the charset',
  'a request of a supported media type is refused for a parameter of its content type',
  [(V, "	var err error\n	ct, _, err = mime.ParseMediaType(ct)\n	return ct, err\n", "	ct, params, err := mime.ParseMediaType(ct)\n	if err == nil && len(params) > 0 && params[\"charset\"] != \"utf-8\" {\n		err = fmt.Errorf(\"unsupported charset: %s\", params[\"charset\"])\n	}\n	return ct, err\n")], SERVER + '''
func TestDemo(t *testing.T) {
	for _, ct := range []string{"text/plain; charset=utf-8", "text/plain; charset=UTF-8", "text/plain; format=flowed", "text/plain"} {
		s := demoServer(t, demoStore(t, "c", "k", 101, collation.Sum{}))
		w := httptest.NewRecorder()
		r := httptest.NewRequest("POST", "/obs", strings.NewReader("1 k=a x=3\\n"))
		r.Header.Set("Content-Type", ct)
		s.ServeHTTP(w, r)
		if w.Code != 200 {
			t.Errorf("%s: %d %s", ct, w.Code, w.Body)
		}
	}
}
'''),
S('c46-sorted', 'C46', 'internal/server', 'several collations that were not configured in the order of their names',
  'the search for the collation ends at the first whose name is greater, as if they were sorted',
  [(V, "	for _, store := range s.Stores {\n		if store.Collator.Name() == cname {", "	for _, store := range s.Stores {\n		if store.Collator.Name() > cname {\n			break\n		}\n		if store.Collator.Name() == cname {")], SERVER + '''
func TestDemo(t *testing.T) {
	s := demoServer(t, demoStore(t, "d", "k", 101, collation.Sum{}), demoStore(t, "c", "k", 101, collation.Sum{}))
	post(s, "1 k=a x=3\\n")
	for _, n := range []string{"c", "d"} {
		w := httptest.NewRecorder()
		s.ServeHTTP(w, httptest.NewRequest("GET", "/collation/"+n+"?q=select+sum(x)+where+k='a'", nil))
		if w.Code != 200 {
			t.Errorf("%s: %d %s", n, w.Code, w.Body)
		}
	}
}
'''),
S('c46-bare', 'C46', 'internal/server', 'an observation without fields in the middle of a request',
  'a line that consists of a timestamp only is refused, and with it the lines that follow',
  [(V, "		// No fields or values\n		return row, nil\n", "		// No fields or values\n		return row, fmt.Errorf(\"row has no fields\")\n")], SERVER + '''
func TestDemo(t *testing.T) {
	s := demoServer(t, demoStore(t, "c", "k", 101, collation.Sum{}))
	if w := post(s, "1 k=a x=3\\n2\\n3 k=a x=4\\n"); w.Code != 200 {
		t.Errorf("%d %s", w.Code, w.Body)
	}
}
'''),
S('c29-escaped', 'C29', 'internal/server', 'a collation whose name has characters that are escaped in a URL',
  'the name is compared with the escaped form of the path',
  [(V, "		path := req.URL.Path\n", "		path := req.URL.EscapedPath()\n")], SERVER + '''
func TestDemo(t *testing.T) {
	s := demoServer(t, demoStore(t, "daily hits", "k", 101, collation.Sum{}))
	post(s, "1 k=a x=3\\n")
	w := httptest.NewRecorder()
	s.ServeHTTP(w, httptest.NewRequest("GET", "/collation/daily%20hits?q=select+sum(x)+where+k='a'", nil))
	if want := "k=a\\nsum(x)=3\\n"; w.Body.String() != want {
		t.Fatalf("answer %q, want %q", w.Body.String(), want)
	}
}
'''),
]
