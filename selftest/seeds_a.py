SEEDS = [
dict(id='c03-inplace-seqlock', prop='C03', pkg='internal/seqlock',
 needs='an update function that writes part of the buffer before it fails',
 breaks='seqlock.Update hands the stored data itself to the update function, so a failed update leaves a partial write behind',
 edits=[('internal/seqlock/seqlock.go', "	var d [1024]byte\n	copy(d[:], s.data[:])\n	if err := fn(d[:]); err != nil {\n		return err\n	}\n", "	d := s.data[:]\n	if err := fn(d); err != nil {\n		return err\n	}\n"),
        ('internal/seqlock/seqlock.go', "	copy(s.data[:], d[:])\n\n	// Notify readers that we are done\n	atomic.AddUint32(&s.seq, 1)\n	return nil", "	copy(s.data[:], d)\n\n	// Notify readers that we are done\n	atomic.AddUint32(&s.seq, 1)\n	return nil")],
 test='''
package seqlock

import (
	"errors"
	"testing"
)

func TestDemo(t *testing.T) {
	s := New()
	e := errors.New("no")
	err := s.Update(func(d []byte) error { d[7] = 9; return e })
	if err != e {
		t.Fatal("error lost")
	}
	if s.Get()[7] != 0 {
		t.Fatal("failed update left data behind")
	}
}
'''),
dict(id='c01-seqlock-bump-late', prop='C01', pkg='internal/seqlock', race=False,
 needs='a Get that runs entirely between the two halves of a Put, or overlaps it',
 breaks='Put increments the write counter by two at the end instead of making it odd during the copy, so a reader that starts and ends during the copy sees a mixture',
 edits=[('internal/seqlock/seqlock.go', "	// Notify readers that we are writing\n	atomic.AddUint32(&s.seq, 1)\n\n	copy(s.data[:], v[:])\n\n	// Notify readers that we are done\n	atomic.AddUint32(&s.seq, 1)\n	s.mu.Unlock()", "	copy(s.data[:], v[:])\n\n	// Notify readers that the data has changed\n	atomic.AddUint32(&s.seq, 2)\n	s.mu.Unlock()")],
 test='''
package seqlock

import (
	"runtime"
	"sync/atomic"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(8)
	s := New()
	var stop int32
	for w := 0; w < 2; w++ {
		go func() {
			var a [2][1024]byte
			for i := range a[1] {
				a[1][i] = 255
			}
			for i := 0; atomic.LoadInt32(&stop) == 0; i++ {
				s.Put(a[i%2])
			}
		}()
	}
	end := time.Now().Add(8 * time.Second)
	for time.Now().Before(end) {
		g := s.Get()
		for i := range g {
			if g[i] != g[0] {
				t.Fatal("torn read")
			}
		}
	}
	atomic.StoreInt32(&stop, 1)
}
'''),
dict(id='c06-get-stops-early', prop='C06', pkg='internal/bufmap',
 needs='a key displaced by exactly maxReprobe other keys that hash to the same slot',
 breaks='bufmap.Get gives up one probe before Update does, so a key stored in the last slot of its probe sequence is never found',
 edits=[('internal/bufmap/bufmap.go', "		i++\n		if i > maxReprobe {\n			// too many attempts to find slot", "		i++\n		if i >= maxReprobe {\n			// too many attempts to find slot")],
 test='''
package bufmap

import "testing"

func TestDemo(t *testing.T) {
	m := New(64, 8)
	for i := uint64(0); i <= maxReprobe; i++ {
		k := 5 + 64*i
		if err := m.Update(k, func(d []byte, init bool) error { d[0] = byte(i + 1); return nil }); err != nil {
			t.Fatal(err)
		}
		var b [8]byte
		if !m.Get(k, b[:]) || b[0] != byte(i+1) {
			t.Fatalf("stored key %d not found", k)
		}
	}
}
'''),
dict(id='c07-incmap-claim-other', prop='C07', pkg='internal/incmap', race=False,
 needs='two goroutines that race to claim the same empty slot for different keys',
 breaks='Inc takes a slot as its own after losing the race to claim it to another key, so its amount is added to that key',
 edits=[('internal/incmap/incmap.go', "			if atomic.CompareAndSwapUint64(&m.keys[x], 0, k) {\n				// Stored key successfully\n				break\n			}", "			atomic.CompareAndSwapUint64(&m.keys[x], 0, k)\n			if atomic.LoadUint64(&m.keys[x]) != 0 {\n				// Slot has been claimed\n				break\n			}")],
 test='''
package incmap

import (
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	for n := 0; n < 300000; n++ {
		m := New(4)
		var wg sync.WaitGroup
		var ready sync.WaitGroup
		ready.Add(3)
		for k := uint64(1); k <= 3; k++ {
			k := k
			wg.Add(1)
			go func() {
				ready.Done()
				ready.Wait()
				m.Inc(k*4, k)
				wg.Done()
			}()
		}
		wg.Wait()
		for k := uint64(1); k <= 3; k++ {
			if v, ok := m.Get(k * 4); !ok || v != k {
				t.Fatalf("key %d: %d %v", k, v, ok)
			}
		}
	}
}
'''),
dict(id='c09-scan-error', prop='C09', pkg='internal/server',
 needs='a line longer than the scanner accepts',
 breaks='an observation stream that stops because of a read error or an overlong line is answered with success',
 edits=[('internal/server/server.go', "	if sc.Err() != nil {\n		http.Error(w, sc.Err().Error(), http.StatusInternalServerError)\n		return\n	}\n}", "	if err := sc.Err(); err == io.ErrUnexpectedEOF {\n		http.Error(w, err.Error(), http.StatusInternalServerError)\n		return\n	}\n}")],
 test='''
package server

import (
	"net/http/httptest"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	s := New()
	if err := s.registerHandlers(); err != nil {
		t.Fatal(err)
	}
	w := httptest.NewRecorder()
	s.ServeHTTP(w, httptest.NewRequest("POST", "/obs", strings.NewReader("1 a="+strings.Repeat("x", 100000)+"\\n")))
	if w.Code < 400 {
		t.Fatalf("status %d", w.Code)
	}
}
'''),
dict(id='c32-ctx-once', prop='C32', pkg='internal/server',
 needs='a request cancelled after its first line was processed, and a store whose own check is not reached',
 breaks='cancellation is only examined for the first line of a request and not again in the store, so later observations are applied after the client has gone',
 edits=[('internal/server/server.go', "		// Check whether context has been cancelled\n		select {\n		case <-ctx.Done():\n			http.Error(w, ctx.Err().Error(), http.StatusServiceUnavailable)\n			return\n		default:\n		}\n\n		row, err", "		// Check whether context has been cancelled\n		if !started {\n			started = true\n			select {\n			case <-ctx.Done():\n				http.Error(w, ctx.Err().Error(), http.StatusServiceUnavailable)\n				return\n			default:\n			}\n		}\n\n		row, err"),
        ('internal/server/server.go', "	sc := bufio.NewScanner(r)\n", "	started := false\n	sc := bufio.NewScanner(r)\n")],
 test='''
package server

import (
	"context"
	"io"
	"net/http/httptest"
	"strings"
	"testing"
)

type reader struct {
	f func()
	n int
}

func (r *reader) Read(p []byte) (int, error) {
	r.n++
	if r.n == 1 {
		return copy(p, "1 a=1\\n"), nil
	}
	if r.n == 2 {
		r.f()
		return copy(p, "bad\\n"), nil
	}
	return 0, io.EOF
}

func TestDemo(t *testing.T) {
	s := New()
	if err := s.registerHandlers(); err != nil {
		t.Fatal(err)
	}
	ctx, cancel := context.WithCancel(context.Background())
	w := httptest.NewRecorder()
	r := httptest.NewRequest("POST", "/obs", &reader{f: cancel}).WithContext(ctx)
	s.ServeHTTP(w, r)
	if w.Code != 503 || !strings.Contains(w.Body.String(), "canceled") {
		t.Fatalf("status %d %s", w.Code, w.Body)
	}
}
'''),
]
