"""Bugs of the properties that had none."""
import os, runpy
b = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds_b.py'))
S, SERVER = b['S'], b['V']
BM = "internal/bufmap/bufmap.go"
ME = "internal/collation/measure.go"
SEEDS = [
S('c02-early-notice', 'C02', 'internal/bufmap', 'an update function that panics',
  'readers are told of an update before its function is called; when that fails they are told that it is over, but not when it panics, so that readers of the record wait for ever',
  [(BM, "	if err := fn(buf, init); err != nil {\n		return err\n	}\n\n	// Notify readers that we are writing\n	atomic.AddUint32(&s.seq, 1)\n\n",
    "	// Notify readers that we are writing\n	atomic.AddUint32(&s.seq, 1)\n\n	if err := fn(buf, init); err != nil {\n		atomic.AddUint32(&s.seq, 1)\n		return err\n	}\n\n")],
'''package bufmap

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	m := New(8, 8)
	add := func(data []byte, init bool) error { data[0]++; return nil }
	if err := m.Update(3, add); err != nil {
		t.Fatal(err)
	}
	func() {
		defer func() { recover() }()
		m.Update(3, func(data []byte, init bool) error { panic("bad") })
	}()
	done := make(chan bool)
	go func() {
		buf := make([]byte, 8)
		done <- m.Get(3, buf) && buf[0] == 1
	}()
	select {
	case ok := <-done:
		if !ok {
			t.Fatal("the record is not as it was")
		}
	case <-time.After(5 * time.Second):
		t.Fatal("the record cannot be read")
	}
}
'''),
S('c17-empty-item', 'C17', 'internal/collation', 'a discrete value that is empty, after others',
  'an item without a value empties the counter of the items before it',
  [(ME, "	return func(buf []byte, init bool, v []byte) error {\n		if init {\n", "	return func(buf []byte, init bool, v []byte) error {\n		if init || len(v) == 0 {\n")],
'''package collation

import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	c := Cardinality{Precision: 10}
	buf := make([]byte, c.Size())
	w, r := c.DiscWriter(), c.ContReader()
	items := []string{}
	for i := 0; i < 500; i++ {
		items = append(items, fmt.Sprintf("item number %d is %d", i, i*i*i))
	}
	for i, v := range append(items, "", "last") {
		if err := w(buf, i == 0, []byte(v)); err != nil {
			t.Fatal(err)
		}
	}
	v, err := r(buf)
	if err != nil {
		t.Fatal(err)
	}
	if v < 100 {
		t.Fatalf("502 different items, cardinality %v", v)
	}
}
'''),
S('c28-half-default', 'C28', 'internal/server', 'a server with a network of its own and no address',
  'the default address is used only where no network is configured either, so the server listens at a port that nobody chose',
  [(SERVER, '	if s.Addr == "" {\n		s.Addr = ":2525"\n	}\n\n	if s.Net == "" {\n		s.Net = "tcp"\n	}\n', '	if s.Addr == "" && s.Net == "" {\n		s.Addr = ":2525"\n	}\n\n	if s.Net == "" {\n		s.Net = "tcp"\n	}\n')],
'''package server

import (
	"fmt"
	"strings"
	"syscall"
	"testing"
)

type lines chan string

func (l lines) Printf(format string, v ...interface{}) { l <- fmt.Sprintf(format, v...) }

func TestDemo(t *testing.T) {
	l := make(lines, 10)
	s := &Server{Net: "tcp4", Logger: l}
	end := make(chan error)
	go func() { end <- s.Serve() }()
	said := ""
	select {
	case said = <-l:
		syscall.Kill(syscall.Getpid(), syscall.SIGTERM)
		<-end
	case err := <-end:
		// The port may be in use
		said = err.Error()
	}
	if !strings.Contains(said, ":2525") {
		t.Fatalf("a server without an address: %q", said)
	}
}
'''),
S('c31-eighteen', 'C31', 'internal/server', 'a timestamp of more than 18 digits',
  'the timestamp is taken to end after 18 digits, so the 19th is the delimiter of the fields and the time is another',
  [(SERVER, "		if data[p] < '0' || data[p] > '9' {\n", "		if data[p] < '0' || data[p] > '9' || p == 18 {\n")],
'''package server

import "testing"

func TestDemo(t *testing.T) {
	row, err := parseRow([]byte("4611686018427387904,f=v"))
	if err != nil {
		t.Fatal(err)
	}
	if s := row.DataTime.Unix(); s != 4611686018427 {
		t.Fatalf("4611686018427387904 us is %d s", s)
	}
}
'''),
]
