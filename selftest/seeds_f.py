"""Bugs in what is reported of reading and writing."""
import os, runpy
b = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds_b.py'))
S, SERVER, V, Z = (b[k] for k in ('S', 'SERVER', 'V', 'Z'))
H = "internal/summary/hll/hll.go"
BL = "internal/summary/bloom/bloom.go"
BB = "internal/bitbucket/bitbucket.go"
FAILING = '''
import (
	"errors"
	"testing"
)

// failing accepts so many bytes
type failing struct{ left int }

func (f *failing) Write(p []byte) (int, error) {
	if len(p) <= f.left {
		f.left -= len(p)
		return len(p), nil
	}
	n := f.left
	f.left = 0
	return n, errors.New("full")
}
'''
SEEDS = [
S('c48-early-total', 'C48', 'internal/summary/bloom', 'a writer that fails while the bits are written',
  'the total is brought up to date only when the bits have been written without an error',
  [(BL, "	n0, err := b.bits.WriteTo(w)\n	n += int(n0)\n	if err != nil {\n		return int64(n), err\n	}\n", "	n0, err := b.bits.WriteTo(w)\n	if err != nil {\n		return int64(n), err\n	}\n	n += int(n0)\n")],
'package bloom\n' + FAILING + '''
func TestDemo(t *testing.T) {
	b := NewBits(1000, 3)
	for k := 0; k < 60; k++ {
		n, err := b.WriteTo(&failing{k})
		if err == nil {
			t.Fatal("no error")
		}
		if n != int64(k) {
			t.Fatalf("%d bytes were written, %d are reported", k, n)
		}
	}
}
'''),
S('c48-all-or-nothing', 'C48', 'internal/bitbucket', 'a writer that accepts a part of the buckets before it fails',
  'a write of the buckets that fails half way counts as the whole of them',
  [(BB, "	n0, err := w.Write(b.data)\n	n += n0\n", "	_, err = w.Write(b.data)\n	n += len(b.data)\n")],
'package bitbucket\n' + FAILING + '''
func TestDemo(t *testing.T) {
	b := New(100, 8)
	for k := 0; k < 60; k++ {
		n, err := b.WriteTo(&failing{k})
		if err == nil {
			t.Fatal("no error")
		}
		if n != int64(k) {
			t.Fatalf("%d bytes were written, %d are reported", k, n)
		}
	}
}
'''),
]
