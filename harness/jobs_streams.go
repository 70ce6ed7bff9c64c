package main

// Streams that offer more than Read and Write, of which the code might make
// use: seeking, reading single bytes, peeking into their buffers.

import (
	"bufio"
	"bytes"
	"io"
	"strings"

	"github.com/protolambda/zssz"
	"verif/harness/sym"
)

const streamKinds = 7

func streamOf(kind uint64, b []byte) io.Reader {
	switch kind {
	case 0:
		return bytes.NewReader(b)
	case 1:
		return bytes.NewBuffer(b)
	case 2:
		return bufio.NewReaderSize(&sliceReader{b: b}, 16)
	case 3:
		return strings.NewReader(string(b))
	case 4:
		return io.NewSectionReader(bytes.NewReader(b), 0, int64(len(b)))
	case 5:
		return io.LimitReader(bytes.NewReader(b), int64(len(b)))
	}
	return io.MultiReader(bytes.NewReader(b[:len(b)/2]), bytes.NewBuffer(b[len(b)/2:]))
}

func drain(r io.Reader) []byte {
	var out []byte
	var x [8]byte
	for {
		n, err := r.Read(x[:])
		out = append(out, x[:n]...)
		if err != nil {
			return out
		}
	}
}

func jobReaders(t *TypeDef, _ int) {
	s := t.Sch()
	ssz := t.SSZ()
	v := GenVal(s, "v")
	b := Ser(s, v)
	n := uint64(len(b))
	kind := sym.Choose("kind", streamKinds)
	dry := sym.Choose("dry", 2) == 1
	p := t.New()
	do := func(r io.Reader) error {
		if dry {
			return zssz.DryCheck(r, n, ssz)
		}
		return zssz.Decode(r, n, p, ssz)
	}
	if n > 0 && sym.Choose("short", 2) == 1 {
		k := int(n) - 1
		if sym.Choose("half", 2) == 1 {
			k = int(n) / 2
		}
		sym.Assert(do(streamOf(kind, b[:k])) != nil, "success although the stream ended before all required bytes")
		sym.Reach("short")
		return
	}
	tail := []byte{1, 2, 3}
	r := streamOf(kind, append(clone(b), tail...))
	sym.Assert(do(r) == nil, "the outcome depends on the kind of stream")
	sym.Assert(string(drain(r)) == string(tail), "the stream is not left behind the declared bytes")
	if !dry {
		sym.Assert(EqVal(s, t.Get(p), v), "the decoded value depends on the kind of stream")
	}
	sym.Reach("done")
}

// richWriter also takes single bytes and strings, and reads from readers.
type richWriter struct{ faultWriter }

func (w *richWriter) WriteByte(c byte) error {
	_, err := w.Write([]byte{c})
	return err
}
func (w *richWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }
func (w *richWriter) ReadFrom(r io.Reader) (int64, error) {
	n, err := w.Write(drain(r))
	return int64(n), err
}

func jobWriters(t *TypeDef, _ int) {
	s := t.Sch()
	ssz := t.SSZ()
	p, v := genInto(t, s, "v")
	want := Ser(s, v)
	var out []byte
	var n int
	var err error
	switch sym.Choose("kind", 4) {
	case 0:
		w := bytes.NewBufferString("x")
		n, err = zssz.Encode(w, p, ssz)
		out = w.Bytes()[1:]
	case 1:
		u := &sliceWriter{}
		w := bufio.NewWriterSize(u, 16)
		n, err = zssz.Encode(w, p, ssz)
		w.Flush()
		out = u.b
	case 2:
		w := &richWriter{faultWriter{left: len(want) + 1}}
		n, err = zssz.Encode(w, p, ssz)
		out = w.b
	case 3:
		var w, u bytes.Buffer
		n, err = zssz.Encode(io.MultiWriter(&w, &u), p, ssz)
		out = u.Bytes()
	}
	sym.Assert(err == nil, "encoding a valid value fails")
	sym.Assert(n == len(out), "count returned by Encode differs from the bytes written")
	sym.Assert(len(out) == len(want), "the encoding has another length")
	if len(out) == len(want) {
		sym.Assert(sym.SameBytes(out, want), "the bytes are not the SSZ encoding")
	}
	sym.Reach("done")
}
