package xcf

import (
	"bytes"
	"errors"
	"fmt"
	"image"
	"io"
	"reflect"
	"sort"
	"sync"
	"testing"

	"limageverif/gen"
	"limageverif/vt"
	"limageverif/xcfgen"
	"limageverif/xcfref"
	"pgregory.net/rapid"
	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/xcf"
)

var errFault = errors.New("injected fault")

// file is a valid file with what is known of it.
type file struct {
	b      []byte
	places []xcfref.Place
	what   string
	key    any
	whole  limage.Image
	config image.Config
}

// drawFile draws a valid file, written by the library or by others.
func drawFile(t *rapid.T, limit, large int) *file {
	f := &file{}

	if k := rapid.IntRange(0, 5).Draw(t, "source"); k == 0 && len(corpus) > 0 {
		n := rapid.IntRange(0, len(corpus)-1).Draw(t, "file")
		f.b, f.what, f.key = corpus[n], fmt.Sprintf("file %d", n), n
	} else if k <= 1 {
		tr, _ := drawTree(t, large, modes)

		b, err := encode(tr.Image)
		if err != nil {
			t.Fatalf("encoding: %v", err)
		}

		f.b, f.what, f.key = b, "encoded "+gen.Describe(tr.Image), tr.Key
	} else {
		o := foreign
		o.Max, o.Large, o.Depth, o.Layers = limit, large, 2, 3
		d := xcfgen.Draw(t, o)
		f.key = d.Key()

		if rapid.Bool().Draw(t, "extras") {
			d = xcfgen.WithExtras(t, d)
		}

		f.b, f.places = d.BuildPlaces()
		f.what = xcfgen.Describe(d.File)
	}

	if f.places == nil {
		f.places = []xcfref.Place{{Off: 0, Len: len(f.b), Kind: "all"}}
	}

	vt.Journal(f.b)

	var err error

	if f.whole, err = decode(f.b); err != nil {
		t.Fatalf("decoding: %v\n%s", err, f.what)
	}

	if f.config, err = xcf.DecodeConfig(bytes.NewReader(f.b)); err != nil {
		t.Fatalf("decoding the configuration: %v\n%s", err, f.what)
	}

	return f
}

// offsets draws places in the file, mostly near the borders of its parts.
func (f *file) offsets(t *rapid.T, all, n int) []int {
	if len(f.b) <= all {
		out := make([]int, len(f.b))
		for i := range out {
			out[i] = i
		}

		return out
	}

	set := map[int]bool{len(f.b) - 1: true}

	for ; n > 0; n-- {
		p := rapid.SampledFrom(f.places).Draw(t, "part")

		var at int

		switch rapid.IntRange(0, 3).Draw(t, "where") {
		case 0:
			at = p.Off + rapid.IntRange(-2, 9).Draw(t, "after the start")
		case 1:
			at = p.Off + p.Len + rapid.IntRange(-9, 2).Draw(t, "before the end")
		case 2:
			at = p.Off + rapid.IntRange(0, p.Len).Draw(t, "inside")
		case 3:
			at = rapid.IntRange(0, len(f.b)-1).Draw(t, "anywhere")
		}

		set[max(0, min(at, len(f.b)-1))] = true
	}

	var out []int
	for at := range set {
		out = append(out, at)
	}

	sort.Ints(out)

	return out
}

// check decodes from the reader in all ways. What is decoded has to be what is
// in the file. It tells how many ways gave an error.
func (f *file) check(r func() io.ReaderAt) (int, error) {
	failed := 0

	for _, way := range []struct {
		name string
		fn   func(io.ReaderAt) (limage.Image, error)
	}{{"Decode", xcf.Decode}, {"DecodeCompressed", xcf.DecodeCompressed}} {
		var m limage.Image

		err := attempt(func() error {
			var err error

			m, err = way.fn(r())

			return err
		})

		if errors.Is(err, errPanic) {
			return 0, fmt.Errorf("%s: %w", way.name, err)
		} else if err != nil {
			failed++

			continue
		}

		if err := attempt(func() error { return same(f.whole, m) }); err != nil {
			return 0, fmt.Errorf("%s: no error was reported, and the image differs: %w", way.name, err)
		}
	}

	var conf image.Config

	err := attempt(func() error {
		var err error

		conf, err = xcf.DecodeConfig(r())

		return err
	})

	if errors.Is(err, errPanic) {
		return 0, fmt.Errorf("DecodeConfig: %w", err)
	} else if err == nil && (conf.Width != f.config.Width || conf.Height != f.config.Height || !reflect.DeepEqual(palette(conf.ColorModel), palette(f.config.ColorModel))) {
		return 0, fmt.Errorf("DecodeConfig: no error was reported for %v, which is %v", f.config, conf)
	}

	return failed, nil
}

// short is a reader for the start of a file, which tells of the end in one of
// several ways.
type short struct {
	b    []byte
	kind int
}

func (s short) ReadAt(p []byte, off int64) (int, error) {
	n := 0
	if off < int64(len(s.b)) {
		n = copy(p, s.b[off:])
	}

	switch {
	case n == len(p) && (s.kind != 1 || off+int64(n) != int64(len(s.b))):
		return n, nil
	case s.kind == 2 && n < len(p):
		return n, io.ErrUnexpectedEOF
	}

	return n, io.EOF
}

// TestC25_Prefixes: the start of a file is reported as incomplete, if anything
// is missing.
func TestC25_Prefixes(t *testing.T) {
	vt.Check(t, 500, 20000, func(t *rapid.T, c *vt.Case) {
		f := drawFile(t, 8, 80)
		kind := rapid.IntRange(0, 2).Draw(t, "end")

		for _, n := range f.offsets(t, 300, 25) {
			vt.Journal(f.b[:n])

			failed, err := f.check(func() io.ReaderAt { return short{f.b[:n:n], kind} })
			if err != nil {
				t.Fatalf("cut to %d of %d bytes: %v\n%s", n, len(f.b), err, f.what)
			}

			c.LabelIf(failed == 0, "nothing of use missing")
			c.LabelIf(failed != 0, "reported")
			c.NonTrivial(f.key, len(f.b), n, kind)
		}

		c.Sample("%d bytes: %s", len(f.b), f.what)
	})
}

// TestC25_Every: every prefix of small files.
func TestC25_Every(t *testing.T) {
	vt.Check(t, 60, 2400, func(t *rapid.T, c *vt.Case) {
		f := drawFile(t, 5, 5)

		for _, n := range f.offsets(t, 4000, 100) {
			failed, err := f.check(func() io.ReaderAt { return bytes.NewReader(f.b[:n:n]) })
			if err != nil {
				t.Fatalf("cut to %d of %d bytes: %v\n%s", n, len(f.b), err, f.what)
			}

			c.LabelIf(failed == 0, "nothing of use missing")
			c.LabelIf(failed != 0, "reported")
			c.NonTrivial(f.key, len(f.b), n)
		}

		c.Sample("every prefix of %d bytes: %s", len(f.b), f.what)
	})
}

// faultyWriter fails at one of the calls.
type faultyWriter struct {
	memory
	fail  int
	mode  int // as in faultModes
	calls int
	hit   bool
}

var faultModes = []string{"fails for good", "fails once", "writes less, without an error", "writes a part and fails", "writes a part once, without an error", "writes all and fails once"}

func (w *faultyWriter) WriteAt(p []byte, off int64) (int, error) {
	n := w.calls
	w.calls++

	once := w.mode == 1 || w.mode >= 4

	if n < w.fail || n > w.fail && once {
		return w.memory.WriteAt(p, off)
	}

	if len(p) == 0 && (w.mode == 2 || w.mode == 4) {
		return 0, nil // there is no writing less
	}

	w.hit = true

	if w.mode == 2 && n > w.fail+10000 {
		return 0, errFault // whoever tries again and again may give up now
	}

	switch w.mode {
	case 2, 4:
		k := len(p) - 1 - n%len(p)
		w.memory.WriteAt(p[:k], off)

		return k, nil
	case 3:
		w.memory.WriteAt(p[:len(p)/2], off)

		return len(p) / 2, errFault
	case 5:
		w.memory.WriteAt(p, off)

		return len(p), errFault
	}

	return 0, errFault
}

// TestC26_Faults: a failing destination is reported.
func TestC26_Faults(t *testing.T) {
	vt.Check(t, 1000, 40000, func(t *rapid.T, c *vt.Case) {
		tr, _ := drawTree(t, 140, fixed(modes))

		whole := &faultyWriter{fail: -1, mode: 1}

		if err := attempt(func() error { return xcf.Encode(whole, tr.Image) }); err != nil {
			t.Fatalf("encoding: %v", err)
		}

		vt.Journal([]byte(gen.Describe(tr.Image)))

		for k := 0; k < 16; k++ {
			n := rapid.OneOf(rapid.IntRange(0, whole.calls-1), rapid.IntRange(max(0, whole.calls-20), whole.calls-1)).Draw(t, "write")
			w := &faultyWriter{fail: n, mode: rapid.IntRange(0, len(faultModes)-1).Draw(t, "fault")}
			err := attempt(func() error { return xcf.Encode(w, tr.Image) })

			switch {
			case errors.Is(err, errPanic):
				t.Fatalf("write %d of %d %s: %v: %s", n, whole.calls, faultModes[w.mode], err, gen.Describe(tr.Image))
			case err == nil && (w.hit || !bytes.Equal(w.b, whole.b)):
				t.Fatalf("write %d of %d %s, yet no error was reported: %s", n, whole.calls, faultModes[w.mode], gen.Describe(tr.Image))
			}

			c.Label(faultModes[w.mode])
			c.NonTrivial(tr.Key, n, w.mode)
		}

		if got, err := decode(whole.b); err != nil || len(got) != len(tr.Image) {
			t.Fatalf("no fault: %v", err)
		}

		c.Sample("%d writes: %s", whole.calls, gen.Describe(tr.Image))
	})
}

// TestC26_Every: every write of small files.
func TestC26_Every(t *testing.T) {
	vt.Check(t, 80, 3200, func(t *rapid.T, c *vt.Case) {
		w, h := rapid.IntRange(1, 4).Draw(t, "width"), rapid.IntRange(1, 4).Draw(t, "height")
		f := rapid.SampledFrom(families).Draw(t, "family")
		o := f.opts(t, fixed(modes))
		o.Layers, o.Depth, o.BigGroups = 2, 2, false
		tr := gen.DrawTree(t, w, h, o)

		whole := &faultyWriter{fail: -1, mode: 1}

		if err := attempt(func() error { return xcf.Encode(whole, tr.Image) }); err != nil {
			t.Fatalf("encoding: %v", err)
		}

		mode := rapid.IntRange(0, len(faultModes)-1).Draw(t, "fault")

		for n := 0; n < whole.calls; n++ {
			w := &faultyWriter{fail: n, mode: mode}

			if err := attempt(func() error { return xcf.Encode(w, tr.Image) }); err == nil && w.hit || errors.Is(err, errPanic) {
				t.Fatalf("write %d of %d %s: %v: %s", n, whole.calls, faultModes[mode], err, gen.Describe(tr.Image))
			}

			c.NonTrivial(tr.Key, n, mode)
		}

		c.Label("every write: " + faultModes[mode])
		c.Sample("each of %d writes %s: %s", whole.calls, faultModes[mode], gen.Describe(tr.Image))
	})
}

// faultyReader fails at some of the reads, or in a part of the file.
type faultyReader struct {
	mu    *sync.Mutex
	b     []byte
	call  int // the first call to fail, or less than none
	from  int // the first byte which cannot be read
	to    int
	once  bool
	part  bool // what can be read is read
	err   error
	calls int
	hit   bool
}

func (f *faultyReader) ReadAt(p []byte, off int64) (int, error) {
	f.mu.Lock()
	defer f.mu.Unlock()

	n := f.calls
	f.calls++

	bad, k := false, 0

	if f.call >= 0 {
		bad = n == f.call || n > f.call && !f.once
		k = len(p) / 2
	} else if len(p) > 0 && int(off) < f.to && int(off)+len(p) > f.from && (!f.once || !f.hit) {
		bad = true
		k = max(0, f.from-int(off))
	}

	if !bad {
		return bytes.NewReader(f.b).ReadAt(p, off)
	}

	f.hit = true

	if f.part {
		k, _ = bytes.NewReader(f.b).ReadAt(p[:k], off)

		return k, f.err
	}

	return 0, f.err
}

// seeker reads from the same source by seeking.
type seeker struct {
	io.ReadSeeker
}

// TestC32_XCF: the source fails while it is read.
func TestC32_XCF(t *testing.T) {
	vt.Check(t, 1200, 48000, func(t *rapid.T, c *vt.Case) {
		f := drawFile(t, 12, 90)

		count := &faultyReader{mu: new(sync.Mutex), b: f.b, call: -1, from: -1, to: -1}

		if _, err := xcf.Decode(count); err != nil {
			t.Fatalf("decoding: %v", err)
		}

		offs := f.offsets(t, 0, 6)

		for k := 0; k < 12; k++ {
			proto := faultyReader{mu: new(sync.Mutex), b: f.b, call: -1, once: rapid.Bool().Draw(t, "once"), part: rapid.Bool().Draw(t, "part")}
			proto.err = rapid.SampledFrom([]error{errFault, errFault, io.ErrUnexpectedEOF, io.EOF, io.ErrClosedPipe}).Draw(t, "error")

			if k%2 == 0 {
				proto.call = rapid.IntRange(0, count.calls-1).Draw(t, "call")
			} else {
				proto.from = offs[k%len(offs)]
				proto.to = proto.from + rapid.SampledFrom([]int{1, 4, 1000, 1 << 30}).Draw(t, "bytes")
			}

			failed, err := f.check(func() io.ReaderAt {
				r := proto

				return &r
			})
			if err != nil {
				t.Fatalf("reads %+v of %d: %v\n%s", proto.desc(), count.calls, err, f.what)
			}

			// A reader that is not at its end in the middle of the file.
			r := proto
			rs := seeker{io.NewSectionReader(&r, 0, int64(len(f.b)))}

			var m image.Image

			err = attempt(func() error {
				var err error

				m, _, err = image.Decode(rs)

				return err
			})

			if errors.Is(err, errPanic) {
				t.Fatalf("image.Decode, reads %+v: %v\n%s", proto.desc(), err, f.what)
			} else if err == nil {
				if err := same(f.whole, m.(limage.Image)); err != nil {
					t.Fatalf("image.Decode, reads %+v of %d: no error was reported, and the image differs: %v\n%s", proto.desc(), count.calls, err, f.what)
				}
			}

			c.LabelIf(failed == 0, "XCF: not needed")
			c.LabelIf(failed != 0, "XCF: reported")
			c.NonTrivial(f.key, proto.desc())
		}

		c.Sample("XCF: %d reads: %s", count.calls, f.what)
	})
}

func (f *faultyReader) desc() string {
	return fmt.Sprintf("call %d, bytes %d to %d, once %t, part %t, %v", f.call, f.from, f.to, f.once, f.part, f.err)
}
