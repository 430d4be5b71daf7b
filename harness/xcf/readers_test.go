package xcf

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"image"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"testing"
	"testing/iotest"

	"limageverif/gen"
	"limageverif/vt"
	"pgregory.net/rapid"
	"vimagination.zapto.org/limage"
)

// getReaderAt is the adapter, where it can be had.
var getReaderAt func(io.Reader) io.ReaderAt

// slice is a reader of all kinds, which reads as much as it is told to.
type slice struct {
	b     []byte
	pos   int64
	chunk int  // at most this many bytes
	early bool // says that it is at the end with the last bytes
	idle  int  // every so many reads give nothing
	n     int
	fault func(op string) error
}

func (s *slice) Read(p []byte) (int, error) {
	s.n++

	if s.fault != nil {
		if err := s.fault("read"); err != nil {
			return 0, err
		}
	}

	if len(p) == 0 || s.idle > 0 && s.n%s.idle == 0 {
		return 0, nil
	}

	if s.pos >= int64(len(s.b)) {
		return 0, io.EOF
	}

	if s.chunk > 0 {
		p = p[:min(len(p), s.chunk)]
	}

	n := copy(p, s.b[s.pos:])
	s.pos += int64(n)

	if s.early && s.pos == int64(len(s.b)) {
		return n, io.EOF
	}

	return n, nil
}

var errNegative = errors.New("negative position")

func (s *slice) Seek(off int64, whence int) (int64, error) {
	if s.fault != nil {
		if err := s.fault("seek"); err != nil {
			return 0, err
		}
	}

	switch whence {
	case io.SeekCurrent:
		off += s.pos
	case io.SeekEnd:
		off += int64(len(s.b))
	}

	if off < 0 {
		return 0, errNegative
	}

	s.pos = off

	return off, nil
}

// at reads at offsets only.
type at struct {
	short
	io.Reader
}

// only hides what else a reader can do.
type only struct{ io.Reader }

type onlySeeker struct{ io.ReadSeeker }

// peeker has a buffer of its own, and can read at offsets.
type peeker struct {
	*bufio.Reader
	io.ReaderAt
}

// TestC28_Readers: the same image, from every kind of reader.
func TestC28_Readers(t *testing.T) {
	vt.Check(t, 2500, 80000, func(t *rapid.T, c *vt.Case) {
		f := drawFile(t, 10, 90)
		kind := rapid.SampledFrom([]string{"bytes", "string", "file", "seeker", "seeker", "seeker", "offsets", "section", "stream", "pipe", "multi", "peeker", "limited", "data with error"}).Draw(t, "reader")
		seekable := true

		var r io.Reader

		switch kind {
		case "bytes":
			r = bytes.NewReader(f.b)
		case "string":
			r = strings.NewReader(string(f.b))
		case "file":
			name := filepath.Join(os.TempDir(), fmt.Sprintf("verif-c28-%d.xcf", os.Getpid()))

			if err := os.WriteFile(name, f.b, 0o600); err != nil {
				t.Fatalf("VERIF-HARNESS: %v", err)
			}

			defer os.Remove(name)

			fl, err := os.Open(name)
			if err != nil {
				t.Fatalf("VERIF-HARNESS: %v", err)
			}

			defer fl.Close()

			r = fl
		case "seeker":
			s := &slice{b: f.b, chunk: rapid.SampledFrom([]int{0, 1, 2, 3, 7, 64, 1000}).Draw(t, "chunk"), early: rapid.Bool().Draw(t, "early end"), idle: rapid.SampledFrom([]int{0, 0, 2, 5}).Draw(t, "idle")}
			r = s

			c.LabelIf(s.chunk == 1, "a byte at a time")
			c.LabelIf(s.early, "end reported with the last bytes")
		case "offsets":
			r = at{short{f.b, rapid.IntRange(0, 2).Draw(t, "end")}, bytes.NewReader(f.b)}
		case "section":
			before, after := rapid.IntRange(0, 100).Draw(t, "before"), rapid.IntRange(0, 100).Draw(t, "after")
			all := append(append(make([]byte, before), f.b...), make([]byte, after)...)
			r = io.NewSectionReader(bytes.NewReader(all), int64(before), int64(len(f.b)))
		case "stream":
			r, seekable = only{bytes.NewReader(f.b)}, false
		case "pipe":
			pr, pw := io.Pipe()

			go func() {
				pw.Write(f.b)
				pw.Close()
			}()

			defer pr.Close()

			r, seekable = pr, false
		case "multi":
			r, seekable = io.MultiReader(bytes.NewReader(f.b[:len(f.b)/2]), bytes.NewReader(f.b[len(f.b)/2:])), false
		case "limited":
			r, seekable = io.LimitReader(bytes.NewReader(f.b), int64(len(f.b))), false
		case "data with error":
			r, seekable = iotest.DataErrReader(bytes.NewReader(f.b)), false
		case "peeker":
			s := bytes.NewReader(f.b)
			r = peeker{bufio.NewReader(onlySeeker{bytes.NewReader(f.b)}), s}
		}

		layers := rapid.IntRange(0, 3).Draw(t, "buffers")

		var sizes []int

		if kind == "peeker" {
			layers = 0
		}

		for i := 0; i < layers; i++ {
			n := rapid.SampledFrom([]int{16, 17, 100, 4096, 65536}).Draw(t, "buffer")
			sizes = append(sizes, n)
			r = bufio.NewReaderSize(r, n)
		}

		what := fmt.Sprintf("%s in buffers %v", kind, sizes)
		confFirst := rapid.Bool().Draw(t, "configuration first")

		var (
			m     image.Image
			conf  image.Config
			name  string
			name2 string
			err   error
		)

		readConfig := func() error {
			return attempt(func() error {
				var err error

				conf, name2, err = image.DecodeConfig(r)

				return err
			})
		}

		if confFirst && (kind == "bytes" || kind == "string" || kind == "seeker" || kind == "file" || kind == "section") {
			if err := readConfig(); err != nil {
				t.Fatalf("configuration from %s: %v", what, err)
			}

			// As anyone would have to do.
			if s, ok := r.(io.Seeker); ok {
				s.Seek(0, io.SeekStart)
			} else {
				confFirst = false
			}
		} else {
			confFirst = false
		}

		if confFirst && (name2 != "xcf" || conf.Width != f.config.Width || conf.Height != f.config.Height || !reflect.DeepEqual(palette(conf.ColorModel), palette(f.config.ColorModel))) {
			t.Fatalf("configuration from %s: %q, %v, not %v", what, name2, conf, f.config)
		}

		if layers > 0 && !confFirst && rapid.IntRange(0, 3).Draw(t, "peek") == 0 {
			r.(*bufio.Reader).Peek(rapid.SampledFrom([]int{1, 9, 16}).Draw(t, "peeked"))
		}

		isConf := !confFirst && rapid.IntRange(0, 3).Draw(t, "only configuration") == 0

		if isConf {
			err = readConfig()
		} else {
			err = attempt(func() error {
				var err error

				m, name, err = image.Decode(r)

				return err
			})
		}

		switch {
		case errors.Is(err, errPanic):
			t.Fatalf("from %s: %v", what, err)
		case seekable && err != nil:
			t.Fatalf("from %s: %v\n%s", what, err, f.what)
		case !seekable && err == nil:
			t.Fatalf("from %s: no error", what)
		case err == nil && isConf:
			if name2 != "xcf" || conf.Width != f.config.Width || conf.Height != f.config.Height || !reflect.DeepEqual(palette(conf.ColorModel), palette(f.config.ColorModel)) {
				t.Fatalf("configuration from %s: %q, %v, not %v", what, name2, conf, f.config)
			}
		case err == nil:
			im, ok := m.(limage.Image)
			if !ok || name != "xcf" {
				t.Fatalf("from %s: %T as %q", what, m, name)
			}

			if err := same(f.whole, im); err != nil {
				t.Fatalf("from %s: %v\n%s", what, err, f.what)
			}
		}

		c.Label("reader: " + kind)
		c.LabelIf(layers == 1, "buffered")
		c.LabelIf(layers > 1, "buffered more than once")
		c.LabelIf(!seekable, "refused")
		c.NonTrivial(f.key, what, isConf, len(f.b))
		c.Sample("from %s: %s", what, f.what)
	})
}

// TestC28_Adapter: reading at offsets from a source that can seek, against the
// bytes it holds.
func TestC28_Adapter(t *testing.T) {
	if getReaderAt == nil {
		t.Skip("the adapter is not there")
	}

	vt.Check(t, 6000, 240000, func(t *rapid.T, c *vt.Case) {
		size := rapid.SampledFrom([]int{0, 1, 10, 100, 1000}).Draw(t, "size")
		b := make([]byte, size)
		seed := uint64(rapid.Uint32().Draw(t, "bytes"))

		for i := range b {
			b[i] = byte(gen.Mix(seed, uint64(i)))
		}

		var failNext string

		s := &slice{b: b, chunk: rapid.SampledFrom([]int{0, 1, 3, 50}).Draw(t, "chunk"), early: rapid.Bool().Draw(t, "early end"), idle: rapid.SampledFrom([]int{0, 0, 3}).Draw(t, "idle")}
		count := 0
		after := 0
		s.fault = func(op string) error {
			if op == failNext {
				if count++; count > after {
					failNext = ""

					return errFault
				}
			}

			return nil
		}

		var r io.Reader = onlySeeker{s}

		if rapid.IntRange(0, 2).Draw(t, "buffered") == 0 {
			r = bufio.NewReaderSize(r, 16)
			r.(*bufio.Reader).Peek(rapid.IntRange(0, 16).Draw(t, "peeked"))
		}

		ra := getReaderAt(r)
		if ra == nil {
			t.Fatalf("no adapter for a source that can seek")
		}

		var ops []string

		read := func(off int64, n int, fault bool) {
			p := make([]byte, n)

			for i := range p {
				p[i] = 0xa5
			}

			var (
				k   int
				err error
			)

			if x := attempt(func() error {
				k, err = ra.ReadAt(p, off)

				return nil
			}); x != nil {
				t.Fatalf("%v after %v", x, ops)
			}

			want := 0
			if off >= 0 && off < int64(size) {
				want = min(n, size-int(off))
			}

			switch {
			case k < 0 || k > n:
				t.Fatalf("%d bytes read, of %d, after %v", k, n, ops)
			case k > 0 && (off < 0 || off+int64(k) > int64(size) || !bytes.Equal(p[:k], b[off:off+int64(k)])):
				t.Fatalf("wrong bytes at %d after %v", off, ops)
			case fault && failNext == "":
				if err == nil && n > 0 || errors.Is(err, io.EOF) && k < want {
					t.Fatalf("a failure was not reported: %d of %d bytes, %v, after %v", k, n, err, ops)
				}
			case off < 0:
				if err == nil {
					t.Fatalf("no error for the offset %d, after %v", off, ops)
				}
			case k != want:
				t.Fatalf("%d bytes of %d at %d, want %d, %v, after %v", k, n, off, want, err, ops)
			case k < n && !errors.Is(err, io.EOF):
				t.Fatalf("%d bytes of %d at %d: %v, after %v", k, n, off, err, ops)
			case k == n && n > 0 && err != nil && !(errors.Is(err, io.EOF) && off+int64(n) == int64(size)):
				t.Fatalf("%d bytes of %d at %d: %v, after %v", k, n, off, err, ops)
			}
		}

		for i := rapid.IntRange(1, 14).Draw(t, "operations"); i > 0; i-- {
			off := int64(rapid.IntRange(0, size+5).Draw(t, "offset"))

			switch rapid.IntRange(0, 9).Draw(t, "special offset") {
			case 0:
				off = -1
			case 1:
				off = int64(size)
			case 2:
				off = 1 << 40
			}

			n := rapid.OneOf(rapid.IntRange(0, size+3), rapid.IntRange(0, 5)).Draw(t, "length")

			switch k := rapid.IntRange(0, 5).Draw(t, "operation"); k {
			case 0, 1:
				failNext = []string{"seek", "read"}[k]
				count, after = 0, rapid.IntRange(0, 2).Draw(t, "fails after")
				ops = append(ops, fmt.Sprintf("%s fails after %d, ReadAt(%d, %d)", failNext, after, n, off))
				read(off, n, true)

				failNext = ""

				c.Label("failed " + []string{"seek", "read"}[k])
			case 2:
				ops = append(ops, "concurrently")

				type job struct {
					off int64
					n   int
				}

				jobs := make([]job, rapid.IntRange(2, 6).Draw(t, "goroutines"))

				for i := range jobs {
					jobs[i].off = int64(rapid.IntRange(0, size).Draw(t, "offset"))
					jobs[i].n = rapid.IntRange(0, size-int(jobs[i].off)).Draw(t, "length")
				}

				var wg sync.WaitGroup

				bad := make([]string, len(jobs))

				for i, j := range jobs {
					wg.Add(1)

					go func() {
						defer wg.Done()

						for n := 0; n < 20; n++ {
							p := make([]byte, j.n)

							k, err := ra.ReadAt(p, j.off)
							if k != j.n || !bytes.Equal(p, b[j.off:j.off+int64(j.n)]) || err != nil && (!errors.Is(err, io.EOF) || j.off+int64(j.n) != int64(size)) {
								bad[i] = fmt.Sprintf("%d of %d bytes at %d, %v", k, j.n, j.off, err)
							}
						}
					}()
				}

				wg.Wait()

				for _, x := range bad {
					if x != "" {
						t.Fatalf("%s, when reading concurrently, after %v", x, ops)
					}
				}

				c.Label("concurrent reads")
			default:
				ops = append(ops, fmt.Sprintf("ReadAt(%d, %d)", n, off))
				read(off, n, false)
			}
		}

		c.NonTrivial(size, seed, ops)
		c.Sample("%d bytes: %v", size, ops)
	})
}
