package xcf

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"io"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"limageverif/cmp"
	"limageverif/gen"
	"limageverif/vt"
	"limageverif/xcfgen"
	"limageverif/xcfref"
	"pgregory.net/rapid"
	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
	"vimagination.zapto.org/limage/xcf"
)

// slow delays reads, in a way that depends on the seed and where is read.
type slow struct {
	r    io.ReaderAt
	seed uint64
	kind int
	n    *atomic.Int64 // reads running at the same time
	most *atomic.Int64
}

func (s slow) ReadAt(p []byte, off int64) (int, error) {
	n := s.n.Add(1)
	defer s.n.Add(-1)

	for m := s.most.Load(); n > m && !s.most.CompareAndSwap(m, n); m = s.most.Load() {
	}

	switch v := gen.Mix(s.seed, uint64(off)); s.kind {
	case 1:
		for k := v % 4; k > 0; k-- {
			runtime.Gosched()
		}
	case 2:
		if v%40 == 0 {
			time.Sleep(time.Duration(v % 300 * uint64(time.Microsecond)))
		}
	case 3:
		if v%7 == 0 {
			runtime.Gosched()
		}

		if v%200 == 0 {
			time.Sleep(time.Millisecond)
		}
	}

	return s.r.ReadAt(p, off)
}

// seekOnly reads from one place at a time.
type seekOnly struct{ r io.ReadSeeker }

func (s seekOnly) Read(p []byte) (int, error) { return s.r.Read(p) }

func (s seekOnly) Seek(off int64, whence int) (int64, error) { return s.r.Seek(off, whence) }

// TestC31_XCF: many decodes at the same time, of the same and of different
// data, with sources that are slow.
func TestC31_XCF(t *testing.T) {
	procs := runtime.GOMAXPROCS(0)

	vt.Check(t, 500, 20000, func(t *rapid.T, c *vt.Case) {
		runtime.GOMAXPROCS(rapid.SampledFrom([]int{1, 2, 3, procs}).Draw(t, "processors"))
		defer runtime.GOMAXPROCS(procs)

		type source struct {
			b    []byte
			want limage.Image
			err  error
			what string
		}

		var files []source

		for i := rapid.IntRange(1, 3).Draw(t, "files"); i > 0; i-- {
			var s source

			if rapid.IntRange(0, 3).Draw(t, "damaged") == 0 {
				s.b, s.what = malformed(t, c)
			} else {
				o := foreign
				o.Max, o.Large = 8, 70
				d := xcfgen.Draw(t, o)
				s.b, s.what = d.Build(), xcfgen.Describe(d.File)
			}

			if s.want, s.err = decode(s.b); s.err == nil && pixelCount(s.want) > 1<<18 {
				continue
			}

			files = append(files, s)
		}

		if len(files) == 0 {
			return
		}

		vt.Journal(files[0].b)

		kind := rapid.IntRange(0, 3).Draw(t, "delays")
		seed := uint64(rapid.Uint32().Draw(t, "delay seed"))

		var n, most atomic.Int64

		errs := make([]error, rapid.IntRange(2, 8).Draw(t, "decodes"))
		seeking := rapid.Bool().Draw(t, "seeking")

		var wg sync.WaitGroup

		for i := range errs {
			wg.Add(1)

			go func() {
				defer wg.Done()

				f := files[i%len(files)]
				r := slow{bytes.NewReader(f.b), gen.Mix(seed, uint64(i)), kind, &n, &most}

				var m limage.Image

				err := attempt(func() error {
					var err error

					switch {
					case i%3 == 2:
						m, err = xcf.DecodeCompressed(r)
					case seeking && i%3 == 1 && f.err == nil:
						var im image.Image

						im, _, err = image.Decode(seekOnly{io.NewSectionReader(r, 0, int64(len(f.b)))})
						m, _ = im.(limage.Image)
					default:
						m, err = xcf.Decode(r)
					}

					return err
				})

				if fmt.Sprint(err) != fmt.Sprint(f.err) {
					errs[i] = fmt.Errorf("%v became %v", f.err, err)
				} else if err == nil {
					errs[i] = attempt(func() error { return same(f.want, m) })
				}
			}()
		}

		wg.Wait()

		for i, err := range errs {
			if err != nil {
				t.Fatalf("decode %d of %d at the same time: %v\n%s", i, len(errs), err, files[i%len(files)].what)
			}
		}

		c.Label("XCF")
		c.LabelIf(most.Load() > 1, "reads at the same time")
		c.LabelIf(files[0].err != nil, "a file with errors")
		c.NonTrivial("XCF", fnvOf(files[0].b), len(files), len(errs), kind, seed)
		c.Sample("XCF: %d decodes of %d files, delays %d; %s", len(errs), len(files), kind, files[0].what)
	})
}

// ours counts the goroutines of the library.
func ours() (int, string) {
	buf := make([]byte, 1<<20)
	n, first := 0, ""

	for _, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
		if strings.Contains(g, "limage/xcf.") {
			if n++; first == "" {
				first = g
			}
		}
	}

	return n, first
}

// TestC31_Leaks: nothing goes on after decoding, whatever the outcome.
func TestC31_Leaks(t *testing.T) {
	vt.Check(t, 1000, 40000, func(t *rapid.T, c *vt.Case) {
		var (
			b    []byte
			what string
		)

		if rapid.Bool().Draw(t, "damaged") {
			b, what = malformed(t, c)
		} else {
			f := drawFile(t, 8, 70)
			b, what = f.b, f.what
		}

		vt.Journal(b)

		r := &faultyReader{mu: new(sync.Mutex), b: b, call: -1, from: -1, to: -1, err: errFault}

		if rapid.Bool().Draw(t, "faulty") {
			r.call = rapid.IntRange(0, 300).Draw(t, "call")
			r.once = rapid.Bool().Draw(t, "once")
		}

		var err error

		for i := 0; i < 2; i++ {
			err = attempt(func() error {
				var err error

				if i == 0 {
					_, err = xcf.Decode(r)
				} else {
					_, err = xcf.DecodeCompressed(r)
				}

				return err
			})

			// They may need a moment to come to an end.
			left, first := ours()

			for wait := time.Millisecond; left > 0 && wait < 4*time.Second; wait *= 2 {
				time.Sleep(wait)

				left, first = ours()
			}

			if left > 0 {
				t.Fatalf("%d goroutines are left (%v), one of them:\n%s\n%s", left, err, first, what)
			}
		}

		c.Label("XCF: goroutines")
		c.LabelIf(err != nil, "with an error")
		c.NonTrivial("XCF leaks", fnvOf(b), r.call, r.once)
	})
}

// scribble changes all that can be changed about an image.
func scribble(g limage.Image) {
	for i := range g {
		im := g[i].Image

		if m, ok := cmp.Masked(im); ok {
			for j := range m.Mask.Pix {
				m.Mask.Pix[j] ^= 0x55
			}
		}

		flip := func(p []byte) {
			for j := range p {
				p[j] ^= 0x55
			}
		}

		dim := func(p color.Palette) {
			for j := range p {
				p[j] = color.White
			}
		}

		switch m := cmp.Base(im).(type) {
		case limage.Image:
			scribble(m)
		case *image.NRGBA:
			flip(m.Pix)
		case *image.Gray:
			flip(m.Pix)
		case *image.Paletted:
			dim(m.Palette)
		case *limage.RGB:
			for j := range m.Pix {
				m.Pix[j].R ^= 0x55
			}
		case *limage.GrayAlpha:
			for j := range m.Pix {
				m.Pix[j] = lcolor.GrayAlpha{Y: 1, A: 2}
			}
		case *limage.PalettedAlpha:
			dim(color.Palette(m.Palette))
		}

		g[i].Name = "changed"
		g[i].LayerBounds = image.Rect(1, 2, 3, 4)
	}
}

// TestC31_Shared: changing what was decoded once does not change what is decoded
// from the same data at another time, nor does changing the data.
func TestC31_Shared(t *testing.T) {
	vt.Check(t, 1500, 60000, func(t *rapid.T, c *vt.Case) {
		o := foreign
		o.Max, o.Large = 8, 70
		d := xcfgen.Draw(t, o)
		b := d.Build()

		vt.Journal(b)

		r := bytes.NewReader(b)

		one, err := xcf.Decode(r)
		if err != nil {
			t.Fatalf("%v\n%s", err, xcfgen.Describe(d.File))
		}

		two, err := xcf.Decode(r)
		if err != nil {
			t.Fatalf("%v\n%s", err, xcfgen.Describe(d.File))
		}

		comp, err := xcf.DecodeCompressed(r)
		if err != nil {
			t.Fatalf("%v\n%s", err, xcfgen.Describe(d.File))
		}

		conf, err := xcf.DecodeConfig(r)
		if err != nil {
			t.Fatalf("%v\n%s", err, xcfgen.Describe(d.File))
		}

		scribble(one)

		if p, ok := conf.ColorModel.(lcolor.AlphaPalette); ok {
			for i := range p {
				p[i] = color.White
			}
		}

		clean := bytes.Clone(b)

		for i := range b {
			b[i] = 0xff
		}

		three, err := decode(clean)
		if err != nil {
			t.Fatalf("a second decode: %v\n%s", err, xcfgen.Describe(d.File))
		}

		want := xcfgen.Shows(d.File)

		for i, m := range []limage.Image{two, three, comp} {
			if err := cmp.Trees(want, m, cmp.Want{Mode: kept, Masks: true, Clipped: true, Types: true}); err != nil {
				t.Fatalf("changing one decoded image changed another (%d): %v\n%s", i, err, xcfgen.Describe(d.File))
			}
		}

		conf2, err := xcf.DecodeConfig(bytes.NewReader(clean))
		if err != nil || d.Base == xcfref.Indexed && !reflect.DeepEqual(palette(conf2.ColorModel), xcfgen.Palette(d.File)) {
			t.Fatalf("changing one palette changed another: %v\n%s", err, xcfgen.Describe(d.File))
		}

		labels(c, d.Labels)
		c.NonTrivial("XCF shared", d.Seed, d.W, d.H, len(d.Layers), gen.Describe(want))
	})
}
