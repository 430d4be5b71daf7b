package ora

import (
	"archive/zip"
	"bytes"
	"errors"
	"image"
	"image/color"
	"io"
	"runtime"
	"sync"
	"testing"

	"limageverif/cmp"
	"limageverif/gen"
	"limageverif/vt"
	"pgregory.net/rapid"
	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/ora"
)

var errFault = errors.New("injected fault")

// faultyWriter accepts a number of bytes and then fails.
type faultyWriter struct {
	left  int
	mode  int // 0: fails for good; 1: fails once; 2: writes short, once, without an error; 4: the same, and then fails; 3: takes part of the data, and fails
	hit   bool
	buf   bytes.Buffer
	calls int
}

func (w *faultyWriter) Write(p []byte) (int, error) {
	w.calls++

	if w.hit && (w.mode == 1 || w.mode == 2) || len(p) <= w.left {
		w.left -= min(w.left, len(p))

		return w.buf.Write(p)
	}

	n := w.left
	w.left = 0
	again := w.hit
	w.hit = true

	// Taking nothing, without an error, for ever is against io.Writer's
	// contract in a way that bufio.Writer never ends at.
	if w.mode == 4 && again {
		return 0, errFault
	}

	switch w.mode {
	case 2, 4:
		w.buf.Write(p[:n])

		return n, nil
	case 3:
		w.buf.Write(p[:n])

		return n, errFault
	}

	return 0, errFault
}

// TestC17_Faults: wherever the destination fails.
func TestC17_Faults(t *testing.T) {
	vt.Check(t, 600, 12000, func(t *rapid.T, c *vt.Case) {
		w, h := size(t, 300)
		tr := gen.DrawTree(t, w, h, opts(gen.AllKinds(), fixedModes()))

		if tr.Image.Bounds().Empty() {
			return
		}

		whole, err := encode(tr.Image)
		if err != nil {
			t.Fatalf("encoding: %v", err)
		}

		var ends []int // of what is written at once: the places worth failing at

		encodeTo(&recorder{ends: &ends}, tr.Image)

		places := append([]int{0, 1, len(whole) - 1, len(whole) - 21, len(whole) - 22, len(whole) - 23}, ends...)

		for k := 0; k < 12; k++ {
			n := rapid.IntRange(0, len(whole)-1).Draw(t, "bytes")

			if rapid.Bool().Draw(t, "at a border") {
				n = rapid.SampledFrom(places).Draw(t, "border") + rapid.IntRange(-1, 1).Draw(t, "beside")
			}

			n = max(0, min(n, len(whole)-1))
			fw := &faultyWriter{left: n, mode: rapid.IntRange(0, 4).Draw(t, "fault")}

			err := encodeTo(fw, tr.Image)

			switch {
			case errors.Is(err, errPanic):
				t.Fatalf("after %d bytes: %v", n, err)
			case !fw.hit:
				t.Fatalf("wrote less than %d bytes this time: %v", n, err)
			case err == nil && !(fw.mode == 2 && bytes.Equal(fw.buf.Bytes(), whole)): // (the rest may be written again)
				t.Fatalf("the destination failed (%d) after %d of %d bytes, yet no error was reported: %s", fw.mode, n, len(whole), gen.Describe(tr.Image))
			}

			c.Label([]string{"fails for good", "fails once", "writes short once", "fails having written a part", "writes short, then fails"}[fw.mode])
			c.LabelIf(n >= len(whole)-200, "near the end")
			c.NonTrivial(tr.Key, n, fw.mode)
		}

		// No failure: the file is complete.
		fw := &faultyWriter{left: len(whole), mode: 0}

		if err := encodeTo(fw, tr.Image); err != nil || !bytes.Equal(fw.buf.Bytes(), whole) {
			t.Fatalf("no fault: %v", err)
		}

		if _, err := decode(t, fw.buf.Bytes()); err != nil {
			t.Fatalf("decoding: %v", err)
		}

		c.Sample("%d bytes: %s", len(whole), gen.Describe(tr.Image))
	})
}

// TestC17_Every: every place of small files.
func TestC17_Every(t *testing.T) {
	vt.Check(t, 24, 400, func(t *rapid.T, c *vt.Case) {
		tr := gen.DrawTree(t, 3, 3, gen.Opts{Depth: 1, Layers: 2, Modes: fixedModes(), Kinds: gen.AllKinds(), Masks: true})

		if tr.Image.Bounds().Empty() {
			return
		}

		whole, err := encode(tr.Image)
		if err != nil {
			t.Fatalf("encoding: %v", err)
		}

		mode := rapid.IntRange(0, 4).Draw(t, "fault")

		for n := 0; n < len(whole); n++ {
			fw := &faultyWriter{left: n, mode: mode}

			if err := encodeTo(fw, tr.Image); err == nil && !(mode == 2 && bytes.Equal(fw.buf.Bytes(), whole)) || errors.Is(err, errPanic) {
				t.Fatalf("the destination failed (%d) after %d of %d bytes: %v", mode, n, len(whole), err)
			}
		}

		c.NonTrivial(tr.Key, mode)
		c.Sample("each of %d places, fault %d: %s", len(whole), mode, gen.Describe(tr.Image))
	})
}

// recorder notes where writes end.
type recorder struct {
	n    int
	ends *[]int
}

func (r *recorder) Write(p []byte) (int, error) {
	r.n += len(p)
	*r.ends = append(*r.ends, r.n)

	return len(p), nil
}

func encodeTo(w io.Writer, m image.Image) error {
	return attempt(func() error { return ora.Encode(w, m) })
}

// faultyReader fails at some of the reads.
type faultyReader struct {
	mu    sync.Mutex
	r     *bytes.Reader
	on    bool
	calls int
	fail  int // the first call to fail
	once  bool
	part  bool // some bytes are read
	eof   bool // pretends to be at the end
	hit   bool
}

func (f *faultyReader) ReadAt(p []byte, off int64) (int, error) {
	f.mu.Lock()
	defer f.mu.Unlock()

	if !f.on {
		return f.r.ReadAt(p, off)
	}

	n := f.calls
	f.calls++

	if n == f.fail || n > f.fail && !f.once {
		f.hit = true
		err := errFault

		if f.eof {
			err = io.ErrUnexpectedEOF
		}

		if f.part && len(p) > 1 {
			k, _ := f.r.ReadAt(p[:len(p)/2], off)

			return k, err
		}

		return 0, err
	}

	return f.r.ReadAt(p, off)
}

// TestC32_ORA: the source fails while it is read.
func TestC32_ORA(t *testing.T) {
	vt.Check(t, 1200, 24000, func(t *rapid.T, c *vt.Case) {
		f := drawForeign(t, []gen.Kind{gen.NRGBA, gen.Gray, gen.RGB, gen.NRGBA64})
		b := archiveOf(t, f.files(t))

		whole, err := decode(t, b)
		if err != nil {
			t.Fatalf("decoding: %v", err)
		}

		count := &faultyReader{r: bytes.NewReader(b), fail: -2}

		zr, err := zip.NewReader(count, int64(len(b)))
		if err != nil {
			t.Fatalf("VERIF-HARNESS: %v", err)
		}

		count.on, count.once = true, true

		if _, err := ora.Decode(zr); err != nil {
			t.Fatalf("decoding: %v", err)
		}

		total := count.calls

		for k := 0; k < 10; k++ {
			fr := &faultyReader{
				r: bytes.NewReader(b), fail: rapid.IntRange(0, total-1).Draw(t, "read"),
				once: rapid.Bool().Draw(t, "once"), part: rapid.Bool().Draw(t, "part"), eof: rapid.IntRange(0, 3).Draw(t, "eof") == 0,
			}

			zr, err := zip.NewReader(fr, int64(len(b)))
			if err != nil {
				t.Fatalf("VERIF-HARNESS: %v", err)
			}

			fr.on = true

			var m limage.Image

			err = attempt(func() error {
				var err error

				m, err = ora.Decode(zr)

				return err
			})

			if errors.Is(err, errPanic) {
				t.Fatalf("read %d of %d fails: %v\n%s", fr.fail, total, err, f.stackXML)
			}

			if !fr.hit {
				t.Fatalf("VERIF-HARNESS: read %d of %d did not happen: %v", fr.fail, total, err)
			}

			if err == nil {
				if err := sameImages(whole, m); err != nil {
					t.Fatalf("read %d of %d fails (once %t, part %t), which is not reported, and the image differs: %v\n%s", fr.fail, total, fr.once, fr.part, err, f.stackXML)
				}

				c.Label("ORA: not needed")
			} else {
				c.Label("ORA: reported")
			}

			c.NonTrivial(f.key(), fr.fail, fr.once, fr.part, fr.eof)
		}

		c.Sample("%d reads: %s", total, f.stackXML)
	})
}

// sameImages compares two decoded images.
func sameImages(p, q limage.Image) error {
	return cmp.Trees(p, q, cmp.Want{Mode: func(m limage.Composite) limage.Composite { return m }, Exact16: true, Clipped: true})
}

// TestC23_ORA: the configuration of files of this library and of others.
func TestC23_ORA(t *testing.T) {
	vt.Check(t, 1600, 32000, func(t *rapid.T, c *vt.Case) {
		var (
			b    []byte
			w, h int
			what string
		)

		if rapid.Bool().Draw(t, "foreign") {
			f := small(t)
			b, w, h, what = archiveOf(t, f.files(t)), f.w, f.h, f.stackXML
		} else {
			cw, ch := size(t, 300)
			tr := gen.DrawTree(t, cw, ch, opts(gen.AllKinds(), allModes()))

			moveAll(t, tr.Image)

			if tr.Image.Bounds().Empty() {
				return
			}

			var err error

			if b, err = encode(tr.Image); err != nil {
				t.Fatalf("encoding: %v", err)
			}

			s := tr.Image.Bounds().Size()
			w, h, what = s.X, s.Y, gen.Describe(tr.Image)
		}

		m, err := decode(t, b)
		if err != nil {
			t.Fatalf("decoding: %v", err)
		}

		conf, err := ora.DecodeConfig(reader(t, b))
		if err != nil {
			t.Fatalf("%v: %s", err, what)
		}

		if conf.Width != w || conf.Height != h || conf.ColorModel != color.NRGBAModel {
			t.Fatalf("configuration %v; want %dx%d: %s", conf, w, h, what)
		}

		if !m.Bounds().In(image.Rect(0, 0, conf.Width, conf.Height)) {
			t.Fatalf("decoded bounds %v exceed the canvas %dx%d: %s", m.Bounds(), w, h, what)
		}

		c.Label("ORA")
		c.NonTrivial(what, len(b))
		c.Sample("%s", what)
	})
}

// TestC29_ORAPlain: any image, anywhere.
func TestC29_ORAPlain(t *testing.T) {
	vt.Check(t, 1600, 32000, func(t *rapid.T, c *vt.Case) {
		w, h := size(t, 300)
		r := image.Rect(0, 0, w, h).Add(image.Pt(rapid.IntRange(-40, 40).Draw(t, "x"), rapid.IntRange(-40, 40).Draw(t, "y")))
		m, kind := gen.OneImage(t, r, gen.AllKinds(), nil)
		before := gen.Digest(m)
		want := limage.Image{{LayerBounds: image.Rect(0, 0, w, h), Image: cmp.AtOrigin(m)}}

		var top image.Image = m

		switch rapid.IntRange(0, 5).Draw(t, "wrapped") {
		case 0:
			l := limage.Layer{Name: "one", LayerBounds: r, Mode: limage.CompositeScreen, Transparency: 9, Image: cmp.AtOrigin(m)}
			top, want = l, limage.Image{l}
			want[0].LayerBounds = want[0].LayerBounds.Sub(r.Min)
			kind += " layer"
		case 1:
			l := limage.Layer{Name: "two", LayerBounds: r, Invisible: true, Image: cmp.AtOrigin(m)}
			top, want = &l, limage.Image{l}
			want[0].LayerBounds = want[0].LayerBounds.Sub(r.Min)
			kind += " layer"
		case 2:
			mask := gen.Mask(t, r, "mask ")
			mi := limage.MaskedImage{Image: m, Mask: mask}
			top, want[0].Image = mi, cmp.AtOrigin(mi)
			kind += " masked"
		}

		b, err := encode(top)
		if err != nil {
			t.Fatalf("encoding %s %v: %v", kind, r, err)
		}

		got, err := decode(t, b)
		if err != nil {
			t.Fatalf("decoding: %v", err)
		}

		wt := cmp.Want{Mode: decodedMode, Tolerance: 0x210}

		if err := cmp.Trees(want, got, wt); err != nil {
			t.Fatalf("%s %v: %v", kind, r, err)
		}

		if gen.Digest(m) != before {
			t.Fatalf("encoding changed the image: %s %v", kind, r)
		}

		again, err := encode(top)
		if err != nil || !bytes.Equal(b, again) {
			t.Fatalf("encoding twice gives different files: %s %v (%v)", kind, r, err)
		}

		c.Label("ORA " + kind)
		c.LabelIf(r.Min != image.Point{}, "not at the origin")
		c.NonTrivial("ORA", kind, r, before)
		c.Sample("ORA %s %v", kind, r)
	})
}

// TestC29_ORATree: layered images, which may have layers sticking out, empty
// layers and empty groups.
func TestC29_ORATree(t *testing.T) {
	vt.Check(t, 1200, 24000, func(t *rapid.T, c *vt.Case) {
		w, h := size(t, 60)
		o := opts(gen.AllKinds(), allModes())
		o.Anywhere = true
		o.AllowNone = true
		tr := gen.DrawTree(t, w, h, o)

		for i, l := range tr.Image { // dissolving is random
			if l.Mode == limage.CompositeDissolve {
				tr.Image[i].Mode = limage.CompositeNormal
			}
		}

		if n := rapid.IntRange(0, 24).Draw(t, "without colours"); n < 5 && len(tr.Image) > 0 {
			l := &tr.Image[rapid.IntRange(0, len(tr.Image)-1).Draw(t, "which")]
			l.Image = gen.Colourless(n, image.Rectangle{Max: l.LayerBounds.Size()})
			tr.Labels["without colours"] = true
		}

		random := hasDissolve(tr.Image)
		before := gen.Describe(tr.Image)

		b, err := encode(tr.Image)
		if errors.Is(err, errPanic) {
			t.Fatalf("%v: %s", err, before)
		}

		if gen.Describe(tr.Image) != before {
			t.Fatalf("encoding changed the image from %s to %s", before, gen.Describe(tr.Image))
		}

		again, err2 := encode(tr.Image)

		if (err == nil) != (err2 == nil) || err == nil && !random && !bytes.Equal(b, again) {
			t.Fatalf("encoding twice: %v, %v, %d bytes and %d: %s", err, err2, len(b), len(again), before)
		}

		if err == nil {
			if _, err := decode(t, b); err != nil {
				t.Fatalf("what was encoded does not decode: %v: %s", err, before)
			}
		}

		labels(c, tr)
		c.LabelIf(err != nil, "ORA: an error is reported")
		c.LabelIf(len(tr.Image) == 0, "no layers")
		c.NonTrivial("ORA", tr.Key, tr.Labels["without colours"])
		c.Sample("ORA %s", before)
	})
}

func hasDissolve(g limage.Image) bool {
	for _, l := range g {
		if l.Mode == limage.CompositeDissolve {
			return true
		}

		if sub, ok := cmp.AsGroup(l.Image); ok && hasDissolve(sub) {
			return true
		}
	}

	return false
}

// TestC31_ORA: concurrent decodes.
func TestC31_ORA(t *testing.T) {
	procs := runtime.GOMAXPROCS(0)

	vt.Check(t, 160, 3200, func(t *rapid.T, c *vt.Case) {
		runtime.GOMAXPROCS(rapid.SampledFrom([]int{1, 2, procs}).Draw(t, "processors"))
		defer runtime.GOMAXPROCS(procs)

		var (
			files [][]byte
			want  []limage.Image
		)

		for i := rapid.IntRange(1, 3).Draw(t, "files"); i > 0; i-- {
			f := small(t)
			b := archiveOf(t, f.files(t))

			m, err := decode(t, b)
			if err != nil {
				t.Fatalf("decoding: %v", err)
			}

			files = append(files, b)
			want = append(want, m)
		}

		errs := make([]error, 8)
		shared, _ := newZip(files[0])

		var wg sync.WaitGroup

		for i := range errs {
			wg.Add(1)

			go func() {
				defer wg.Done()

				n := i % len(files)
				zr, _ := newZip(files[n])

				if n == 0 && i > 2 {
					zr = shared
				}

				m, err := ora.Decode(zr)
				if err == nil {
					err = sameImages(want[n], m)
				}

				errs[i] = err
			}()
		}

		wg.Wait()

		for _, err := range errs {
			if err != nil {
				t.Fatalf("concurrent decoding: %v", err)
			}
		}

		c.Label("ORA")
		c.NonTrivial("ORA", len(files), len(files[0]), gen.Describe(want[0]))
		c.Sample("ORA: %d files, the first with %s", len(files), gen.Describe(want[0]))
	})
}
