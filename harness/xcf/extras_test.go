package xcf

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"reflect"
	"sync"
	"testing"

	"limageverif/cmp"
	"limageverif/gen"
	"limageverif/vt"
	"limageverif/xcfgen"
	"limageverif/xcfref"
	"pgregory.net/rapid"
	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
	"vimagination.zapto.org/limage/xcf"
)

// texts gives the text of all of the layers.
func texts(g limage.Image) []any {
	var out []any

	for _, l := range g {
		m := l.Image

		for m != nil {
			switch im := m.(type) {
			case limage.MaskedImage:
				m = im.Image

				continue
			case limage.Text:
				out = append(out, im.TextData)
				m = im.Image

				continue
			case limage.Image:
				out = append(out, texts(im)...)
			}

			break
		}
	}

	return out
}

// same compares two decoded images exactly.
func same(a, b limage.Image) error {
	if err := cmp.Trees(a, b, cmp.Want{Mode: kept, Masks: true, Clipped: true, Types: true}); err != nil {
		return err
	}

	if x, y := texts(a), texts(b); !reflect.DeepEqual(x, y) {
		return fmt.Errorf("text %v became %v", x, y)
	}

	return nil
}

// TestC21_Extras: properties and channels that are not used change nothing.
func TestC21_Extras(t *testing.T) {
	vt.Check(t, 4000, 80000, func(t *rapid.T, c *vt.Case) {
		o := foreign
		o.Max, o.Large = 8, 70
		d := xcfgen.Draw(t, o)
		e := xcfgen.WithExtras(t, d)
		plain, extra := d.Build(), e.Build()

		vt.Journal(extra)

		want, err := decode(plain)
		if err != nil {
			t.Fatalf("%v\nfile: %s", err, xcfgen.Describe(d.File))
		}

		got, err := decode(extra)
		if err != nil {
			t.Fatalf("with properties added: %v\nfile: %s\nadded to: %s", err, xcfgen.Describe(e.File), e.Key())
		}

		if err := same(want, got); err != nil {
			t.Fatalf("with properties added: %v\nfile: %s", err, xcfgen.Describe(e.File))
		}

		comp, err := decodeCompressed(extra)
		if err != nil {
			t.Fatalf("with properties added, compressed: %v\nfile: %s", err, xcfgen.Describe(e.File))
		}

		if err := same(want, comp); err != nil {
			t.Fatalf("with properties added, compressed: %v\nfile: %s", err, xcfgen.Describe(e.File))
		}

		a, err := xcf.DecodeConfig(bytes.NewReader(plain))
		if err != nil {
			t.Fatalf("configuration: %v", err)
		}

		b, err := xcf.DecodeConfig(bytes.NewReader(extra))
		if err != nil || a.Width != b.Width || a.Height != b.Height || !reflect.DeepEqual(palette(a.ColorModel), palette(b.ColorModel)) {
			t.Fatalf("with properties added, configuration: %v, %v became %v", err, a, b)
		}

		labels(c, e.Labels)

		if len(e.Labels) > 0 {
			c.NonTrivial(e.Key())
		}

		c.Sample("%s", xcfgen.Describe(e.File))
	})
}

func palette(m color.Model) any {
	switch m := m.(type) {
	case color.Palette:
		return m
	case lcolor.AlphaPalette:
		return color.Palette(m)
	}

	return fmt.Sprintf("%p", m)
}

// points lists where an image is read, in an order that goes from tile to tile.
func points(r image.Rectangle, seed uint64, most int) []image.Point {
	n := r.Dx() * r.Dy()
	out := make([]image.Point, 0, min(n, most))

	if n <= most {
		for i := 0; i < n; i++ {
			out = append(out, r.Min.Add(image.Pt(i%r.Dx(), i/r.Dx())))
		}

		for i := len(out) - 1; i > 0; i-- {
			j := int(gen.Mix(seed, uint64(i)) % uint64(i+1))
			out[i], out[j] = out[j], out[i]
		}

		return out
	}

	for i := 0; i < most; i++ {
		v := gen.Mix(seed, uint64(i))
		out = append(out, r.Min.Add(image.Pt(int(v%uint64(r.Dx())), int(v>>32%uint64(r.Dy())))))
	}

	return out
}

// TestC22_Compressed: a compressed image shows what an ordinary one does, in
// whatever order it is read, and from several goroutines.
func TestC22_Compressed(t *testing.T) {
	vt.Check(t, 2500, 50000, func(t *rapid.T, c *vt.Case) {
		o := foreign
		o.NoDiss = true
		o.Large = 200
		d := xcfgen.Draw(t, o)
		b := d.Build()

		vt.Journal(b)

		want, err := decode(b)
		if err != nil {
			t.Fatalf("%v\nfile: %s", err, xcfgen.Describe(d.File))
		}

		got, err := decodeCompressed(b)
		if err != nil {
			t.Fatalf("compressed: %v\nfile: %s", err, xcfgen.Describe(d.File))
		}

		seed := uint64(rapid.Uint32().Draw(t, "order"))

		// All of the layers at the same time, several goroutines each.
		var (
			wg   sync.WaitGroup
			mu   sync.Mutex
			fail error
		)

		threads := rapid.IntRange(1, 4).Draw(t, "goroutines")

		// Every point may need a tile of each layer below it to be unpacked.
		weight := weigh(want)
		pairs(want, got, func(p, _ image.Image, _ image.Rectangle) {
			n := 1
			if g, ok := cmp.AsGroup(cmp.Base(p)); ok {
				n = weigh(g)
			}

			weight += threads * n
		})

		most := min(2000, 10+12000/(1+weight))

		each := func(p, q image.Image, r image.Rectangle, n uint64) {
			wg.Add(1)

			go func() {
				defer wg.Done()

				err := attempt(func() error {
					for _, pt := range points(r, seed+n, most) {
						if a, b := cmp.Of(p.At(pt.X, pt.Y)), cmp.Of(q.At(pt.X, pt.Y)); a != b {
							return fmt.Errorf("%T at %v: %v, compressed %v", q, pt, a, b)
						}

						if err := views(q, pt); err != nil {
							return err
						}
					}

					return nil
				})

				if err != nil {
					mu.Lock()
					fail = err
					mu.Unlock()
				}
			}()
		}

		if err := same(want, got); err != nil {
			t.Fatalf("compressed: %v\nfile: %s", err, xcfgen.Describe(d.File))
		}

		pairs(want, got, func(p, q image.Image, r image.Rectangle) {
			for n := 0; n < threads; n++ {
				each(p, q, r, uint64(n))
			}

			outside(t, q)
		})

		each(want, got, image.Rect(-2, -2, int(d.W)+2, int(d.H)+2), 77)
		wg.Wait()

		if fail != nil {
			t.Fatalf("%v\nfile: %s", fail, xcfgen.Describe(d.File))
		}

		labels(c, d.Labels)
		c.LabelIf(threads > 1, "several goroutines")

		if d.Compression == 1 && len(d.Layers) > 0 {
			c.NonTrivial(d.Key(), seed, threads)
		}

		c.Sample("%d goroutines: %s", threads, xcfgen.Describe(d.File))
	})
}

// views compares what the methods of a compressed image say about a point.
func views(m image.Image, p image.Point) error {
	var (
		at    = m.At(p.X, p.Y)
		typed color.Color
	)

	switch im := m.(type) {
	case *xcf.CompressedRGB:
		typed = im.RGBAt(p.X, p.Y)
	case *xcf.CompressedNRGBA:
		typed = im.NRGBAAt(p.X, p.Y)
	case *xcf.CompressedGray:
		typed = im.GrayAt(p.X, p.Y)
	case *xcf.CompressedGrayAlpha:
		typed = im.GrayAlphaAt(p.X, p.Y)
	case *xcf.CompressedPaletted, *xcf.CompressedPalettedAlpha:
		if !p.In(m.Bounds()) {
			return nil
		}
	default:
		return nil
	}

	if typed != nil && typed != at {
		return fmt.Errorf("%T at %v: At gives %v, the typed method %v", m, p, at, typed)
	}

	if c := m.ColorModel().Convert(at); cmp.Of(c) != cmp.Of(at) {
		return fmt.Errorf("%T at %v: %v is not of the image's color model, which makes it %v", m, p, at, c)
	}

	return nil
}

// weigh counts the layers in all groups.
func weigh(m limage.Image) int {
	n := 0

	for _, l := range m {
		if g, ok := cmp.AsGroup(cmp.Base(l.Image)); ok {
			n += weigh(g)
		}

		n++
	}

	return n
}

// pairs calls fn for the images of all layers, with the area they have.
func pairs(a, b limage.Image, fn func(p, q image.Image, r image.Rectangle)) {
	for i := range a {
		r := image.Rectangle{Max: a[i].LayerBounds.Size()}

		fn(a[i].Image, b[i].Image, r)

		x, ok := cmp.AsGroup(cmp.Base(a[i].Image))
		y, ok2 := cmp.AsGroup(cmp.Base(b[i].Image))

		if ok && ok2 {
			pairs(x, y, fn)
		}
	}
}

// outside reads an image beyond its bounds.
func outside(t *rapid.T, m image.Image) {
	b := m.Bounds()

	for _, p := range []image.Point{
		{b.Min.X - 1, b.Min.Y}, {b.Min.X, b.Min.Y - 1}, {b.Max.X, b.Min.Y}, {b.Min.X, b.Max.Y}, {b.Max.X, b.Max.Y}, {b.Max.X + 63, b.Max.Y + 64},
		{-64, -64}, {-1, 5}, {1 << 40, 3}, {3, -1 << 40}, {b.Max.X - 1, b.Max.Y + 200},
	} {
		var c color.Color

		if err := attempt(func() error {
			c = m.At(p.X, p.Y)

			if c != nil {
				c.RGBA()
			}

			return nil
		}); err != nil {
			t.Fatalf("%T%v at %v: %v", m, b, p, err)
		}

		switch m.(type) {
		case *xcf.CompressedNRGBA, *xcf.CompressedGrayAlpha, *xcf.CompressedPalettedAlpha, *xcf.CompressedRGB, *xcf.CompressedGray, *xcf.CompressedPaletted:
			if v := cmp.Of(c); v[3] != 0 && (v[0] != 0 || v[1] != 0 || v[2] != 0) {
				t.Fatalf("%T%v at %v: %v", m, b, p, c)
			}
		}
	}
}

// TestC22_Malformed: compressed decoding fails just when ordinary decoding does.
func TestC22_Malformed(t *testing.T) {
	vt.Check(t, 4000, 80000, func(t *rapid.T, c *vt.Case) {
		b, what := malformed(t, c)

		vt.Journal(b)

		want, err := decode(b)
		got, err2 := decodeCompressed(b)

		if (err == nil) != (err2 == nil) {
			t.Fatalf("%s: decoding: %v, compressed: %v", what, err, err2)
		}

		if err == nil && pixelCount(want) < 1<<20 {
			if err := same(want, got); err != nil {
				t.Fatalf("%s: compressed: %v", what, err)
			}
		}

		c.LabelIf(err == nil, "readable all the same")
		c.LabelIf(err != nil, "refused by both")
		c.NonTrivial(what, len(b), fnvOf(b))
	})
}

// TestC23_XCF: the configuration agrees with the image.
func TestC23_XCF(t *testing.T) {
	vt.Check(t, 4000, 80000, func(t *rapid.T, c *vt.Case) {
		o := foreign
		o.Max, o.Large = 12, 70
		d := xcfgen.Draw(t, o)

		if rapid.Bool().Draw(t, "extras") {
			e := xcfgen.WithExtras(t, d)

			for l := range d.Labels {
				e.Labels[l] = true
			}

			d = e
		}

		if rapid.IntRange(0, 5).Draw(t, "large canvas") == 0 {
			d.W += uint32(rapid.SampledFrom([]int{1, 1000, 1 << 16, 262144, 1 << 30}).Draw(t, "wider"))
			d.H += uint32(rapid.SampledFrom([]int{1, 1000, 1 << 16, 262144, 1 << 30}).Draw(t, "higher"))
		}

		b := d.Build()

		vt.Journal(b)

		m, err := decode(b)
		if err != nil {
			t.Fatalf("%v\nfile: %s", err, xcfgen.Describe(d.File))
		}

		cfg, name, err := registered(b)
		if err != nil || name != "xcf" {
			t.Fatalf("configuration: %q, %v\nfile: %s", name, err, xcfgen.Describe(d.File))
		}

		cfg2, err := xcf.DecodeConfig(bytes.NewReader(b))
		if err != nil || cfg2.Width != cfg.Width || cfg2.Height != cfg.Height {
			t.Fatalf("configuration: %v, and %v by the registry: %v", cfg2, cfg, err)
		}

		if cfg.Width != int(d.W) || cfg.Height != int(d.H) {
			t.Fatalf("%dx%d reported, for %dx%d", cfg.Width, cfg.Height, d.W, d.H)
		}

		if canvas := image.Rect(0, 0, cfg.Width, cfg.Height); !m.Bounds().In(canvas) {
			t.Fatalf("the image, %v, is larger than %v", m.Bounds(), canvas)
		}

		if cfg.ColorModel == nil {
			t.Fatalf("no colour model")
		}

		switch d.Base {
		case xcfref.RGB:
			c := color.NRGBA{R: 10, G: 200, B: 30, A: 255}
			if v := cfg.ColorModel.Convert(c); cmp.Of(v) != cmp.Of(c) {
				t.Fatalf("RGB file: %v became %v", c, v)
			}
		case xcfref.Gray:
			c := color.NRGBA{R: 10, G: 200, B: 30, A: 255}
			if v := cmp.Of(cfg.ColorModel.Convert(c)); v[0] != v[1] || v[1] != v[2] {
				t.Fatalf("gray file: %v became %v", c, v)
			}

			g := color.Gray{Y: 77}
			if v := cfg.ColorModel.Convert(g); cmp.Of(v) != cmp.Of(g) {
				t.Fatalf("gray file: %v became %v", g, v)
			}
		default:
			p, ok := palette(cfg.ColorModel).(color.Palette)
			if !ok || len(p) != len(d.Colormap) {
				t.Fatalf("file with %d colours: %T", len(d.Colormap), cfg.ColorModel)
			}

			for i, e := range d.Colormap {
				if v := cmp.Of(p[i]); v != cmp.Of(lcolor.RGB{R: e[0], G: e[1], B: e[2]}) {
					t.Fatalf("colour %d is %v, not %v", i, v, e)
				}
			}
		}

		// It is that of the images.
		leaves(m, func(im image.Image) {
			cm := im.ColorModel()

			switch d.Base {
			case xcfref.RGB:
				if cm != color.NRGBAModel && cm != lcolor.RGBModel {
					t.Fatalf("%T in an RGB file", im)
				}
			case xcfref.Gray:
				if cm != color.GrayModel && cm != lcolor.GrayAlphaModel {
					t.Fatalf("%T in a gray file", im)
				}
			default:
				if !reflect.DeepEqual(palette(cm), palette(cfg.ColorModel)) {
					t.Fatalf("%T in a file with a palette of %d colours", im, len(d.Colormap))
				}
			}

			// The model has all of its colours.
			r := im.Bounds()

			for n := 0; n < 64 && !r.Empty(); n++ {
				px := im.At(r.Min.X+n*5%r.Dx(), r.Min.Y+n*3%r.Dy())

				if v := cfg.ColorModel.Convert(px); cmp.Of(v) != cmp.Of(px) {
					t.Fatalf("the model makes %v of the colour %v of %T", v, px, im)
				}
			}
		})

		labels(c, d.Labels)
		c.NonTrivial(d.Key())
		c.Sample("%s", xcfgen.Describe(d.File))
	})
}

// TestC23_Encoded: so it does for files the library writes.
func TestC23_Encoded(t *testing.T) {
	vt.Check(t, 1200, 24000, func(t *rapid.T, c *vt.Case) {
		tr, f := drawTree(t, 70, modes)

		b, err := encode(tr.Image)
		if err != nil {
			t.Fatalf("encoding: %v", err)
		}

		cfg, _, err := registered(b)
		if err != nil {
			t.Fatalf("configuration: %v\nimage: %s", err, gen.Describe(tr.Image))
		}

		if r := tr.Image.Bounds(); cfg.Width != r.Dx() || cfg.Height != r.Dy() {
			t.Fatalf("%dx%d reported, for %v", cfg.Width, cfg.Height, r)
		}

		c.Label("images: " + f.name)
		c.NonTrivial(tr.Key)
	})
}

func registered(b []byte) (cfg image.Config, name string, err error) {
	err = attempt(func() error {
		var err error

		cfg, name, err = image.DecodeConfig(bytes.NewReader(b))

		return err
	})

	return cfg, name, err
}
