package xcf

import (
	"bytes"
	"errors"
	"fmt"
	"image"
	"image/color"
	"strings"
	"testing"

	"limageverif/cmp"
	"limageverif/gen"
	"limageverif/vt"
	"pgregory.net/rapid"
	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/xcf"
)

// odd shows colours of many types, in a model of its own.
type odd struct {
	r    image.Rectangle
	seed uint64
}

func (o odd) ColorModel() color.Model { return color.RGBA64Model }

func (o odd) Bounds() image.Rectangle { return o.r }

func (o odd) At(x, y int) color.Color {
	v := gen.Mix(o.seed, uint64(x), uint64(y))
	a := uint8(v)

	switch v >> 8 % 6 {
	case 0:
		return color.NRGBA{R: uint8(v >> 16), G: uint8(v >> 24), B: uint8(v >> 32), A: a}
	case 1:
		return color.Gray{Y: a}
	case 2:
		return color.YCbCr{Y: a, Cb: uint8(v >> 16), Cr: uint8(v >> 24)}
	case 3:
		return color.CMYK{C: a, M: uint8(v >> 16), Y: uint8(v >> 24), K: uint8(v >> 32)}
	case 4:
		return color.Alpha{A: a}
	}

	return color.NRGBA64{R: uint16(v >> 16), G: uint16(v >> 24), B: uint16(v >> 32), A: uint16(v)}
}

// TestC29_XCFPlain: any image, anywhere.
func TestC29_XCFPlain(t *testing.T) {
	vt.Check(t, 4000, 120000, func(t *rapid.T, c *vt.Case) {
		w, h := size(t, 200)
		r := image.Rect(0, 0, w, h).Add(image.Pt(rapid.IntRange(-80, 80).Draw(t, "x"), rapid.IntRange(-80, 80).Draw(t, "y")))

		switch rapid.IntRange(0, 15).Draw(t, "far") {
		case 0:
			r = r.Add(image.Pt(1<<31-10, -1<<31))
		case 1:
			r = r.Add(image.Pt(-1<<40, 1<<40))
		}

		var (
			m    image.Image
			kind string
		)

		if rapid.IntRange(0, 9).Draw(t, "odd") == 0 {
			m, kind = odd{r, uint64(rapid.Uint32().Draw(t, "seed"))}, "odd"
		} else {
			n := rapid.SampledFrom([]int{1, 2, 200, 255, 256}).Draw(t, "colours")
			m, kind = gen.OneImage(t, r, gen.AllKinds(), gen.Palette(uint64(n), n))
		}

		before := gen.Digest(m)
		want := limage.Image{{LayerBounds: image.Rect(0, 0, w, h), Image: cmp.AtOrigin(m)}}
		by := uint32(0x210)

		var top image.Image = m

		switch rapid.IntRange(0, 6).Draw(t, "wrapped") {
		case 0:
			l := limage.Layer{Name: "one", LayerBounds: r, Mode: limage.CompositeDissolve, Transparency: 9, Image: cmp.AtOrigin(m)}
			top, want = l, limage.Image{l}
			want[0].LayerBounds = want[0].LayerBounds.Sub(r.Min)
			kind += " layer"
		case 1:
			l := limage.Layer{Name: "two", LayerBounds: r, Invisible: true, Image: cmp.AtOrigin(m)}
			top, want = &l, limage.Image{l}
			want[0].LayerBounds = want[0].LayerBounds.Sub(r.Min)
			kind += " layer"
		case 2:
			mi := limage.MaskedImage{Image: m, Mask: gen.Mask(t, r, "mask ")}
			top, want[0].Image = mi, cmp.AtOrigin(mi)
			kind += " masked"
		case 3:
			tx := limage.Text{Image: m, TextData: limage.TextData{{Data: "x"}}}
			top = tx
			kind += " text"
		}

		b, err := encode(top)
		if err != nil {
			t.Fatalf("encoding %s %v: %v", kind, r, err)
		}

		vt.Journal(b)

		got, err := decode(b)
		if err != nil {
			t.Fatalf("decoding %s %v: %v", kind, r, err)
		}

		if err := cmp.Trees(want, got, cmp.Want{Mode: kept, Tolerance: by}); err != nil {
			t.Fatalf("%s %v: %v", kind, r, err)
		}

		if by := cmp.Tolerance(m); by < 0x210 && want[0].Mode == 0 { // kept exactly
			if _, masked := top.(limage.MaskedImage); !masked {
				if err := cmp.Pixels(cmp.AtOrigin(m), got[0].Image, image.Rect(0, 0, w, h), image.Point{}, by); err != nil {
					t.Fatalf("%s %v: pixel %v", kind, r, err)
				}
			}
		}

		if gen.Digest(m) != before {
			t.Fatalf("encoding changed the image: %s %v", kind, r)
		}

		again, err := encode(top)
		if err != nil || !bytes.Equal(b, again) {
			t.Fatalf("encoding twice gives different files: %s %v (%v)", kind, r, err)
		}

		c.Label("XCF " + kind)
		c.LabelIf(r.Min != image.Point{}, "not at the origin")
		c.NonTrivial("XCF", kind, r, before)
		c.Sample("XCF %s %v", kind, r)
	})
}

// drawAny draws any layered image, with layers sticking out, empty ones, names
// and texts which may not be writable.
func drawAny(t *rapid.T) *gen.Tree {
	w, h := size(t, 90)
	o := rapid.SampledFrom(families).Draw(t, "family").opts(t, allModes())
	o.Anywhere, o.AllowNone = true, true
	o.Modes = fixed(allModes())

	if rapid.IntRange(0, 3).Draw(t, "all kinds") == 0 {
		o.Kinds = gen.AllKinds()
	}

	tr := gen.DrawTree(t, w, h, o)

	if rapid.IntRange(0, 5).Draw(t, "spoil") == 0 && len(tr.Image) > 0 {
		l := &tr.Image[rapid.IntRange(0, len(tr.Image)-1).Draw(t, "layer")]

		switch rapid.IntRange(0, 6).Draw(t, "how") {
		case 0:
			l.Name = string(rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "name"))
		case 1:
			l.Mode = limage.Composite(rapid.IntRange(-3, 300).Draw(t, "mode"))
		case 2:
			l.Image = limage.Text{Image: l.Image, TextData: limage.TextData{{Data: string(rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "text")), Bold: rapid.Bool().Draw(t, "bold")}, {Font: "\x00"}}}
		case 3:
			l.LayerBounds = l.LayerBounds.Add(image.Pt(rapid.SampledFrom([]int{1 << 20, 1 << 31, -1 << 31, 1 << 40}).Draw(t, "far"), 0))
		case 4:
			l.LayerBounds = image.Rectangle{Min: l.LayerBounds.Max, Max: l.LayerBounds.Min}
		case 5:
			l.Name = string(make([]byte, 1<<20))
		case 6:
			l.Image = gen.Colourless(rapid.IntRange(0, 4).Draw(t, "without colours"), image.Rectangle{Max: l.LayerBounds.Size()})
		}

		tr.Labels["odd values"] = true
	}

	return tr
}

// TestC29_XCFTree: any layered image.
func TestC29_XCFTree(t *testing.T) {
	vt.Check(t, 4000, 120000, func(t *rapid.T, c *vt.Case) {
		tr := drawAny(t)
		before := gen.Describe(tr.Image)

		b, err := encode(tr.Image)
		if errors.Is(err, errPanic) {
			t.Fatalf("%v: %s", err, before)
		}

		if now := gen.Describe(tr.Image); now != before {
			t.Fatalf("encoding changed the image from %s to %s", before, now)
		}

		// What there was where the file is written makes no difference.
		old := memory{bytes.Repeat([]byte{0xa5}, rapid.IntRange(0, len(b)+100).Draw(t, "size of an older file"))}
		had := len(old.b)

		err2 := attempt(func() error { return xcf.Encode(&old, &tr.Image) })
		b2 := old.b

		if len(b2) > len(b) && len(b2) == had {
			b2 = b2[:len(b)]
		}

		if fmt.Sprint(err) != fmt.Sprint(err2) || err == nil && !bytes.Equal(b, b2) {
			t.Fatalf("encoding twice: %v, %v, %d bytes and %d: %s", err, err2, len(b), len(b2), before)
		}

		if err == nil {
			vt.Journal(b)

			// Not everything can be seen on the canvas, but all layers are kept.
			got, err := decode(b)
			if err != nil {
				t.Fatalf("what was encoded does not decode: %v: %s", err, before)
			}

			if err := layersKept(tr.Image, got); err != nil {
				t.Fatalf("%v: %s became %s", err, before, gen.Describe(got))
			}
		}

		labels(c, tr.Labels)
		c.LabelIf(err != nil, "XCF: an error is reported")
		c.LabelIf(len(tr.Image) == 0, "no layers")
		c.NonTrivial("XCF", tr.Key, tr.Labels["odd values"])
		c.Sample("XCF %s", before)
	})
}

func layersKept(orig, got limage.Image) error {
	if len(orig) != len(got) {
		return fmt.Errorf("%d layers became %d", len(orig), len(got))
	}

	for i := range orig {
		if orig[i].Name != got[i].Name || orig[i].Invisible != got[i].Invisible || orig[i].Transparency != got[i].Transparency {
			return fmt.Errorf("layer %q became %q", orig[i].Name, got[i].Name)
		}

		a, ok := cmp.AsGroup(cmp.Base(orig[i].Image))
		b, ok2 := cmp.AsGroup(cmp.Base(got[i].Image))

		if ok != ok2 {
			return fmt.Errorf("group %t became %t", ok, ok2)
		}

		if ok {
			if err := layersKept(a, b); err != nil {
				return err
			}
		}
	}

	return nil
}

// wide is an image of any size that has no memory of its own.
type wide struct {
	r image.Rectangle
	m color.Model
}

func (w wide) ColorModel() color.Model { return w.m }

func (w wide) Bounds() image.Rectangle { return w.r }

func (w wide) At(int, int) color.Color { return color.Gray{} }

// TestC29_XCFRefused: what does not fit into the format is refused, without
// writing all of it first.
func TestC29_XCFRefused(t *testing.T) {
	vt.Check(t, 400, 4000, func(t *rapid.T, c *vt.Case) {
		long := rapid.SampledFrom([]int{1 << 32, 1<<32 + 1, 1<<32 + 64, 1 << 33, 3 << 32, 1 << 40}).Draw(t, "length")
		r := image.Rect(0, 0, long, rapid.IntRange(1, 65).Draw(t, "width"))

		switch rapid.IntRange(0, 3).Draw(t, "shape") {
		case 0:
			r.Max.X, r.Max.Y = r.Max.Y, r.Max.X
		case 1:
			r = image.Rect(0, 0, 1<<rapid.IntRange(22, 31).Draw(t, "log of width")-1, 1<<rapid.IntRange(22, 31).Draw(t, "log of height")-1)
		}

		r = r.Add(image.Pt(rapid.IntRange(-70, 70).Draw(t, "x"), rapid.IntRange(-70, 70).Draw(t, "y")))

		m := image.Image(wide{r, rapid.SampledFrom([]color.Model{color.GrayModel, color.NRGBAModel, color.RGBA64Model, color.Palette{color.Gray{}}}).Draw(t, "model")})
		kind := "plain"

		if k := rapid.IntRange(0, 4).Draw(t, "kind"); k > 0 {
			l := limage.Layer{Name: "wide", LayerBounds: r, Image: wide{image.Rectangle{Max: r.Size()}, m.ColorModel()}}
			kind = "layer"

			if k == 2 {
				l = limage.Layer{LayerBounds: r, Image: limage.Image{{LayerBounds: image.Rectangle{Max: r.Size()}, Image: l.Image}}}
				kind = "in a group"
			} else if k == 3 {
				l.Invisible = true
				kind = "hidden layer"
			}

			m = limage.Image{{LayerBounds: image.Rect(0, 0, 1, 1), Image: image.White}, l}[rapid.IntRange(0, 1).Draw(t, "alone"):]
		}

		b, err := encode(m)
		if err == nil || errors.Is(err, errPanic) {
			t.Fatalf("%s %v: %v", kind, r, err)
		}

		if len(b) > 1<<20 {
			t.Fatalf("%s %v: %d bytes were written before %v", kind, r, len(b), err)
		}

		c.Label("XCF: too large")
		c.NonTrivial("XCF refused", kind, r, m.ColorModel())
		c.Sample("XCF too large: %s %v", kind, r)
	})
}

// TestC29_XCFNames: names of any length.
func TestC29_XCFNames(t *testing.T) {
	shard, shards := vt.Shard()

	for i, n := range []int{16<<20 - 2, 16<<20 - 1, 16 << 20, 16<<20 + 1, 1 << 25} {
		if i%shards != shard {
			continue
		}

		m := limage.Image{{Name: strings.Repeat("n", n), LayerBounds: image.Rect(0, 0, 1, 1), Image: image.White}}

		vt.Guard(func() {
			b, err := encode(m)
			if errors.Is(err, errPanic) {
				t.Fatalf("name of %d bytes: %v", n, err)
			}

			if err == nil {
				if got, err := decode(b); err != nil || len(got) != 1 || got[0].Name != m[0].Name {
					t.Fatalf("the image with a name of %d bytes is written, and read as %d layers, %v", n, len(got), err)
				}
			}
		})

		vt.Once("XCF name", n, fmt.Sprintf("name of %d bytes", n))
	}
}

// TestC29_Bounds: the canvas is what the image covers.
func TestC29_Bounds(t *testing.T) {
	vt.Check(t, 1500, 45000, func(t *rapid.T, c *vt.Case) {
		tr, _ := drawTree(t, 90, fixed(modes))

		// A wrapper with other bounds shows the same in a window of its own.
		r := image.Rect(0, 0, rapid.IntRange(1, 30).Draw(t, "w"), rapid.IntRange(1, 30).Draw(t, "h")).Add(image.Pt(rapid.IntRange(-20, 20).Draw(t, "x"), rapid.IntRange(-20, 20).Draw(t, "y")))
		m := view{tr.Image, r}

		b, err := encode(m)
		if err != nil {
			t.Fatalf("encoding: %v", err)
		}

		got, err := decode(b)
		if err != nil {
			t.Fatalf("decoding: %v", err)
		}

		if len(got) != 1 || got.Bounds() != r.Sub(r.Min) {
			t.Fatalf("%d layers, %v, for %v", len(got), got.Bounds(), r)
		}

		if err := cmp.Pixels(m, got, r, image.Point{}.Sub(r.Min), 0x210); err != nil {
			t.Fatalf("%v: %s", err, gen.Describe(tr.Image))
		}

		conf, err := xcf.DecodeConfig(bytes.NewReader(b))
		if err != nil || conf.Width != r.Dx() || conf.Height != r.Dy() {
			t.Fatalf("configuration %v, %v, for %v", conf, err, r)
		}

		c.Label("a window of a layered image")
		c.NonTrivial("XCF window", tr.Key, r)
	})
}

// view is not a layered image, but shows one.
type view struct {
	of limage.Image
	r  image.Rectangle
}

func (v view) ColorModel() color.Model { return color.NRGBA64Model }

func (v view) Bounds() image.Rectangle { return v.r }

func (v view) At(x, y int) color.Color { return v.of.At(x, y) }
