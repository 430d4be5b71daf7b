package ora

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"testing"

	"limageverif/cmp"
	"limageverif/gen"
	"limageverif/vt"
	"pgregory.net/rapid"
	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
	"vimagination.zapto.org/limage/xcf"
)

// filled leaves out what there is no PNG file for: layers without any pixel.
func filled(g limage.Image) limage.Image {
	out := limage.Image{}

	for _, l := range g {
		if sub, ok := cmp.AsGroup(l.Image); ok {
			l.Image = filled(sub)
		} else if l.LayerBounds.Empty() || l.Image.Bounds().Empty() {
			continue
		}

		out = append(out, l)
	}

	return out
}

// memory is what XCF files are written to.
type memory struct{ b []byte }

func (m *memory) WriteAt(p []byte, off int64) (int, error) {
	if end := int(off) + len(p); end > len(m.b) {
		b := make([]byte, end, end+end/2)
		copy(b, m.b)
		m.b = b
	}

	return copy(m.b[off:], p), nil
}

// xcfModes are the modes both formats have.
var xcfModes = map[limage.Composite]bool{}

func init() {
	for m := range ops {
		xcfModes[m] = true
	}

	for _, m := range []limage.Composite{limage.CompositePlus, limage.CompositeLuminosity, limage.CompositeDestinationIn, limage.CompositeDestinationOut, limage.CompositeSourceAtop, limage.CompositeDestinationAtop} {
		delete(xcfModes, m)
	}
}

// TestC35_ORA: opening another program's file and saving it, in either format,
// loses nothing.
func TestC35_ORA(t *testing.T) {
	vt.Check(t, 1500, 30000, func(t *rapid.T, c *vt.Case) {
		kinds := []gen.Kind{gen.NRGBA, gen.NRGBA64, gen.Gray, gen.Gray16, gen.RGB, gen.RGBA}
		if rapid.IntRange(0, 3).Draw(t, "palettes") == 0 {
			kinds = append(kinds, gen.Paletted)
		}

		f := drawForeign(t, kinds)
		b := archiveOf(t, f.files(t))

		vt.Journal(b)

		got, err := decode(t, b)
		if err != nil {
			t.Fatalf("decoding: %v\n%s", err, f.stackXML)
		}

		first := filled(got)

		if first.Bounds().Empty() {
			return
		}

		b2, err := encode(first)
		if err != nil {
			t.Fatalf("encoding what was decoded: %v\n%s\ndecoded: %s", err, f.stackXML, gen.Describe(first))
		}

		second, err := decode(t, b2)
		if err != nil {
			t.Fatalf("decoding what was saved: %v\n%s\ndecoded: %s", err, f.stackXML, gen.Describe(first))
		}

		off := image.Point{}.Sub(first.Bounds().Min)

		if err := cmp.Trees(first, second, cmp.Want{Mode: decodedMode, Exact16: true, Moved: off}); err != nil {
			t.Fatalf("saved: %v\n%s\nfirst: %s\nsaved: %s", err, f.stackXML, gen.Describe(first), gen.Describe(second))
		}

		if err := sameKinds(first, second); err != nil {
			t.Fatalf("saved: %v\n%s\nfirst: %s\nsaved: %s", err, f.stackXML, gen.Describe(first), gen.Describe(second))
		}

		var (
			buf   memory
			other limage.Image
		)

		if err = attempt(func() error { return xcf.Encode(&buf, first) }); err != nil {
			t.Fatalf("encoding what was decoded, as XCF: %v\n%s\ndecoded: %s", err, f.stackXML, gen.Describe(first))
		}

		if err = attempt(func() (err error) {
			other, err = xcf.Decode(bytes.NewReader(buf.b))

			return err
		}); err != nil {
			t.Fatalf("decoding what was saved as XCF: %v\n%s\ndecoded: %s", err, f.stackXML, gen.Describe(first))
		}

		if len(other) != len(first) {
			t.Fatalf("saved as XCF: %d layers became %d\n%s\nfirst: %s\nsaved: %s", len(first), len(other), f.stackXML, gen.Describe(first), gen.Describe(other))
		}

		want := cmp.Want{Moved: off, Mode: func(m limage.Composite) limage.Composite { return m }}
		f.label("one palette", indexed(first))

		expected := free(first, other, func(m limage.Composite) bool { return xcfModes[m] && !f.labels["one palette"] })
		expected[len(expected)-1].Mode = other[len(other)-1].Mode // nothing is below

		if err := cmp.Trees(expected, other, want); err != nil {
			t.Fatalf("saved as XCF: %v\n%s\nfirst: %s\nsaved: %s", err, f.stackXML, gen.Describe(first), gen.Describe(other))
		}

		for l := range f.labels {
			c.Label(l)
		}

		if len(f.kids) > 1 || f.labels["nested stack"] {
			c.NonTrivial(f.key())
		}

		c.Sample("%s", f.stackXML)
	})
}

// sameKinds checks that pictures in gray, or with palettes, stay so, where the
// picture is all that is seen.
func sameKinds(a, b limage.Image) error {
	for n := range a {
		ga, ok := cmp.AsGroup(cmp.Base(a[n].Image))
		if ok {
			gb, _ := cmp.AsGroup(cmp.Base(b[n].Image))

			if err := sameKinds(ga, gb); err != nil {
				return err
			}

			continue
		}

		if a[n].LayerBounds.Size() != a[n].Image.Bounds().Size() {
			continue
		}

		ma, mb := a[n].Image.ColorModel(), b[n].Image.ColorModel()

		switch ma {
		case color.GrayModel, color.Gray16Model:
			if ma != mb {
				return fmt.Errorf("layer %d (%q): gray became %T", n, a[n].Name, b[n].Image)
			}
		}

		if p, ok := ma.(color.Palette); ok && len(p) > 0 {
			if q, ok := mb.(color.Palette); !ok || len(q) != len(p) {
				return fmt.Errorf("layer %d (%q): a palette of %d became %T", n, a[n].Name, len(p), b[n].Image)
			}
		}
	}

	return nil
}

// free takes over, from the other tree, the modes which need not be kept.
func free(g, other limage.Image, bound func(limage.Composite) bool) limage.Image {
	g = append(limage.Image{}, g...)

	for i := range g {
		if i >= len(other) {
			break
		}

		if !bound(g[i].Mode) {
			g[i].Mode = other[i].Mode
		}

		if sub, ok := cmp.AsGroup(g[i].Image); ok {
			o, _ := cmp.AsGroup(other[i].Image)
			g[i].Image = free(sub, o, bound)
		}
	}

	return g
}

// indexed reports whether the layers may be kept as an image with a palette.
func indexed(g limage.Image) bool {
	some, other := false, false

	var walk func(g limage.Image)

	walk = func(g limage.Image) {
		for _, l := range g {
			if sub, ok := cmp.AsGroup(cmp.Base(l.Image)); ok {
				walk(sub)

				continue
			}

			switch l.Image.ColorModel().(type) {
			case color.Palette, lcolor.AlphaPalette:
				some = true
			default:
				other = true
			}
		}
	}

	walk(g)

	return some && !other
}
