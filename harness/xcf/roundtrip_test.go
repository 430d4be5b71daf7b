package xcf

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"testing"

	"limageverif/cmp"
	"limageverif/gen"
	"limageverif/vt"
	"pgregory.net/rapid"
	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
)

// TestC18_Tree: every kind of layer and mode, compared layer by layer.
func TestC18_Tree(t *testing.T) {
	vt.Check(t, 3000, 60000, func(t *rapid.T, c *vt.Case) {
		tr, f := drawTree(t, 140, modes)

		var top image.Image = tr.Image
		if rapid.Bool().Draw(t, "pointer") {
			top = &tr.Image
		}

		vt.Journal([]byte(gen.Describe(tr.Image)))

		b, err := encode(top)
		if err != nil {
			t.Fatalf("encoding %s: %v", gen.Describe(tr.Image), err)
		}

		got, err := decode(b)
		if err != nil {
			t.Fatalf("decoding what was encoded of %s: %v", gen.Describe(tr.Image), err)
		}

		min := tr.Image.Bounds().Min
		want := cmp.Want{Mode: kept, Masks: true, Moved: image.Point{}.Sub(min)}

		if f.name == "some palette" {
			want.Mode = func(m limage.Composite) limage.Composite {
				switch m {
				case limage.CompositeDissolve, limage.CompositeBehind:
					return m
				}

				return limage.CompositeNormal
			}
		}

		if err := cmp.Trees(expect(tr.Image), got, want); err != nil {
			t.Fatalf("%v\noriginal: %s\ndecoded:  %s", err, gen.Describe(tr.Image), gen.Describe(got))
		}

		if err := kind(got, f, tr.Image); err != nil {
			t.Fatalf("%v\noriginal: %s\ndecoded:  %s", err, gen.Describe(tr.Image), gen.Describe(got))
		}

		labels(c, tr.Labels)
		c.Label("images: " + f.name)
		c.LabelIf(min != image.Point{}, "canvas not at the origin")

		if tr.Labels["layer not at the origin"] && (tr.Labels["group"] || tr.Labels["several layers"]) {
			c.NonTrivial(tr.Key, tr.Image.Bounds())
		}

		c.Sample("%s", gen.Describe(tr.Image))
	})
}

// kind says whether the decoded layers are of the kind of the original ones.
func kind(got limage.Image, f family, orig limage.Image) (err error) {
	var palette color.Palette

	leaves(orig, func(m image.Image) {
		switch cm := m.ColorModel().(type) {
		case color.Palette:
			palette = cm
		case lcolor.AlphaPalette:
			palette = color.Palette(cm)
		}
	})

	leaves(got, func(m image.Image) {
		switch cm := m.ColorModel(); f.name {
		case "colour":
			if cm != color.NRGBAModel && cm != lcolor.RGBModel {
				err = fmt.Errorf("a layer in colour became %T", m)
			}
		case "gray":
			if cm != color.GrayModel && cm != lcolor.GrayAlphaModel {
				err = fmt.Errorf("a gray layer became %T", m)
			}
		default:
			var p color.Palette

			switch cm := cm.(type) {
			case color.Palette:
				p = cm
			case lcolor.AlphaPalette:
				p = color.Palette(cm)
			default:
				err = fmt.Errorf("a layer with a palette became %T", m)

				return
			}

			if len(p) != len(palette) {
				err = fmt.Errorf("a palette of %d colours became one of %d", len(palette), len(p))

				return
			}

			for i := range p {
				if cmp.Of(p[i]) != cmp.Of(palette[i]) {
					err = fmt.Errorf("colour %d of the palette, %v, became %v", i, palette[i], p[i])
				}
			}
		}
	})

	return err
}

// exact lists the kinds of image that are kept exactly.
var exact = []gen.Kind{gen.NRGBA, gen.Gray, gen.RGB, gen.Foreign, gen.Sub}

// TestC18_Render: the decoded image looks like the original.
func TestC18_Render(t *testing.T) {
	vt.Check(t, 2500, 50000, func(t *rapid.T, c *vt.Case) {
		w, h := size(t, 70)
		f := rapid.SampledFrom([]family{{"colour", exact, false}, {"gray", []gen.Kind{gen.Gray, gen.GrayAlpha}, false}, {"paletted", []gen.Kind{gen.PalettedAlpha}, true}}).Draw(t, "family")
		tr := gen.DrawTree(t, w, h, f.opts(t, fixed(modes)))

		b, err := encode(tr.Image)
		if err != nil {
			t.Fatalf("encoding %s: %v", gen.Describe(tr.Image), err)
		}

		got, err := decode(b)
		if err != nil {
			t.Fatalf("decoding what was encoded of %s: %v", gen.Describe(tr.Image), err)
		}

		bounds := tr.Image.Bounds()

		if got.Bounds() != bounds.Sub(bounds.Min) {
			t.Fatalf("bounds %v became %v\noriginal: %s\ndecoded:  %s", bounds, got.Bounds(), gen.Describe(tr.Image), gen.Describe(got))
		}

		if err := cmp.Pixels(expect(tr.Image), got, bounds, image.Point{}.Sub(bounds.Min), 0); err != nil {
			t.Fatalf("rendered %v\noriginal: %s\ndecoded:  %s", err, gen.Describe(tr.Image), gen.Describe(got))
		}

		labels(c, tr.Labels)
		c.Label("images: " + f.name)

		if tr.Labels["several layers"] && (tr.Labels["mode other than Normal"] || tr.Labels["translucent layer"] || tr.Labels["mask"]) {
			c.NonTrivial(tr.Key, w, h)
		}

		c.Sample("%s", gen.Describe(tr.Image))
	})
}

// TestC18_Levels enumerates every opacity and mode, on layers and on groups.
func TestC18_Levels(t *testing.T) {
	if n, _ := vt.Shard(); n != 0 {
		t.Skip()
	}

	for tr := 0; tr < 256; tr++ {
		for _, m := range modes {
			if m != limage.CompositeNormal && tr%51 != 0 {
				continue
			}

			one := image.NewNRGBA(image.Rect(0, 0, 1, 1))
			one.SetNRGBA(0, 0, color.NRGBA{R: uint8(tr), G: 7, B: uint8(m), A: 200})

			two := image.NewGray(image.Rect(0, 0, 1, 1))
			two.SetGray(0, 0, color.Gray{Y: uint8(tr)})

			for _, im := range []image.Image{one, two} {
				l := limage.Layer{Name: "l", LayerBounds: image.Rect(0, 0, 1, 1), Mode: m, Transparency: uint8(tr), Invisible: tr%2 == 1, Image: im}
				g := limage.Layer{Name: "g", LayerBounds: image.Rect(0, 0, 1, 1), Mode: m, Transparency: uint8(tr), Invisible: tr%2 == 0, Image: limage.Image{l}}

				orig := limage.Image{g, l, l}

				vt.Guard(func() {
					b, err := encode(orig)
					if err != nil {
						t.Fatal(err)
					}

					got, err := decode(b)
					if err != nil {
						t.Fatal(err)
					}

					if err := cmp.Trees(expect(orig), got, cmp.Want{Mode: kept}); err != nil {
						t.Fatalf("transparency %d, mode %d: %v", tr, m, err)
					}
				})

				vt.Once(t.Name(), [3]any{tr, int(m), im == image.Image(one)}, gen.Describe(orig))
			}
		}
	}
}

// TestC18_Again: a decoded image, encoded again, is the same file.
func TestC18_Again(t *testing.T) {
	vt.Check(t, 1000, 20000, func(t *rapid.T, c *vt.Case) {
		tr, _ := drawTree(t, 70, modes)

		b, err := encode(tr.Image)
		if err != nil {
			t.Fatalf("encoding %s: %v", gen.Describe(tr.Image), err)
		}

		first, err := decode(b)
		if err != nil {
			t.Fatalf("decoding: %v", err)
		}

		b2, err := encode(first)
		if err != nil {
			t.Fatalf("encoding what was decoded of %s: %v", gen.Describe(tr.Image), err)
		}

		again, err := decode(b2)
		if err != nil {
			t.Fatalf("decoding again: %v", err)
		}

		if err := cmp.Trees(first, again, cmp.Want{Mode: kept, Masks: true}); err != nil {
			t.Fatalf("second generation: %v\nfirst:  %s\nsecond: %s", err, gen.Describe(first), gen.Describe(again))
		}

		labels(c, tr.Labels)
		c.LabelIf(bytes.Equal(b, b2), "byte for byte the same")

		if tr.Labels["several layers"] || tr.Labels["group"] {
			c.NonTrivial(tr.Key)
		}
	})
}
