package ora

import (
	"bytes"
	"image"
	"image/color"
	"testing"

	"limageverif/cmp"
	"limageverif/gen"
	"limageverif/vt"
	"pgregory.net/rapid"
	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/ora"
)

func opts(kinds []gen.Kind, modes []limage.Composite) gen.Opts {
	return gen.Opts{Depth: 3, Layers: 4, Modes: modes, Kinds: kinds, Masks: true, Text: true, EmptyOK: true, BigGroups: true, Pointers: true, Nested: true, Loose: true, Offset: true}
}

// moveAll moves the top level of the image, so that it is not at the origin.
func moveAll(t *rapid.T, g limage.Image) {
	if rapid.IntRange(0, 3).Draw(t, "moved") != 0 {
		return
	}

	by := image.Pt(rapid.IntRange(-30, 30).Draw(t, "by x"), rapid.IntRange(-30, 30).Draw(t, "by y"))

	for i := range g {
		g[i].LayerBounds = g[i].LayerBounds.Add(by)
	}
}

// TestC12_Tree: every kind of layer and mode, compared layer by layer.
func TestC12_Tree(t *testing.T) {
	vt.Check(t, 3000, 60000, func(t *rapid.T, c *vt.Case) {
		w, h := size(t, 140)
		tr := gen.DrawTree(t, w, h, opts(gen.AllKinds(), allModes()))

		moveAll(t, tr.Image)

		if tr.Image.Bounds().Empty() {
			return // cannot be written, there being no empty PNG
		}

		var top image.Image = tr.Image
		if rapid.Bool().Draw(t, "pointer") {
			top = &tr.Image
		}

		vt.Journal([]byte(gen.Describe(tr.Image)))

		b, err := encode(top)
		if err != nil {
			t.Fatalf("encoding %s: %v", gen.Describe(tr.Image), err)
		}

		got, err := decode(t, b)
		if err != nil {
			t.Fatalf("decoding what was encoded of %s: %v", gen.Describe(tr.Image), err)
		}

		min := tr.Image.Bounds().Min

		if err := cmp.Trees(tr.Image, got, cmp.Want{Mode: decodedMode, Exact16: true, Moved: image.Point{}.Sub(min)}); err != nil {
			t.Fatalf("%v\noriginal: %s\ndecoded:  %s", err, gen.Describe(tr.Image), gen.Describe(got))
		}

		labels(c, tr)
		c.LabelIf(min != image.Point{}, "canvas not at the origin")

		if tr.Labels["layer not at the origin"] && (tr.Labels["group"] || tr.Labels["several layers"]) {
			c.NonTrivial(tr.Key, w, h)
		}

		c.Sample("%s", gen.Describe(tr.Image))
	})
}

// TestC12_Render: the decoded image looks like the original.
func TestC12_Render(t *testing.T) {
	vt.Check(t, 2000, 40000, func(t *rapid.T, c *vt.Case) {
		w, h := size(t, 40)
		o := opts(exact, oraModes())
		o.Masks = false // rounded in the file
		tr := gen.DrawTree(t, w, h, o)

		moveAll(t, tr.Image)

		if tr.Image.Bounds().Empty() {
			return // cannot be written, there being no empty PNG
		}

		b, err := encode(tr.Image)
		if err != nil {
			t.Fatalf("encoding %s: %v", gen.Describe(tr.Image), err)
		}

		got, err := decode(t, b)
		if err != nil {
			t.Fatalf("decoding what was encoded of %s: %v", gen.Describe(tr.Image), err)
		}

		bounds := tr.Image.Bounds()

		if err := cmp.Pixels(tr.Image, got, bounds, image.Point{}.Sub(bounds.Min), 0); err != nil {
			t.Fatalf("rendered %v\noriginal: %s\ndecoded:  %s", err, gen.Describe(tr.Image), gen.Describe(got))
		}

		labels(c, tr)

		if tr.Labels["several layers"] && (tr.Labels["mode other than Normal"] || tr.Labels["translucent layer"]) {
			c.NonTrivial(tr.Key, w, h)
		}

		c.Sample("%s", gen.Describe(tr.Image))
	})
}

// TestC12_Levels enumerates every opacity and mode, on layers and on groups.
func TestC12_Levels(t *testing.T) {
	if n, _ := vt.Shard(); n != 0 {
		t.Skip()
	}

	for tr := 0; tr < 256; tr++ {
		for m := limage.CompositeNormal; m <= limage.CompositePassThrough; m++ {
			if m != limage.CompositeNormal && tr%51 != 0 {
				continue
			}

			one := image.NewNRGBA(image.Rect(0, 0, 1, 1))
			one.SetNRGBA(0, 0, color.NRGBA{R: uint8(tr), G: 7, B: uint8(m), A: 200})

			l := limage.Layer{Name: "l", LayerBounds: one.Rect, Mode: m, Transparency: uint8(tr), Invisible: tr%2 == 1, Image: one}
			g := limage.Layer{Name: "g", LayerBounds: one.Rect, Mode: m, Transparency: uint8(tr), Invisible: tr%2 == 0, Image: limage.Image{l}}

			orig := limage.Image{g, l}

			vt.Guard(func() {
				b, err := encode(orig)
				if err != nil {
					t.Fatal(err)
				}

				got, err := decodeT(b)
				if err != nil {
					t.Fatal(err)
				}

				if err := cmp.Trees(orig, got, cmp.Want{Mode: decodedMode}); err != nil {
					t.Fatalf("transparency %d, mode %d: %v", tr, m, err)
				}
			})

			vt.Once(t.Name(), [2]int{tr, int(m)}, gen.Describe(orig))
		}
	}
}

func decodeT(b []byte) (limage.Image, error) {
	zr, err := newZip(b)
	if err != nil {
		return nil, err
	}

	return ora.Decode(zr)
}

// TestC12_Again: a decoded image, encoded again, is the same file.
func TestC12_Again(t *testing.T) {
	vt.Check(t, 800, 16000, func(t *rapid.T, c *vt.Case) {
		w, h := size(t, 40)
		tr := gen.DrawTree(t, w, h, opts(exact, oraModes()))

		if tr.Image.Bounds().Empty() {
			return // cannot be written, there being no empty PNG
		}

		b, err := encode(tr.Image)
		if err != nil {
			t.Fatalf("encoding %s: %v", gen.Describe(tr.Image), err)
		}

		got, err := decode(t, b)
		if err != nil {
			t.Fatalf("decoding: %v", err)
		}

		b2, err := encode(got)
		if err != nil {
			t.Fatalf("encoding what was decoded of %s: %v", gen.Describe(tr.Image), err)
		}

		again, err := decode(t, b2)
		if err != nil {
			t.Fatalf("decoding again: %v", err)
		}

		if err := cmp.Trees(got, again, cmp.Want{Mode: decodedMode, Exact16: true}); err != nil {
			t.Fatalf("second generation: %v\nfirst:  %s\nsecond: %s", err, gen.Describe(got), gen.Describe(again))
		}

		labels(c, tr)

		if tr.Labels["several layers"] || tr.Labels["group"] {
			c.NonTrivial(tr.Key, bytes.Equal(b, b2))
		}

		c.LabelIf(bytes.Equal(b, b2), "byte for byte the same")
	})
}
