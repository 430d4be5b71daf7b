package xcf

import (
	"bytes"
	"image"
	"testing"

	"limageverif/cmp"
	"limageverif/gen"
	"limageverif/vt"
	"limageverif/xcfgen"
	"limageverif/xcfref"
	"pgregory.net/rapid"
	"vimagination.zapto.org/limage"
)

// saved is what a file decodes to, is encoded as, and decodes to again.
type saved struct {
	first  limage.Image
	file   []byte
	second limage.Image
}

func resave(t *rapid.T, what string, b []byte, dec func([]byte) (limage.Image, error), about string) saved {
	var (
		s   saved
		err error
	)

	if s.first, err = dec(b); err != nil {
		t.Fatalf("%s: %v\n%s", what, err, about)
	}

	if s.file, err = encode(s.first); err != nil {
		t.Fatalf("encoding what was decoded (%s): %v\n%s\ndecoded: %s", what, err, about, gen.Describe(s.first))
	}

	if s.second, err = decode(s.file); err != nil {
		t.Fatalf("decoding what was saved (%s): %v\n%s\nfirst: %s", what, err, about, gen.Describe(s.first))
	}

	return s
}

// count gives the number of layers which are not groups.
func count(g limage.Image) (n int) {
	leaves(g, func(image.Image) { n++ })

	return n
}

// parts are what is encoded of layers.
type parts struct{ x, y, w, h, most int }

// compare encodes a part of a layer's image, and of the same one compressed.
func (s *parts) compare(t *rapid.T, p, q image.Image, r image.Rectangle) {
	at := image.Rect(s.x%(r.Dx()+1), s.y%(r.Dy()+1), s.x+s.w, s.y+s.h)

	if _, ok := cmp.AsGroup(cmp.Base(p)); ok || s.most == 0 || at.Intersect(r).Empty() {
		return
	}

	s.most--

	var got [2]limage.Image

	for i, m := range []image.Image{p, q} {
		var sub image.Image

		if err := attempt(func() error {
			sub = limage.Layer{LayerBounds: r, Image: m}.SubImage(at)

			return nil
		}); err != nil {
			t.Fatalf("taking %v of %T: %v", at, m, err)
		}

		b, err := encode(sub)
		if err != nil {
			t.Fatalf("encoding %v of %T: %v", at, m, err)
		}

		if got[i], err = decode(b); err != nil {
			t.Fatalf("decoding what was encoded of %v of %T: %v", at, m, err)
		}

		if err := cmp.Pixels(m, got[i], at.Intersect(r), image.Point{}.Sub(at.Intersect(r).Min), 4); err != nil {
			t.Fatalf("%v of %T was encoded as something else: %v", at, m, err)
		}
	}

	if err := cmp.Pixels(got[0], got[1], got[0].Bounds(), image.Point{}, 0); err != nil || got[0].Bounds() != got[1].Bounds() {
		t.Fatalf("%v of %T and of %T are encoded as different images: %v", at, p, q, err)
	}
}

// TestC35_XCF: opening another program's file and saving it loses nothing, and
// the same is saved of an image that was decoded compressed.
func TestC35_XCF(t *testing.T) {
	vt.Check(t, 2000, 40000, func(t *rapid.T, c *vt.Case) {
		d := xcfgen.Draw(t, xcfgen.Opts{Max: 24, Large: 150, Layers: 4, Depth: 3, Many: true, MinLayers: 1})
		b := d.Build()

		vt.Journal(b)

		plain := resave(t, "Decode", b, decode, xcfgen.Describe(d.File))
		small := resave(t, "DecodeCompressed", b, decodeCompressed, xcfgen.Describe(d.File))

		off := image.Point{}.Sub(plain.first.Bounds().Min)
		want := cmp.Want{Mode: kept, Masks: true, Moved: off, Clipped: true}

		for i, s := range []saved{plain, small} {
			if err := cmp.Trees(expect(s.first), s.second, want); err != nil {
				t.Fatalf("saved (compressed %t): %v\nfile:  %s\nfirst: %s\nsaved: %s", i == 1, err, xcfgen.Describe(d.File), gen.Describe(s.first), gen.Describe(s.second))
			}
		}

		if !bytes.Equal(plain.file, small.file) {
			c.Label("the files differ")

			if err := cmp.Trees(plain.second, small.second, cmp.Want{Mode: kept, Masks: true}); err != nil {
				t.Fatalf("decoded and decoded compressed are saved as different images: %v\nfile: %s\none:   %s\nother: %s", err, xcfgen.Describe(d.File), gen.Describe(plain.second), gen.Describe(small.second))
			}
		}

		// Parts of the layers, on their own.
		part := parts{x: rapid.IntRange(-2, 70).Draw(t, "part x"), y: rapid.IntRange(-2, 70).Draw(t, "part y"), w: rapid.IntRange(1, 80).Draw(t, "part width"), h: rapid.IntRange(1, 80).Draw(t, "part height"), most: 3}

		pairs(plain.first, small.first, func(p, q image.Image, r image.Rectangle) { part.compare(t, p, q, r) })

		if f, err := xcfref.Parse(plain.file); err != nil {
			t.Fatalf("what was saved is not a valid file: %v\nfile: %s\nfirst: %s", err, xcfgen.Describe(d.File), gen.Describe(plain.first))
		} else if bounds, n := plain.first.Bounds(), count(plain.first); n > 0 && f.Base != d.Base || int(f.W) != bounds.Dx() || int(f.H) != bounds.Dy() {
			t.Fatalf("a file of base type %d, showing %v, was saved as one of type %d, %dx%d\nfile: %s", d.Base, bounds, f.Base, f.W, f.H, xcfgen.Describe(d.File))
		}

		labels(c, d.Labels)

		if d.Labels["several layers"] || d.Labels["group"] {
			c.NonTrivial(d.Key())
		}

		c.Sample("%s", xcfgen.Describe(d.File))
	})
}

// TestC35_Text: text as GIMP writes it is kept when the file is saved.
func TestC35_Text(t *testing.T) {
	vt.Check(t, 2500, 50000, func(t *rapid.T, c *vt.Case) {
		text, want := gimpText(t, c)
		b := textFile(t, text).Build()

		vt.Journal(b)

		for _, s := range []saved{resave(t, "Decode", b, decode, text), resave(t, "DecodeCompressed", b, decodeCompressed, text)} {
			all := texts(s.second)
			if len(all) != 1 {
				t.Fatalf("%d text layers, for %q", len(all), text)
			}

			if err := sameText(want, flatten(all[0].(limage.TextData))); err != nil {
				t.Fatalf("%v\nfor %q\nsaved: %#v", err, text, all[0])
			}

			if err := cmp.Trees(expect(s.first), s.second, cmp.Want{Mode: kept, Masks: true}); err != nil {
				t.Fatalf("for %q: %v", text, err)
			}
		}

		if len(want) > 0 {
			c.NonTrivial(text)
		}

		c.Sample("%.400q", text)
	})
}
