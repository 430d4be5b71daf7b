package ora

import (
	"image"
	"image/color"
	"math"
	"testing"

	"limageverif/cmp"
	"limageverif/gen"
	"limageverif/vt"
	"pgregory.net/rapid"
	"vimagination.zapto.org/limage"
)

// checkPictures compares the merged image and the thumbnail with the picture.
func checkPictures(t *rapid.T, b []byte, m image.Image, what string) {
	a, err := readArchive(b)
	if err != nil {
		t.Fatalf("%v: %s", err, what)
	}

	bounds := m.Bounds()
	w, h := bounds.Dx(), bounds.Dy()

	merged, err := a.png("mergedimage.png")
	if err != nil {
		t.Fatalf("%v: %s", err, what)
	}

	if merged.Bounds().Size() != bounds.Size() {
		t.Fatalf("the merged image has bounds %v, the picture %v: %s", merged.Bounds(), bounds, what)
	}

	if err := cmp.Pixels(m, merged, bounds, image.Point{}.Sub(bounds.Min), 0x210); err != nil {
		t.Fatalf("merged image %v: %s", err, what)
	}

	thumb, err := a.png("Thumbnails/thumbnail.png")
	if err != nil {
		t.Fatalf("%v: %s", err, what)
	}

	tb := thumb.Bounds()
	tw, th := tb.Dx(), tb.Dy()

	if w <= 256 && h <= 256 {
		if tw != w || th != h {
			t.Fatalf("picture of %dx%d, thumbnail of %dx%d: %s", w, h, tw, th, what)
		}

		if err := cmp.Pixels(m, thumb, bounds, tb.Min.Sub(bounds.Min), 0x210); err != nil {
			t.Fatalf("thumbnail %v: %s", err, what)
		}

		return
	}

	if tw > 256 || th > 256 || tw < 1 || th < 1 || max(tw, th) < 254 {
		t.Fatalf("picture of %dx%d, thumbnail of %dx%d: %s", w, h, tw, th, what)
	}

	scale := 256 / float64(max(w, h))

	if math.Abs(float64(tw)-math.Max(1, float64(w)*scale)) > 1.5 || math.Abs(float64(th)-math.Max(1, float64(h)*scale)) > 1.5 {
		t.Fatalf("picture of %dx%d, thumbnail of %dx%d: %s", w, h, tw, th, what)
	}

	// Each pixel of the thumbnail shows, or mixes, what is in its part of the picture.
	var pix []cmp.RGBA

	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			pix = append(pix, cmp.Of(m.At(bounds.Min.X+x, bounds.Min.Y+y)))
		}
	}

	for y := 0; y < th; y++ {
		y0, y1 := part(y, th, h)

		for x := 0; x < tw; x++ {
			x0, x1 := part(x, tw, w)
			lo, hi := cmp.RGBA{1 << 20, 1 << 20, 1 << 20, 1 << 20}, cmp.RGBA{}

			for sy := y0; sy < y1; sy++ {
				for sx := x0; sx < x1; sx++ {
					for i, v := range pix[sy*w+sx] {
						lo[i], hi[i] = min(lo[i], v), max(hi[i], v)
					}
				}
			}

			for i, v := range cmp.Of(thumb.At(tb.Min.X+x, tb.Min.Y+y)) {
				if v+0x210 < lo[i] || v > hi[i]+0x210 {
					t.Fatalf("thumbnail of %dx%d at %d,%d shows %v; the part from %d,%d to %d,%d of the picture of %dx%d has from %v to %v: %s", tw, th, x, y, cmp.Of(thumb.At(tb.Min.X+x, tb.Min.Y+y)), x0, y0, x1, y1, w, h, lo, hi, what)
				}
			}
		}
	}
}

// part gives the part of n pixels which pixel i of tn pixels shows, with a margin
// for rounding: the size of the thumbnail is rounded as well, which displaces what
// is shown by up to one of its pixels.
func part(i, tn, n int) (int, int) {
	scale := float64(n) / float64(tn)
	lo := int(math.Floor(float64(i)*scale - scale - 1))
	hi := int(math.Ceil(float64(i+1)*scale + scale + 1))

	return max(lo, 0), min(hi, n)
}

// TestC14_Small: layered images, also ones that are not at the origin.
func TestC14_Small(t *testing.T) {
	vt.Check(t, 2000, 40000, func(t *rapid.T, c *vt.Case) {
		w, h := size(t, 100)
		tr := gen.DrawTree(t, w, h, opts(gen.AllKinds(), fixedModes()))

		moveAll(t, tr.Image)

		if tr.Image.Bounds().Empty() {
			return // cannot be written, there being no empty PNG
		}

		b, err := encode(tr.Image)
		if err != nil {
			t.Fatalf("encoding %s: %v", gen.Describe(tr.Image), err)
		}

		checkPictures(t, b, tr.Image, gen.Describe(tr.Image))
		labels(c, tr)

		if tr.Labels["several layers"] || tr.Labels["group"] {
			c.NonTrivial(tr.Key)
		}

		c.Sample("%s", gen.Describe(tr.Image))
	})
}

// gradient is an image in which every pixel tells where it is.
func gradient(r image.Rectangle, kind int) image.Image {
	w, h := max(r.Dx()-1, 1), max(r.Dy()-1, 1)

	return &gen.ForeignImage{Rect: r, M: color.NRGBA64Model, Fn: func(x, y int) color.Color {
		x -= r.Min.X
		y -= r.Min.Y

		c := color.NRGBA64{R: uint16(x * 0xffff / w), G: uint16(y * 0xffff / h), B: uint16(gen.Mix(uint64(x/16), uint64(y/16))), A: 0xffff}

		if kind == 1 && (x/64+y/64)%3 == 0 {
			c.A = uint16(0xffff - x*0x7fff/w)
		}

		return c
	}}
}

// TestC14_Large: pictures which are too large for a thumbnail of the same size.
func TestC14_Large(t *testing.T) {
	vt.Check(t, 300, 6000, func(t *rapid.T, c *vt.Case) {
		long := rapid.SampledFrom([]int{255, 256, 257, 258, 259, 300, 383, 384, 500, 511, 512, 513, 514, 767, 768, 769, 1023, 1024, 1025, 1500, 2047, 2049, 3000}).Draw(t, "long")

		if rapid.Bool().Draw(t, "any") {
			long = rapid.IntRange(257, 2200).Draw(t, "long side")
		}

		short := 1

		switch rapid.IntRange(0, 3).Draw(t, "shape") {
		case 0:
			short = rapid.IntRange(1, 12).Draw(t, "short")
		case 1:
			short = rapid.IntRange(1, min(long, 200)).Draw(t, "short side")
		case 2:
			short = rapid.IntRange(1, min(long, 600)).Draw(t, "short side")
		}

		w, h := long, short
		if rapid.Bool().Draw(t, "tall") {
			w, h = h, w
		}

		r := image.Rect(0, 0, w, h)

		if rapid.IntRange(0, 2).Draw(t, "moved") == 0 {
			r = r.Add(image.Pt(rapid.IntRange(-400, 400).Draw(t, "x"), rapid.IntRange(-400, 400).Draw(t, "y")))
		}

		var m image.Image = gradient(r, rapid.IntRange(0, 1).Draw(t, "alpha"))

		if rapid.Bool().Draw(t, "layered") {
			over := image.Rect(r.Min.X+w/3, r.Min.Y+h/3, r.Min.X+w/3+1+w/5, r.Min.Y+h/3+1+h/5).Intersect(r)
			m = limage.Image{
				{Name: "over", LayerBounds: over, Transparency: 100, Mode: limage.CompositeScreen, Image: gradient(image.Rectangle{Max: over.Size()}, 0)},
				{Name: "whole", LayerBounds: r, Image: gradient(image.Rectangle{Max: r.Size()}, 1)},
			}
		}

		b, err := encode(m)
		if err != nil {
			t.Fatalf("encoding %v: %v", r, err)
		}

		checkPictures(t, b, m, r.String())
		c.NonTrivial(r, long)
		c.LabelIf(short < 13, "very thin")
		c.LabelIf(w > h, "wide")
		c.LabelIf(w < h, "tall")
		c.LabelIf(r.Min != image.Point{}, "not at the origin")
		c.Sample("%T %v", m, r)
	})
}
