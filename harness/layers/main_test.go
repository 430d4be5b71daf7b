package layers

import (
	"fmt"
	"image"
	"image/color"
	"testing"

	"limageverif/gen"
	"limageverif/vt"
	"pgregory.net/rapid"
	"vimagination.zapto.org/limage"
)

func TestMain(m *testing.M) { vt.Main(m) }

type rgba [4]uint32

func premul(c color.Color) rgba {
	r, g, b, a := c.RGBA()

	return rgba{r, g, b, a}
}

func (p rgba) near(q rgba, by uint32) bool {
	for i := range p {
		if p[i] > q[i]+by || q[i] > p[i]+by {
			return false
		}
	}

	return true
}

func modes(dissolve bool) []limage.Composite {
	var ms []limage.Composite

	for m := limage.CompositeNormal; m <= limage.CompositePassThrough; m++ {
		if m != limage.CompositeDissolve || dissolve {
			ms = append(ms, m)
		}
	}

	return ms
}

func labels(c *vt.Case, tr *gen.Tree) {
	for l := range tr.Labels {
		c.Label(l)
	}
}

// onePixel gives a fixed colour everywhere.
type onePixel struct {
	image.Image
	c color.Color
}

func (o onePixel) At(int, int) color.Color { return o.c }

// colours is the set of colours a point may have: Dissolve leaves a choice.
type colours map[rgba]color.Color

func (s colours) add(c color.Color) { s[premul(c)] = c }

func asImage(m image.Image) (limage.Image, bool) {
	switch im := m.(type) {
	case limage.Image:
		return im, true
	case *limage.Image:
		return *im, true
	}

	return nil, false
}

// fold is the reference: what a layered image shows at the point.
func fold(g limage.Image, x, y int) colours {
	all := colours{}

	all.add(color.NRGBA64{})

	var paletted bool

	if len(g) > 0 {
		_, paletted = g[0].Image.ColorModel().(color.Palette)
	}

	for i := len(g) - 1; i >= 0; i-- {
		l := g[i]
		b := l.LayerBounds

		if l.Invisible || x < b.Min.X || x >= b.Max.X || y < b.Min.Y || y >= b.Max.Y {
			continue
		}

		tops := colours{}

		if sub, ok := asImage(l.Image); ok {
			for _, c := range fold(sub, x-b.Min.X, y-b.Min.Y) {
				one := limage.Layer{LayerBounds: image.Rect(0, 0, 1, 1), Transparency: l.Transparency, Image: onePixel{sub, c}}

				tops.add(one.At(0, 0))
			}
		} else {
			tops.add(l.At(x, y))
		}

		next := colours{}

		for _, top := range tops {
			for _, bottom := range all {
				switch {
				case l.Mode == limage.CompositeDissolve:
					n := unmul(top)

					if n.A > 0 {
						op := n
						op.A = 0xffff

						next.add(op)
					}

					if n.A < 0xffff {
						next.add(bottom)
					}
				case paletted:
					if n := unmul(top); n.A > 0x7fff {
						n.A = 0xffff

						next.add(n)
					} else {
						next.add(bottom)
					}
				default:
					next.add(l.Mode.Composite(bottom, top))
				}
			}
		}

		all = next
	}

	return all
}

// unmul gives the non-premultiplied colour without losing precision where the
// type holds it.
func unmul(c color.Color) color.NRGBA64 {
	switch c := c.(type) {
	case color.NRGBA64:
		return c
	case color.NRGBA:
		return color.NRGBA64{R: uint16(c.R) * 0x101, G: uint16(c.G) * 0x101, B: uint16(c.B) * 0x101, A: uint16(c.A) * 0x101}
	case interface{ ToNRGBA() color.NRGBA64 }:
		return c.ToNRGBA()
	}

	return color.NRGBA64Model.Convert(c).(color.NRGBA64)
}

func points(b image.Rectangle, fn func(x, y int)) {
	for y := b.Min.Y - 1; y <= b.Max.Y; y++ {
		for x := b.Min.X - 1; x <= b.Max.X; x++ {
			fn(x, y)
		}
	}
}

func opts(dissolve bool) gen.Opts {
	return gen.Opts{Depth: 3, Layers: 5, Modes: modes(dissolve), Kinds: gen.AllKinds(), Masks: true, Text: true, Anywhere: true, EmptyOK: true, Pointers: true, Nested: true}
}

func TestC09_Fold(t *testing.T) {
	vt.Check(t, 30000, 500000, func(t *rapid.T, c *vt.Case) {
		w, h := rapid.IntRange(1, 9).Draw(t, "w"), rapid.IntRange(1, 7).Draw(t, "h")
		o := opts(true)

		if rapid.IntRange(0, 3).Draw(t, "palette only") == 0 {
			o.Kinds = []gen.Kind{gen.Paletted, gen.Paletted, gen.NRGBA, gen.NRGBA64}
		}

		tr := gen.DrawTree(t, w, h, o)
		im := tr.Image
		want := image.Rectangle{}

		for _, l := range im {
			want = want.Union(l.LayerBounds)
		}

		if im.Bounds() != want {
			t.Fatalf("%s: bounds are %v, want %v", gen.Describe(im), im.Bounds(), want)
		}

		visible, hidden, overlap := 0, 0, 0

		for _, l := range im {
			if l.Bounds() != l.LayerBounds {
				t.Fatalf("layer %q: bounds are %v, want %v", l.Name, l.Bounds(), l.LayerBounds)
			}

			if l.Invisible {
				hidden++
			} else if !l.LayerBounds.Empty() {
				visible++
			}
		}

		points(want, func(x, y int) {
			ref := fold(im, x, y)

			if len(ref) > 1 {
				overlap++
			}

			got := im.At(x, y)
			if got == nil {
				t.Fatalf("%s: no colour at %d,%d", gen.Describe(im), x, y)
			}

			p := premul(got)

			for q := range ref {
				if p.near(q, 2) {
					return
				}
			}

			t.Fatalf("%s: shows %v at %d,%d, want one of %v", gen.Describe(im), p, x, y, ref)
		})

		if visible > 1 {
			c.NonTrivial(tr.Key)
		}

		labels(c, tr)
		c.LabelIf(hidden > 0, "with hidden layers")
		c.LabelIf(overlap > 0, "dissolve choice")

		if len(im) > 0 {
			_, pal := im.ColorModel().(color.Palette)
			c.LabelIf(pal, "palette image")
		}

		c.Sample("%s", gen.Describe(im))
	})
}

// A pixel image standing as the only layer shows itself, whatever its type, and
// two layers show what the mode makes of their colours.
func TestC09_OnePixel(t *testing.T) {
	vt.Check(t, 60000, 800000, func(t *rapid.T, c *vt.Case) {
		n := rapid.IntRange(1, 6).Draw(t, "layers")
		im := make(limage.Image, n)
		key := ""

		for i := range im {
			v := rapid.Uint64().Draw(t, fmt.Sprintf("colour %d", i))
			px := color.NRGBA64{R: uint16(v), G: uint16(v >> 16), B: uint16(v >> 32), A: uint16(v >> 48)}

			if rapid.Bool().Draw(t, "opaque") {
				px.A = 0xffff
			}

			m := image.NewNRGBA64(image.Rect(0, 0, 1, 1))

			m.SetNRGBA64(0, 0, px)

			im[i] = limage.Layer{LayerBounds: image.Rect(3, -2, 4, -1), Image: m, Mode: rapid.SampledFrom(modes(false)).Draw(t, "mode"), Transparency: uint8(rapid.IntRange(0, 255).Draw(t, "transparency")), Invisible: rapid.IntRange(0, 3).Draw(t, "invisible") == 0}

			if rapid.Bool().Draw(t, "full") {
				im[i].Transparency = 0
			}

			key += fmt.Sprint(px, im[i].Mode, im[i].Transparency, im[i].Invisible)
		}

		ref := fold(im, 3, -2)
		p := premul(im.At(3, -2))

		for q := range ref {
			if !p.near(q, 2) {
				t.Fatalf("%s shows %v, want %v", gen.Describe(im), p, q)
			}
		}

		if n > 1 {
			c.NonTrivial(key)
		}

		c.Sample("%s -> %v", gen.Describe(im), p)
	})
}

func genRect(t *rapid.T, around image.Rectangle, label string) image.Rectangle {
	if rapid.IntRange(0, 9).Draw(t, label+" any") == 0 {
		around = around.Inset(-20)
	}

	if !around.Empty() && rapid.IntRange(0, 2).Draw(t, label+" inside") > 0 {
		seed := uint64(rapid.Uint32().Draw(t, label+" seed"))

		at := func(lo, hi int, n uint64) (int, int) {
			a := lo + int(gen.Mix(seed, n)%uint64(hi-lo))

			return a, a + 1 + int(gen.Mix(seed, n, 1)%uint64(hi-a))
		}

		x0, x1 := at(around.Min.X, around.Max.X, 1)
		y0, y1 := at(around.Min.Y, around.Max.Y, 2)

		return image.Rect(x0, y0, x1, y1)
	}

	x := rapid.IntRange(around.Min.X-2, around.Max.X+2)
	y := rapid.IntRange(around.Min.Y-2, around.Max.Y+2)

	return image.Rect(x.Draw(t, label+" x0"), y.Draw(t, label+" y0"), x.Draw(t, label+" x1"), y.Draw(t, label+" y1"))
}

func TestC10_Layer(t *testing.T) {
	vt.Check(t, 20000, 350000, func(t *rapid.T, c *vt.Case) {
		w, h := 10-rapid.IntRange(1, 9).Draw(t, "w"), 8-rapid.IntRange(1, 7).Draw(t, "h")
		tr := gen.DrawTree(t, w, h, opts(false))
		l := tr.Image[rapid.IntRange(0, len(tr.Image)-1).Draw(t, "layer")]
		before := gen.Describe(limage.Image{l})
		sub := l
		area := l.LayerBounds
		moved := false

		for i := rapid.IntRange(1, 3).Draw(t, "times"); i > 0; i-- {
			r := genRect(t, area, fmt.Sprint("rect ", i))

			if rapid.Bool().Draw(t, "typed") {
				sub = sub.SubImageLayer(r)
			} else {
				s, ok := sub.SubImage(r).(limage.Layer)
				if !ok {
					t.Fatalf("sub-image of a layer is a %T", sub.SubImage(r))
				}

				sub = s
			}

			area = area.Intersect(r)

			if sub.Bounds() != area && !(sub.Bounds().Empty() && area.Empty()) {
				t.Fatalf("%s: sub-image %v has bounds %v, want %v", before, r, sub.Bounds(), area)
			}
		}

		moved = area.Min != l.LayerBounds.Min

		for y := area.Min.Y; y < area.Max.Y; y++ {
			for x := area.Min.X; x < area.Max.X; x++ {
				if got, want := premul(sub.At(x, y)), premul(l.At(x, y)); got != want {
					t.Fatalf("%s: sub-image with bounds %v shows %v at %d,%d, the layer %v", before, area, got, x, y, want)
				}
			}
		}

		if sub.Name != l.Name || sub.Mode != l.Mode || sub.Invisible != l.Invisible || sub.Transparency != l.Transparency {
			t.Fatalf("%s: sub-image has other attributes: %s", before, gen.Describe(limage.Image{sub}))
		}

		if after := gen.Describe(limage.Image{l}); after != before {
			t.Fatalf("taking a sub-image changed %s to %s", before, after)
		}

		if !area.Empty() && moved {
			c.NonTrivial(before, area)
		}

		labels(c, tr)
		c.LabelIf(area.Empty(), "empty sub-image")
		c.LabelIf(moved && !area.Empty(), "origin moved")
		c.Sample("%s -> %v", before, area)
	})
}

func TestC10_Image(t *testing.T) {
	vt.Check(t, 20000, 350000, func(t *rapid.T, c *vt.Case) {
		w, h := 10-rapid.IntRange(1, 9).Draw(t, "w"), 8-rapid.IntRange(1, 7).Draw(t, "h")
		tr := gen.DrawTree(t, w, h, opts(false))
		im := tr.Image
		before := gen.Describe(im)
		sub := im
		area := im.Bounds()

		for i := rapid.IntRange(1, 3).Draw(t, "times"); i > 0; i-- {
			r := genRect(t, area, fmt.Sprint("rect ", i))

			s, ok := sub.SubImage(r).(limage.Image)
			if !ok {
				t.Fatalf("sub-image of a layered image is a %T", sub.SubImage(r))
			}

			sub = s
			area = area.Intersect(r)

			if b := sub.Bounds(); !b.In(area) {
				t.Fatalf("%s: sub-image %v has bounds %v, outside of %v", before, r, b, area)
			}
		}

		points(area, func(x, y int) {
			got, want := premul(sub.At(x, y)), rgba{}

			if (image.Point{X: x, Y: y}).In(area) {
				want = premul(im.At(x, y))
			}

			if got != want {
				t.Fatalf("%s: sub-image of %v shows %v at %d,%d, the image %v", before, area, got, x, y, want)
			}
		})

		if after := gen.Describe(im); after != before {
			t.Fatalf("taking a sub-image changed %s to %s", before, after)
		}

		if !area.Empty() && area.Min != im.Bounds().Min {
			c.NonTrivial(before, area)
		}

		labels(c, tr)
		c.LabelIf(area.Empty(), "empty sub-image")
		c.Sample("%s -> %v", before, area)
	})
}

func TestC11_Alpha(t *testing.T) {
	vt.Check(t, 40000, 700000, func(t *rapid.T, c *vt.Case) {
		w, h := rapid.IntRange(1, 12).Draw(t, "w"), rapid.IntRange(1, 9).Draw(t, "h")
		x0, y0 := rapid.IntRange(-4, 4).Draw(t, "x"), rapid.IntRange(-4, 4).Draw(t, "y")
		r := image.Rect(x0, y0, x0+w, y0+h)
		m, kind := gen.OneImage(t, r, gen.AllKinds(), nil)
		mask := gen.Mask(t, r, "mask ")
		masked := limage.MaskedImage{Image: m, Mask: mask}
		pos := image.Point{X: rapid.IntRange(-9, 9).Draw(t, "layer x"), Y: rapid.IntRange(-9, 9).Draw(t, "layer y")}
		tp := uint8(rapid.IntRange(0, 255).Draw(t, "transparency"))

		switch rapid.IntRange(0, 5).Draw(t, "edge") {
		case 0:
			tp = 0
		case 1:
			tp = 255
		}

		layer := limage.Layer{LayerBounds: image.Rectangle{Min: pos, Max: pos.Add(r.Max)}, Transparency: tp, Image: m}
		both := layer
		both.Image = masked

		if masked.Bounds() != m.Bounds() {
			t.Fatalf("masked image has bounds %v, want %v", masked.Bounds(), m.Bounds())
		}

		check := func(what string, got, from color.Color, alpha float64, exact bool, x, y int) {
			if exact {
				if premul(got) != premul(from) {
					t.Fatalf("%s of a %s at %d,%d: full alpha changes %v to %v", what, kind, x, y, premul(from), premul(got))
				}

				return
			}

			n := unmul(from)
			want := [4]float64{}
			a := float64(n.A) * alpha

			for i, v := range []float64{float64(n.R), float64(n.G), float64(n.B), 0xffff} {
				want[i] = v * a / 0xffff
			}

			p := premul(got)

			for i := range want {
				if d := float64(p[i]) - want[i]; d > 4 || d < -4 {
					t.Fatalf("%s of a %s at %d,%d: alpha %.4f makes %v of %v, want %.1f", what, kind, x, y, alpha, p, n, want)
				}
			}
		}

		someMask := false

		for y := r.Min.Y; y < r.Max.Y; y++ {
			for x := r.Min.X; x < r.Max.X; x++ {
				mv := mask.GrayAt(x, y).Y
				someMask = someMask || mv > 0 && mv < 255

				check("masked image", masked.At(x, y), m.At(x, y), float64(mv)/255, mv == 255, x, y)
				check("layer", layer.At(x+pos.X, y+pos.Y), m.At(x, y), float64(255-tp)/255, tp == 0, x, y)
				check("masked layer", both.At(x+pos.X, y+pos.Y), m.At(x, y), float64(255-tp)/255*float64(mv)/255, tp == 0 && mv == 255, x, y)
			}
		}

		if someMask && tp > 0 && tp < 255 {
			c.NonTrivial(gen.Digest(m), gen.Digest(mask), tp, pos)
		}

		c.Label("kind " + kind)
		c.LabelIf(tp == 0, "transparency 0")
		c.LabelIf(tp == 255, "transparency 255")
		c.Sample("%s %v, transparency %d, layer at %v", kind, r, tp, pos)
	})
}
