package colour

import (
	"fmt"
	"image/color"
	"reflect"
	"testing"

	"limageverif/vt"
	"pgregory.net/rapid"
	"vimagination.zapto.org/limage/lcolor"
)

func genPalette(t *rapid.T) lcolor.AlphaPalette {
	n := rapid.IntRange(1, 12).Draw(t, "palette length")

	if rapid.IntRange(0, 9).Draw(t, "large palette") == 0 {
		n = rapid.SampledFrom([]int{1, 2, 255, 256}).Draw(t, "length")
	}

	p := make(lcolor.AlphaPalette, n)
	s := rapid.Uint32().Draw(t, "palette seed")

	for i := range p {
		s = s*1664525 + 1013904223
		c := lcolor.RGB{R: uint8(s >> 24), G: uint8(s >> 16), B: uint8(s >> 8)}

		if s>>4&7 == 0 { // dark or repeated entries
			c = lcolor.RGB{R: uint8(i), G: uint8(i / 2)}
		}

		switch s >> 7 & 3 {
		case 0:
			p[i] = color.NRGBA{R: c.R, G: c.G, B: c.B, A: 255}
		case 1:
			p[i] = color.RGBA{R: c.R, G: c.G, B: c.B, A: 255}
		default:
			p[i] = c
		}
	}

	return p
}

// paletteDistance is the squared distance of the colour's own components from
// those of the entry.
func paletteDistance(p lcolor.AlphaPalette, i int, n color.NRGBA64) uint64 {
	r, g, b, _ := p[i].RGBA()
	d := func(x uint32, y uint16) uint64 {
		v := int64(x) - int64(y)

		return uint64(v * v)
	}

	return d(r, n.R) + d(g, n.G) + d(b, n.B)
}

func nearestOK(p lcolor.AlphaPalette, i int, n color.NRGBA64) (uint64, uint64, bool) {
	best := ^uint64(0)

	for j := range p {
		best = min(best, paletteDistance(p, j, n))
	}

	got := paletteDistance(p, i, n)

	return got, best, got <= best+16
}

func TestC07_Models(t *testing.T) {
	vt.Check(t, 160000, 3000000, func(t *rapid.T, c *vt.Case) {
		v, n := anyColour(t, "colour")
		n8 := color.NRGBA{R: uint8(n.R >> 8), G: uint8(n.G >> 8), B: uint8(n.B >> 8), A: uint8(n.A >> 8)}

		// RGB
		rgb, ok := lcolor.RGBModel.Convert(v).(lcolor.RGB)
		if !ok {
			t.Fatalf("RGBModel made %s from %s", show(lcolor.RGBModel.Convert(v)), show(v))
		}

		if again := lcolor.RGBModel.Convert(rgb); again != rgb {
			t.Fatalf("RGBModel changes its own colour %v to %v", rgb, again)
		}

		if n.A == 0xffff && (!near(uint32(rgb.R), uint32(n8.R), 1) || !near(uint32(rgb.G), uint32(n8.G), 1) || !near(uint32(rgb.B), uint32(n8.B), 1)) {
			t.Fatalf("RGBModel made %v from opaque %s", rgb, show(v))
		}

		op8 := n8
		op8.A = 255

		if got := lcolor.RGBModel.Convert(op8); got != (lcolor.RGB{R: n8.R, G: n8.G, B: n8.B}) {
			t.Fatalf("RGBModel made %v from %v, which it can represent", got, op8)
		}

		// gray with alpha
		ga, ok := lcolor.GrayAlphaModel.Convert(v).(lcolor.GrayAlpha)
		if !ok {
			t.Fatalf("GrayAlphaModel made %s from %s", show(lcolor.GrayAlphaModel.Convert(v)), show(v))
		}

		if again := lcolor.GrayAlphaModel.Convert(ga); again != ga {
			t.Fatalf("GrayAlphaModel changes its own colour %v to %v", ga, again)
		}

		if ga.A != n8.A {
			t.Fatalf("GrayAlphaModel made %v from %s", ga, show(v))
		}

		luma := (19595*uint64(n.R) + 38470*uint64(n.G) + 7471*uint64(n.B)) >> 24
		if n.A != 0 && !near(uint32(ga.Y), uint32(luma), 1) {
			t.Fatalf("GrayAlphaModel made %v from %s, whose luma is %d", ga, show(v), luma)
		}

		if got, want := lcolor.GrayAlphaModel.Convert(color.NRGBA{R: n8.R, G: n8.R, B: n8.R, A: n8.A}), (lcolor.GrayAlpha{Y: n8.R, A: n8.A}); got != want && n8.A != 0 {
			t.Fatalf("GrayAlphaModel made %v from %v, which it can represent", got, want)
		}

		// the two views of the colour types
		for _, x := range []interface {
			color.Color
			ToNRGBA() color.NRGBA64
		}{
			rgb, ga, lcolor.GrayAlpha{Y: n8.R, A: n8.A}, lcolor.RGB{R: n8.R, G: n8.G, B: n8.B}, lcolor.HSVA{H: n.R, S: n.G, V: n.B, A: n.A}, lcolor.HSLA{H: n.R, S: n.G, L: n.B, A: n.A},
		} {
			r, g, b, a := x.RGBA()
			r2, g2, b2, a2 := x.ToNRGBA().RGBA()

			if a != a2 || !near(r, r2, 2) || !near(g, g2, 2) || !near(b, b2, 2) || r > a || g > a || b > a || a > 0xffff {
				t.Fatalf("%T%v is premultiplied %d %d %d %d but not premultiplied %v", x, x, r, g, b, a, x.ToNRGBA())
			}
		}

		if n8.A != 0 {
			c.NonTrivial(typeName(v), n)
		}

		c.Label("type " + typeName(v))
		c.LabelIf(n.A > 0 && n.A < 0xffff, "translucent")
		c.Sample("%s -> %v, %v", show(v), rgb, ga)
	})
}

func TestC07_Palette(t *testing.T) {
	vt.Check(t, 80000, 1500000, func(t *rapid.T, c *vt.Case) {
		p := genPalette(t)
		v, n := anyColour(t, "colour")

		if rapid.IntRange(0, 3).Draw(t, "take entry") == 0 {
			// an entry of the palette, with some alpha
			r, g, b, _ := p[rapid.IntRange(0, len(p)-1).Draw(t, "entry")].RGBA()
			n = color.NRGBA64{R: uint16(r), G: uint16(g), B: uint16(b), A: n.A}
			v = n
		}

		i := p.Index(v)
		if i < 0 || i >= len(p) {
			t.Fatalf("Index %d in a palette of %d", i, len(p))
		}

		if got, best, ok := nearestOK(p, i, n); !ok && n.A != 0 {
			t.Fatalf("palette %v: entry %d (%s) chosen for %s at squared distance %d, the nearest is at %d", p, i, show(p[i]), show(v), got, best)
		}

		got := p.Convert(v)
		_, _, _, wa := v.RGBA()

		if _, _, _, a := got.RGBA(); a != wa {
			t.Fatalf("palette %v: converting %s gives %s: alpha changed", p, show(v), show(got))
		}

		if n.A != 0 {
			r, g, b, _ := p[i].RGBA()
			want := color.NRGBA64{R: uint16(r), G: uint16(g), B: uint16(b), A: uint16(wa)}

			if !sameColour(got, want) {
				t.Fatalf("palette %v: converting %s gives %s, want %s", p, show(v), show(got), show(want))
			}
		}

		if again := p.Convert(got); !sameColour(again, got) {
			t.Fatalf("palette %v: converting the converted %s gives %s", p, show(got), show(again))
		}

		if !reflect.DeepEqual(p.Convert(v), got) {
			t.Fatalf("palette conversion is not deterministic")
		}

		if len(p) > 1 && n.A != 0 {
			c.NonTrivial(fmt.Sprint(p), n)
		}

		c.LabelIf(n.A > 0 && n.A < 0xffff, "translucent")
		c.LabelIf(len(p) == 256, "256 entries")
		c.Sample("palette of %d, %s -> %d, %s", len(p), show(v), i, show(got))
	})
}
