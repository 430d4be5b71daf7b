package colour

import (
	"image/color"
	"math"
	"testing"

	"limageverif/vt"
	"pgregory.net/rapid"
	"vimagination.zapto.org/limage"
)

func sameColour(a, b color.Color) bool {
	r1, g1, b1, a1 := a.RGBA()
	r2, g2, b2, a2 := b.RGBA()

	return near(r1, r2, 1) && near(g1, g2, 1) && near(b1, b2, 1) && near(a1, a2, 1)
}

func TestC04_Dissolve(t *testing.T) {
	const trials = 4000

	vt.Check(t, 1600, 24000, func(t *rapid.T, c *vt.Case) {
		b, bn := anyColour(t, "bottom")
		top, tn := anyColour(t, "top")

		if rapid.IntRange(0, 3).Draw(t, "top alpha") == 0 {
			tn.A = rapid.SampledFrom([]uint16{0, 1, 0x7fff, 0xfffe, 0xffff}).Draw(t, "edge alpha")
			top = tn
		}

		op := tn
		op.A = 0xffff

		if sameColour(bn, op) { // cannot be told apart
			c.Label("indistinguishable")

			return
		}

		shown := 0

		for range trials {
			got := limage.CompositeDissolve.Composite(b, top)

			switch {
			case sameColour(got, op):
				shown++
			case sameColour(got, bn):
			default:
				t.Fatalf("Dissolve of bottom %s and top %s gives %s, which is neither the bottom nor the opaque top", show(b), show(top), show(got))
			}
		}

		p := float64(tn.A) / 0xffff

		switch tn.A {
		case 0:
			if shown != 0 {
				t.Fatalf("Dissolve of bottom %s and top %s: a transparent top was shown %d times of %d", show(b), show(top), shown, trials)
			}
		case 0xffff:
			if shown != trials {
				t.Fatalf("Dissolve of bottom %s and top %s: an opaque top was shown only %d times of %d", show(b), show(top), shown, trials)
			}
		default:
			// Eight standard deviations and some more: over millions of runs of
			// this check it cannot be exceeded by chance.
			margin := 9*math.Sqrt(p*(1-p)/trials) + 20.0/trials
			if f := float64(shown) / trials; math.Abs(f-p) > margin {
				t.Fatalf("Dissolve of bottom %s and top %s: top shown with frequency %.4f, its alpha is %.4f", show(b), show(top), f, p)
			}
		}

		if tn.A != bn.A {
			c.NonTrivial(bn, tn)
		}

		c.LabelIf(tn.A == 0, "top transparent")
		c.LabelIf(tn.A == 0xffff, "top opaque")
		c.LabelIf(bn.A == 0, "bottom transparent")
		c.Sample("bottom %s top %s: shown %d of %d, alpha %.4f", show(b), show(top), shown, trials, p)
	})
}

func TestC05_PorterDuff(t *testing.T) {
	vt.Check(t, 300000, 4000000, func(t *rapid.T, c *vt.Case) {
		m := rapid.SampledFrom(porterDuff).Draw(t, "mode")
		b := colour(t, "bottom")
		top := colour(t, "top")
		x, y := fc(b), fc(top)

		// Premultiplied: result = bottom * fb + top * ft.
		var fb, ft float64

		switch m {
		case limage.CompositePlus:
			fb, ft = 1, 1
		case limage.CompositeDestinationIn:
			fb = y.a
		case limage.CompositeDestinationOut:
			fb = 1 - y.a
		case limage.CompositeSourceAtop:
			fb, ft = 1-y.a, x.a
		case limage.CompositeDestinationAtop:
			fb, ft = y.a, 1-x.a
		}

		want := [4]float64{
			clamp01(x.r*x.a*fb + y.r*y.a*ft), clamp01(x.g*x.a*fb + y.g*y.a*ft), clamp01(x.b*x.a*fb + y.b*y.a*ft), clamp01(x.a*fb + y.a*ft),
		}

		got := m.Composite(b, top)
		r, g, bl, a := got.RGBA()

		for n, v := range [4]uint32{r, g, bl, a} {
			if math.Abs(float64(v)-want[n]*0xffff) > 8 {
				t.Fatalf("%s of bottom %v and top %v: premultiplied %d %d %d %d, want %.1f", m, b, top, r, g, bl, a, [4]float64{want[0] * 0xffff, want[1] * 0xffff, want[2] * 0xffff, want[3] * 0xffff})
			}
		}

		if b.A != 0 && top.A != 0 {
			c.NonTrivial(m, b, top)
		}

		c.Label("mode " + m.String())
		c.LabelIf(b.A > 0 && b.A < 0xffff && top.A > 0 && top.A < 0xffff, "both translucent")
		c.Sample("%s bottom=%v top=%v -> %s", m, b, top, show(got))
	})
}
