package colour

import (
	"image/color"
	"math"
	"testing"

	"limageverif/vt"
	"pgregory.net/rapid"
	"vimagination.zapto.org/limage"
)

func TestC01_Separable(t *testing.T) {
	vt.Check(t, 400000, 6000000, func(t *rapid.T, c *vt.Case) {
		m := rapid.SampledFrom(separableModes).Draw(t, "mode")
		b := colour(t, "bottom")
		top := colour(t, "top")

		got := m.Composite(b, top)
		want := separableReference(m, fc(b), fc(top))

		if d := diff(got, want); d > tolerance(m) {
			t.Fatalf("%s of bottom %v and top %v: got %s, want %.1f (of 65535, not premultiplied), off by %.1f", m, b, top, show(got), scaled(want), d)
		}

		if b.A != 0 && top.A != 0 && !(b.R == b.G && b.G == b.B && top.R == top.G && top.G == top.B) {
			c.NonTrivial(m, b, top)
		}

		c.Label("mode " + m.String())
		c.LabelIf(b.A == 0xffff && top.A == 0xffff, "both opaque")
		c.LabelIf(b.A > 0 && b.A < 0xffff && top.A > 0 && top.A < 0xffff, "both translucent")
		c.LabelIf(b.A == 0, "bottom transparent")
		c.LabelIf(top.A == 0, "top transparent")
		c.Sample("%s bottom=%v top=%v -> %s", m, b, top, show(got))
	})
}

// Every pair of 8-bit channel values, with different pairs in the three
// channels at once, so that a mix-up of channels shows.
func TestC01_EveryBytePair(t *testing.T) {
	shard, shards := vt.Shard()

	for n, m := range separableModes {
		if n%shards != shard {
			continue
		}

		vt.Guard(func() {
			for x := 0; x < 256; x++ {
				for y := 0; y < 256; y++ {
					at := func(v int) uint16 { return uint16(v&255) * 0x101 }
					b := color.NRGBA64{R: at(x), G: at(x*7 + 3), B: at(255 - x), A: 0xffff}
					top := color.NRGBA64{R: at(y), G: at(y*5 + 11), B: at(y ^ 0x5a), A: 0xffff}
					got := m.Composite(b, top)
					want := separableReference(m, fc(b), fc(top))

					if d := diff(got, want); d > tolerance(m) {
						t.Fatalf("%s of bottom %v and top %v: got %s, want %.1f, off by %.1f", m, b, top, show(got), scaled(want), d)
					}
				}
			}
		})

		vt.Count(t.Name(), 65536, func(i int) uint64 { return uint64(n)<<32 | uint64(i) }, m.String()+": all 65536 pairs of byte values, opaque")
	}
}

// Every pair of boundary values for one channel, over every pair of boundary
// alphas.
func TestC01_Boundaries(t *testing.T) {
	shard, shards := vt.Shard()
	alphas := []uint16{0, 1, 2, 0x101, 0x7fff, 0x8000, 0xfefe, 0xfffe, 0xffff}

	for n, m := range separableModes {
		if n%shards != shard {
			continue
		}

		count := 0

		vt.Guard(func() {
			for i, x := range edges {
				for j, y := range edges {
					for _, ba := range alphas {
						for _, ta := range alphas {
							b := color.NRGBA64{R: x, G: edges[(i*3+j)%len(edges)], B: ^x, A: ba}
							top := color.NRGBA64{R: y, G: edges[(j*5+i+1)%len(edges)], B: y, A: ta}
							got := m.Composite(b, top)
							want := separableReference(m, fc(b), fc(top))

							if d := diff(got, want); d > tolerance(m) {
								t.Fatalf("%s of bottom %v and top %v: got %s, want %.1f, off by %.1f", m, b, top, show(got), scaled(want), d)
							}

							count++
						}
					}
				}
			}
		})

		vt.Count(t.Name(), count, func(i int) uint64 { return uint64(n)<<32 | uint64(i) }, m.String()+": pairs of boundary channel values and alphas")
	}
}

func scaled(f fcolour) [4]float64 {
	return [4]float64{f.r * 0xffff, f.g * 0xffff, f.b * 0xffff, f.a * 0xffff}
}

// The modes whose alpha follows none of the laws below.
var porterDuff = []limage.Composite{
	limage.CompositePlus, limage.CompositeDestinationIn, limage.CompositeDestinationOut, limage.CompositeSourceAtop, limage.CompositeDestinationAtop,
}

func isPorterDuff(m limage.Composite) bool {
	return m >= limage.CompositePlus && m <= limage.CompositeDestinationAtop
}

// blending modes: all those which only recolour the bottom.
func isBlend(m limage.Composite) bool {
	return m <= limage.CompositeLuminosity && m != limage.CompositeNormal && m != limage.CompositeDissolve
}

func genMode(t *rapid.T) limage.Composite {
	switch rapid.IntRange(0, 11).Draw(t, "mode kind") {
	case 0:
		return limage.Composite(rapid.Uint32().Draw(t, "unknown mode"))
	case 1, 2:
		return limage.Composite(rapid.IntRange(int(limage.CompositePlus), int(limage.CompositePassThrough)).Draw(t, "late mode"))
	default:
		return limage.Composite(rapid.IntRange(0, int(limage.CompositePlus)-1).Draw(t, "mode"))
	}
}

func TestC02_Laws(t *testing.T) {
	vt.Check(t, 300000, 5000000, func(t *rapid.T, c *vt.Case) {
		m := genMode(t)
		b, bn := anyColour(t, "bottom")
		top, tn := anyColour(t, "top")

		got := m.Composite(b, top)
		if got == nil {
			t.Fatalf("%d (%s) of %s and %s: no colour", m, m, show(b), show(top))
		}

		r, g, bl, a := got.RGBA()
		if a > 0xffff || r > a || g > a || bl > a {
			t.Fatalf("%d (%s) of %s and %s: not a valid colour: %s", m, m, show(b), show(top), show(got))
		}

		if m.String() == "" {
			t.Fatalf("mode %d has no name", m)
		}

		// The same colours as 16-bit non-premultiplied ones.
		if m != limage.CompositeDissolve {
			same := m.Composite(bn, tn)

			if r2, g2, b2, a2 := same.RGBA(); !near(r, r2, 1) || !near(g, g2, 1) || !near(bl, b2, 1) || !near(a, a2, 1) {
				t.Fatalf("%d (%s) of %s and %s gives %s, but of %s and %s, the same colours, %s", m, m, show(b), show(top), show(got), show(bn), show(tn), show(same))
			}

			again := m.Composite(b, top)
			if r2, g2, b2, a2 := again.RGBA(); r != r2 || g != g2 || bl != b2 || a != a2 {
				t.Fatalf("%d (%s) of %s and %s gives %s and then %s", m, m, show(b), show(top), show(got), show(again))
			}
		}

		if !isPorterDuff(m) && tn.A == 0 {
			if d := diff(got, fc(bn)); d > 4 {
				t.Fatalf("%d (%s): transparent top changed bottom %s to %s", m, m, show(b), show(got))
			}
		}

		if m == limage.CompositeNormal && tn.A == 0xffff {
			if d := diff(got, fc(tn)); d > 4 {
				t.Fatalf("Normal: opaque top %s over %s gives %s", show(top), show(b), show(got))
			}
		}

		if isBlend(m) {
			if a != uint32(bn.A) {
				t.Fatalf("%s of %s and %s: alpha of the bottom changed to %04x", m, show(b), show(top), a)
			}
		}

		if m == limage.CompositeNormal {
			want := 0xffff - float64(0xffff-uint32(bn.A))*float64(0xffff-uint32(tn.A))/0xffff
			if math.Abs(float64(a)-want) > 2 {
				t.Fatalf("Normal of %s and %s: alpha %04x, want %.1f", show(b), show(top), a, want)
			}
		}

		c.NonTrivial(m, bn, tn, typeName(b), typeName(top))
		c.LabelIf(isBlend(m), "blend mode")
		c.LabelIf(isPorterDuff(m), "Porter-Duff mode")
		c.LabelIf(m > limage.CompositeDestinationAtop, "mode not rendered specially")
		c.LabelIf(tn.A == 0, "top transparent")
		c.LabelIf(bn.A == 0, "bottom transparent")
		c.Label("bottom " + typeName(b))
		c.Sample("%d (%s) of %s and %s -> %s", m, m, show(b), show(top), show(got))
	})
}

func near(a, b, by uint32) bool {
	return a <= b+by && b <= a+by
}
