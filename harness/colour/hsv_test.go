package colour

import (
	"fmt"
	"image/color"
	"math"
	"testing"

	"limageverif/vt"
	"pgregory.net/rapid"
	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
)

func typeName(v any) string { return fmt.Sprintf("%T", v) }

// textbook conversions, hue from 0 to 6

func fhue(c fcolour) float64 {
	mx, mn := max(c.r, c.g, c.b), min(c.r, c.g, c.b)
	d := mx - mn

	switch {
	case d == 0:
		return 0
	case mx == c.r:
		return math.Mod((c.g-c.b)/d+6, 6)
	case mx == c.g:
		return (c.b-c.r)/d + 2
	default:
		return (c.r-c.g)/d + 4
	}
}

func toHSV(c fcolour) (h, s, v float64) {
	mx, mn := max(c.r, c.g, c.b), min(c.r, c.g, c.b)
	if mx > 0 {
		s = (mx - mn) / mx
	}

	return fhue(c), s, mx
}

func toHSL(c fcolour) (h, s, l float64) {
	mx, mn := max(c.r, c.g, c.b), min(c.r, c.g, c.b)
	l = (mx + mn) / 2

	if mx != mn {
		s = (mx - mn) / (1 - math.Abs(2*l-1))
	}

	return fhue(c), s, l
}

func fromHue(h, c, m, a float64) fcolour {
	h = math.Mod(h, 6)
	x := c * (1 - math.Abs(math.Mod(h, 2)-1))
	f := fcolour{a: a}

	switch int(h) {
	case 0:
		f.r, f.g = c, x
	case 1:
		f.r, f.g = x, c
	case 2:
		f.g, f.b = c, x
	case 3:
		f.g, f.b = x, c
	case 4:
		f.r, f.b = x, c
	default:
		f.r, f.b = c, x
	}

	f.r += m
	f.g += m
	f.b += m

	return f
}

func fromHSV(h, s, v, a float64) fcolour {
	c := v * s

	return fromHue(h, c, v-c, a)
}

func fromHSL(h, s, l, a float64) fcolour {
	c := (1 - math.Abs(2*l-1)) * s

	return fromHue(h, c, l-c/2, a)
}

var hsvModes = []limage.Composite{
	limage.CompositeHue, limage.CompositeSaturation, limage.CompositeColor, limage.CompositeValue, limage.CompositeLuminosity,
}

func gray(c color.NRGBA64) bool { return c.R == c.G && c.G == c.B }

const hsvTolerance = 24

func TestC03_Components(t *testing.T) {
	vt.Check(t, 300000, 5000000, func(t *rapid.T, c *vt.Case) {
		m := rapid.SampledFrom(hsvModes).Draw(t, "mode")
		b := colour(t, "bottom")
		top := colour(t, "top")
		fb, ft := fc(b), fc(top)
		got := m.Composite(b, top)
		bh, bs, bv := toHSV(fb)
		th, ts, tv := toHSV(ft)

		var (
			composed fcolour
			also     *fcolour // another reading, where the hue is undefined
		)

		switch m {
		case limage.CompositeHue:
			composed = fromHSV(th, bs, bv, 0)

			if gray(top) {
				composed = fb
			} else if r, g, b, _ := top.RGBA(); r == g && g == b {
				also = &fb // so transparent that it is as good as gray
			}
		case limage.CompositeSaturation:
			composed = fromHSV(bh, ts, bv, 0)

			if gray(b) {
				also = &fb
			}
		case limage.CompositeValue:
			composed = fromHSV(bh, bs, tv, 0)
		case limage.CompositeColor:
			h, s, _ := toHSL(ft)
			_, _, l := toHSL(fb)
			composed = fromHSL(h, s, l, 0)
		case limage.CompositeLuminosity:
			h, s, _ := toHSL(fb)
			_, _, l := toHSL(ft)
			composed = fromHSL(h, s, l, 0)
		}

		want := mix(fb, composed, ft.a)

		if d := diff(got, want); d > hsvTolerance && (also == nil || diff(got, mix(fb, *also, ft.a)) > hsvTolerance) {
			t.Fatalf("%s of bottom %v and top %v: got %s, want %.1f (of 65535, not premultiplied), off by %.1f", m, b, top, show(got), scaled(want), d)
		}

		if b.A != 0 && top.A != 0 && !gray(b) {
			c.NonTrivial(m, b, top)
		}

		c.Label("mode " + m.String())
		c.LabelIf(gray(top), "gray top")
		c.LabelIf(top.A < b.A && top.A > 0, "top more transparent")
		c.Label(fmt.Sprintf("bottom hue sector %d", int(bh)))
		c.Sample("%s bottom=%v top=%v -> %s", m, b, top, show(got))
	})
}

func checkHSx(t interface {
	Fatalf(string, ...any)
}, c color.NRGBA64) {
	f := fc(c)
	hsv := lcolor.RGBToHSV(c)
	back := hsv.ToNRGBA()

	if d := max(absd(back.R, c.R), absd(back.G, c.G), absd(back.B, c.B)); d > 12 || back.A != c.A {
		t.Fatalf("%v to HSV %v and back gives %v", c, hsv, back)
	}

	hsl := lcolor.RGBToHSL(c)
	back = hsl.ToNRGBA()

	if d := max(absd(back.R, c.R), absd(back.G, c.G), absd(back.B, c.B)); d > 12 || back.A != c.A {
		t.Fatalf("%v to HSL %v and back gives %v", c, hsl, back)
	}

	h, s, v := toHSV(f)
	if hueDiff(hsv.H, h) > 4 || math.Abs(float64(hsv.S)-s*0xffff) > 3 || math.Abs(float64(hsv.V)-v*0xffff) > 3 || hsv.A != c.A {
		t.Fatalf("%v to HSV gives %v, want hue %.1f saturation %.1f value %.1f (of 65535)", c, hsv, h/6*0xffff, s*0xffff, v*0xffff)
	}

	h, s, l := toHSL(f)
	if hueDiff(hsl.H, h) > 4 || math.Abs(float64(hsl.S)-s*0xffff) > 3 || math.Abs(float64(hsl.L)-l*0xffff) > 3 || hsl.A != c.A {
		t.Fatalf("%v to HSL gives %v, want hue %.1f saturation %.1f lightness %.1f (of 65535)", c, hsl, h/6*0xffff, s*0xffff, l*0xffff)
	}
}

func hueDiff(h uint16, want float64) float64 {
	d := math.Abs(float64(h) - want/6*0xffff)

	return min(d, 0xffff-d)
}

func absd(a, b uint16) int { return max(int(a)-int(b), int(b)-int(a)) }

func TestC06_FromRGB(t *testing.T) {
	vt.Check(t, 300000, 5000000, func(t *rapid.T, c *vt.Case) {
		n := colour(t, "colour")

		checkHSx(t, n)

		if !gray(n) {
			c.NonTrivial(n)
		}

		c.Label(fmt.Sprintf("hue sector %d", int(fhue(fc(n)))))
		c.LabelIf(n.A < 0xffff, "translucent")
		c.LabelIf(gray(n), "gray")
		c.Sample("%v -> %v, %v", n, lcolor.RGBToHSV(n), lcolor.RGBToHSL(n))
	})
}

func TestC06_AnyType(t *testing.T) {
	vt.Check(t, 60000, 1000000, func(t *rapid.T, c *vt.Case) {
		v, n := anyColour(t, "colour")

		if got, want := lcolor.RGBToHSV(v), lcolor.RGBToHSV(n); got != want {
			t.Fatalf("HSV of %s is %v, but of the same colour %v it is %v", show(v), got, n, want)
		}

		if got, want := lcolor.RGBToHSL(v), lcolor.RGBToHSL(n); got != want {
			t.Fatalf("HSL of %s is %v, but of the same colour %v it is %v", show(v), got, n, want)
		}

		if !gray(n) {
			c.NonTrivial(typeName(v), n)
		}

		c.Label("type " + typeName(v))
	})
}

// A grid over the whole RGB cube.
func TestC06_Grid(t *testing.T) {
	shard, shards := vt.Shard()
	step := 5

	if vt.Thorough() {
		step = 1
	}

	count := 0

	for r := shard; r < 256; r += shards {
		vt.Guard(func() {
			for g := 0; g < 256; g += step {
				for b := 0; b < 256; b += step {
					checkHSx(t, color.NRGBA64{R: uint16(r) * 0x101, G: uint16(g) * 0x101, B: uint16(b) * 0x101, A: uint16(r^g) * 0x101})

					count++
				}
			}
		})
	}

	vt.Count(t.Name(), count, func(i int) uint64 { return uint64(i*shards + shard) }, "grid over the 8-bit RGB cube")
}

func TestC06_ToRGB(t *testing.T) {
	sector := func(t *rapid.T) uint16 {
		if rapid.IntRange(0, 2).Draw(t, "hue kind") > 0 {
			return channel(t, "hue")
		}

		// around the borders of the six sectors
		return uint16(min(max(rapid.IntRange(0, 6).Draw(t, "sector")*0xffff/6+rapid.IntRange(-3, 3).Draw(t, "off"), 0), 0xffff))
	}

	vt.Check(t, 300000, 5000000, func(t *rapid.T, c *vt.Case) {
		h, s, v, a := sector(t), channel(t, "saturation"), channel(t, "value"), channel(t, "alpha")

		check := func(name string, got color.NRGBA64, r, g, b, ra uint32, want fcolour) {
			want.a = 1

			op := got
			op.A = 0xffff

			if d := diff(op, want); d > 12 || got.A != a {
				t.Fatalf("%s hue %d, saturation %d, value/lightness %d, alpha %d gives %v, want %.1f", name, h, s, v, a, got, scaled(want))
			}

			if r2, g2, b2, a2 := got.RGBA(); !near(r, r2, 2) || !near(g, g2, 2) || !near(b, b2, 2) || ra != a2 {
				t.Fatalf("%s hue %d, saturation %d, value/lightness %d, alpha %d: premultiplied %d %d %d %d, but the colour is %v", name, h, s, v, a, r, g, b, ra, got)
			}
		}

		fh, fs, fv := float64(h)/0xffff*6, float64(s)/0xffff, float64(v)/0xffff
		hsv := lcolor.HSVA{H: h, S: s, V: v, A: a}
		r, g, b, ra := hsv.RGBA()

		check("HSV", hsv.ToNRGBA(), r, g, b, ra, fromHSV(fh, fs, fv, 1))

		hsl := lcolor.HSLA{H: h, S: s, L: v, A: a}
		r, g, b, ra = hsl.RGBA()

		check("HSL", hsl.ToNRGBA(), r, g, b, ra, fromHSL(fh, fs, fv, 1))

		if s != 0 && v != 0 {
			c.NonTrivial(h, s, v, a)
		}

		c.Label(fmt.Sprintf("sector %d", int(fh)))
		c.LabelIf(v > 0x7fff, "light half")
		c.Sample("%v -> %v; %v -> %v", hsv, hsv.ToNRGBA(), hsl, hsl.ToNRGBA())
	})
}
