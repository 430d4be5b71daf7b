package colour

import (
	"fmt"
	"image/color"
	"math"

	"pgregory.net/rapid"
	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
)

// boundary values of 16-bit channels: around 0, the middle and the top, around
// 8-bit steps, and factors which nearly overflow products.
var edges = []uint16{
	0, 1, 2, 0xff, 0x100, 0x101, 0x102, 0x1fff, 0x3fff, 0x4000, 0x5554, 0x5555, 0x7ffd, 0x7ffe, 0x7fff, 0x8000, 0x8001, 0x807f, 0x8080, 0x8081,
	0xaaaa, 0xaaab, 0xbfff, 0xc000, 0xfefd, 0xfefe, 0xfeff, 0xff00, 0xfffd, 0xfffe, 0xffff,
}

// channel draws a 16-bit channel value.
func channel(t *rapid.T, label string) uint16 {
	switch rapid.IntRange(0, 5).Draw(t, label+" kind") {
	case 0, 1:
		return rapid.SampledFrom(edges).Draw(t, label)
	case 2:
		return uint16(rapid.IntRange(0, 255).Draw(t, label)) * 0x101
	default:
		// Not rapid.Uint16, which favours small values.
		return uint16(rapid.IntRange(0, 255).Draw(t, label+" hi")<<8 | rapid.IntRange(0, 255).Draw(t, label+" lo"))
	}
}

// colour draws a non-premultiplied colour, often with related channels (gray,
// two equal channels, pure) as these select branches.
func colour(t *rapid.T, label string) color.NRGBA64 {
	c := color.NRGBA64{R: channel(t, label+".R"), A: channel(t, label+".A")}

	switch rapid.IntRange(0, 9).Draw(t, label+" shape") {
	case 0:
		c.G, c.B = c.R, c.R
	case 1:
		c.G, c.B = c.R, channel(t, label+".B")
	case 2:
		c.B, c.G = c.R, channel(t, label+".G")
	case 3:
		c.G = channel(t, label+".G")
		c.B = c.G
	case 4: // nearly gray
		d := func(l string) uint16 {
			return uint16(min(max(int(c.R)+rapid.IntRange(-3, 3).Draw(t, label+l), 0), 0xffff))
		}
		c.G, c.B = d(".dG"), d(".dB")
	default:
		c.G, c.B = channel(t, label+".G"), channel(t, label+".B")
	}

	switch rapid.IntRange(0, 5).Draw(t, label+" alpha") {
	case 0, 1:
		c.A = 0xffff
	}

	return c
}

// other draws a colour of another type together with its exact 16-bit
// non-premultiplied equivalent.
func anyColour(t *rapid.T, label string) (color.Color, color.NRGBA64) {
	c := colour(t, label)
	n8 := color.NRGBA{R: uint8(c.R >> 8), G: uint8(c.G >> 8), B: uint8(c.B >> 8), A: uint8(c.A >> 8)}
	x := func(v uint8) uint16 { return uint16(v) * 0x101 }

	switch rapid.IntRange(0, 13).Draw(t, label+" type") {
	case 0:
		return n8, color.NRGBA64{R: x(n8.R), G: x(n8.G), B: x(n8.B), A: x(n8.A)}
	case 1:
		p := color.RGBA64Model.Convert(c).(color.RGBA64)

		return p, unmul(p)
	case 2:
		p := color.RGBAModel.Convert(c).(color.RGBA)

		return p, unmul(p)
	case 3:
		return color.Gray{Y: n8.R}, color.NRGBA64{R: x(n8.R), G: x(n8.R), B: x(n8.R), A: 0xffff}
	case 4:
		return color.Gray16{Y: c.R}, color.NRGBA64{R: c.R, G: c.R, B: c.R, A: 0xffff}
	case 5:
		p := color.Alpha{A: n8.A}

		return p, unmul(p)
	case 6:
		p := color.Alpha16{A: c.A}

		return p, unmul(p)
	case 7:
		p := color.CMYK{C: n8.R, M: n8.G, Y: n8.B, K: n8.A}

		return p, unmul(p)
	case 8:
		p := color.YCbCr{Y: n8.R, Cb: n8.G, Cr: n8.B}

		return p, unmul(p)
	case 9:
		p := lcolor.RGB{R: n8.R, G: n8.G, B: n8.B}

		return p, color.NRGBA64{R: x(n8.R), G: x(n8.G), B: x(n8.B), A: 0xffff}
	case 10:
		p := lcolor.GrayAlpha{Y: n8.R, A: n8.A}

		return p, color.NRGBA64{R: x(n8.R), G: x(n8.R), B: x(n8.R), A: x(n8.A)}
	case 11:
		p := foreign(color.RGBA64Model.Convert(c).(color.RGBA64))

		return p, unmul(p)
	case 12:
		p := color.NYCbCrA{YCbCr: color.YCbCr{Y: n8.R, Cb: n8.G, Cr: n8.B}, A: n8.A}

		return p, unmul(p)
	default:
		return c, c
	}
}

// foreign is a colour type the library cannot know.
type foreign color.RGBA64

func (f foreign) RGBA() (uint32, uint32, uint32, uint32) { return color.RGBA64(f).RGBA() }

func unmul(c color.Color) color.NRGBA64 {
	return color.NRGBA64Model.Convert(c).(color.NRGBA64)
}

// fcolour is a colour with channels from 0 to 1, not premultiplied.
type fcolour struct{ r, g, b, a float64 }

func fc(c color.NRGBA64) fcolour {
	return fcolour{float64(c.R) / 0xffff, float64(c.G) / 0xffff, float64(c.B) / 0xffff, float64(c.A) / 0xffff}
}

// diff compares the colour with the expected one, premultiplied, and gives the
// greatest difference in 16-bit steps.
func diff(got color.Color, want fcolour) float64 {
	r, g, b, a := got.RGBA()
	d := func(v uint32, w float64) float64 { return math.Abs(float64(v) - w*0xffff) }

	return max(d(r, want.r*want.a), d(g, want.g*want.a), d(b, want.b*want.a), d(a, want.a))
}

func show(c color.Color) string {
	if c == nil {
		return "nil"
	}

	r, g, b, a := c.RGBA()

	return fmt.Sprintf("%T%v (premultiplied %04x %04x %04x %04x)", c, c, r, g, b, a)
}

func clamp01(v float64) float64 { return min(max(v, 0), 1) }

// channel formulas of the separable modes, x being the bottom and y the top,
// as published for GIMP 2.8 and in the XCF documentation.
var separable = map[limage.Composite]func(x, y float64) float64{
	limage.CompositeMultiply:   func(x, y float64) float64 { return x * y },
	limage.CompositeScreen:     func(x, y float64) float64 { return 1 - (1-x)*(1-y) },
	limage.CompositeOverlay:    func(x, y float64) float64 { return (1-x)*(x*y) + x*(1-(1-x)*(1-y)) },
	limage.CompositeSoftLight:  func(x, y float64) float64 { return (1-x)*(x*y) + x*(1-(1-x)*(1-y)) },
	limage.CompositeDifference: func(x, y float64) float64 { return math.Abs(x - y) },
	limage.CompositeAddition:   func(x, y float64) float64 { return clamp01(x + y) },
	limage.CompositeSubtract:   func(x, y float64) float64 { return clamp01(x - y) },

	limage.CompositeDarkenOnly:  math.Min,
	limage.CompositeLightenOnly: math.Max,

	limage.CompositeDivide: func(x, y float64) float64 {
		if y == 0 {
			if x == 0 {
				return 0
			}

			return 1
		}

		return clamp01(x / y)
	},
	limage.CompositeDodge: func(x, y float64) float64 {
		if y == 1 {
			if x == 0 {
				return 0
			}

			return 1
		}

		return clamp01(x / (1 - y))
	},
	limage.CompositeBurn: func(x, y float64) float64 {
		if y == 0 {
			if x == 1 {
				return 1
			}

			return 0
		}

		return clamp01(1 - (1-x)/y)
	},
	limage.CompositeHardLight: func(x, y float64) float64 {
		if y <= 0.5 {
			return 2 * x * y
		}

		return 1 - 2*(1-x)*(1-y)
	},
	limage.CompositeGrainExtract: func(x, y float64) float64 { return clamp01(x - y + 0.5) },
	limage.CompositeGrainMerge:   func(x, y float64) float64 { return clamp01(x + y - 0.5) },
}

var separableModes = []limage.Composite{
	limage.CompositeNormal, limage.CompositeBehind, limage.CompositeMultiply, limage.CompositeScreen, limage.CompositeOverlay, limage.CompositeDifference,
	limage.CompositeAddition, limage.CompositeSubtract, limage.CompositeDarkenOnly, limage.CompositeLightenOnly, limage.CompositeDivide, limage.CompositeDodge,
	limage.CompositeBurn, limage.CompositeHardLight, limage.CompositeSoftLight, limage.CompositeGrainExtract, limage.CompositeGrainMerge,
}

// tolerance of a mode in 16-bit steps: rounding of each intermediate, and for
// the grain modes also whether the middle is 127.5 or 128 of 255.
func tolerance(m limage.Composite) float64 {
	if m == limage.CompositeGrainExtract || m == limage.CompositeGrainMerge {
		return 140
	}

	return 8
}

func mix(bottom, composed fcolour, topA float64) fcolour {
	if bottom.a == 0 {
		return fcolour{}
	}

	ma := min(bottom.a, topA)
	k := ma / (1 - (1-bottom.a)*(1-ma))
	l := func(x, y float64) float64 { return (1-k)*x + k*y }

	return fcolour{l(bottom.r, composed.r), l(bottom.g, composed.g), l(bottom.b, composed.b), bottom.a}
}

func separableReference(m limage.Composite, b, t fcolour) fcolour {
	switch m {
	case limage.CompositeBehind:
		return b
	case limage.CompositeNormal:
		a := 1 - (1-b.a)*(1-t.a)
		if a == 0 {
			return fcolour{}
		}

		k := t.a / a
		l := func(x, y float64) float64 { return (1-k)*x + k*y }

		return fcolour{l(b.r, t.r), l(b.g, t.g), l(b.b, t.b), a}
	}

	f := separable[m]

	return mix(b, fcolour{f(b.r, t.r), f(b.g, t.g), f(b.b, t.b), 0}, t.a)
}
