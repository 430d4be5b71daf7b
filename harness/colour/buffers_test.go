package colour

import (
	"fmt"
	"image"
	"image/color"
	"image/draw"
	"testing"

	"limageverif/gen"
	"limageverif/vt"
	"pgregory.net/rapid"
	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
)

type buffer interface {
	draw.Image
	Opaque() bool
	SubImage(image.Rectangle) image.Image
}

// pixel is the model of one stored pixel: for RGB R, G, B; for gray Y, A; for
// paletted images I, A.
type pixel [3]uint8

type kind struct {
	name   string
	create func(image.Rectangle) buffer
	typed  func(buffer, int, int, pixel)          // the typed setter
	read   func(buffer, int, int) pixel           // the typed getter
	store  func(color.Color) pixel                // what Set should store
	shown  func(pixel) color.Color                // what At should give
	opaque func(pixel) bool                       // full alpha
	model  func(t *rapid.T, b buffer)             // checks the colour model
	random func(t *rapid.T, label string) pixel   // draws a pixel
	pix    func(b buffer, x, y int) (pixel, bool) // reads through Pix and PixOffset
}

func rgbKind() kind {
	return kind{
		name:   "RGB",
		create: func(r image.Rectangle) buffer { return limage.NewRGB(r) },
		typed: func(b buffer, x, y int, p pixel) {
			b.(*limage.RGB).SetRGB(x, y, lcolor.RGB{R: p[0], G: p[1], B: p[2]})
		},
		read: func(b buffer, x, y int) pixel {
			c := b.(*limage.RGB).RGBAt(x, y)

			return pixel{c.R, c.G, c.B}
		},
		store: func(c color.Color) pixel {
			v := lcolor.RGBModel.Convert(c).(lcolor.RGB)

			return pixel{v.R, v.G, v.B}
		},
		shown:  func(p pixel) color.Color { return lcolor.RGB{R: p[0], G: p[1], B: p[2]} },
		opaque: func(pixel) bool { return true },
		model: func(t *rapid.T, b buffer) {
			if got := b.ColorModel().Convert(color.NRGBA{R: 1, G: 2, B: 3, A: 255}); got != (lcolor.RGB{R: 1, G: 2, B: 3}) {
				t.Fatalf("colour model gives %v", got)
			}
		},
		random: func(t *rapid.T, label string) pixel {
			v := rapid.Uint32().Draw(t, label)

			return pixel{uint8(v), uint8(v >> 8), uint8(v >> 16)}
		},
		pix: func(b buffer, x, y int) (pixel, bool) {
			i := b.(*limage.RGB)
			c := i.Pix[i.PixOffset(x, y)]

			return pixel{c.R, c.G, c.B}, true
		},
	}
}

func grayKind() kind {
	return kind{
		name:   "GrayAlpha",
		create: func(r image.Rectangle) buffer { return limage.NewGrayAlpha(r) },
		typed: func(b buffer, x, y int, p pixel) {
			b.(*limage.GrayAlpha).SetGrayAlpha(x, y, lcolor.GrayAlpha{Y: p[0], A: p[1]})
		},
		read: func(b buffer, x, y int) pixel {
			c := b.(*limage.GrayAlpha).GrayAlphaAt(x, y)

			return pixel{c.Y, c.A}
		},
		store: func(c color.Color) pixel {
			v := lcolor.GrayAlphaModel.Convert(c).(lcolor.GrayAlpha)

			return pixel{v.Y, v.A}
		},
		shown:  func(p pixel) color.Color { return lcolor.GrayAlpha{Y: p[0], A: p[1]} },
		opaque: func(p pixel) bool { return p[1] == 255 },
		model: func(t *rapid.T, b buffer) {
			if got := b.ColorModel().Convert(color.NRGBA{R: 9, G: 9, B: 9, A: 200}); got != (lcolor.GrayAlpha{Y: 9, A: 200}) {
				t.Fatalf("colour model gives %v", got)
			}
		},
		random: func(t *rapid.T, label string) pixel {
			return pixel{uint8(rapid.IntRange(0, 255).Draw(t, label)), rapid.SampledFrom([]uint8{255, 255, 255, 254, 128, 1, 0}).Draw(t, label+" alpha")}
		},
		pix: func(b buffer, x, y int) (pixel, bool) {
			i := b.(*limage.GrayAlpha)
			c := i.Pix[i.PixOffset(x, y)]

			return pixel{c.Y, c.A}, true
		},
	}
}

func palettedKind(pal lcolor.AlphaPalette) kind {
	return kind{
		name:   "PalettedAlpha",
		create: func(r image.Rectangle) buffer { return limage.NewPalettedAlpha(r, pal) },
		typed: func(b buffer, x, y int, p pixel) {
			b.(*limage.PalettedAlpha).SetIndexAlpha(x, y, lcolor.IndexedAlpha{I: p[0], A: p[1]})
		},
		read: func(b buffer, x, y int) pixel {
			c := b.(*limage.PalettedAlpha).IndexAlphaAt(x, y)

			return pixel{c.I, c.A}
		},
		store: func(c color.Color) pixel {
			_, _, _, a := c.RGBA()

			return pixel{uint8(pal.Index(c)), uint8(a >> 8)}
		},
		shown: func(p pixel) color.Color {
			r, g, b, _ := pal[p[0]].RGBA()

			return color.NRGBA{R: uint8(r >> 8), G: uint8(g >> 8), B: uint8(b >> 8), A: p[1]}
		},
		opaque: func(p pixel) bool { return p[1] == 255 },
		model: func(t *rapid.T, b buffer) {
			r, g, bl, _ := pal[0].RGBA()
			want := color.NRGBA64{R: uint16(r), G: uint16(g), B: uint16(bl), A: 0x8080}

			if got := b.ColorModel().Convert(want); !sameColour(got, want) {
				t.Fatalf("colour model gives %v, want %v", got, want)
			}
		},
		random: func(t *rapid.T, label string) pixel {
			return pixel{uint8(rapid.IntRange(0, len(pal)-1).Draw(t, label)), rapid.SampledFrom([]uint8{255, 255, 255, 254, 128, 1, 0}).Draw(t, label+" alpha")}
		},
		pix: func(b buffer, x, y int) (pixel, bool) {
			i := b.(*limage.PalettedAlpha)
			c := i.Pix[i.PixOffset(x, y)]

			return pixel{c.I, c.A}, true
		},
	}
}

func genRect(t *rapid.T, around image.Rectangle, label string) image.Rectangle {
	x := rapid.IntRange(around.Min.X-3, around.Max.X+3)
	y := rapid.IntRange(around.Min.Y-3, around.Max.Y+3)

	return image.Rect(x.Draw(t, label+" x0"), y.Draw(t, label+" y0"), x.Draw(t, label+" x1"), y.Draw(t, label+" y1"))
}

type view struct {
	b    buffer
	rect image.Rectangle
}

func TestC08_Buffers(t *testing.T) {
	vt.Check(t, 12000, 250000, func(t *rapid.T, c *vt.Case) {
		var k kind

		switch rapid.IntRange(0, 2).Draw(t, "kind") {
		case 0:
			k = rgbKind()
		case 1:
			k = grayKind()
		default:
			k = palettedKind(genPalette(t))
		}

		minX := rapid.IntRange(-9, 9).Draw(t, "min x")
		minY := rapid.IntRange(-9, 9).Draw(t, "min y")
		rect := image.Rect(minX, minY, minX+rapid.IntRange(0, 9).Draw(t, "width"), minY+rapid.IntRange(0, 9).Draw(t, "height"))
		base := k.create(rect)
		model := map[image.Point]pixel{}
		views := []view{{base, rect}}
		subs, writes, opaques, outside := 0, 0, 0, 0
		history := fmt.Sprintf("%s %v", k.name, rect)

		pick := func(t *rapid.T) view {
			return views[rapid.IntRange(0, len(views)-1).Draw(t, "view")]
		}
		point := func(t *rapid.T, v view) image.Point {
			return image.Point{X: rapid.IntRange(v.rect.Min.X-2, v.rect.Max.X+1).Draw(t, "x"), Y: rapid.IntRange(v.rect.Min.Y-2, v.rect.Max.Y+1).Draw(t, "y")}
		}
		compare := func(t *rapid.T, v view, p image.Point) {
			want := pixel{}
			in := p.In(v.rect)

			if in {
				want = model[p]
			} else {
				outside++
			}

			if got := k.read(v.b, p.X, p.Y); got != want {
				t.Fatalf("%s with bounds %v holds %v at %v, want %v (inside: %t)", k.name, v.rect, got, p, want, in)
			}

			if got := v.b.At(p.X, p.Y); got == nil || got != k.shown(want) {
				t.Fatalf("%s with bounds %v shows %v at %v, want %v (inside: %t)", k.name, v.rect, got, p, k.shown(want), in)
			}

			if in {
				if got, ok := k.pix(v.b, p.X, p.Y); ok && got != want {
					t.Fatalf("%s with bounds %v has %v in Pix at PixOffset%v, want %v", k.name, v.rect, got, p, want)
				}
			}
		}

		t.Repeat(map[string]func(*rapid.T){
			"Set": func(t *rapid.T) {
				v := pick(t)
				p := point(t, v)
				col, _ := anyColour(t, "colour")

				v.b.Set(p.X, p.Y, col)

				if p.In(v.rect) {
					model[p] = k.store(col)
					writes++
				}
			},
			"SetTyped": func(t *rapid.T) {
				v := pick(t)
				p := point(t, v)
				px := k.random(t, "pixel")

				k.typed(v.b, p.X, p.Y, px)

				if p.In(v.rect) {
					model[p] = px
					writes++
				}
			},
			"Fill": func(t *rapid.T) {
				v := pick(t)
				px := k.random(t, "pixel")

				if px[1] < 255 && rapid.Bool().Draw(t, "make opaque") {
					px[1] = 255
				}

				for y := v.rect.Min.Y; y < v.rect.Max.Y; y++ {
					for x := v.rect.Min.X; x < v.rect.Max.X; x++ {
						k.typed(v.b, x, y, px)
						model[image.Point{X: x, Y: y}] = px
					}
				}

				writes++
			},
			"SetOwn": func(t *rapid.T) { // what is read can be written back
				v := pick(t)
				p := point(t, v)

				if !p.In(v.rect) {
					return
				}

				shown := v.b.At(p.X, p.Y)

				v.b.Set(p.X, p.Y, shown)

				if got := v.b.At(p.X, p.Y); got != shown {
					if _, _, _, a := shown.RGBA(); a != 0 {
						t.Fatalf("%s: writing back %v read at %v makes it %v", k.name, shown, p, got)
					}
				}

				model[p] = k.read(v.b, p.X, p.Y)
			},
			"At": func(t *rapid.T) {
				v := pick(t)
				compare(t, v, point(t, v))
			},
			"SubImage": func(t *rapid.T) {
				if len(views) > 6 {
					return
				}

				v := pick(t)
				r := genRect(t, v.rect, "sub")
				s, ok := v.b.SubImage(r).(buffer)

				if !ok {
					t.Fatalf("%s: sub-image is a %T", k.name, v.b.SubImage(r))
				}

				want := r.Intersect(v.rect)

				if want.Empty() {
					if !s.Bounds().Empty() {
						t.Fatalf("%s with bounds %v: sub-image %v has bounds %v", k.name, v.rect, r, s.Bounds())
					}

					want = s.Bounds()
				} else if s.Bounds() != want {
					t.Fatalf("%s with bounds %v: sub-image %v has bounds %v", k.name, v.rect, r, s.Bounds())
				}

				views = append(views, view{s, want})
				subs++
				history += fmt.Sprintf(" sub%v", want)
			},
			"Opaque": func(t *rapid.T) {
				v := pick(t)
				want := true

				for y := v.rect.Min.Y; y < v.rect.Max.Y; y++ {
					for x := v.rect.Min.X; x < v.rect.Max.X; x++ {
						want = want && k.opaque(model[image.Point{X: x, Y: y}])
					}
				}

				if got := v.b.Opaque(); got != want && !v.rect.Empty() {
					t.Fatalf("%s with bounds %v: Opaque is %t, want %t", k.name, v.rect, got, want)
				}

				if want {
					opaques++
				}
			},
			"": func(t *rapid.T) {
				v := pick(t)

				if v.b.Bounds() != v.rect {
					t.Fatalf("%s: bounds changed from %v to %v", k.name, v.rect, v.b.Bounds())
				}
			},
		})

		k.model(t, base)

		for _, v := range views {
			for y := v.rect.Min.Y - 1; y <= v.rect.Max.Y; y++ {
				for x := v.rect.Min.X - 1; x <= v.rect.Max.X; x++ {
					compare(t, v, image.Point{X: x, Y: y})
				}
			}
		}

		if subs > 0 && writes > 0 && !rect.Empty() {
			c.NonTrivial(history, writes, fmt.Sprint(model))
		}

		c.Label("kind " + k.name)
		c.LabelIf(subs > 0, "with sub-images")
		c.LabelIf(subs > 1, "with several sub-images")
		c.LabelIf(opaques > 0, "some view opaque")
		c.LabelIf(rect.Empty(), "empty image")
		c.Sample("%s, %d writes, %d pixels set", history, writes, len(model))
	})
}

// TestC08_Colourless: without a palette there are no colours, and no panics.
func TestC08_Colourless(t *testing.T) {
	vt.Check(t, 300, 6000, func(t *rapid.T, c *vt.Case) {
		r := image.Rect(0, 0, rapid.IntRange(0, 4).Draw(t, "w"), rapid.IntRange(0, 4).Draw(t, "h")).Add(image.Pt(rapid.IntRange(-3, 3).Draw(t, "x"), rapid.IntRange(-3, 3).Draw(t, "y")))
		n := rapid.IntRange(0, 4).Draw(t, "image")
		m := gen.Colourless(n, r)

		if b, ok := m.(draw.Image); ok && rapid.Bool().Draw(t, "set") {
			col, _ := anyColour(t, "colour")
			b.Set(r.Min.X, r.Min.Y, col)
			b.Set(r.Max.X, r.Max.Y, col)
		}

		layer := limage.Layer{LayerBounds: image.Rectangle{Max: r.Size()}, Image: m, Transparency: uint8(rapid.SampledFrom([]int{0, 1, 128, 254, 255}).Draw(t, "transparency")), Mode: limage.Composite(rapid.IntRange(0, 45).Draw(t, "mode"))}
		below := limage.Layer{LayerBounds: image.Rectangle{Max: r.Size()}, Image: image.NewUniform(color.NRGBA{R: 10, G: 200, B: 90, A: 255})}

		for y := -4; y < 8; y++ {
			for x := -4; x < 8; x++ {
				if got := m.At(x, y); got != nil {
					if _, _, _, a := got.RGBA(); a != 0 {
						t.Fatalf("%T without colours has %v at %d,%d", m, got, x, y)
					}
				}

				for _, g := range []limage.Image{{layer}, {layer, below}, {below, layer}} {
					got := g.At(x, y)
					if got == nil {
						t.Fatalf("no colour at %d,%d of a layered image with %T", x, y, m)
					}

					if _, _, _, a := got.RGBA(); len(g) == 1 && a != 0 {
						t.Fatalf("%v at %d,%d of an image with nothing but %T", got, x, y, m)
					}
				}
			}
		}

		c.Label("without colours")
		c.NonTrivial("colourless", n, r, layer.Transparency, layer.Mode)
		c.Sample("%T %v", m, r)
	})
}
