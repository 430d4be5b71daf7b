package xcf

import (
	"fmt"
	"image"
	"image/color"
	"testing"

	"limageverif/cmp"
	"limageverif/gen"
	"limageverif/vt"
	"limageverif/xcfgen"
	"limageverif/xcfref"
	"pgregory.net/rapid"
	"vimagination.zapto.org/limage"
)

// numbers gives what layer groups are in a file, as the specification has them.
func sameLayers(f *xcfref.File, ls []*xcfref.Layer, g limage.Image, origin image.Point, path string) error {
	if len(ls) != len(g) {
		return fmt.Errorf("group %q: %d layers in the file, %d in the image", path, len(ls), len(g))
	}

	for i, l := range g {
		x := ls[i]
		name := fmt.Sprintf("%s/%d", path, i)
		area := l.LayerBounds.Add(origin)

		switch {
		case x.Name != l.Name:
			return fmt.Errorf("layer %s: name %q in the file, %q in the image", name, x.Name, l.Name)
		case x.Hidden != l.Invisible:
			return fmt.Errorf("layer %s: hidden %t, invisible %t", name, x.Hidden, l.Invisible)
		case x.Opacity != 255-l.Transparency:
			return fmt.Errorf("layer %s: opacity %d, transparency %d", name, x.Opacity, l.Transparency)
		case f.Base != xcfref.Indexed && xcfgen.Modes[x.Mode] != l.Mode, f.Base == xcfref.Indexed && x.Mode < 3 && xcfgen.Modes[x.Mode] != l.Mode:
			return fmt.Errorf("layer %s: mode %d, for %s (%d)", name, x.Mode, l.Mode, l.Mode)
		case int(x.W) != area.Dx() || int(x.H) != area.Dy() || int(x.X) != area.Min.X || int(x.Y) != area.Min.Y:
			if !area.Empty() || x.W != 0 && x.H != 0 {
				return fmt.Errorf("layer %s: %dx%d at %d,%d, for %v", name, x.W, x.H, x.X, x.Y, area)
			}
		}

		base := l.Image
		masked, ok := cmp.Masked(l.Image)

		if ok != (x.Mask != nil) {
			return fmt.Errorf("layer %s: mask %t in the file, %t in the image", name, x.Mask != nil, ok)
		}

		if ok {
			base = masked.Image

			if x.ApplyMask == 2 {
				return fmt.Errorf("layer %s: the mask is not to be applied", name)
			}

			for n, v := range x.Mask.Pixels {
				if w := masked.Mask.GrayAt(n%int(x.W), n/int(x.W)).Y; v != w {
					return fmt.Errorf("layer %s: the mask has %d, not %d, at pixel %d", name, v, w, n)
				}
			}
		}

		g2, ok := cmp.AsGroup(base)

		if ok != x.IsGroup {
			return fmt.Errorf("layer %s: group %t in the file, %t in the image", name, x.IsGroup, ok)
		}

		if isText := isText(l.Image); isText != x.HasText {
			return fmt.Errorf("layer %s: text %t in the file, %t in the image", name, x.HasText, isText)
		}

		if ok {
			if err := sameLayers(f, x.Items, g2, area.Min, name); err != nil {
				return err
			}

			if !x.Alpha && len(g2) > 0 {
				return fmt.Errorf("layer %s: a group without alpha", name)
			}

			// The picture of the group is for programs which do not know groups.
			if f.Base != xcfref.RGB || random(g2) {
				continue
			}
		}

		base = cmp.Base(base)
		by := max(cmp.Tolerance(base), 2)

		if _, ok := base.(*limage.GrayAlpha); ok && f.Base == xcfref.Gray {
			by = 0x101
		}

		if ok {
			by = 0x210
		}

		step := xcfref.BPP(f.Base, x.Alpha)

		for n := 0; n < int(x.W)*int(x.H); n++ {
			c := colourOf(f, x, x.Pixels[n*step:])

			if got, want := cmp.Of(c), cmp.Of(base.At(n%int(x.W), n/int(x.W))); !got.Near(want, by) {
				return fmt.Errorf("layer %s (%T): pixel %d,%d is %v in the file, %v in the image", name, base, n%int(x.W), n/int(x.W), got, want)
			}
		}
	}

	return nil
}

// random reports whether there are layers which show something else each time.
func random(g limage.Image) bool {
	for _, l := range g {
		if l.Mode == limage.CompositeDissolve {
			return true
		}

		if sub, ok := cmp.AsGroup(cmp.Base(l.Image)); ok && random(sub) {
			return true
		}
	}

	return false
}

func isText(m image.Image) bool {
	switch m := m.(type) {
	case limage.Text, *limage.Text:
		return true
	case limage.MaskedImage:
		return isText(m.Image)
	case *limage.MaskedImage:
		return isText(m.Image)
	}

	return false
}

// colourOf gives the colour of the pixel of the file.
func colourOf(f *xcfref.File, l *xcfref.Layer, p []byte) color.Color {
	var c color.NRGBA

	n := 1

	switch f.Base {
	case xcfref.RGB:
		c, n = color.NRGBA{R: p[0], G: p[1], B: p[2]}, 3
	case xcfref.Gray:
		c = color.NRGBA{R: p[0], G: p[0], B: p[0]}
	default:
		e := f.Colormap[p[0]]
		c = color.NRGBA{R: e[0], G: e[1], B: e[2]}
	}

	if c.A = 255; l.Alpha {
		c.A = p[n]
	}

	return c
}

// TestC19_Reader: what is written, read by an independent, strict reader.
func TestC19_Reader(t *testing.T) {
	vt.Check(t, 3000, 60000, func(t *rapid.T, c *vt.Case) {
		tr, f := drawTree(t, 140, modes)

		vt.Journal([]byte(gen.Describe(tr.Image)))

		b, err := encode(tr.Image)
		if err != nil {
			t.Fatalf("encoding %s: %v", gen.Describe(tr.Image), err)
		}

		x, err := xcfref.Parse(b)
		if err != nil {
			t.Fatalf("not a valid file: %v\nimage: %s", err, gen.Describe(tr.Image))
		}

		r := tr.Image.Bounds()

		if int(x.W) != r.Dx() || int(x.H) != r.Dy() {
			t.Fatalf("canvas of %dx%d, for %v", x.W, x.H, r)
		}

		if want := map[string]uint32{"colour": xcfref.RGB, "gray": xcfref.Gray}; f.name == "colour" || f.name == "gray" {
			if x.Base != want[f.name] {
				t.Fatalf("base type %d for an image in %s", x.Base, f.name)
			}
		} else if x.Base != xcfref.Indexed {
			t.Fatalf("base type %d for an image with a palette", x.Base)
		}

		if err := sameLayers(x, x.Layers, tr.Image, image.Point{}.Sub(r.Min), ""); err != nil {
			t.Fatalf("%v\nimage: %s\nfile: %s", err, gen.Describe(tr.Image), xcfgen.Describe(x))
		}

		if len(x.Channels) != 0 {
			t.Fatalf("%d channels", len(x.Channels))
		}

		labels(c, tr.Labels)
		c.Label("images: " + f.name)

		if tr.Labels["layer not at the origin"] && (tr.Labels["group"] || tr.Labels["several layers"]) {
			c.NonTrivial(tr.Key, r)
		}

		c.Sample("%s", xcfgen.Describe(x))
	})
}

// TestC19_Runs: images with runs of every length around the limits of the
// opcodes.
func TestC19_Runs(t *testing.T) {
	vt.Check(t, 1500, 30000, func(t *rapid.T, c *vt.Case) {
		w, h := rapid.SampledFrom([]int{64, 64, 63, 65, 128, 130}).Draw(t, "width"), rapid.SampledFrom([]int{64, 64, 63, 65, 100, 1}).Draw(t, "height")
		m := image.NewNRGBA(image.Rect(0, 0, w, h))
		spread := rapid.IntRange(0, 3).Draw(t, "spread")

		// Each tile is filled along its rows, as it is compressed, by runs that are
		// drawn.
		var lens []int

		for ty := 0; ty < h; ty += 64 {
			for tx := 0; tx < w; tx += 64 {
				tw, th := min(64, w-tx), min(64, h-ty)

				for k := 0; k < 4; k++ {
					v := uint8(k * 50)
					runs := rapid.SliceOfN(rapid.OneOf(rapid.IntRange(1, 6), rapid.SampledFrom([]int{-1, -2, -3, -4, -125, -126, -127, -128, -129, -130, -1000, 124, 125, 126, 127, 128, 129, 130, 131, 255, 256, 257, 1000, 4000, 4096})), 1, 12).Draw(t, "runs")
					lens = append(lens, runs...)

					for i, n := 0, 0; i < tw*th; n++ {
						l := runs[n%len(runs)]
						noisy := l < 0 // a stretch without repetition

						if noisy {
							l = -l
						}

						for v++; l > 0 && i < tw*th; l-- {
							if noisy {
								v += uint8(1 + spread)
							}

							m.Pix[m.PixOffset(tx+i%tw, ty+i/tw)+k] = v
							i++
						}
					}
				}
			}
		}

		b, err := encode(m)
		if err != nil {
			t.Fatal(err)
		}

		x, err := xcfref.Parse(b)
		if err != nil {
			t.Fatalf("not a valid file: %v", err)
		}

		for i, v := range m.Pix {
			if x.Layers[0].Pixels[i] != v {
				t.Fatalf("byte %d of the pixels is %d in the file, %d in the image; runs %v", i, x.Layers[0].Pixels[i], v, lens)
			}
		}

		got, err := decode(b)
		if err != nil {
			t.Fatalf("decoding: %v", err)
		}

		if n, ok := got[0].Image.(*image.NRGBA); !ok || string(n.Pix) != string(m.Pix) {
			t.Fatalf("decoded pixels differ")
		}

		c.LabelIf(len(lens) > 20, "many kinds of runs")
		c.NonTrivial(w, h, lens)
		c.Sample("%dx%d runs %v", w, h, lens)
	})
}
