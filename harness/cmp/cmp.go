// Package cmp compares colours, images and layer trees.
package cmp

import (
	"fmt"
	"image"
	"image/color"

	"limageverif/gen"
	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
)

// RGBA is a premultiplied 16-bit colour.
type RGBA [4]uint32

// Of gives the premultiplied colour.
func Of(c color.Color) RGBA {
	if c == nil {
		return RGBA{1 << 20}
	}

	r, g, b, a := c.RGBA()

	return RGBA{r, g, b, a}
}

// Near reports whether no component differs by more than the steps given.
func (p RGBA) Near(q RGBA, by uint32) bool {
	for i := range p {
		if p[i] > q[i]+by || q[i] > p[i]+by {
			return false
		}
	}

	return true
}

func (p RGBA) String() string { return fmt.Sprintf("%04x/%04x/%04x/%04x", p[0], p[1], p[2], p[3]) }

// AsGroup gives the layers of a group, and whether the image is one.
func AsGroup(m image.Image) (limage.Image, bool) {
	switch im := m.(type) {
	case limage.Image:
		return im, true
	case *limage.Image:
		return *im, true
	}

	return nil, false
}

// Base strips masks and text.
func Base(m image.Image) image.Image {
	for {
		switch im := m.(type) {
		case limage.MaskedImage:
			m = im.Image
		case *limage.MaskedImage:
			m = im.Image
		case limage.Text:
			m = im.Image
		case *limage.Text:
			m = im.Image
		default:
			return m
		}
	}
}

// Masked gives the masked image, if it is one.
func Masked(m image.Image) (limage.MaskedImage, bool) {
	switch im := m.(type) {
	case limage.MaskedImage:
		return im, true
	case *limage.MaskedImage:
		return *im, true
	case limage.Text:
		return Masked(im.Image)
	case *limage.Text:
		return Masked(im.Image)
	}

	return limage.MaskedImage{}, false
}

// Tolerance is how much a colour shown by the image may change, in premultiplied
// 16-bit steps, when it is converted to 8 bits without premultiplication and
// back.
func Tolerance(m image.Image) uint32 {
	if _, ok := Masked(m); ok {
		return 0x210
	}

	switch Base(m).(type) {
	case *image.NRGBA, *image.Gray, *image.Paletted, *limage.RGB, *gen.ForeignImage:
		return 0
	case *limage.PalettedAlpha: // premultiplied in a way of its own
		return 4
	}

	return 0x210
}

func sameModel(p, q image.Image) error {
	a, b := p.ColorModel(), q.ColorModel()

	if x, ok := paletteOf(a); ok {
		y, ok := paletteOf(b)
		if !ok || len(x) != len(y) {
			return fmt.Errorf("a palette of %d colours became %T", len(x), b)
		}

		for i := range x {
			if Of(x[i]) != Of(y[i]) {
				return fmt.Errorf("colour %d of the palette, %v, became %v", i, x[i], y[i])
			}
		}

		if _, plain := a.(color.Palette); plain {
			if _, plain = b.(color.Palette); !plain {
				return fmt.Errorf("%T became %T", a, b)
			}
		} else if _, plain = b.(color.Palette); plain {
			return fmt.Errorf("%T became %T", a, b)
		}

		return nil
	}

	if _, ok := paletteOf(b); ok || a != b {
		return fmt.Errorf("the colour model of %T became that of %T", p, q)
	}

	return nil
}

func paletteOf(m color.Model) (color.Palette, bool) {
	switch m := m.(type) {
	case color.Palette:
		return m, true
	case lcolor.AlphaPalette:
		return color.Palette(m), true
	}

	return nil, false
}

// tolerance is that of the original, or none if both are of the same gray type.
func tolerance(p, q image.Image) uint32 {
	if _, ok := Base(p).(*limage.GrayAlpha); ok {
		if q.ColorModel() == p.ColorModel() {
			return 0
		}
	}

	return Tolerance(p)
}

// Pixels compares what two images show in the rectangle, q being moved by off.
func Pixels(p, q image.Image, r image.Rectangle, off image.Point, by uint32) error {
	for y := r.Min.Y; y < r.Max.Y; y++ {
		for x := r.Min.X; x < r.Max.X; x++ {
			a, b := Of(p.At(x, y)), Of(q.At(x+off.X, y+off.Y))

			if !a.Near(b, by) {
				return fmt.Errorf("at %d,%d: %v became %v", x, y, a, b)
			}
		}
	}

	return nil
}

// Want says how trees are compared.
type Want struct {
	Mode    func(limage.Composite) limage.Composite // what a mode becomes
	Exact16 bool                                    // 16-bit images keep their precision
	Masks   bool                                    // masks are kept as such
	Moved   image.Point                             // the top level was moved by this
	Name    func(string) string

	Tolerance uint32 // at least
	Clipped   bool   // images may be larger than their layers
	Types     bool   // the colour models of the images are the same, and so are colours, exactly
}

// Trees compares an original with a decoded tree.
func Trees(orig, got limage.Image, w Want) error {
	return trees(orig, got, w, "")
}

func trees(orig, got limage.Image, w Want, path string) error {
	if len(orig) != len(got) {
		return fmt.Errorf("group %q had %d layers, now has %d", path, len(orig), len(got))
	}

	sub := w
	sub.Moved = image.Point{}

	for i, l := range orig {
		g := got[i]
		name := fmt.Sprintf("%s/%d", path, i)
		lname := l.Name

		if w.Name != nil {
			lname = w.Name(lname)
		}

		switch {
		case lname != g.Name:
			return fmt.Errorf("layer %s: name %q became %q", name, l.Name, g.Name)
		case l.Invisible != g.Invisible:
			return fmt.Errorf("layer %s: invisible %t became %t", name, l.Invisible, g.Invisible)
		case l.Transparency != g.Transparency:
			return fmt.Errorf("layer %s: transparency %d became %d", name, l.Transparency, g.Transparency)
		case w.Mode(l.Mode) != g.Mode:
			return fmt.Errorf("layer %s: mode %d (%s) became %d (%s), want %d", name, l.Mode, l.Mode, g.Mode, g.Mode, w.Mode(l.Mode))
		}

		want := l.LayerBounds.Add(w.Moved)

		oi, gi := l.Image, g.Image

		if w.Masks {
			om, ok := Masked(l.Image)
			gm, ok2 := Masked(g.Image)

			if ok != ok2 {
				return fmt.Errorf("layer %s: a mask %t became a mask %t", name, ok, ok2)
			}

			if ok {
				// The unmasked pixels, and the mask, are kept.
				oi, gi = om.Image, gm.Image

				if err := Pixels(om.Mask, gm.Mask, image.Rectangle{Max: want.Size()}, image.Point{}, 0); err != nil {
					return fmt.Errorf("layer %s, the mask: %w", name, err)
				}
			}
		}

		og, ok := AsGroup(oi)
		gg, ok2 := AsGroup(gi)

		if ok != ok2 {
			return fmt.Errorf("layer %s: a group %t became a group %t", name, ok, ok2)
		}

		if g.LayerBounds != want && !(want.Empty() && g.LayerBounds.Empty()) {
			return fmt.Errorf("layer %s: bounds %v became %v", name, want, g.LayerBounds)
		}

		if ok {
			if err := trees(og, gg, sub, name); err != nil {
				return err
			}

			continue
		}

		if b := (image.Rectangle{Max: want.Size()}); g.Image.Bounds() != b && !b.Empty() && !w.Clipped {
			return fmt.Errorf("layer %s: decoded image has bounds %v, want %v", name, g.Image.Bounds(), b)
		}

		by := Tolerance(l.Image)

		if w.Types {
			if err := sameModel(oi, gi); err != nil && !want.Empty() {
				return fmt.Errorf("layer %s: %w", name, err)
			}

			if err := Pixels(oi, gi, image.Rectangle{Max: want.Size()}, image.Point{}, 0); err != nil {
				return fmt.Errorf("layer %s (%T): pixel %w", name, oi, err)
			}

			if err := Pixels(l.Image, g.Image, image.Rectangle{Max: want.Size()}, image.Point{}, 0); err != nil {
				return fmt.Errorf("layer %s (%T), masked: pixel %w", name, oi, err)
			}

			continue
		}

		if w.Exact16 {
			switch Base(l.Image).(type) {
			case *image.NRGBA64, *image.Gray16:
				if _, ok := Masked(l.Image); !ok {
					by = 0
				}
			}
		}

		by = max(by, w.Tolerance)

		if w.Masks && oi != nil {
			if err := Pixels(oi, gi, image.Rectangle{Max: want.Size()}, image.Point{}, max(w.Tolerance, tolerance(oi, gi))); err != nil {
				return fmt.Errorf("layer %s (%T): pixel %w", name, oi, err)
			}

			if _, ok := Masked(l.Image); !ok {
				by = max(w.Tolerance, tolerance(oi, gi))
			}
		}

		if err := Pixels(l.Image, g.Image, image.Rectangle{Max: want.Size()}, image.Point{}, by); err != nil {
			return fmt.Errorf("layer %s (%T): pixel %w", name, l.Image, err)
		}
	}

	return nil
}

// AtOrigin shows an image with its corner at the origin.
func AtOrigin(m image.Image) image.Image {
	b := m.Bounds()

	if b.Min == (image.Point{}) {
		return m
	}

	return atOrigin{Image: m, by: b.Min}
}

type atOrigin struct {
	image.Image
	by image.Point
}

func (a atOrigin) Bounds() image.Rectangle { return a.Image.Bounds().Sub(a.by) }

func (a atOrigin) At(x, y int) color.Color { return a.Image.At(x+a.by.X, y+a.by.Y) }
