package xcf

import (
	"bytes"
	"errors"
	"fmt"
	"image"
	"image/color"
	"testing"

	"limageverif/cmp"
	"limageverif/gen"
	"limageverif/vt"
	"pgregory.net/rapid"
	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
	"vimagination.zapto.org/limage/xcf"
)

func TestMain(m *testing.M) { vt.Main(m) }

// modes are those XCF files have, of which each has a number of its own.
var modes = []limage.Composite{
	limage.CompositeNormal, limage.CompositeDissolve, limage.CompositeBehind, limage.CompositeMultiply, limage.CompositeScreen,
	limage.CompositeOverlay, limage.CompositeDifference, limage.CompositeAddition, limage.CompositeSubtract, limage.CompositeDarkenOnly,
	limage.CompositeLightenOnly, limage.CompositeHue, limage.CompositeSaturation, limage.CompositeColor, limage.CompositeValue,
	limage.CompositeDivide, limage.CompositeDodge, limage.CompositeBurn, limage.CompositeHardLight, limage.CompositeSoftLight,
	limage.CompositeGrainExtract, limage.CompositeGrainMerge, limage.CompositeColorErase, limage.CompositeChroma, limage.CompositeLightness,
	limage.CompositeVividLight, limage.CompositePinLight, limage.CompositeLinearLight, limage.CompositeHardMix, limage.CompositeExclusion,
	limage.CompositeLinearBurn, limage.CompositeLuminance, limage.CompositeErase, limage.CompositeMerge, limage.CompositeSplit,
	limage.CompositePassThrough,
}

// indexedModes are those images with a palette have.
var indexedModes = []limage.Composite{limage.CompositeNormal, limage.CompositeDissolve, limage.CompositeBehind}

// fixed leaves the random mode out.
func fixed(ms []limage.Composite) []limage.Composite {
	var out []limage.Composite

	for _, m := range ms {
		if m != limage.CompositeDissolve {
			out = append(out, m)
		}
	}

	return out
}

// allModes lists every mode.
func allModes() []limage.Composite {
	var ms []limage.Composite

	for m := limage.CompositeNormal; m <= limage.CompositePassThrough; m++ {
		ms = append(ms, m)
	}

	return ms
}

var errPanic = errors.New("panic")

// attempt turns a panic into an error.
func attempt(fn func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%w: %v", errPanic, r)
		}
	}()

	return fn()
}

// memory is what files are written to.
type memory struct{ b []byte }

func (m *memory) WriteAt(p []byte, off int64) (int, error) {
	if end := int(off) + len(p); end > len(m.b) {
		if end > cap(m.b) {
			b := make([]byte, end, end+end/2)
			copy(b, m.b)
			m.b = b
		}

		m.b = m.b[:end]
	}

	return copy(m.b[off:], p), nil
}

func encode(m image.Image) ([]byte, error) {
	var buf memory

	err := attempt(func() error { return xcf.Encode(&buf, m) })

	return buf.b, err
}

func decode(b []byte) (m limage.Image, err error) {
	err = attempt(func() error {
		var err error

		m, err = xcf.Decode(bytes.NewReader(b))

		return err
	})

	return m, err
}

func decodeCompressed(b []byte) (m limage.Image, err error) {
	err = attempt(func() error {
		var err error

		m, err = xcf.DecodeCompressed(bytes.NewReader(b))

		return err
	})

	return m, err
}

func labels(c *vt.Case, ls map[string]bool) {
	for l := range ls {
		c.Label(l)
	}
}

// size draws the size of a canvas.
func size(t *rapid.T, large int) (int, int) {
	limit := 24
	if rapid.IntRange(0, 7).Draw(t, "size kind") == 0 {
		limit = large
	}

	return gen.Dim(t, limit, "width"), gen.Dim(t, limit, "height")
}

// family is a set of kinds of image that are kept together in one file.
type family struct {
	name    string
	kinds   []gen.Kind
	palette bool
}

var families = []family{
	{"colour", gen.AllKinds(), false},
	{"gray", []gen.Kind{gen.Gray, gen.GrayAlpha, gen.Gray16}, false},
	{"paletted", []gen.Kind{gen.Paletted, gen.PalettedAlpha}, true},
}

// opts gives what trees to draw.
func (f family) opts(t *rapid.T, ms []limage.Composite) gen.Opts {
	o := gen.Opts{Depth: 3, Layers: 4, Modes: ms, Kinds: f.kinds, Masks: true, Text: true, EmptyOK: true, BigGroups: true, Pointers: true, Nested: true, Loose: true, Offset: true, GroupMask: true}

	if f.palette {
		o.Modes = nil

		for _, m := range ms {
			for _, n := range indexedModes {
				if m == n {
					o.Modes = append(o.Modes, m)
				}
			}
		}

		n := rapid.SampledFrom([]int{1, 2, 3, 100, 255, 256}).Draw(t, "colours")
		o.Palette = gen.Palette(uint64(rapid.Uint32().Draw(t, "palette")), n)
	}

	return o
}

// drawTree draws a layered image that XCF files can hold.
func drawTree(t *rapid.T, large int, ms []limage.Composite) (*gen.Tree, family) {
	w, h := size(t, large)
	f := rapid.SampledFrom(families).Draw(t, "family")
	tr := gen.DrawTree(t, w, h, f.opts(t, ms))

	n := 0

	if leaves(tr.Image, func(image.Image) { n++ }); n == 0 {
		f = families[0]
	} else if f.name == "colour" && !hasColour(tr.Image) {
		f = families[1]
		if hasPalette(tr.Image) {
			f = family{name: "some palette"}
		}
	}

	if rapid.IntRange(0, 3).Draw(t, "moved") == 0 {
		by := image.Pt(rapid.IntRange(-30, 30).Draw(t, "by x"), rapid.IntRange(-30, 30).Draw(t, "by y"))

		for i := range tr.Image {
			tr.Image[i].LayerBounds = tr.Image[i].LayerBounds.Add(by)
		}
	}

	return tr, f
}

func leaves(g limage.Image, fn func(m image.Image)) {
	for _, l := range g {
		if sub, ok := cmp.AsGroup(cmp.Base(l.Image)); ok {
			leaves(sub, fn)
		} else {
			fn(unlayered(cmp.Base(l.Image)))
		}
	}
}

// unlayered gives the image of a layer that is the image of another.
func unlayered(m image.Image) image.Image {
	switch l := m.(type) {
	case limage.Layer:
		return l.Image
	case *limage.Layer:
		return l.Image
	}

	return m
}

// hasColour reports whether the layers can only be kept as RGB.
func hasColour(g limage.Image) bool {
	gray, palettes, n := 0, map[string]bool{}, 0

	leaves(g, func(m image.Image) {
		n++

		switch cm := m.ColorModel().(type) {
		case color.Palette:
			palettes[fmt.Sprint(cm)] = true
		case lcolor.AlphaPalette:
			palettes[fmt.Sprint(color.Palette(cm))] = true
		default:
			switch m.(type) {
			case *image.Gray, *image.Gray16, *limage.GrayAlpha:
				gray++
			default:
				palettes["none"] = true
			}
		}
	})

	switch {
	case n == 0:
		return true
	case gray == n:
		return false
	case gray == 0 && len(palettes) == 1 && !palettes["none"]:
		return false
	}

	return true
}

func hasPalette(g limage.Image) bool {
	found := false

	leaves(g, func(m image.Image) {
		switch m.ColorModel().(type) {
		case color.Palette, lcolor.AlphaPalette:
			found = true
		}
	})

	return found
}

// kept gives what a mode is after having been in a file.
func kept(m limage.Composite) limage.Composite { return m }

// expect gives the tree as it is kept in a file.
func expect(g limage.Image) limage.Image {
	out := append(limage.Image{}, g...)

	if n := len(out); n > 0 && out[n-1].Mode != limage.CompositeDissolve {
		out[n-1].Mode = limage.CompositeNormal // nothing is below
	}

	return out
}
