// Package xcfgen draws XCF files, as other programs may write them, and says
// what they show.
package xcfgen

import (
	"fmt"
	"hash/fnv"
	"image"
	"image/color"
	"strings"

	"limageverif/gen"
	"limageverif/xcfref"
	"pgregory.net/rapid"
	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
)

// Modes gives the mode for each number the specification lists.
var Modes = map[uint32]limage.Composite{
	0: limage.CompositeNormal, 28: limage.CompositeNormal,
	1: limage.CompositeDissolve,
	2: limage.CompositeBehind, 29: limage.CompositeBehind,
	3: limage.CompositeMultiply, 30: limage.CompositeMultiply,
	4: limage.CompositeScreen, 31: limage.CompositeScreen,
	5: limage.CompositeOverlay, 23: limage.CompositeOverlay,
	6: limage.CompositeDifference, 32: limage.CompositeDifference,
	7: limage.CompositeAddition, 33: limage.CompositeAddition,
	8: limage.CompositeSubtract, 34: limage.CompositeSubtract,
	9: limage.CompositeDarkenOnly, 35: limage.CompositeDarkenOnly, 54: limage.CompositeDarkenOnly,
	10: limage.CompositeLightenOnly, 36: limage.CompositeLightenOnly, 55: limage.CompositeLightenOnly,
	11: limage.CompositeHue, 24: limage.CompositeHue, 37: limage.CompositeHue,
	12: limage.CompositeSaturation, 38: limage.CompositeSaturation,
	13: limage.CompositeColor, 26: limage.CompositeColor, 39: limage.CompositeColor,
	14: limage.CompositeValue, 40: limage.CompositeValue,
	15: limage.CompositeDivide, 41: limage.CompositeDivide,
	16: limage.CompositeDodge, 42: limage.CompositeDodge,
	17: limage.CompositeBurn, 43: limage.CompositeBurn,
	18: limage.CompositeHardLight, 44: limage.CompositeHardLight,
	19: limage.CompositeSoftLight, 45: limage.CompositeSoftLight,
	20: limage.CompositeGrainExtract, 46: limage.CompositeGrainExtract,
	21: limage.CompositeGrainMerge, 47: limage.CompositeGrainMerge,
	22: limage.CompositeColorErase, 57: limage.CompositeColorErase,
	25: limage.CompositeChroma,
	27: limage.CompositeLightness,
	48: limage.CompositeVividLight,
	49: limage.CompositePinLight,
	50: limage.CompositeLinearLight,
	51: limage.CompositeHardMix,
	52: limage.CompositeExclusion,
	53: limage.CompositeLinearBurn,
	56: limage.CompositeLuminance,
	58: limage.CompositeErase,
	59: limage.CompositeMerge,
	60: limage.CompositeSplit,
	61: limage.CompositePassThrough,
}

// Opts steers what is drawn.
type Opts struct {
	Max       int // size of the canvas, mostly
	Large     int // sometimes
	Layers    int
	Depth     int
	NoDiss    bool // no random mode
	NoText    bool
	Many      bool // sometimes more than 32 layers
	MinLayers int
	Versions  []int
	Bases     []uint32
	Inside    bool // no content outside of the canvas
	NoMasks   bool
}

// Drawn is a drawn file.
type Drawn struct {
	*xcfref.File
	Labels map[string]bool
	budget int
	first  bool
}

// Key identifies the file.
func (d *Drawn) Key() string {
	h := fnv.New64a()

	h.Write(d.Build())

	return fmt.Sprintf("%x", h.Sum64())
}

func (d *Drawn) label(l string, b bool) {
	if b {
		d.Labels[l] = true
	}
}

// Draw draws a file.
func Draw(t *rapid.T, o Opts) *Drawn {
	limit := o.Max
	if o.Large > 0 && rapid.IntRange(0, 7).Draw(t, "size kind") == 0 {
		limit = o.Large
	}

	d := &Drawn{Labels: map[string]bool{}, budget: 70}
	d.File = &xcfref.File{
		W:           uint32(gen.Dim(t, limit, "width")),
		H:           uint32(gen.Dim(t, limit, "height")),
		Compression: uint8(rapid.IntRange(0, 1).Draw(t, "compression")),
		Seed:        uint64(rapid.Uint32().Draw(t, "layout")),
		Shuffle:     rapid.Bool().Draw(t, "shuffle"),
		Gaps:        rapid.Bool().Draw(t, "gaps"),
		Spare:       rapid.Bool().Draw(t, "spare"),
		GroupPaths:  rapid.IntRange(0, 4).Draw(t, "paths of all") == 0,
	}

	versions, bases := o.Versions, o.Bases

	if versions == nil {
		versions = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}
	}

	if bases == nil {
		bases = []uint32{xcfref.RGB, xcfref.Gray, xcfref.Indexed}
	}

	d.Version = rapid.SampledFrom(versions).Draw(t, "version")

	if d.Base = rapid.SampledFrom(bases).Draw(t, "base"); d.Base == xcfref.Indexed && d.Version == 0 {
		d.Version = 1 // the colors of those of version 0 are not kept
	}

	switch {
	case d.Version > 4:
		d.Precision = 150 // 8-bit, gamma
	}

	if d.Base == xcfref.Indexed {
		n := rapid.SampledFrom([]int{1, 2, 3, 16, 255, 256, 0}).Draw(t, "colors")
		if n == 0 {
			n = rapid.IntRange(1, 256).Draw(t, "number of colors")
		}

		for _, c := range gen.Palette(d.Seed, n) {
			rgb := c.(lcolor.RGB)
			d.Colormap = append(d.Colormap, [3]uint8{rgb.R, rgb.G, rgb.B})
		}

		d.label("256 colors", n == 256)
	}

	d.label("version "+fmt.Sprint(d.Version), true)
	d.label([]string{"RGB", "gray", "indexed"}[d.Base], true)
	d.label([]string{"not compressed", "run-length compressed"}[d.Compression], true)
	d.label("shuffled", d.Shuffle)

	d.first = true
	d.Layers = d.layers(t, o, 0, "")

	return d
}

func (d *Drawn) layers(t *rapid.T, o Opts, depth int, path string) []*xcfref.Layer {
	lo := 0
	if depth == 0 {
		lo = o.MinLayers
	}

	n := rapid.IntRange(lo, o.Layers).Draw(t, path+"layers")

	if o.Many && rapid.IntRange(0, 29).Draw(t, path+"many") == 0 {
		n = rapid.IntRange(31, 36).Draw(t, path+"many layers")
		o.Depth = 0

		d.label("more than 30 layers in a group", true)
	}

	ls := make([]*xcfref.Layer, n)

	// The last layer is drawn first: only that one may have no alpha.
	for i := n - 1; i >= 0; i-- {
		ls[i] = d.layer(t, o, depth, fmt.Sprintf("%s%d ", path, i))
	}

	d.label("several layers", n > 1)
	d.label("no layers", n == 0 && depth == 0)

	return ls
}

var modeNumbers = func() []uint32 {
	var ns []uint32

	for n := uint32(0); n <= 61; n++ {
		ns = append(ns, n)
	}

	return ns
}()

func (d *Drawn) layer(t *rapid.T, o Opts, depth int, path string) *xcfref.Layer {
	d.budget--

	l := &xcfref.Layer{
		Name:    gen.Name(t, path+"name"),
		Alpha:   true,
		Opacity: 255,
	}

	switch rapid.IntRange(0, 3).Draw(t, path+"opacity") {
	case 0:
		l.Opacity = uint8(rapid.IntRange(0, 255).Draw(t, path+"opacity value"))
	case 1:
		l.Opacity = rapid.SampledFrom([]uint8{0, 1, 127, 128, 254}).Draw(t, path+"opacity value")
	}

	l.FloatOpacity = d.Version >= 11 && rapid.Bool().Draw(t, path+"float")
	l.Hidden = rapid.IntRange(0, 4).Draw(t, path+"hidden") == 0

	if rapid.IntRange(0, 3).Draw(t, path+"plain mode") != 0 {
		l.Mode = rapid.SampledFrom(modeNumbers).Draw(t, path+"mode")

		if d.Base == xcfref.Indexed {
			l.Mode = []uint32{0, 1, 2, 28, 29}[l.Mode%5]
		}

		if o.NoDiss && l.Mode == 1 {
			l.Mode = 0
		}
	}

	d.label("mode other than Normal", l.Mode != 0)
	d.label("hidden layer", l.Hidden)
	d.label("translucent layer", l.Opacity != 255)

	if depth < o.Depth && d.budget > 0 && rapid.IntRange(0, 2).Draw(t, path+"group") == 0 {
		l.IsGroup = true
		l.Items = d.layers(t, o, depth+1, path+"g")

		// A group is as large as its layers.
		var r image.Rectangle

		for _, c := range l.Items {
			r = r.Union(Rect(c))
		}

		l.X, l.Y, l.W, l.H = int32(r.Min.X), int32(r.Min.Y), uint32(r.Dx()), uint32(r.Dy())

		d.label("group", true)
		d.label("nested group", depth > 0)
		d.label("group not at the origin", l.X != 0 || l.Y != 0)
		d.label("empty group", len(l.Items) == 0)
	} else {
		w, h := int(d.W), int(d.H)

		switch k := rapid.IntRange(0, 7).Draw(t, path+"place"); {
		case k == 0:
			l.W, l.H = d.W, d.H
		case k <= 3 || o.Inside:
			l.W = uint32(gen.Dim(t, w, path+"w"))
			l.H = uint32(gen.Dim(t, h, path+"h"))
			l.X = int32(rapid.IntRange(0, w-int(l.W)).Draw(t, path+"x"))
			l.Y = int32(rapid.IntRange(0, h-int(l.H)).Draw(t, path+"y"))
		default:
			l.W = uint32(gen.Dim(t, w+w/2+2, path+"w"))
			l.H = uint32(gen.Dim(t, h+h/2+2, path+"h"))
			l.X = int32(rapid.IntRange(-int(l.W)-1, w+1).Draw(t, path+"x"))
			l.Y = int32(rapid.IntRange(-int(l.H)-1, h+1).Draw(t, path+"y"))
		}

		r, canvas := Rect(l), image.Rect(0, 0, w, h)

		d.label("layer reaching over the canvas", !r.In(canvas) && r.Overlaps(canvas))
		d.label("layer outside of the canvas", !r.Overlaps(canvas))
		d.label("layer larger than a tile", l.W > 64 || l.H > 64)

		if !o.NoText && rapid.IntRange(0, 9).Draw(t, path+"text") == 0 {
			l.HasText = true
			l.Text = []byte("(text \"text\")\n(font \"Sans\")\n(font-size 20.000000)\n(font-size-unit pixels)\n(color (color-rgb 1.000000 0.000000 0.000000))\n\x00")

			d.label("text", true)
		}

		if d.first && rapid.IntRange(0, 1).Draw(t, path+"alpha") == 0 {
			l.Alpha = false

			d.label("no alpha", true)
		}
	}

	d.first = false

	p := gen.Pattern(rapid.IntRange(0, 9).Draw(t, path+"pattern"))
	seed := uint64(rapid.Uint32().Draw(t, path+"seed"))

	l.Pixels = d.pixels(p, seed, l)

	if !o.NoMasks && rapid.IntRange(0, 3).Draw(t, path+"masked") == 0 {
		l.Mask = &xcfref.Channel{Name: gen.Name(t, path+"mask name"), W: l.W, H: l.H}

		for _, c := range gen.Fill(gen.Pattern(rapid.IntRange(0, 9).Draw(t, path+"mask pattern")), seed+1, int(l.W), int(l.H)) {
			l.Mask.Pixels = append(l.Mask.Pixels, c.R)
		}

		l.ApplyMask = rapid.IntRange(0, 2).Draw(t, path+"apply")

		d.label("mask", l.ApplyMask != 2)
		d.label("mask on a layer with offset", l.ApplyMask != 2 && (l.X != 0 || l.Y != 0))
		d.label("mask on a group", l.IsGroup && l.ApplyMask != 2)
		d.label("mask not applied", l.ApplyMask == 2)
	}

	return l
}

func (d *Drawn) pixels(p gen.Pattern, seed uint64, l *xcfref.Layer) []byte {
	var out []byte

	for _, c := range gen.Fill(p, seed, int(l.W), int(l.H)) {
		switch d.Base {
		case xcfref.RGB:
			out = append(out, c.R, c.G, c.B)
		case xcfref.Gray:
			out = append(out, c.R)
		case xcfref.Indexed:
			out = append(out, uint8(int(c.R)%len(d.Colormap)))
		}

		if l.Alpha {
			out = append(out, c.A)
		}
	}

	return out
}

// Rect gives the area of the layer on the canvas.
func Rect(l *xcfref.Layer) image.Rectangle {
	return image.Rect(0, 0, int(l.W), int(l.H)).Add(image.Pt(int(l.X), int(l.Y)))
}

// Palette gives the colors of the file.
func Palette(f *xcfref.File) color.Palette {
	var p color.Palette

	for _, c := range f.Colormap {
		p = append(p, lcolor.RGB{R: c[0], G: c[1], B: c[2]})
	}

	return p
}

// Shows gives what a file shows: the layers, clipped to the canvas.
func Shows(f *xcfref.File) limage.Image {
	canvas := image.Rect(0, 0, int(f.W), int(f.H))
	im := shows(f, f.Layers, canvas, image.Point{})

	if n := len(im); n > 0 && im[n-1].Mode != limage.CompositeDissolve {
		im[n-1].Mode = limage.CompositeNormal // nothing is below
	}

	return im
}

func shows(f *xcfref.File, ls []*xcfref.Layer, canvas image.Rectangle, origin image.Point) limage.Image {
	im := make(limage.Image, len(ls))

	for i, l := range ls {
		area := Rect(l).Intersect(canvas)
		m := Modes[l.Mode]

		im[i] = limage.Layer{
			Name:         l.Name,
			LayerBounds:  area.Sub(origin),
			Mode:         m,
			Invisible:    l.Hidden,
			Transparency: 255 - l.Opacity,
		}

		if l.IsGroup {
			im[i].Image = shows(f, l.Items, canvas, area.Min)
		} else {
			im[i].Image = leaf(f, l, area)
		}

		if l.HasText && !l.IsGroup {
			im[i].Image = limage.Text{Image: im[i].Image, TextData: limage.TextData{{Data: "text", Font: "Sans", Size: 20, ForeColor: lcolor.RGB{R: 255}, BackColor: color.Alpha{}}}}
		}

		if l.Mask != nil && l.ApplyMask != 2 {
			mask := image.NewGray(image.Rectangle{Max: area.Size()})

			for y := area.Min.Y; y < area.Max.Y; y++ {
				for x := area.Min.X; x < area.Max.X; x++ {
					mask.SetGray(x-area.Min.X, y-area.Min.Y, color.Gray{Y: l.Mask.Pixels[(y-int(l.Y))*int(l.W)+x-int(l.X)]})
				}
			}

			im[i].Image = limage.MaskedImage{Image: im[i].Image, Mask: mask}
		}
	}

	return im
}

func leaf(f *xcfref.File, l *xcfref.Layer, area image.Rectangle) image.Image {
	r := image.Rectangle{Max: area.Size()}
	bpp := xcfref.BPP(f.Base, l.Alpha)
	each := func(fn func(x, y int, p []byte)) {
		for y := area.Min.Y; y < area.Max.Y; y++ {
			for x := area.Min.X; x < area.Max.X; x++ {
				o := ((y-int(l.Y))*int(l.W) + x - int(l.X)) * bpp
				fn(x-area.Min.X, y-area.Min.Y, l.Pixels[o:o+bpp])
			}
		}
	}

	switch {
	case f.Base == xcfref.RGB && !l.Alpha:
		m := limage.NewRGB(r)

		each(func(x, y int, p []byte) { m.SetRGB(x, y, lcolor.RGB{R: p[0], G: p[1], B: p[2]}) })

		return m
	case f.Base == xcfref.RGB:
		m := image.NewNRGBA(r)

		each(func(x, y int, p []byte) { m.SetNRGBA(x, y, color.NRGBA{R: p[0], G: p[1], B: p[2], A: p[3]}) })

		return m
	case f.Base == xcfref.Gray && !l.Alpha:
		m := image.NewGray(r)

		each(func(x, y int, p []byte) { m.SetGray(x, y, color.Gray{Y: p[0]}) })

		return m
	case f.Base == xcfref.Gray:
		m := limage.NewGrayAlpha(r)

		each(func(x, y int, p []byte) { m.SetGrayAlpha(x, y, lcolor.GrayAlpha{Y: p[0], A: p[1]}) })

		return m
	case !l.Alpha:
		m := image.NewPaletted(r, Palette(f))

		each(func(x, y int, p []byte) { m.SetColorIndex(x, y, p[0]) })

		return m
	default:
		m := limage.NewPalettedAlpha(r, lcolor.AlphaPalette(Palette(f)))

		each(func(x, y int, p []byte) { m.SetIndexAlpha(x, y, lcolor.IndexedAlpha{I: p[0], A: p[1]}) })

		return m
	}
}

// Describe writes a file out.
func Describe(f *xcfref.File) string {
	var sb strings.Builder

	fmt.Fprintf(&sb, "v%d %dx%d base %d compression %d seed %d shuffle %t gaps %t spare %t colors %d:", f.Version, f.W, f.H, f.Base, f.Compression, f.Seed, f.Shuffle, f.Gaps, f.Spare, len(f.Colormap))
	describe(&sb, f.Layers)

	if len(f.Extra) > 0 {
		fmt.Fprintf(&sb, " +%d properties", len(f.Extra))
	}

	if len(f.Channels) > 0 {
		fmt.Fprintf(&sb, " +%d channels", len(f.Channels))
	}

	return sb.String()
}

func describe(sb *strings.Builder, ls []*xcfref.Layer) {
	sb.WriteString(" [")

	for i, l := range ls {
		if i > 0 {
			sb.WriteString(", ")
		}

		fmt.Fprintf(sb, "%q %dx%d at %d,%d mode %d", l.Name, l.W, l.H, l.X, l.Y, l.Mode)

		if l.Opacity != 255 {
			fmt.Fprintf(sb, " opacity %d", l.Opacity)
		}

		if l.Hidden {
			sb.WriteString(" hidden")
		}

		if !l.Alpha {
			sb.WriteString(" no alpha")
		}

		if l.Mask != nil {
			fmt.Fprintf(sb, " mask(apply %d)", l.ApplyMask)
		}

		if l.HasText {
			sb.WriteString(" text")
		}

		if len(l.Extra) > 0 {
			fmt.Fprintf(sb, " +%d properties", len(l.Extra))
		}

		if l.IsGroup {
			describe(sb, l.Items)
		}
	}

	sb.WriteString("]")
}
