// Package gen draws images and layer trees.
//
// Structure (sizes, positions, modes, kinds of image) is drawn value by value so
// that it shrinks; pixel content is a pattern and a seed, both drawn, expanded by
// a fixed function.
package gen

import (
	"fmt"
	"hash/fnv"
	"image"
	"image/color"
	"image/draw"
	"strings"

	"pgregory.net/rapid"
	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
)

// Mix is a fixed hash of a few numbers.
func Mix(vs ...uint64) uint64 {
	h := uint64(0x9e3779b97f4a7c15)

	for _, v := range vs {
		h ^= v
		h *= 0xbf58476d1ce4e5b9
		h ^= h >> 29
		h *= 0x94d049bb133111eb
		h ^= h >> 32
	}

	return h
}

// Pattern names how pixels are filled.
type Pattern int

// The patterns.
const (
	Solid Pattern = iota
	Noise
	Position  // every pixel different from its neighbours, coded by position
	Runs      // runs of lengths around the limits of run-length encodings
	ShortRuns // runs of 1 to 4
	Sparse    // transparent with a few pixels
	Rows      // each row of one colour
	Columns   // each column of one colour
	Extremes  // every channel either 0 or full
	Quadrants // a different colour per 64x64 tile
	patterns
)

func (p Pattern) String() string {
	return [...]string{"solid", "noise", "position", "runs", "short runs", "sparse", "rows", "columns", "extremes", "tiles"}[p]
}

var runLengths = []int{1, 2, 3, 4, 5, 63, 64, 65, 126, 127, 128, 129, 130, 131, 255, 256, 257, 258, 300, 1000, 4095, 4096}

// Fill gives the 8-bit non-premultiplied colour for each pixel of a w by h
// image.
func Fill(p Pattern, seed uint64, w, h int) []color.NRGBA {
	out := make([]color.NRGBA, w*h)
	col := func(v uint64) color.NRGBA {
		c := color.NRGBA{R: uint8(v), G: uint8(v >> 8), B: uint8(v >> 16), A: uint8(v >> 24)}

		switch v >> 32 & 7 {
		case 0, 1, 2:
			c.A = 255
		case 3:
			c.A = 0
		case 4:
			c.A = []uint8{1, 127, 128, 254}[v>>36&3]
		}

		return c
	}

	switch p {
	case Solid:
		c := col(Mix(seed))
		if c.A == 0 {
			c.A = 255
		}

		for i := range out {
			out[i] = c
		}
	case Noise:
		for i := range out {
			out[i] = col(Mix(seed, uint64(i)))
		}
	case Position:
		for i := range out {
			x, y := i%w, i/w
			out[i] = color.NRGBA{R: uint8(x), G: uint8(y), B: uint8(x>>8<<4 | y>>8 ^ int(seed)), A: 255 - uint8(i*7+int(seed))&63}
		}
	case Runs, ShortRuns:
		for i, n := 0, uint64(0); i < len(out); n++ {
			l := int(Mix(seed, n, 1)%4) + 1
			if p == Runs {
				l = runLengths[Mix(seed, n, 1)%uint64(len(runLengths))]
			}

			c := col(Mix(seed, n))
			noisy := Mix(seed, n, 2)%3 == 0

			for ; l > 0 && i < len(out); l-- {
				out[i] = c

				if noisy { // a stretch without repetition
					out[i].R += uint8(i)
					out[i].B -= uint8(i * 3)
				}

				i++
			}
		}
	case Sparse:
		for i := range out {
			if v := Mix(seed, uint64(i)); v%29 == 0 {
				out[i] = col(v >> 8)
			}
		}
	case Rows:
		for i := range out {
			out[i] = col(Mix(seed, uint64(i/w)))
		}
	case Columns:
		for i := range out {
			out[i] = col(Mix(seed, uint64(i%w)))
		}
	case Extremes:
		for i := range out {
			v := Mix(seed, uint64(i))
			b := func(n uint) uint8 { return -uint8(v >> n & 1) }
			out[i] = color.NRGBA{R: b(0), G: b(1), B: b(2), A: b(3)}
		}
	case Quadrants:
		for i := range out {
			x, y := i%w, i/w
			out[i] = col(Mix(seed, uint64(x/64), uint64(y/64)))
		}
	}

	return out
}

// Kind is a type of pixel image.
type Kind int

// The kinds.
const (
	NRGBA Kind = iota
	RGBA
	NRGBA64
	RGBA64
	Gray
	Gray16
	GrayAlpha
	RGB
	Paletted
	PalettedAlpha
	Alpha
	CMYK
	YCbCr
	Foreign // an image type the library cannot know
	Sub     // a sub-image of a larger NRGBA
	kinds
)

func (k Kind) String() string {
	return [...]string{"NRGBA", "RGBA", "NRGBA64", "RGBA64", "Gray", "Gray16", "GrayAlpha", "RGB", "Paletted", "PalettedAlpha", "Alpha", "CMYK", "YCbCr", "foreign", "sub-image"}[k]
}

// AllKinds lists every kind.
func AllKinds() []Kind {
	ks := make([]Kind, kinds)
	for i := range ks {
		ks[i] = Kind(i)
	}

	return ks
}

// ForeignImage is an image.Image which is not one of the well known types.
type ForeignImage struct {
	Rect image.Rectangle
	Fn   func(x, y int) color.Color
	M    color.Model
}

// ColorModel implements image.Image.
func (f *ForeignImage) ColorModel() color.Model { return f.M }

// Bounds implements image.Image.
func (f *ForeignImage) Bounds() image.Rectangle { return f.Rect }

// At implements image.Image.
func (f *ForeignImage) At(x, y int) color.Color {
	if !(image.Point{X: x, Y: y}).In(f.Rect) {
		return color.NRGBA{}
	}

	return f.Fn(x, y)
}

// Palette makes a palette of n distinct opaque 8-bit colours.
func Palette(seed uint64, n int) color.Palette {
	p := make(color.Palette, 0, n)
	seen := map[lcolor.RGB]bool{}

	for i := uint64(0); len(p) < n; i++ {
		v := Mix(seed, i, 77)
		c := lcolor.RGB{R: uint8(v), G: uint8(v >> 8), B: uint8(v >> 16)}

		if seen[c] {
			continue
		}

		seen[c] = true
		p = append(p, c)
	}

	return p
}

// Make builds an image of the kind with the given bounds and content.
func Make(k Kind, r image.Rectangle, p Pattern, seed uint64, pal color.Palette) image.Image {
	w, h := r.Dx(), r.Dy()
	px := Fill(p, seed, w, h)

	each := func(fn func(x, y int, c color.NRGBA)) {
		for i, c := range px {
			fn(r.Min.X+i%w, r.Min.Y+i/w, c)
		}
	}
	std := func(m draw.Image) image.Image {
		each(func(x, y int, c color.NRGBA) { m.Set(x, y, c) })

		return m
	}

	if len(pal) == 0 {
		pal = Palette(seed, int(seed%256)+1)
	}

	switch k {
	case RGBA:
		return std(image.NewRGBA(r))
	case NRGBA64:
		m := image.NewNRGBA64(r)

		each(func(x, y int, c color.NRGBA) {
			m.SetNRGBA64(x, y, color.NRGBA64{R: uint16(c.R)<<8 | uint16(c.G), G: uint16(c.G)<<8 | uint16(c.B), B: uint16(c.B)<<8 | uint16(c.R), A: uint16(c.A)<<8 | uint16(c.A)})
		})

		return m
	case RGBA64:
		return std(image.NewRGBA64(r))
	case Gray:
		m := image.NewGray(r)

		each(func(x, y int, c color.NRGBA) { m.SetGray(x, y, color.Gray{Y: c.R}) })

		return m
	case Gray16:
		m := image.NewGray16(r)

		each(func(x, y int, c color.NRGBA) { m.SetGray16(x, y, color.Gray16{Y: uint16(c.R)<<8 | uint16(c.G)}) })

		return m
	case GrayAlpha:
		m := limage.NewGrayAlpha(r)

		each(func(x, y int, c color.NRGBA) { m.SetGrayAlpha(x, y, lcolor.GrayAlpha{Y: c.R, A: c.A}) })

		return m
	case RGB:
		m := limage.NewRGB(r)

		each(func(x, y int, c color.NRGBA) { m.SetRGB(x, y, lcolor.RGB{R: c.R, G: c.G, B: c.B}) })

		return m
	case Paletted:
		m := image.NewPaletted(r, pal)

		each(func(x, y int, c color.NRGBA) { m.SetColorIndex(x, y, uint8(int(c.R)%len(pal))) })

		return m
	case PalettedAlpha:
		m := limage.NewPalettedAlpha(r, lcolor.AlphaPalette(pal))

		each(func(x, y int, c color.NRGBA) {
			m.SetIndexAlpha(x, y, lcolor.IndexedAlpha{I: uint8(int(c.R) % len(pal)), A: c.A})
		})

		return m
	case Alpha:
		m := image.NewAlpha(r)

		each(func(x, y int, c color.NRGBA) { m.SetAlpha(x, y, color.Alpha{A: c.A}) })

		return m
	case CMYK:
		m := image.NewCMYK(r)

		each(func(x, y int, c color.NRGBA) { m.SetCMYK(x, y, color.CMYK{C: c.R, M: c.G, Y: c.B, K: c.A >> 1}) })

		return m
	case YCbCr:
		m := image.NewYCbCr(r, image.YCbCrSubsampleRatio444)

		each(func(x, y int, c color.NRGBA) {
			m.Y[m.YOffset(x, y)] = c.R
			m.Cb[m.COffset(x, y)] = c.G
			m.Cr[m.COffset(x, y)] = c.B
		})

		return m
	case Foreign:
		return &ForeignImage{Rect: r, M: color.NRGBAModel, Fn: func(x, y int) color.Color { return px[(y-r.Min.Y)*w+x-r.Min.X] }}
	case Sub:
		m := image.NewNRGBA(image.Rect(r.Min.X-2, r.Min.Y-1, r.Max.X+3, r.Max.Y+2))

		for i := range m.Pix {
			m.Pix[i] = uint8(Mix(seed, uint64(i), 5))
		}

		each(func(x, y int, c color.NRGBA) { m.SetNRGBA(x, y, c) })

		return m.SubImage(r)
	}

	m := image.NewNRGBA(r)

	each(func(x, y int, c color.NRGBA) { m.SetNRGBA(x, y, c) })

	return m
}

// Dim draws the size of a side, preferring the limits of 64-pixel tiles.
func Dim(t *rapid.T, limit int, label string) int {
	var ds []int

	limit = max(limit, 1)

	for _, d := range []int{1, 2, 3, 7, 16, 63, 64, 65, 127, 128, 129, 130, 192, 193} {
		if d <= limit {
			ds = append(ds, d)
		}
	}

	// Where there is room for more than one tile, it is mostly used.
	if k := rapid.IntRange(0, 2).Draw(t, label+" kind"); k == 0 || k == 1 && limit > 24 {
		if limit > 64 && rapid.Bool().Draw(t, label+" of more than a tile") {
			for ds[0] < 64 {
				ds = ds[1:]
			}
		}

		return rapid.SampledFrom(ds).Draw(t, label)
	}

	return rapid.IntRange(1, min(limit, 24)).Draw(t, label)
}

// Opts steers what trees are drawn.
type Opts struct {
	Depth     int                // greatest nesting of groups
	Layers    int                // greatest number of layers of one group
	Modes     []limage.Composite // modes to use
	Kinds     []Kind             // kinds of pixel image
	Masks     bool
	Text      bool
	Anywhere  bool // layers may stick out of the group's area and be empty
	Palette   color.Palette
	EmptyOK   bool // groups may be empty
	AllowNone bool // there may be no layers at all
	BigGroups bool // sometimes 31 to 34 layers
	Pointers  bool // use *limage.Image, *limage.MaskedImage and *limage.Text too
	Offset    bool // images of layers may have bounds not at the origin (only what is shown at the layer's position counts)
	Nested    bool // layers that are the image of a layer
	Loose     bool // the content of a group need not touch its top and left
	AllVis    bool // no invisible layers
	GroupMask bool // groups may have masks
}

// Tree is a drawn layer tree and what is interesting about it.
type Tree struct {
	Image  limage.Image
	Labels map[string]bool
	Key    string
	budget int
}

func (tr *Tree) label(l string, b bool) {
	if b {
		tr.Labels[l] = true
	}
}

// Name draws the name of a layer.
func Name(t *rapid.T, label string) string {
	switch rapid.IntRange(0, 7).Draw(t, label+" kind") {
	case 0:
		return ""
	case 1:
		return rapid.SampledFrom([]string{"<layer name=\"x\">", "a & b", "'quoted' \"twice\"", " leading and trailing ", "tab\tand\nnewline", "日本語", "ümläut", "🎨🖌", "]]>", "a\u00a0b\u2028c"}).Draw(t, label)
	case 2:
		return strings.Repeat(rapid.SampledFrom([]string{"x", "é", "長"}).Draw(t, label), rapid.IntRange(1, 300).Draw(t, label+" length"))
	case 3:
		rs := rapid.SliceOfN(rapid.SampledFrom([]rune("ab<>&\"'\\ (){}%;=/é本🎨\t")), 0, 12).Draw(t, label)

		return string(rs)
	default:
		return rapid.StringMatching(`[A-Za-z0-9 _.#-]{1,12}`).Draw(t, label)
	}
}

// DrawTree draws a layered image whose content covers (a part of) a w by h area.
func DrawTree(t *rapid.T, w, h int, o Opts) *Tree {
	tr := &Tree{Labels: map[string]bool{}, budget: 60}
	tr.Image = tr.group(t, w, h, o, 0, "")

	d := fnv.New64a()

	fmt.Fprintf(d, "%s", Describe(tr.Image))

	tr.Key = fmt.Sprintf("%x", d.Sum64())

	return tr
}

func (tr *Tree) group(t *rapid.T, w, h int, o Opts, depth int, path string) limage.Image {
	lo := 1
	if o.EmptyOK && depth > 0 || o.AllowNone {
		lo = 0
	}

	n := rapid.IntRange(lo, o.Layers).Draw(t, path+"layers")

	if o.BigGroups && rapid.IntRange(0, 39).Draw(t, path+"many") == 0 {
		n = rapid.IntRange(31, 34).Draw(t, path+"many layers")
		o.Depth = 0

		tr.label("more than 30 layers in a group", true)
	}

	g := make(limage.Image, 0, n)

	for i := 0; i < n && tr.budget > 0; i++ {
		tr.budget--

		g = append(g, tr.layer(t, w, h, o, depth, fmt.Sprintf("%s%d ", path, i)))
	}

	tr.label("empty group", n == 0)
	tr.label("several layers", n > 1)

	return g
}

// area draws a rectangle in (or, with Anywhere, also around) a w by h area.
func (tr *Tree) area(t *rapid.T, w, h int, o Opts, path string) image.Rectangle {
	if w, h = max(w, 0), max(h, 0); o.Anywhere && rapid.IntRange(0, 2).Draw(t, path+"place") == 0 {
		x := rapid.IntRange(-w, w+2).Draw(t, path+"x")
		y := rapid.IntRange(-h, h+2).Draw(t, path+"y")

		return image.Rect(x, y, x+rapid.IntRange(0, w+4).Draw(t, path+"w"), y+rapid.IntRange(0, h+4).Draw(t, path+"h"))
	}

	if rapid.IntRange(0, 3).Draw(t, path+"whole") == 0 {
		return image.Rect(0, 0, w, h)
	}

	lw := min(w, Dim(t, w, path+"w"))
	lh := min(h, Dim(t, h, path+"h"))

	switch rapid.IntRange(0, 5).Draw(t, path+"stretch") {
	case 0:
		lw = w
	case 1:
		lh = h
	}

	x := rapid.IntRange(0, w-lw).Draw(t, path+"x")
	y := rapid.IntRange(0, h-lh).Draw(t, path+"y")

	return image.Rect(x, y, x+lw, y+lh)
}

func (tr *Tree) layer(t *rapid.T, w, h int, o Opts, depth int, path string) limage.Layer {
	l := limage.Layer{
		Name:        Name(t, path+"name"),
		LayerBounds: tr.area(t, w, h, o, path),
		Mode:        rapid.SampledFrom(o.Modes).Draw(t, path+"mode"),
	}

	if rapid.IntRange(0, 3).Draw(t, path+"plain mode") == 0 {
		l.Mode = limage.CompositeNormal
	}

	switch rapid.IntRange(0, 3).Draw(t, path+"opacity") {
	case 0:
		l.Transparency = uint8(rapid.IntRange(0, 255).Draw(t, path+"transparency"))
	case 1:
		l.Transparency = rapid.SampledFrom([]uint8{1, 127, 128, 254, 255}).Draw(t, path+"transparency")
	}

	l.Invisible = !o.AllVis && rapid.IntRange(0, 4).Draw(t, path+"visible") == 0
	lw, lh := l.LayerBounds.Dx(), l.LayerBounds.Dy()

	tr.label("layer not at the origin", l.LayerBounds.Min != image.Point{})
	tr.label("layer at a negative position", l.LayerBounds.Min.X < 0 || l.LayerBounds.Min.Y < 0)
	tr.label("invisible layer", l.Invisible)
	tr.label("translucent layer", l.Transparency > 0)
	tr.label("mode other than Normal", l.Mode != limage.CompositeNormal)
	tr.label("layer wider than a tile", lw > 64 || lh > 64)

	if depth < o.Depth && rapid.IntRange(0, 2).Draw(t, path+"group") == 0 {
		g := tr.group(t, lw, lh, o, depth+1, path+"g")

		// A group is as large as its layers.
		if !o.Anywhere {
			r := g.Bounds()

			if o.Loose && !r.Empty() && rapid.IntRange(0, 3).Draw(t, path+"loose") == 0 {
				// The area of the group begins before its content.
				tr.label("group larger than its content", r.Min != image.Point{})

				r.Min = image.Point{}
			}

			// Move the content to the group's corner: positions are relative to it.
			for i := range g {
				g[i].LayerBounds = g[i].LayerBounds.Sub(r.Min)
			}

			l.LayerBounds = image.Rectangle{Min: l.LayerBounds.Min, Max: l.LayerBounds.Min.Add(r.Size())}
		}

		tr.label("group", true)
		tr.label("group not at the origin", l.LayerBounds.Min != image.Point{})
		tr.label("nested group", depth > 0)
		tr.label("groups nested deeper than 2", depth > 1)

		l.Image = g

		if o.Pointers && rapid.Bool().Draw(t, path+"pointer") {
			l.Image = &g
		}

		if o.GroupMask && rapid.IntRange(0, 4).Draw(t, path+"group masked") == 0 {
			l.Image = limage.MaskedImage{Image: l.Image, Mask: Mask(t, image.Rectangle{Max: l.LayerBounds.Size()}, path+"mask ")}

			tr.label("mask on a group", true)
		}

		return l
	}

	r := image.Rect(0, 0, lw, lh)

	if o.Offset && rapid.IntRange(0, 5).Draw(t, path+"offset") == 0 {
		r.Min.X -= rapid.IntRange(-min(lw/2, 3), 3).Draw(t, path+"left")
		r.Min.Y -= rapid.IntRange(-min(lh/2, 3), 3).Draw(t, path+"top")
		r.Max.X += rapid.IntRange(-min(lw/2-1, 3), 3).Draw(t, path+"right")
		r.Max.Y += rapid.IntRange(-min(lh/2-1, 3), 3).Draw(t, path+"bottom")

		tr.label("image larger or smaller than its layer", true)
	}

	l.Image = tr.Pixels(t, r, o, path)

	if o.Masks && rapid.IntRange(0, 3).Draw(t, path+"masked") == 0 {
		mask := Mask(t, image.Rect(0, 0, lw, lh), path+"mask ")
		mi := limage.MaskedImage{Image: l.Image, Mask: mask}
		l.Image = mi

		if o.Pointers && rapid.Bool().Draw(t, path+"mask pointer") {
			l.Image = &mi
		}

		tr.label("mask", true)
		tr.label("mask on a layer with offset", l.LayerBounds.Min != image.Point{})
	}

	if o.Text && rapid.IntRange(0, 5).Draw(t, path+"text") == 0 {
		tx := limage.Text{Image: l.Image, TextData: limage.TextData{{Data: "text", ForeColor: color.Gray{}, Size: 12, Font: "Sans"}}}
		l.Image = tx

		if o.Pointers && rapid.Bool().Draw(t, path+"text pointer") {
			l.Image = &tx
		}

		tr.label("text", true)
	}

	return l
}

// Mask draws a mask.
func Mask(t *rapid.T, r image.Rectangle, label string) *image.Gray {
	return Make(Gray, r, Pattern(rapid.IntRange(0, int(patterns)-1).Draw(t, label+"pattern")), uint64(rapid.Uint32().Draw(t, label+"seed")), nil).(*image.Gray)
}

// Pixels draws a pixel image.
func (tr *Tree) Pixels(t *rapid.T, r image.Rectangle, o Opts, path string) image.Image {
	k := rapid.SampledFrom(o.Kinds).Draw(t, path+"kind")
	p := Pattern(rapid.IntRange(0, int(patterns)-1).Draw(t, path+"pattern"))
	seed := uint64(rapid.Uint32().Draw(t, path+"seed"))

	tr.label("kind "+k.String(), true)
	tr.label("pattern "+p.String(), true)

	if o.Nested && rapid.IntRange(0, 19).Draw(t, path+"nested") == 0 {
		l := limage.Layer{LayerBounds: r, Image: Make(k, image.Rectangle{Max: r.Size()}, p, seed, o.Palette)}

		tr.label("layer as the image of a layer", true)

		if rapid.Bool().Draw(t, path+"nested pointer") {
			return &l
		}

		return l
	}

	return Make(k, r, p, seed, o.Palette)
}

// Colourless gives images with empty palettes, which have no colours.
func Colourless(n int, r image.Rectangle) image.Image {
	switch n {
	case 0:
		return image.NewPaletted(r, nil)
	case 1:
		return image.NewPaletted(r, color.Palette{})
	case 2:
		return limage.NewPalettedAlpha(r, nil)
	case 3:
		return limage.MaskedImage{Image: limage.NewPalettedAlpha(r, lcolor.AlphaPalette{}), Mask: image.NewGray(r)}
	}

	return limage.Text{Image: limage.NewPalettedAlpha(r, lcolor.AlphaPalette{}), TextData: limage.TextData{{Data: "x"}}}
}

// OneImage draws a pixel image with the given bounds.
func OneImage(t *rapid.T, r image.Rectangle, ks []Kind, pal color.Palette) (image.Image, string) {
	tr := &Tree{Labels: map[string]bool{}}
	k := rapid.SampledFrom(ks).Draw(t, "kind")
	m := tr.Pixels(t, r, Opts{Kinds: []Kind{k}, Palette: pal}, "")

	return m, k.String()
}

// Describe writes a layer tree out.
func Describe(g limage.Image) string {
	var sb strings.Builder

	describe(&sb, g)

	return sb.String()
}

func describe(sb *strings.Builder, g limage.Image) {
	sb.WriteByte('[')

	for i, l := range g {
		if i > 0 {
			sb.WriteString(", ")
		}

		fmt.Fprintf(sb, "%q %v", l.Name, l.LayerBounds)

		if l.Mode != 0 {
			fmt.Fprintf(sb, " %s(%d)", l.Mode, l.Mode)
		}

		if l.Transparency != 0 {
			fmt.Fprintf(sb, " transparency %d", l.Transparency)
		}

		if l.Invisible {
			sb.WriteString(" invisible")
		}

		sb.WriteByte(' ')
		describeImage(sb, l.Image)
	}

	sb.WriteByte(']')
}

func describeImage(sb *strings.Builder, m image.Image) {
	switch im := m.(type) {
	case limage.Image:
		describe(sb, im)
	case *limage.Image:
		sb.WriteByte('&')
		describe(sb, *im)
	case limage.MaskedImage:
		sb.WriteString("masked ")
		describeImage(sb, im.Image)
	case *limage.MaskedImage:
		sb.WriteString("&masked ")
		describeImage(sb, im.Image)
	case limage.Text:
		fmt.Fprintf(sb, "text %q ", im.TextData.String())
		describeImage(sb, im.Image)
	case *limage.Text:
		fmt.Fprintf(sb, "&text %q ", im.TextData.String())
		describeImage(sb, im.Image)
	case nil:
		sb.WriteString("nil")
	default:
		fmt.Fprintf(sb, "%T%v#%x", m, m.Bounds(), Digest(m)&0xffff)
	}
}

// Digest hashes the pixels an image shows.
func Digest(m image.Image) uint64 {
	b := m.Bounds()
	d := fnv.New64a()

	fmt.Fprint(d, b)

	var buf [8]byte

	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			c := m.At(x, y)
			if c == nil { // there is none in an empty palette
				d.Write([]byte{1})

				continue
			}

			r, g, bl, a := c.RGBA()
			buf = [8]byte{byte(r), byte(r >> 8), byte(g), byte(g >> 8), byte(bl), byte(bl >> 8), byte(a), byte(a >> 8)}

			d.Write(buf[:])
		}
	}

	return d.Sum64()
}
