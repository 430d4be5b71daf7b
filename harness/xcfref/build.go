// Package xcfref writes and reads XCF files independently of the library, from
// the specification of the format (devel-docs/xcf.txt of GIMP).
package xcfref

import (
	"encoding/binary"
	"math"

	"limageverif/gen"
)

// Numbers of properties.
const (
	PropEnd = iota
	PropColormap
	PropActiveLayer
	PropActiveChannel
	PropSelection
	PropFloatingSelection
	PropOpacity
	PropMode
	PropVisible
	PropLinked
	PropLockAlpha
	PropApplyMask
	PropEditMask
	PropShowMask
	PropShowMasked
	PropOffsets
	PropColor
	PropCompression
	PropGuides
	PropResolution
	PropTattoo
	PropParasites
	PropUnit
	PropPaths
	PropUserUnit
	PropVectors
	PropTextLayerFlags
	PropOldSamplePoints
	PropLockContent
	PropGroupItem
	PropItemPath
	PropGroupItemFlags
	PropLockPosition
	PropFloatOpacity
	PropColorTag
	PropCompositeMode
	PropCompositeSpace
	PropBlendSpace
	PropFloatColor
	PropSamplePoints
)

// Kinds of image.
const (
	RGB = iota
	Gray
	Indexed
)

// Prop is a property.
type Prop struct {
	ID   uint32
	Data []byte
}

// Channel is a mask, a selection or an extra channel.
type Channel struct {
	Name   string
	W, H   uint32
	Pixels []byte
	Extra  []Prop
}

// Layer is a layer or a group.
type Layer struct {
	Name         string
	W, H         uint32
	X, Y         int32
	Alpha        bool
	Opacity      uint8
	FloatOpacity bool // written as a number from 0 to 1, too
	Hidden       bool
	Mode         uint32
	IsGroup      bool
	Items        []*Layer // of a group
	Pixels       []byte   // all channels of a pixel together
	Mask         *Channel
	ApplyMask    int    // 0: not said, 1: yes, 2: no
	Text         []byte // data of the parasite
	HasText      bool
	Extra        []Prop
}

// File is an XCF file.
type File struct {
	Version     int
	W, H        uint32
	Base        uint32
	Precision   uint32
	Compression uint8 // 0 or 1
	Colormap    [][3]uint8
	Extra       []Prop
	Layers      []*Layer
	Channels    []*Channel

	// How it is written.
	Seed       uint64
	Shuffle    bool // blocks and properties in any order
	Gaps       bool // unused bytes between blocks
	Spare      bool // say what could be left out, and have smaller levels, as GIMP does
	GroupPaths bool // layers at the top have a path, too

	NoColormap bool // although there should be one

	// Tamper, where there is one, may replace the numbers which are written.
	Tamper func(what string, v uint64) uint64
}

// Channels gives the number of bytes of a pixel.
func BPP(base uint32, alpha bool) int {
	n := 1
	if base == RGB {
		n = 3
	}

	if alpha {
		n++
	}

	return n
}

// U32 writes numbers.
func U32(vs ...uint32) []byte {
	var b []byte

	for _, v := range vs {
		b = binary.BigEndian.AppendUint32(b, v)
	}

	return b
}

// F32 writes floating point numbers.
func F32(vs ...float32) []byte {
	var b []byte

	for _, v := range vs {
		b = binary.BigEndian.AppendUint32(b, math.Float32bits(v))
	}

	return b
}

// Str writes a string.
func Str(s string) []byte {
	if s == "" {
		return U32(0)
	}

	return append(append(U32(uint32(len(s))+1), s...), 0)
}

// Parasite writes a parasite.
func Parasite(name string, flags uint32, data []byte) []byte {
	return append(append(append(Str(name), U32(flags)...), U32(uint32(len(data)))...), data...)
}

type fixup struct {
	at, block int
}

type block struct {
	data []byte
	fix  []fixup
	kind string
}

// Place says what a range of the bytes of the file is.
type Place struct {
	Off, Len int
	Kind     string
}

type builder struct {
	f      *File
	blocks []*block
	rnd    uint64
}

func (b *builder) rand(n int) int {
	b.rnd++

	return int(gen.Mix(b.f.Seed, b.rnd) % uint64(n))
}

func (b *builder) block(kind string) (*block, int) {
	bl := &block{kind: kind}
	b.blocks = append(b.blocks, bl)

	return bl, len(b.blocks) - 1
}

// num gives the number to be written.
func (b *builder) num(what string, v uint32) uint32 {
	if b.f.Tamper == nil {
		return v
	}

	return uint32(b.f.Tamper(what, uint64(v)))
}

// str writes a string, with all of its parts open to being replaced.
func (b *builder) str(what, s string) []byte {
	out := Str(s)

	if b.f.Tamper != nil {
		copy(out, U32(b.num(what+" length", uint32(len(out)-4))))

		for i := 4; i < len(out)-1; i++ {
			out[i] = byte(b.num(what+" byte", uint32(out[i])))
		}

		if len(out) > 4 {
			out[len(out)-1] = byte(b.num(what+" terminator", 0))
		}
	}

	return out
}

// point writes a pointer to a block, which may be replaced by another number.
func (b *builder) point(what string, bl *block, target int) {
	if b.f.Tamper != nil {
		const same = 1<<64 - 2

		if v := b.f.Tamper(what, same); v != same {
			if b.f.Version >= 11 {
				bl.data = append(bl.data, U32(uint32(v>>32))...)
			}

			bl.data = append(bl.data, U32(uint32(v))...)

			return
		}
	}

	b.ptr(bl, target)
}

func (b *builder) ptr(bl *block, target int) {
	if target >= 0 {
		bl.fix = append(bl.fix, fixup{len(bl.data), target})
	}

	if b.f.Version >= 11 {
		bl.data = append(bl.data, 0, 0, 0, 0)
	}

	bl.data = append(bl.data, 0, 0, 0, 0)
}

func (b *builder) props(what string, bl *block, ps []Prop) {
	if b.f.Shuffle {
		for i := len(ps) - 1; i > 0; i-- {
			j := b.rand(i + 1)
			ps[i], ps[j] = ps[j], ps[i]
		}
	}

	for _, p := range ps {
		bl.data = append(bl.data, U32(p.ID, uint32(len(p.Data)))...)
		bl.data = append(bl.data, p.Data...)
	}

	bl.data = append(bl.data, U32(PropEnd, b.num(what+" end", 0))...)
}

// Build writes the file.
func (f *File) Build() []byte {
	b, _ := f.BuildPlaces()

	return b
}

// BuildPlaces writes the file and says what is where.
func (f *File) BuildPlaces() ([]byte, []Place) {
	b, order := f.blocks()

	var (
		out    []byte
		places []Place
	)

	at := make([]uint64, len(b.blocks))

	for _, n := range order {
		if f.Gaps && n != 0 && b.rand(3) == 0 {
			for k := b.rand(40); k > 0; k-- {
				out = append(out, byte(b.rand(256)))
			}
		}

		at[n] = uint64(len(out))
		out = append(out, b.blocks[n].data...)
		places = append(places, Place{int(at[n]), len(b.blocks[n].data), b.blocks[n].kind})
	}

	b.resolve(at)

	for n, bl := range b.blocks {
		copy(out[at[n]:], bl.data)
	}

	return out, places
}

// resolve fills in the pointers.
func (b *builder) resolve(at []uint64) {
	for _, bl := range b.blocks {
		for _, x := range bl.fix {
			if b.f.Version >= 11 {
				binary.BigEndian.PutUint64(bl.data[x.at:], at[x.block])
			} else {
				binary.BigEndian.PutUint32(bl.data[x.at:], uint32(at[x.block]))
			}
		}
	}
}

// BuildSparse writes the file with the blocks far from each other, around the
// limits of numbers. It also gives the highest address of a block.
func (f *File) BuildSparse() (*Sparse, uint64) {
	b, order := f.blocks()

	total := uint64(0)
	for _, bl := range b.blocks {
		total += uint64(len(bl.data))
	}

	marks := []uint64{1 << 16, 1 << 24, 1 << 31, 1<<32 - 1 - total}
	if f.Version >= 11 {
		marks = append(marks, 1<<32, 1<<33, 1<<40, 1<<48, 1<<53, 1<<62, 1<<63-1-total)
	}

	var (
		s    Sparse
		pos  uint64
		high uint64
	)

	at := make([]uint64, len(b.blocks))

	for _, n := range order {
		if n != 0 && b.rand(2) == 0 {
			m := marks[b.rand(len(marks))]
			m -= uint64(b.rand(64)) * uint64(b.rand(2))

			if m > pos {
				pos = m
			}
		}

		at[n] = pos
		high = max(high, pos)
		s.parts = append(s.parts, part{int64(pos), b.blocks[n].data})
		pos += uint64(len(b.blocks[n].data))
	}

	s.Size = int64(pos)

	b.resolve(at)

	return &s, high
}

// blocks makes the blocks of the file, and the order in which they come.
func (f *File) blocks() (*builder, []int) {
	b := &builder{f: f}
	h, _ := b.block("header")

	for _, c := range []byte("gimp xcf ") {
		h.data = append(h.data, byte(b.num("magic", uint32(c))))
	}

	if f.Version == 0 {
		h.data = append(h.data, "file"...)
	} else {
		h.data = append(h.data, 'v', '0', byte('0'+f.Version/10), byte('0'+f.Version%10))
	}

	copy(h.data[len(h.data)-4:], U32(b.num("version", binary.BigEndian.Uint32(h.data[len(h.data)-4:]))))

	h.data = append(h.data, byte(b.num("header end", 0)))
	h.data = append(h.data, U32(f.W, f.H, b.num("base", f.Base))...)

	if f.Version >= 4 {
		h.data = append(h.data, U32(f.Precision)...)
	}

	var ps []Prop

	if f.Base == Indexed && !f.NoColormap {
		d := U32(b.num("colors", uint32(len(f.Colormap))))

		for _, c := range f.Colormap {
			d = append(d, c[:]...)
		}

		ps = append(ps, Prop{PropColormap, d})
	}

	if f.Compression != 0 || f.Spare {
		ps = append(ps, Prop{PropCompression, []byte{byte(b.num("compression", uint32(f.Compression)))}})
	}

	b.props("image properties", h, append(ps, f.Extra...))

	for i, l := range f.Layers {
		b.layer(h, l, []uint32{uint32(i)})
	}

	b.ptr(h, -1)

	for _, c := range f.Channels {
		_, n := b.channel("unused channel", c)
		b.ptr(h, n)
	}

	b.ptr(h, -1)

	// Put the blocks in place.
	order := make([]int, len(b.blocks))
	for i := range order {
		order[i] = i
	}

	if f.Shuffle {
		for i := len(order) - 1; i > 1; i-- {
			j := 1 + b.rand(i)
			order[i], order[j] = order[j], order[i]
		}
	}

	return b, order
}

func (b *builder) layer(h *block, l *Layer, path []uint32) {
	bl, n := b.block("layer")

	b.point("layer pointer", h, n)

	typ := b.f.Base * 2
	if l.Alpha {
		typ++
	}

	bl.data = append(bl.data, U32(l.W, l.H, b.num("layer type", typ))...)
	bl.data = append(bl.data, b.str("name", l.Name)...)

	var ps []Prop

	spare := func() bool { return b.f.Spare || b.rand(3) == 0 }

	if l.Opacity != 255 && !l.FloatOpacity || l.Opacity == 255 && spare() {
		ps = append(ps, Prop{PropOpacity, U32(b.num("opacity", uint32(l.Opacity)))})
	}

	if l.FloatOpacity {
		ps = append(ps, Prop{PropFloatOpacity, U32(b.num("float opacity", math.Float32bits(float32(l.Opacity)/255)))})
	}

	if l.Hidden || spare() {
		v := uint32(1)
		if l.Hidden {
			v = 0
		}

		ps = append(ps, Prop{PropVisible, U32(b.num("boolean", v))})
	}

	if l.Mode != 0 || spare() {
		ps = append(ps, Prop{PropMode, U32(l.Mode)})
	}

	if l.X != 0 || l.Y != 0 || spare() {
		ps = append(ps, Prop{PropOffsets, U32(uint32(l.X), uint32(l.Y))})
	}

	if len(path) > 1 || b.f.GroupPaths {
		d := U32(path...)
		d = append(d, make([]byte, b.num("path excess", 0))...)

		// The last number is not needed.
		for i := 0; i < len(path)-1; i++ {
			copy(d[4*i:], U32(b.num("path", path[i])))
		}

		ps = append(ps, Prop{PropItemPath, d})
	}

	if l.IsGroup {
		ps = append(ps, Prop{PropGroupItem, nil})
	}

	switch l.ApplyMask {
	case 1:
		ps = append(ps, Prop{PropApplyMask, U32(b.num("boolean", 1))})
	case 2:
		ps = append(ps, Prop{PropApplyMask, U32(b.num("boolean", 0))})
	}

	if l.HasText {
		d := Parasite("gimp-text-layer", 1, l.Text)
		copy(d[len(d)-len(l.Text)-4:], U32(b.num("parasite length", uint32(len(l.Text)))))

		if spare() {
			d = append(Parasite("before", 0, []byte("some (text \"no\")\x00")), d...)
		}

		if spare() {
			d = append(d, Parasite("gimp-text-layer-not", 0, nil)...)
		}

		ps = append(ps, Prop{PropTextLayerFlags, U32(0)}, Prop{PropParasites, d})
	}

	pic, mask := "picture", "mask"

	if l.IsGroup {
		pic = "unused picture"
	}

	if l.ApplyMask == 2 {
		mask = "unused mask"
	}

	b.props("layer properties", bl, append(ps, l.Extra...))
	b.point(pic+" pointer", bl, b.hierarchy(pic, l.W, l.H, BPP(b.f.Base, l.Alpha), l.Pixels))

	if l.Mask != nil {
		_, m := b.channel(mask, l.Mask)
		b.point(mask+" pointer", bl, m)
	} else {
		b.ptr(bl, -1)
	}

	for i, c := range l.Items {
		b.layer(h, c, append(path[:len(path):len(path)], uint32(i)))
	}
}

func (b *builder) channel(what string, c *Channel) (*block, int) {
	bl, n := b.block("channel")
	bl.data = append(bl.data, U32(b.num(what+" size", c.W), b.num(what+" size", c.H))...)
	bl.data = append(bl.data, Str(c.Name)...)

	b.props(what+" properties", bl, append([]Prop{}, c.Extra...))
	b.point(what+" pointer", bl, b.hierarchy(what, c.W, c.H, 1, c.Pixels))

	return bl, n
}

func (b *builder) hierarchy(what string, w, h uint32, bpp int, px []byte) int {
	bl, n := b.block("hierarchy")
	bl.data = append(bl.data, U32(b.num(what+" size", w), b.num(what+" size", h), b.num(what+" bytes per pixel", uint32(bpp)))...)

	lv, ln := b.block("level")

	b.point(what+" pointer", bl, ln)

	if b.f.Spare {
		for dw, dh := w/2, h/2; dw > 0 && dh > 0 && (dw > 64 || dh > 64); dw, dh = dw/2, dh/2 {
			dl, dn := b.block("dummy level")
			dl.data = append(dl.data, U32(dw, dh)...)

			b.ptr(dl, -1)
			b.ptr(bl, dn)
		}
	}

	b.ptr(bl, -1)

	lv.data = append(lv.data, U32(b.num(what+" size", w), b.num(what+" size", h))...)

	for y := 0; y < int(h); y += 64 {
		for x := 0; x < int(w); x += 64 {
			tl, tn := b.block("tile")

			b.point(what+" pointer", lv, tn)

			tw, th := min(64, int(w)-x), min(64, int(h)-y)

			if b.f.Compression == 0 {
				for j := y; j < y+th; j++ {
					tl.data = append(tl.data, px[(j*int(w)+x)*bpp:(j*int(w)+x+tw)*bpp]...)
				}

				continue
			}

			for k := 0; k < bpp; k++ {
				ch := make([]byte, 0, tw*th)

				for j := y; j < y+th; j++ {
					for i := x; i < x+tw; i++ {
						ch = append(ch, px[(j*int(w)+i)*bpp+k])
					}
				}

				tl.data = b.rle(what, tl.data, ch)
			}
		}
	}

	b.point(what+" end", lv, -1)

	return n
}

// rle compresses one channel, choosing among the legal ways.
func (b *builder) rle(what string, out, ch []byte) []byte {
	style := b.rand(5) // of the tile's channel

	for len(ch) > 0 {
		run := 1
		for run < len(ch) && ch[run] == ch[0] {
			run++
		}

		literal := run < 3

		switch style {
		case 1: // runs only
			literal = false
		case 2: // literal data only
			literal = true
		case 3: // anything
			literal = b.rand(2) == 0
		}

		n := run

		if literal {
			n = 1
			for n < len(ch) && (style == 2 || n+2 >= len(ch) || ch[n] != ch[n+1] || ch[n] != ch[n+2]) {
				n++
			}

			if style == 3 {
				n = 1 + b.rand(min(len(ch), 400))
			}
		}

		if style >= 3 && b.rand(3) == 0 { // not as much as possible
			n = 1 + b.rand(n)
		}

		long := n > 127 || style >= 3 && b.rand(6) == 0

		if long && n > 127 && style == 0 && b.rand(2) == 0 {
			n, long = 127, false
		}

		// Only the last one can go too far.
		if n == len(ch) {
			if m := n + int(b.num(what+" excess", 0)); m > n {
				ch = append(ch, make([]byte, m-n)...)
				n, long = m, true
			}
		}

		switch {
		case literal && long:
			out = append(out, 128, byte(n>>8), byte(n))
			out = append(out, ch[:n]...)
		case literal:
			out = append(out, byte(256-n))
			out = append(out, ch[:n]...)
		case long:
			out = append(out, 127, byte(n>>8), byte(n), ch[0])
		default:
			out = append(out, byte(n-1), ch[0])
		}

		ch = ch[n:]
	}

	return out
}
