package xcfref

import (
	"encoding/binary"
	"fmt"
	"math"
	"sort"
	"unicode/utf8"
)

type parser struct {
	b     []byte
	f     *File
	ptr   int // size of pointers
	used  []Place
	start int
}

type cursor struct {
	p   *parser
	at  int
	end int
}

type parseError string

func fail(format string, args ...any) { panic(parseError(fmt.Sprintf(format, args...))) }

func (c *cursor) bytes(n int) []byte {
	if n < 0 || c.at+n > c.end {
		fail("%d bytes at %d go beyond the end, %d", n, c.at, c.end)
	}

	b := c.p.b[c.at : c.at+n]
	c.at += n

	return b
}

func (c *cursor) u32() uint32 { return binary.BigEndian.Uint32(c.bytes(4)) }

func (c *cursor) pointer() int {
	if c.p.ptr == 8 {
		v := binary.BigEndian.Uint64(c.bytes(8))
		if v > uint64(len(c.p.b)) {
			fail("pointer %d at %d", v, c.at-8)
		}

		return int(v)
	}

	v := int(c.u32())
	if v >= len(c.p.b) {
		fail("pointer %d at %d", v, c.at-4)
	}

	return v
}

func (c *cursor) str() string {
	n := int(c.u32())
	if n == 0 {
		return ""
	}

	b := c.bytes(n)

	if b[n-1] != 0 {
		fail("string at %d does not end with 0", c.at-n)
	}

	for _, x := range b[:n-1] {
		if x == 0 {
			fail("string at %d has a 0", c.at-n)
		}
	}

	if !utf8.Valid(b[:n-1]) {
		fail("string at %d is not UTF-8", c.at-n)
	}

	return string(b[:n-1])
}

func (p *parser) at(off int) *cursor {
	if off == 0 {
		fail("pointer 0 where there must be one")
	}

	return &cursor{p: p, at: off, end: len(p.b)}
}

func (p *parser) use(from int, c *cursor, kind string) {
	p.used = append(p.used, Place{from, c.at - from, kind})
}

func (c *cursor) props(where string) map[uint32][]byte {
	m := map[uint32][]byte{}

	for {
		id, n := c.u32(), c.u32()
		if id == PropEnd {
			if n != 0 {
				fail("%s: PROP_END with %d bytes", where, n)
			}

			return m
		}

		if n > uint32(len(c.p.b)) {
			fail("%s: property %d has %d bytes", where, id, n)
		}

		if _, ok := m[id]; ok {
			fail("%s: property %d is there twice", where, id)
		}

		want := -1

		switch id {
		case PropOpacity, PropMode, PropVisible, PropLinked, PropLockAlpha, PropApplyMask, PropEditMask, PropShowMask, PropShowMasked, PropTattoo,
			PropUnit, PropTextLayerFlags, PropLockContent, PropGroupItemFlags, PropLockPosition, PropFloatOpacity, PropColorTag, PropCompositeMode, PropCompositeSpace, PropBlendSpace:
			want = 4
		case PropOffsets, PropResolution:
			want = 8
		case PropActiveLayer, PropActiveChannel, PropSelection, PropGroupItem:
			want = 0
		case PropColor:
			want = 3
		case PropCompression:
			want = 1
		case PropItemPath:
			if n%4 != 0 || n == 0 {
				fail("%s: path of %d bytes", where, n)
			}
		case PropFloatingSelection, PropColormap, PropGuides, PropParasites, PropPaths, PropUserUnit, PropVectors, PropOldSamplePoints, PropFloatColor, PropSamplePoints:
		default:
			fail("%s: unknown property %d", where, id)
		}

		if want >= 0 && int(n) != want {
			fail("%s: property %d has %d bytes", where, id, n)
		}

		m[id] = c.bytes(int(n))
	}
}

func boolean(b []byte, def bool) bool {
	if b == nil {
		return def
	}

	switch v := binary.BigEndian.Uint32(b); v {
	case 0:
		return false
	case 1:
		return true
	default:
		fail("boolean %d", v)
	}

	return false
}

// Parse reads a file, and is not lenient about it.
func Parse(b []byte) (f *File, err error) {
	f = &File{}
	p := &parser{b: b, f: f}

	defer func() {
		if r := recover(); r != nil {
			pe, ok := r.(parseError)
			if !ok {
				panic(r)
			}

			err = fmt.Errorf("%s", string(pe))
		}
	}()

	c := &cursor{p: p, end: len(b)}

	if string(c.bytes(9)) != "gimp xcf " {
		fail("not an XCF file")
	}

	switch v := string(c.bytes(4)); {
	case v == "file":
	case v[0] == 'v':
		if _, err := fmt.Sscanf(v[1:], "%03d", &f.Version); err != nil || f.Version < 1 || f.Version > 13 {
			fail("version %q", v)
		}
	default:
		fail("version %q", v)
	}

	if c.bytes(1)[0] != 0 {
		fail("no 0 after the version")
	}

	if p.ptr = 4; f.Version >= 11 {
		p.ptr = 8
	}

	f.W, f.H, f.Base = c.u32(), c.u32(), c.u32()

	if f.Base > Indexed {
		fail("base type %d", f.Base)
	}

	if f.Version >= 4 {
		f.Precision = c.u32()
	}

	ps := c.props("image")

	if cm, ok := ps[PropColormap]; ok != (f.Base == Indexed) {
		fail("color map %t, base type %d", ok, f.Base)
	} else if ok {
		n := binary.BigEndian.Uint32(cm)

		if n == 0 || n > 256 || len(cm) != int(4+3*n) {
			fail("color map of %d colors in %d bytes", n, len(cm))
		}

		for cm = cm[4:]; len(cm) > 0; cm = cm[3:] {
			f.Colormap = append(f.Colormap, [3]uint8(cm))
		}
	}

	if comp, ok := ps[PropCompression]; ok {
		if f.Compression = comp[0]; f.Compression > 1 {
			fail("compression %d", f.Compression)
		}
	}

	var lp, cp []int

	for {
		o := c.pointer()
		if o == 0 {
			break
		}

		lp = append(lp, o)
	}

	for {
		o := c.pointer()
		if o == 0 {
			break
		}

		cp = append(cp, o)
	}

	p.use(0, c, "header")

	byPath := map[string]*Layer{}
	key := func(path []uint32) string { return fmt.Sprint(path) }

	for n, o := range lp {
		l, path := p.layer(o)

		if len(path) == 0 {
			path = []uint32{uint32(len(f.Layers))}
		}

		siblings := &f.Layers

		if len(path) > 1 {
			parent := byPath[key(path[:len(path)-1])]
			if parent == nil || !parent.IsGroup {
				fail("layer %d (%q): path %v leads to no group", n, l.Name, path)
			}

			siblings = &parent.Items
		}

		if int(path[len(path)-1]) != len(*siblings) {
			fail("layer %d (%q): path %v is out of order", n, l.Name, path)
		}

		*siblings = append(*siblings, l)
		byPath[key(path)] = l
	}

	for _, o := range cp {
		f.Channels = append(f.Channels, p.channel(o))
	}

	// No byte is used for two things.
	sort.Slice(p.used, func(i, j int) bool { return p.used[i].Off < p.used[j].Off })

	for i := 1; i < len(p.used); i++ {
		if a, b := p.used[i-1], p.used[i]; a.Off+a.Len > b.Off {
			fail("%s at %d+%d and %s at %d overlap", a.Kind, a.Off, a.Len, b.Kind, b.Off)
		}
	}

	return f, nil
}

func (p *parser) layer(o int) (*Layer, []uint32) {
	c := p.at(o)
	l := &Layer{Opacity: 255}
	l.W, l.H = c.u32(), c.u32()
	typ := c.u32()

	if typ/2 != p.f.Base {
		fail("layer of type %d in an image of type %d", typ, p.f.Base)
	}

	l.Alpha = typ&1 == 1
	l.Name = c.str()
	ps := c.props("layer " + l.Name)

	if v, ok := ps[PropOpacity]; ok {
		n := binary.BigEndian.Uint32(v)
		if n > 255 {
			fail("opacity %d", n)
		}

		l.Opacity = uint8(n)
	}

	if v, ok := ps[PropFloatOpacity]; ok {
		o := math.Float32frombits(binary.BigEndian.Uint32(v))
		if !(o >= 0 && o <= 1) {
			fail("opacity %v", o)
		}

		l.Opacity = uint8(math.Round(float64(o) * 255))
	}

	l.Hidden = !boolean(ps[PropVisible], true)

	if v, ok := ps[PropMode]; ok {
		if l.Mode = binary.BigEndian.Uint32(v); l.Mode > 61 {
			fail("mode %d", l.Mode)
		}
	}

	if v, ok := ps[PropOffsets]; ok {
		l.X = int32(binary.BigEndian.Uint32(v))
		l.Y = int32(binary.BigEndian.Uint32(v[4:]))
	}

	_, l.IsGroup = ps[PropGroupItem]
	l.ApplyMask = 1

	if !boolean(ps[PropApplyMask], true) {
		l.ApplyMask = 2
	}

	var path []uint32

	for v := ps[PropItemPath]; len(v) > 0; v = v[4:] {
		path = append(path, binary.BigEndian.Uint32(v))
	}

	if v, ok := ps[PropParasites]; ok {
		pc := &cursor{p: &parser{b: v}, end: len(v)}

		for pc.at < pc.end {
			name := pc.str()
			pc.u32()
			data := pc.bytes(int(pc.u32()))

			if name == "gimp-text-layer" {
				l.Text, l.HasText = data, true
			}
		}
	}

	if _, ok := ps[PropTextLayerFlags]; ok != l.HasText {
		fail("layer %q: text flags %t, text %t", l.Name, ok, l.HasText)
	}

	h, m := c.pointer(), c.pointer()

	p.use(o, c, "layer")

	l.Pixels = p.hierarchy(h, l.W, l.H, BPP(p.f.Base, l.Alpha))

	if p.f.Base == Indexed {
		step := BPP(p.f.Base, l.Alpha)

		for i := 0; i < len(l.Pixels); i += step {
			if int(l.Pixels[i]) >= len(p.f.Colormap) {
				fail("color %d is not in the color map", l.Pixels[i])
			}
		}
	}

	if m != 0 {
		l.Mask = p.channel(m)

		if l.Mask.W != l.W || l.Mask.H != l.H {
			fail("layer %dx%d has a mask %dx%d", l.W, l.H, l.Mask.W, l.Mask.H)
		}
	}

	return l, path
}

func (p *parser) channel(o int) *Channel {
	c := p.at(o)
	ch := &Channel{W: c.u32(), H: c.u32(), Name: c.str()}

	c.props("channel")

	h := c.pointer()

	p.use(o, c, "channel")

	ch.Pixels = p.hierarchy(h, ch.W, ch.H, 1)

	return ch
}

func (p *parser) hierarchy(o int, w, h uint32, bpp int) []byte {
	c := p.at(o)

	if hw, hh, hb := c.u32(), c.u32(), c.u32(); hw != w || hh != h || int(hb) != bpp {
		fail("hierarchy %dx%d with %d bytes a pixel, not %dx%d with %d", hw, hh, hb, w, h, bpp)
	}

	l := c.pointer()

	for {
		if c.pointer() == 0 {
			break
		}
	}

	p.use(o, c, "hierarchy")

	c = p.at(l)

	if lw, lh := c.u32(), c.u32(); lw != w || lh != h {
		fail("level %dx%d, not %dx%d", lw, lh, w, h)
	}

	nx, ny := (int(w)+63)/64, (int(h)+63)/64
	tiles := make([]int, 0, nx*ny)

	for {
		t := c.pointer()
		if t == 0 {
			break
		}

		tiles = append(tiles, t)
	}

	if len(tiles) != nx*ny {
		fail("level has %d tiles, not %d", len(tiles), nx*ny)
	}

	p.use(l, c, "level")

	px := make([]byte, int(w)*int(h)*bpp)

	for n, t := range tiles {
		x, y := n%nx*64, n/nx*64
		tw, th := min(64, int(w)-x), min(64, int(h)-y)
		c := p.at(t)

		if p.f.Compression == 0 {
			for j := y; j < y+th; j++ {
				copy(px[(j*int(w)+x)*bpp:], c.bytes(tw*bpp))
			}
		} else {
			for k := 0; k < bpp; k++ {
				for i, v := range c.unrle(tw * th) {
					px[((y+i/tw)*int(w)+x+i%tw)*bpp+k] = v
				}
			}
		}

		p.use(t, c, "tile")
	}

	return px
}

func (c *cursor) unrle(n int) []byte {
	out := make([]byte, 0, n)

	for len(out) < n {
		op := int(c.bytes(1)[0])

		switch {
		case op <= 126:
			v := c.bytes(1)[0]

			for i := 0; i <= op; i++ {
				out = append(out, v)
			}
		case op == 127:
			b := c.bytes(3)

			for i := int(b[0])<<8 | int(b[1]); i > 0; i-- {
				out = append(out, b[2])
			}
		case op == 128:
			b := c.bytes(2)
			out = append(out, c.bytes(int(b[0])<<8|int(b[1]))...)
		default:
			out = append(out, c.bytes(256-op)...)
		}
	}

	if len(out) != n {
		fail("data of a tile at %d: a run goes beyond the channel", c.at)
	}

	return out
}
