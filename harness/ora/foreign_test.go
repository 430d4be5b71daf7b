package ora

import (
	"archive/zip"
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/png"
	"math"
	"path"
	"strconv"
	"strings"
	"testing"

	"limageverif/cmp"
	"limageverif/gen"
	"limageverif/vt"
	"pgregory.net/rapid"
	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/ora"
)

// node is a stack or a layer of a file of another program.
type node struct {
	stack   bool
	kids    []*node
	name    string
	at      image.Point
	src     int // of a layer
	opacity float64
	hidden  bool
	mode    limage.Composite
	xml     string // the start tag's attributes
}

// foreign is a valid OpenRaster file which the library has not written.
type foreign struct {
	w, h     int
	srcs     []image.Image
	pngs     [][]byte
	names    []string
	kids     []*node
	stackXML string
	labels   map[string]bool
	budget   int
	palette  bool
}

func (f *foreign) label(l string, b bool) {
	if b {
		f.labels[l] = true
	}
}

func escape(t *rapid.T, s string, quote byte) string {
	var sb strings.Builder

	for _, r := range s {
		switch {
		case r == '&':
			sb.WriteString(rapid.SampledFrom([]string{"&amp;", "&#38;", "&#x26;"}).Draw(t, "escaped"))
		case r == '<':
			sb.WriteString("&lt;")
		case r == '>' && rapid.Bool().Draw(t, "escape >"):
			sb.WriteString("&gt;")
		case byte(r) == quote && r < 128:
			sb.WriteString(map[byte]string{'"': "&quot;", '\'': "&apos;"}[quote])
		case r == '\t' || r == '\n' || r == '\r':
			fmt.Fprintf(&sb, "&#%d;", r)
		case r > 127 && rapid.Bool().Draw(t, "numeric"):
			fmt.Fprintf(&sb, "&#x%X;", r)
		default:
			sb.WriteRune(r)
		}
	}

	return sb.String()
}

var junkAttrs = []string{`isolation="isolate"`, `selected="true"`, `edit-locked="unknown"`, `alpha-preserve="true"`, `X="7"`, `offset-x="9"`, `Opacity="0"`, `background-tile="data/none.png"`, `visible="hidden"`, `opacity-x="0.3"`, `foo:x="11"`, `foo:opacity="0.1"`, `foo:name="other"`, `foo:src="data/none.png"`, `foo:visibility="hidden"`}

// space draws white space; at least one character if must.
func space(t *rapid.T, must bool) string {
	s := rapid.SampledFrom([]string{"", "", " ", "\n", "\t", "  \n\t"}).Draw(t, "space")

	if must && s == "" {
		return " "
	}

	return s
}

func (f *foreign) node(t *rapid.T, depth int, deep int) *node {
	f.budget--

	n := &node{opacity: 1}

	var attrs []string

	add := func(name, value string) {
		q := byte('"')
		if rapid.IntRange(0, 4).Draw(t, "quotes") == 0 {
			q = '\''
		}

		attrs = append(attrs, name+space2(t)+"="+space2(t)+string(q)+escape(t, value, q)+string(q))
	}

	if rapid.IntRange(0, 5).Draw(t, "named") > 0 {
		n.name = gen.Name(t, "name")

		add("name", n.name)
	}

	coord := func(name string, size int) int {
		var v int

		switch rapid.IntRange(0, 5).Draw(t, name+" kind") {
		case 0:
			return 0 // left out
		case 1:
			v = rapid.IntRange(-size-3, -1).Draw(t, name)
		case 2:
			v = rapid.IntRange(-3, 3).Draw(t, name)
		default:
			v = rapid.IntRange(-3, size+2).Draw(t, name)
		}

		add(name, strconv.Itoa(v))

		return v
	}

	n.at.X = coord("x", f.w)
	n.at.Y = coord("y", f.h)

	f.label("negative offset", n.at.X < 0 || n.at.Y < 0)

	if rapid.IntRange(0, 2).Draw(t, "opacity") == 0 {
		n.opacity = rapid.SampledFrom([]float64{0, 1, 0.5, 0.25, 1.0 / 255, 254.0 / 255, 0.999, 0.003, 0.502}).Draw(t, "opacity value")

		if rapid.Bool().Draw(t, "any opacity") {
			n.opacity = float64(rapid.IntRange(0, 1000).Draw(t, "thousandths")) / 1000
		}

		v := strconv.FormatFloat(n.opacity, 'f', -1, 64)

		switch rapid.IntRange(0, 4).Draw(t, "opacity form") {
		case 0:
			v = strconv.FormatFloat(n.opacity, 'e', -1, 64)
		case 1:
			v = strconv.FormatFloat(n.opacity, 'f', 12, 64)
		case 2:
			if strings.HasPrefix(v, "0.") {
				v = v[1:]
			}
		}

		add("opacity", v)
		f.label("translucent", n.opacity < 1)
	}

	switch rapid.IntRange(0, 4).Draw(t, "visibility") {
	case 0:
		n.hidden = true

		add("visibility", "hidden")
	case 1:
		add("visibility", "visible")
	case 2:
		// Neither of the two there are: as good as none.
		if rapid.IntRange(0, 2).Draw(t, "odd visibility") == 0 {
			add("visibility", rapid.SampledFrom([]string{"", "inherit", "visible ", "shown", "true"}).Draw(t, "visibility value"))
			f.label("unknown visibility", true)
		}
	}

	if rapid.Bool().Draw(t, "has op") {
		n.mode = rapid.SampledFrom(oraModes()).Draw(t, "op")

		add("composite-op", ops[n.mode])
		f.label("mode other than Normal", n.mode != limage.CompositeNormal)
	} else if rapid.IntRange(0, 4).Draw(t, "unknown op") == 0 {
		add("composite-op", rapid.SampledFrom([]string{"svg:unknown", "krita:dissolve", "", "multiply"}).Draw(t, "unknown op name"))
	}

	n.stack = depth < 4 && (rapid.IntRange(0, 2).Draw(t, "stack") == 0 || deep > 0)

	if !n.stack {
		n.src = rapid.IntRange(0, len(f.srcs)-1).Draw(t, "source")

		add("src", f.names[n.src])
	}

	for i := rapid.IntRange(0, 2).Draw(t, "unknown attributes"); i > 0; i-- {
		a := rapid.SampledFrom(junkAttrs).Draw(t, "unknown attribute")

		if !strings.Contains(strings.Join(attrs, " "), a[:strings.IndexByte(a, '=')+1]) {
			attrs = append(attrs, a)

			f.label("unknown attribute", true)
		}
	}

	if len(attrs) > 1 {
		attrs = rapid.Permutation(attrs).Draw(t, "attribute order")
	}

	for _, a := range attrs {
		n.xml += space(t, true) + a
	}

	if n.stack {
		k := rapid.IntRange(0, 3).Draw(t, "children")

		for i := 0; i < k && f.budget > 0; i++ {
			n.kids = append(n.kids, f.node(t, depth+1, 0))
		}

		f.label("nested stack", true)
		f.label("stack with an offset", n.at != image.Point{})
		f.label("stacks nested deeper than 2", depth > 1)
	}

	return n
}

func space2(t *rapid.T) string {
	if rapid.IntRange(0, 9).Draw(t, "space in attribute") == 0 {
		return " "
	}

	return ""
}

// junk draws something to be ignored.
func (f *foreign) junk(t *rapid.T) string {
	switch rapid.IntRange(0, 11).Draw(t, "junk") {
	case 0:
		f.label("comment", true)

		return rapid.SampledFrom([]string{"<!-- a comment -->", "<!-- <layer src=\"data/none.png\"/> -->", "<!---->"}).Draw(t, "comment")
	case 1:
		return "<?pi some <thing> ?>"
	case 2:
		f.label("unknown element", true)

		return rapid.SampledFrom([]string{
			`<text x="3"/>`, `<filter type="blur"><params version="1"><stack/><layer src="no"/></params></filter>`, "<foo:bar/>",
			`<unknown><unknown><layer/></unknown>text</unknown>`, `<params>a &amp; b</params>`, "<a><b/><stack><layer></layer></stack></a>",
		}).Draw(t, "element")
	case 3:
		return "some text"
	case 4:
		return "<![CDATA[<layer/>]]>"
	}

	return space(t, false)
}

func (f *foreign) write(t *rapid.T, sb *strings.Builder, n *node) {
	name := "layer"
	if n.stack {
		name = "stack"
	}

	fmt.Fprintf(sb, "<%s%s%s", name, n.xml, space(t, false))

	if len(n.kids) == 0 && rapid.Bool().Draw(t, "empty element") {
		sb.WriteString("/>")

		return
	}

	sb.WriteString(">")
	sb.WriteString(f.junk(t))

	for _, k := range n.kids {
		f.write(t, sb, k)
		sb.WriteString(f.junk(t))
	}

	fmt.Fprintf(sb, "</%s%s>", name, space(t, false))
}

// drawForeign draws a valid file.
func drawForeign(t *rapid.T, kinds []gen.Kind) *foreign {
	f := &foreign{labels: map[string]bool{}, budget: 30}
	f.w, f.h = size(t, 90)

	for i := rapid.IntRange(1, 5).Draw(t, "sources"); i > 0; i-- {
		r := image.Rect(0, 0, gen.Dim(t, f.w+3, "source width"), gen.Dim(t, f.h+3, "source height"))
		m, kind := gen.OneImage(t, r, kinds, nil)

		// A gray PNG or one with a palette, or full colour.
		b := pngOf(t, m)

		m, err := png.Decode(bytes.NewReader(b))
		if err != nil {
			t.Fatalf("VERIF-HARNESS: %v", err)
		}

		if _, ok := m.ColorModel().(color.Palette); ok {
			f.palette = true
		}

		f.srcs = append(f.srcs, m)
		f.pngs = append(f.pngs, b)
		f.names = append(f.names, fmt.Sprintf(rapid.SampledFrom([]string{"data/%d.png", "data/layer%d.png", "data/a & b %d.png", "%d", "data/sub/é%d.PNG"}).Draw(t, "source name"), i))
		f.label("source kind "+kind, true)
	}

	n := rapid.IntRange(1, 4).Draw(t, "layers")
	if rapid.IntRange(0, 29).Draw(t, "many") == 0 {
		n = rapid.IntRange(31, 35).Draw(t, "many layers")
		f.budget = 36
	}

	for i := 0; i < n && f.budget > 0; i++ {
		f.kids = append(f.kids, f.node(t, 0, 0))
	}

	used := map[int]int{}

	var count func([]*node)

	count = func(ns []*node) {
		for _, n := range ns {
			if n.stack {
				count(n.kids)
			} else {
				used[n.src]++
				f.label("shared source", used[n.src] > 1)
			}
		}
	}

	count(f.kids)

	var sb strings.Builder

	sb.WriteString(rapid.SampledFrom([]string{"", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "<?xml version='1.0' encoding='utf-8'?>", "<?xml version=\"1.0\"?>"}).Draw(t, "prolog"))

	if rapid.IntRange(0, 3).Draw(t, "comment before") == 0 {
		sb.WriteString("<!-- before -->\n")
	}

	attrs := []string{fmt.Sprintf(`w="%d"`, f.w), fmt.Sprintf(`h="%d"`, f.h), `xmlns:foo="http://example.com/foo"`}

	for _, a := range []string{`version="0.0.3"`, `name="nobody"`, `xres="72"`, `yres="72"`, `foo:w="1"`, `foo:h="x"`, `xmlns:mypaint="http://mypaint.org/ns/openraster"`} {
		if rapid.Bool().Draw(t, "image attribute") {
			attrs = append(attrs, a)
		}
	}

	sb.WriteString("<image")

	for _, a := range rapid.Permutation(attrs).Draw(t, "image attributes") {
		sb.WriteString(space(t, true) + a)
	}

	sb.WriteString(">")
	before := f.junk(t)
	sb.WriteString(strings.ReplaceAll(before, "some text", ""))
	sb.WriteString("<stack")

	for _, a := range []string{` name="root"`, ` opacity="1.0"`, ` x="0"`, ` composite-op="svg:src-over"`, ` visibility="visible"`} {
		if rapid.IntRange(0, 3).Draw(t, "root attribute") == 0 {
			sb.WriteString(a)
		}
	}

	sb.WriteString(">")
	sb.WriteString(f.junk(t))

	for _, k := range f.kids {
		f.write(t, &sb, k)
		sb.WriteString(f.junk(t))
	}

	sb.WriteString("</stack>")
	sb.WriteString(space(t, false))
	sb.WriteString("</image>")
	sb.WriteString(space(t, false))

	f.stackXML = sb.String()

	return f
}

// file is an entry to write.
type file struct {
	name  string
	data  []byte
	store bool
}

// files gives the entries, the mimetype being the first.
func (f *foreign) files(t *rapid.T) []file {
	fs := []file{{"stack.xml", []byte(f.stackXML), rapid.Bool().Draw(t, "store")}}

	for i, n := range f.names {
		fs = append(fs, file{n, f.pngs[i], i%2 == 0})
	}

	for _, e := range []file{{"mergedimage.png", f.pngs[0], true}, {"Thumbnails/thumbnail.png", f.pngs[0], false}, {"META-INF/unknown", []byte("unknown"), false}, {"data/unused.png", []byte("not a PNG"), false}, {"data/", nil, true}, {"stack.xml.bak", []byte("<image/>"), false}, {"old/stack.xml", []byte("<none/>"), false}} {
		if rapid.Bool().Draw(t, "entry") {
			fs = append(fs, e)
		}
	}

	// Entries which have nearly the name of a picture are not the picture.
	taken := map[string]bool{}

	for _, e := range fs {
		taken[e.name] = true
	}

	for i := rapid.IntRange(0, 2).Draw(t, "decoys"); i > 0; i-- {
		n := rapid.SampledFrom(f.names).Draw(t, "decoy of")

		n = rapid.SampledFrom([]string{strings.ToUpper(n), strings.ToLower(n), n + ".bak", n + "x", "old/" + n, path.Base(n), strings.TrimSuffix(n, path.Ext(n)), "./" + n, strings.ReplaceAll(n, "/", "\\"), n + "/" + path.Base(n), " " + n}).Draw(t, "decoy")

		if !taken[n] {
			taken[n] = true

			fs = append(fs, file{n, decoyPNG, false})

			f.label("entry with nearly the name of a picture", true)
		}
	}

	return append([]file{{"mimetype", []byte("image/openraster"), true}}, rapid.Permutation(fs).Draw(t, "entry order")...)
}

func archiveOf(t *rapid.T, fs []file) []byte {
	var buf bytes.Buffer

	zw := zip.NewWriter(&buf)

	for _, f := range fs {
		m := zip.Deflate
		if f.store {
			m = zip.Store
		}

		w, err := zw.CreateHeader(&zip.FileHeader{Name: f.name, Method: m})
		if err == nil {
			_, err = w.Write(f.data)
		}

		if err != nil && !strings.HasSuffix(f.name, "/") {
			t.Fatalf("VERIF-HARNESS: %v", err)
		}
	}

	if err := zw.Close(); err != nil {
		t.Fatalf("VERIF-HARNESS: %v", err)
	}

	return buf.Bytes()
}

// compare checks what was decoded.
func (f *foreign) compare(ns []*node, g limage.Image, at, gotAt image.Point, path string) error {
	if len(ns) != len(g) {
		return fmt.Errorf("%s: %d layers decoded as %d", path, len(ns), len(g))
	}

	canvas := image.Rect(0, 0, f.w, f.h)

	for i, n := range ns {
		l := g[i]
		p := fmt.Sprintf("%s/%d", path, i)
		wt := 255 - math.Round(n.opacity*255)

		switch {
		case n.name != l.Name:
			return fmt.Errorf("%s: name %q decoded as %q", p, n.name, l.Name)
		case n.hidden != l.Invisible:
			return fmt.Errorf("%s: hidden %t decoded as %t", p, n.hidden, l.Invisible)
		case math.Abs(float64(l.Transparency)-wt) > 1, n.opacity == 1 && l.Transparency != 0, n.opacity == 0 && l.Transparency != 255:
			return fmt.Errorf("%s: opacity %v decoded as transparency %d", p, n.opacity, l.Transparency)
		case n.mode != l.Mode:
			return fmt.Errorf("%s: mode %s decoded as %s", p, n.mode, l.Mode)
		}

		sub, ok := cmp.AsGroup(l.Image)
		if ok != n.stack {
			return fmt.Errorf("%s: stack %t decoded as group %t", p, n.stack, ok)
		}

		if ok {
			if err := f.compare(n.kids, sub, at.Add(n.at), gotAt.Add(l.LayerBounds.Min), p); err != nil {
				return err
			}

			continue
		}

		src := f.srcs[n.src]
		whole := src.Bounds().Add(at).Add(n.at)
		want := whole.Intersect(canvas)
		got := l.LayerBounds.Add(gotAt)

		if want.Empty() && got.Empty() {
			f.label("layer outside the canvas", true)

			continue
		}

		if want != got {
			return fmt.Errorf("%s: the layer is at %v, decoded at %v", p, want, got)
		}

		f.label("clipped layer", whole != want)
		f.label("layer clipped at the top or left", whole.Min != want.Min)

		for y := want.Min.Y; y < want.Max.Y; y++ {
			for x := want.Min.X; x < want.Max.X; x++ {
				a := cmp.Of(src.At(x-whole.Min.X, y-whole.Min.Y))
				b := cmp.Of(l.Image.At(x-got.Min.X, y-got.Min.Y))

				if a != b {
					return fmt.Errorf("%s: pixel %d,%d of the canvas: %v decoded as %v", p, x, y, a, b)
				}
			}
		}
	}

	return nil
}

// colours is the set of colours a point may have.
type colours map[color.Color]bool

func (cs colours) has(p cmp.RGBA) bool {
	for c := range cs {
		if cmp.Of(c) == p {
			return true
		}
	}

	return false
}

// render is what a stack may show; transparencies are those decoded (which have
// been compared). A stack has no extent of its own, so where it has no content it
// may be composited, as transparency, or not: this matters to the modes that
// clear the backdrop, and in the rounding.
func (f *foreign) render(ns []*node, g limage.Image, x, y int) colours {
	cs := colours{color.NRGBA64{}: true}

	for i := len(ns) - 1; i >= 0; i-- {
		n := ns[i]

		if n.hidden {
			continue
		}

		var tops colours

		if n.stack {
			sub, _ := cmp.AsGroup(g[i].Image)
			tops = f.render(n.kids, sub, x-n.at.X, y-n.at.Y)
		} else {
			p := image.Pt(x-n.at.X, y-n.at.Y)

			if !p.In(f.srcs[n.src].Bounds()) {
				continue
			}

			tops = colours{f.srcs[n.src].At(p.X, p.Y): true}
		}

		next := colours{}

		for top := range tops {
			one := limage.Layer{LayerBounds: image.Rect(0, 0, 1, 1), Transparency: g[i].Transparency, Image: image.NewUniform(top)}

			for c := range cs {
				next[n.mode.Composite(c, one.At(0, 0))] = true

				if n.stack && cmp.Of(top)[3] == 0 {
					next[c] = true
				}
			}
		}

		cs = next
	}

	return cs
}

// decoyPNG is a picture no layer is to show.
var decoyPNG = func() []byte {
	var buf bytes.Buffer

	m := image.NewNRGBA(image.Rect(0, 0, 7, 5))

	for i := range m.Pix {
		m.Pix[i] = uint8(i*37 + 11)
	}

	if err := png.Encode(&buf, m); err != nil {
		panic(err)
	}

	return buf.Bytes()
}()

func (f *foreign) key() uint64 {
	h := uint64(0)

	for _, b := range []byte(f.stackXML) {
		h = gen.Mix(h, uint64(b))
	}

	return h
}

func TestC15_Foreign(t *testing.T) {
	vt.Check(t, 4000, 80000, func(t *rapid.T, c *vt.Case) {
		kinds := []gen.Kind{gen.NRGBA, gen.NRGBA64, gen.Gray, gen.Gray16, gen.RGB, gen.RGBA}
		if rapid.IntRange(0, 3).Draw(t, "palettes") == 0 {
			kinds = append(kinds, gen.Paletted)
		}

		f := drawForeign(t, kinds)
		b := archiveOf(t, f.files(t))

		vt.Journal(b)

		got, err := decode(t, b)
		if err != nil {
			t.Fatalf("decoding: %v\n%s", err, f.stackXML)
		}

		if err := f.compare(f.kids, got, image.Point{}, image.Point{}, ""); err != nil {
			t.Fatalf("%v\n%s\n%s", err, f.stackXML, gen.Describe(got))
		}

		conf, err := ora.DecodeConfig(reader(t, b))
		if err != nil || conf.Width != f.w || conf.Height != f.h {
			t.Fatalf("configuration %v, %v; want %d,%d", conf, err, f.w, f.h)
		}

		if !f.palette {
			for y := 0; y < f.h; y++ {
				for x := 0; x < f.w; x++ {
					if a := cmp.Of(got.At(x, y)); !f.render(f.kids, got, x, y).has(a) {
						t.Fatalf("at %d,%d the file shows %v, the decoded image %v\n%s\n%s", x, y, f.render(f.kids, got, x, y), a, f.stackXML, gen.Describe(got))
					}
				}
			}

			c.Label("rendered")
		}

		for l := range f.labels {
			c.Label(l)
		}

		if len(f.kids) > 1 || f.labels["nested stack"] {
			c.NonTrivial(f.key())
		}

		c.Sample("%s", f.stackXML)
	})
}
