package ora

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"image"
	"image/png"
	"io"
	"math"
	"regexp"
	"strconv"
	"testing"

	"limageverif/cmp"
	"limageverif/gen"
	"limageverif/vt"
	"pgregory.net/rapid"
	"vimagination.zapto.org/limage"
)

// elem is an XML element.
type elem struct {
	name string
	attr map[string]string
	kids []*elem
}

// parseXML reads a document, insisting on it being well-formed.
func parseXML(b []byte) (*elem, error) {
	d := xml.NewDecoder(bytes.NewReader(b))

	var (
		root  *elem
		stack []*elem
	)

	for {
		tok, err := d.Token()
		if err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}

		switch tok := tok.(type) {
		case xml.StartElement:
			e := &elem{name: tok.Name.Local, attr: map[string]string{}}

			for _, a := range tok.Attr {
				if _, ok := e.attr[a.Name.Local]; ok {
					return nil, fmt.Errorf("attribute %s given twice", a.Name.Local)
				}

				e.attr[a.Name.Local] = a.Value
			}

			if len(stack) > 0 {
				p := stack[len(stack)-1]
				p.kids = append(p.kids, e)
			} else if root != nil {
				return nil, fmt.Errorf("two root elements")
			} else {
				root = e
			}

			stack = append(stack, e)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			if len(stack) < 2 && len(bytes.TrimSpace(tok)) > 0 {
				return nil, fmt.Errorf("text outside of the elements: %q", tok)
			}
		}
	}

	if root == nil {
		return nil, fmt.Errorf("no root element")
	}

	return root, nil
}

// archive is a checked OpenRaster file.
type archive struct {
	files map[string][]byte
	image *elem
	w, h  int
}

func (a *archive) png(name string) (image.Image, error) {
	b, ok := a.files[name]
	if !ok {
		return nil, fmt.Errorf("no %s", name)
	}

	return png.Decode(bytes.NewReader(b))
}

// readArchive checks the layout of the archive.
func readArchive(b []byte) (*archive, error) {
	es, err := readZip(b)
	if err != nil {
		return nil, err
	}

	a := &archive{files: map[string][]byte{}}

	for _, e := range es {
		if _, ok := a.files[e.name]; ok {
			return nil, fmt.Errorf("entry %s occurs twice", e.name)
		}

		if e.data == nil {
			e.data = []byte{}
		}

		a.files[e.name] = e.data

		if e.name == "mimetype" && (e.method != 0 || e.offset != 0) {
			return nil, fmt.Errorf("the mimetype is not the first entry, or compressed")
		}
	}

	if m, ok := a.files["mimetype"]; !ok || string(m) != "image/openraster" {
		return nil, fmt.Errorf("mimetype is %q", m)
	}

	// What file(1) and others look at.
	if len(b) < 54 || string(b[30:54]) != "mimetypeimage/openraster" {
		return nil, fmt.Errorf("the archive does not begin with its type")
	}

	s, ok := a.files["stack.xml"]
	if !ok {
		return nil, fmt.Errorf("no stack.xml")
	}

	if a.image, err = parseXML(s); err != nil {
		return nil, fmt.Errorf("stack.xml: %w\n%s", err, s)
	}

	if a.image.name != "image" || len(a.image.kids) != 1 || a.image.kids[0].name != "stack" {
		return nil, fmt.Errorf("stack.xml is not an image with a root stack: %s", s)
	}

	if a.w, err = strconv.Atoi(a.image.attr["w"]); err != nil {
		return nil, err
	}

	if a.h, err = strconv.Atoi(a.image.attr["h"]); err != nil {
		return nil, err
	}

	return a, nil
}

var (
	intRe   = regexp.MustCompile(`^-?[0-9]+$`)
	floatRe = regexp.MustCompile(`^[0-9]*\.?[0-9]+$`)
)

func intAttr(e *elem, name string) (int, error) {
	v, ok := e.attr[name]
	if !ok {
		return 0, nil
	}

	if !intRe.MatchString(v) {
		return 0, fmt.Errorf("%s=%q", name, v)
	}

	return strconv.Atoi(v)
}

var known = map[string]bool{"name": true, "x": true, "y": true, "opacity": true, "visibility": true, "composite-op": true, "src": true, "isolation": true, "edit-locked": true, "selected": true}

// matches checks that an element describes the layer, moved by off.
func (a *archive) matches(e *elem, l limage.Layer, off image.Point, used map[string]bool, path string) error {
	x, err := intAttr(e, "x")
	if err != nil {
		return err
	}

	y, err := intAttr(e, "y")
	if err != nil {
		return err
	}

	for n := range e.attr {
		if !known[n] {
			return fmt.Errorf("%s: unknown attribute %q", path, n)
		}
	}

	opacity := 1.0

	if v, ok := e.attr["opacity"]; ok {
		if !floatRe.MatchString(v) {
			return fmt.Errorf("%s: opacity %q", path, v)
		}

		if opacity, err = strconv.ParseFloat(v, 64); err != nil {
			return err
		}
	}

	hidden := false

	switch v, ok := e.attr["visibility"]; {
	case !ok || v == "visible":
	case v == "hidden":
		hidden = true
	default:
		return fmt.Errorf("%s: visibility %q", path, v)
	}

	op, ok := e.attr["composite-op"]
	if !ok {
		op = "svg:src-over"
	}

	wop := ops[decodedMode(l.Mode)]

	switch {
	case e.attr["name"] != l.Name:
		return fmt.Errorf("%s: name %q written as %q", path, l.Name, e.attr["name"])
	case image.Pt(x, y) != l.LayerBounds.Min.Add(off):
		return fmt.Errorf("%s: position %v written as %d,%d", path, l.LayerBounds.Min.Add(off), x, y)
	case math.Abs(opacity-float64(255-int(l.Transparency))/255) > 0.5/255:
		return fmt.Errorf("%s: transparency %d written as opacity %v", path, l.Transparency, opacity)
	case hidden != l.Invisible:
		return fmt.Errorf("%s: invisible %t written as hidden %t", path, l.Invisible, hidden)
	case op != wop:
		return fmt.Errorf("%s: mode %d (%s) written as %q", path, l.Mode, l.Mode, op)
	}

	if g, ok := cmp.AsGroup(l.Image); ok {
		if e.name != "stack" {
			return fmt.Errorf("%s: a group written as %s", path, e.name)
		} else if _, ok := e.attr["src"]; ok {
			return fmt.Errorf("%s: a stack with a source", path)
		}

		return a.stack(e, g, image.Point{}, used, path)
	}

	if e.name != "layer" || len(e.kids) > 0 {
		return fmt.Errorf("%s: a layer written as %s", path, e.name)
	}

	src := e.attr["src"]
	if used[src] {
		return fmt.Errorf("%s: source %q used twice", path, src)
	}

	used[src] = true

	m, err := a.png(src)
	if err != nil {
		return fmt.Errorf("%s: %w", path, err)
	}

	if m.Bounds() != (image.Rectangle{Max: l.LayerBounds.Size()}) {
		return fmt.Errorf("%s: %v written as a PNG of %v", path, l.LayerBounds, m.Bounds())
	}

	if err := cmp.Pixels(l.Image, m, m.Bounds(), image.Point{}, cmp.Tolerance(l.Image)); err != nil {
		return fmt.Errorf("%s: %w", path, err)
	}

	return nil
}

func (a *archive) stack(e *elem, g limage.Image, off image.Point, used map[string]bool, path string) error {
	if len(e.kids) != len(g) {
		return fmt.Errorf("stack %s: %d layers written as %d elements", path, len(g), len(e.kids))
	}

	for i, l := range g {
		if err := a.matches(e.kids[i], l, off, used, fmt.Sprintf("%s/%d", path, i)); err != nil {
			return err
		}
	}

	return nil
}

// TestC13_Layout: layered images.
func TestC13_Layout(t *testing.T) {
	vt.Check(t, 3000, 60000, func(t *rapid.T, c *vt.Case) {
		w, h := size(t, 300)
		tr := gen.DrawTree(t, w, h, opts(gen.AllKinds(), allModes()))

		moveAll(t, tr.Image)

		if tr.Image.Bounds().Empty() {
			return // cannot be written, there being no empty PNG
		}

		b, err := encode(tr.Image)
		if err != nil {
			t.Fatalf("encoding %s: %v", gen.Describe(tr.Image), err)
		}

		a, err := readArchive(b)
		if err != nil {
			t.Fatalf("%v\n%s", err, gen.Describe(tr.Image))
		}

		bounds := tr.Image.Bounds()

		if bounds.Dx() != a.w || bounds.Dy() != a.h {
			t.Fatalf("canvas %v written as %d,%d", bounds, a.w, a.h)
		}

		root := a.image.kids[0]

		if x, y := root.attr["x"], root.attr["y"]; x != "" && x != "0" || y != "" && y != "0" {
			t.Fatalf("the root stack is at %q,%q", x, y)
		}

		if err := a.stack(root, tr.Image, image.Point{}.Sub(bounds.Min), map[string]bool{}, ""); err != nil {
			t.Fatalf("%v\n%s\n%s", err, gen.Describe(tr.Image), a.files["stack.xml"])
		}

		for _, f := range []string{"mergedimage.png", "Thumbnails/thumbnail.png"} {
			if _, err := a.png(f); err != nil {
				t.Fatalf("%s: %v", f, err)
			}
		}

		labels(c, tr)

		if tr.Labels["several layers"] || tr.Labels["group"] {
			c.NonTrivial(tr.Key, w, h)
		}

		c.Sample("%s", gen.Describe(tr.Image))
	})
}

// TestC13_Plain: single images and layers.
func TestC13_Plain(t *testing.T) {
	vt.Check(t, 1200, 24000, func(t *rapid.T, c *vt.Case) {
		w, h := size(t, 300)
		r := image.Rect(0, 0, w, h)

		if rapid.Bool().Draw(t, "moved") {
			r = r.Add(image.Pt(rapid.IntRange(-40, 40).Draw(t, "x"), rapid.IntRange(-40, 40).Draw(t, "y")))
		}

		m, kind := gen.OneImage(t, r, gen.AllKinds(), nil)
		b, err := encode(m)

		if err != nil {
			t.Fatalf("encoding %s %v: %v", kind, r, err)
		}

		a, err := readArchive(b)
		if err != nil {
			t.Fatal(err)
		}

		if a.w != w || a.h != h {
			t.Fatalf("%v written as %d,%d", r, a.w, a.h)
		}

		if err := a.plain(a.image.kids[0], m); err != nil {
			t.Fatalf("%v\n%s", err, a.files["stack.xml"])
		}

		c.Label("kind " + kind)

		if r.Min != (image.Point{}) {
			c.NonTrivial(kind, r, gen.Digest(m))
		}

		c.Sample("%s %v", kind, r)
	})
}

// plain checks that the stack holds just the image.
func (a *archive) plain(e *elem, m image.Image) error {
	if len(e.kids) != 1 || e.kids[0].name != "layer" {
		return fmt.Errorf("not one layer")
	}

	l := e.kids[0]

	for _, n := range []string{"x", "y"} {
		if v, err := intAttr(l, n); err != nil || v != 0 {
			return fmt.Errorf("%s=%q", n, l.attr[n])
		}
	}

	p, err := a.png(l.attr["src"])
	if err != nil {
		return err
	}

	b := m.Bounds()

	if p.Bounds().Size() != b.Size() {
		return fmt.Errorf("%v written as %v", b, p.Bounds())
	}

	return cmp.Pixels(m, p, b, image.Point{}.Sub(b.Min), cmp.Tolerance(m))
}
