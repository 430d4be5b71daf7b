package cross

import (
	"archive/zip"
	"bytes"
	"errors"
	"fmt"
	"image"
	"io"
	"strings"
	"testing"

	"limageverif/cmp"
	"limageverif/gen"
	"limageverif/vt"
	"limageverif/xcfgen"
	"pgregory.net/rapid"
	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/ora"
	"vimagination.zapto.org/limage/xcf"
)

func TestMain(m *testing.M) { vt.Main(m) }

// shared are the modes both formats have.
var shared = []limage.Composite{
	limage.CompositeNormal, limage.CompositeMultiply, limage.CompositeScreen, limage.CompositeOverlay, limage.CompositeDarkenOnly,
	limage.CompositeLightenOnly, limage.CompositeDodge, limage.CompositeBurn, limage.CompositeHardLight, limage.CompositeSoftLight,
	limage.CompositeDifference, limage.CompositeColor, limage.CompositeHue, limage.CompositeSaturation,
}

var errPanic = errors.New("panic")

// attempt turns a panic into an error.
func attempt(fn func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%w: %v", errPanic, r)
		}
	}()

	return fn()
}

// memory is what files are written to.
type memory struct{ b []byte }

func (m *memory) WriteAt(p []byte, off int64) (int, error) {
	if end := int(off) + len(p); end > len(m.b) {
		b := make([]byte, end, end+end/2)
		copy(b, m.b)
		m.b = b
	}

	return copy(m.b[off:], p), nil
}

// A format converts an image to a file and back.
type format struct {
	name string
	via  func(m image.Image) (limage.Image, error)
}

func viaXCF(m image.Image) (got limage.Image, err error) {
	var buf memory

	if err := attempt(func() error { return xcf.Encode(&buf, m) }); err != nil {
		return nil, fmt.Errorf("encoding XCF: %w", err)
	}

	if err := attempt(func() (err error) {
		got, err = xcf.Decode(bytes.NewReader(buf.b))

		return err
	}); err != nil {
		return nil, fmt.Errorf("decoding XCF: %w", err)
	}

	return got, nil
}

func viaCompressed(m image.Image) (got limage.Image, err error) {
	var buf memory

	if err := attempt(func() error { return xcf.Encode(&buf, m) }); err != nil {
		return nil, fmt.Errorf("encoding XCF: %w", err)
	}

	if err := attempt(func() (err error) {
		got, err = xcf.DecodeCompressed(bytes.NewReader(buf.b))

		return err
	}); err != nil {
		return nil, fmt.Errorf("decoding XCF, compressed: %w", err)
	}

	return got, nil
}

func viaORA(m image.Image) (got limage.Image, err error) {
	var buf bytes.Buffer

	if err := attempt(func() error { return ora.Encode(&buf, m) }); err != nil {
		return nil, fmt.Errorf("encoding ORA: %w", err)
	}

	zr, err := zip.NewReader(bytes.NewReader(buf.Bytes()), int64(buf.Len()))
	if err != nil {
		return nil, fmt.Errorf("reading the archive: %w", err)
	}

	if err := attempt(func() (err error) {
		got, err = ora.Decode(zr)

		return err
	}); err != nil {
		return nil, fmt.Errorf("decoding ORA: %w", err)
	}

	return got, nil
}

var formats = []format{{"XCF", viaXCF}, {"ORA", viaORA}, {"XCF, compressed", viaCompressed}}

// family is a set of kinds of image that both formats keep exactly.
type family struct {
	name  string
	kinds []gen.Kind
	modes []limage.Composite
}

var exact = []family{
	{"colour", []gen.Kind{gen.NRGBA, gen.Gray, gen.RGB, gen.Foreign, gen.Sub}, shared},
	{"colour", []gen.Kind{gen.NRGBA, gen.RGB, gen.Foreign}, shared},
	{"gray", []gen.Kind{gen.Gray}, shared},
}

func draw(t *rapid.T, f family, limit int, masks bool) *gen.Tree {
	if rapid.IntRange(0, 7).Draw(t, "size kind") != 0 {
		limit = min(limit, 24)
	}

	w, h := gen.Dim(t, limit, "width"), gen.Dim(t, limit, "height")
	tr := gen.DrawTree(t, w, h, gen.Opts{Depth: 3, Layers: 4, Modes: f.modes, Kinds: f.kinds, Masks: masks, Text: true, EmptyOK: true, BigGroups: true, Pointers: true, Nested: true, Loose: true, Offset: true})

	if rapid.IntRange(0, 3).Draw(t, "moved") == 0 {
		by := image.Pt(rapid.IntRange(-30, 30).Draw(t, "by x"), rapid.IntRange(-30, 30).Draw(t, "by y"))

		for i := range tr.Image {
			tr.Image[i].LayerBounds = tr.Image[i].LayerBounds.Add(by)
		}
	}

	// XCF files have nothing below the bottommost layer, which is Normal.
	tr.Image[len(tr.Image)-1].Mode = limage.CompositeNormal

	return tr
}

func labels(c *vt.Case, ls map[string]bool) {
	for l := range ls {
		c.Label(l)
	}
}

func same(m limage.Composite) limage.Composite { return m }

// TestC30_Render: the same image through both formats looks the same, and has the
// same layers.
func TestC30_Render(t *testing.T) {
	vt.Check(t, 2500, 60000, func(t *rapid.T, c *vt.Case) {
		f := rapid.SampledFrom(exact).Draw(t, "family")
		tr := draw(t, f, 100, false)

		if tr.Image.Bounds().Empty() {
			return // there are no empty PNG files
		}

		vt.Journal([]byte(gen.Describe(tr.Image)))

		b := tr.Image.Bounds()
		off := image.Point{}.Sub(b.Min)

		var got [2]limage.Image

		for i, fm := range formats[:2] {
			var err error

			if got[i], err = fm.via(tr.Image); err != nil {
				t.Fatalf("%v\noriginal: %s", err, gen.Describe(tr.Image))
			}

			if got[i].Bounds() != b.Add(off) {
				t.Fatalf("%s: bounds %v became %v\noriginal: %s\ndecoded:  %s", fm.name, b, got[i].Bounds(), gen.Describe(tr.Image), gen.Describe(got[i]))
			}
		}

		if err := cmp.Pixels(got[0], got[1], b.Add(off), image.Point{}, 0); err != nil {
			t.Fatalf("XCF and ORA show something else: %v\noriginal: %s\nXCF: %s\nORA: %s", err, gen.Describe(tr.Image), gen.Describe(got[0]), gen.Describe(got[1]))
		}

		if err := cmp.Pixels(tr.Image, got[1], b, off, 0); err != nil {
			t.Fatalf("both formats show something else than the image: %v\noriginal: %s\nXCF: %s\nORA: %s", err, gen.Describe(tr.Image), gen.Describe(got[0]), gen.Describe(got[1]))
		}

		if err := cmp.Trees(got[0], got[1], cmp.Want{Mode: same}); err != nil {
			t.Fatalf("from XCF to ORA: %v\noriginal: %s\nXCF: %s\nORA: %s", err, gen.Describe(tr.Image), gen.Describe(got[0]), gen.Describe(got[1]))
		}

		labels(c, tr.Labels)
		c.Label("images: " + f.name)

		if tr.Labels["several layers"] && (tr.Labels["mode other than Normal"] || tr.Labels["translucent layer"]) {
			c.NonTrivial(tr.Key, b)
		}

		c.Sample("%s", gen.Describe(tr.Image))
	})
}

// TestC30_Chain: chains of conversions keep the layers.
func TestC30_Chain(t *testing.T) {
	families := []family{
		{"exact colour", exact[0].kinds, shared},
		{"gray", []gen.Kind{gen.Gray, gen.GrayAlpha, gen.Gray16}, shared},
		{"any kind", gen.AllKinds(), shared},
		{"paletted", []gen.Kind{gen.Paletted, gen.PalettedAlpha}, []limage.Composite{limage.CompositeNormal}},
	}

	vt.Check(t, 1500, 40000, func(t *rapid.T, c *vt.Case) {
		f := rapid.SampledFrom(families).Draw(t, "family")

		if f.name == "any kind" && rapid.Bool().Draw(t, "modes") {
			f.modes = []limage.Composite{limage.CompositeNormal}
		}

		tr := draw(t, f, 70, true)

		if tr.Image.Bounds().Empty() {
			return // there are no empty PNG files
		}

		if len(f.modes) > 1 && onePalette(tr.Image) {
			return // images with a palette have no modes in XCF files
		}

		vt.Journal([]byte(gen.Describe(tr.Image)))

		chain := rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 1, 0, 2}), 2, 5).Draw(t, "chain")
		names := make([]string, len(chain))

		for i, n := range chain {
			names[i] = formats[n].name
		}

		min := tr.Image.Bounds().Min
		want := cmp.Want{Mode: same, Moved: image.Point{}.Sub(min), Tolerance: 0x210}

		if f.name == "exact colour" && !tr.Labels["mask"] {
			want.Tolerance = 0
		}

		last := tr.Image

		for i, n := range chain {
			next, err := formats[n].via(last)
			if err != nil {
				t.Fatalf("conversion %d of %s: %v\noriginal: %s", i, strings.Join(names, " - "), err, gen.Describe(tr.Image))
			}

			if err := cmp.Trees(last, next, want); err != nil {
				t.Fatalf("conversion %d of %s: %v\noriginal: %s\nbefore: %s\nafter:  %s", i, strings.Join(names, " - "), err, gen.Describe(tr.Image), gen.Describe(last), gen.Describe(next))
			}

			// What was decoded has the pixels of the first, too, up to the
			// rounding of the first.
			if err := cmp.Trees(tr.Image, next, cmp.Want{Mode: same, Moved: image.Point{}.Sub(min), Tolerance: want.Tolerance * 2}); err != nil {
				t.Fatalf("after conversion %d of %s: %v\noriginal: %s\nafter:    %s", i, strings.Join(names, " - "), err, gen.Describe(tr.Image), gen.Describe(next))
			}

			// The second time an image goes through a format, nothing is
			// left to be rounded, unless there is a mask to apply.
			want.Moved = image.Point{}
			last = next
		}

		labels(c, tr.Labels)
		c.Label("images: " + f.name)
		c.Label(fmt.Sprintf("chain of %d", len(chain)))

		if tr.Labels["several layers"] || tr.Labels["group"] {
			c.NonTrivial(tr.Key, min, chain)
		}

		c.Sample("%s: %s", strings.Join(names, " - "), gen.Describe(tr.Image))
	})
}

// onePalette reports whether the layers may be kept as an image with a palette.
func onePalette(g limage.Image) bool {
	some, other := false, false

	var walk func(g limage.Image)

	walk = func(g limage.Image) {
		for _, l := range g {
			if sub, ok := cmp.AsGroup(cmp.Base(l.Image)); ok {
				walk(sub)

				continue
			}

			switch cmp.Base(l.Image).(type) {
			case *image.Paletted, *limage.PalettedAlpha:
				some = true
			default:
				other = true
			}
		}
	}

	walk(g)

	return some && !other
}

// filled leaves out what there is no PNG file for: layers without any pixel.
func filled(g limage.Image) limage.Image {
	out := limage.Image{}

	for _, l := range g {
		if sub, ok := cmp.AsGroup(l.Image); ok {
			l.Image = filled(sub)
		} else if l.LayerBounds.Empty() || l.Image.Bounds().Empty() {
			continue
		}

		out = append(out, l)
	}

	return out
}

// TestC30_Foreign: what another program's XCF file shows is the same after it was
// converted to ORA.
func TestC30_Foreign(t *testing.T) {
	vt.Check(t, 1500, 40000, func(t *rapid.T, c *vt.Case) {
		d := xcfgen.Draw(t, xcfgen.Opts{Max: 24, Large: 70, Layers: 4, Depth: 3, Many: true, NoDiss: true, MinLayers: 1, Inside: true})
		b := d.Build()

		vt.Journal(b)

		first, err := xcf.Decode(bytes.NewReader(b))
		if err != nil {
			t.Fatalf("%v\nfile: %s", err, xcfgen.Describe(d.File))
		}

		first = filled(first)

		if first.Bounds().Empty() {
			return
		}

		got, err := viaORA(first)
		if err != nil {
			t.Fatalf("%v\nfile: %s", err, xcfgen.Describe(d.File))
		}

		min := first.Bounds().Min

		mode := func(m limage.Composite) limage.Composite {
			for _, n := range []limage.Composite{limage.CompositePlus, limage.CompositeLuminosity, limage.CompositeDestinationIn, limage.CompositeDestinationOut, limage.CompositeSourceAtop, limage.CompositeDestinationAtop} {
				if m == n {
					return m
				}
			}

			for _, n := range shared {
				if m == n {
					return m
				}
			}

			return limage.CompositeNormal
		}

		if err := cmp.Trees(first, got, cmp.Want{Mode: mode, Moved: image.Point{}.Sub(min), Tolerance: 0x210}); err != nil {
			t.Fatalf("%v\nfile: %s\nXCF: %s\nORA: %s", err, xcfgen.Describe(d.File), gen.Describe(first), gen.Describe(got))
		}

		labels(c, d.Labels)

		if d.Labels["several layers"] || d.Labels["group"] {
			c.NonTrivial(d.Key())
		}

		c.Sample("%s", xcfgen.Describe(d.File))
	})
}

// TestC35_Cross: what is converted to ORA is the same whichever way the XCF file
// was decoded.
func TestC35_Cross(t *testing.T) {
	vt.Check(t, 800, 20000, func(t *rapid.T, c *vt.Case) {
		d := xcfgen.Draw(t, xcfgen.Opts{Max: 24, Large: 150, Layers: 4, Depth: 3, Many: true, NoDiss: true, MinLayers: 1})
		b := d.Build()

		vt.Journal(b)

		var got [2]limage.Image

		for i, dec := range []func(io.ReaderAt) (limage.Image, error){xcf.Decode, xcf.DecodeCompressed} {
			m, err := dec(bytes.NewReader(b))
			if err != nil {
				t.Fatalf("compressed %t: %v\nfile: %s", i == 1, err, xcfgen.Describe(d.File))
			}

			m = filled(m)

			if m.Bounds().Empty() {
				return
			}

			if got[i], err = viaORA(m); err != nil {
				t.Fatalf("compressed %t: %v\nfile: %s", i == 1, err, xcfgen.Describe(d.File))
			}
		}

		if err := cmp.Trees(got[0], got[1], cmp.Want{Mode: same, Exact16: true}); err != nil {
			t.Fatalf("decoded and decoded compressed are converted to different images: %v\nfile: %s\none:   %s\nother: %s", err, xcfgen.Describe(d.File), gen.Describe(got[0]), gen.Describe(got[1]))
		}

		labels(c, d.Labels)

		if d.Labels["several layers"] || d.Labels["group"] {
			c.NonTrivial(d.Key())
		}

		c.Sample("%s", xcfgen.Describe(d.File))
	})
}
