package ora

import (
	"archive/zip"
	"bytes"
	"errors"
	"fmt"
	"image"
	"regexp"
	"strings"
	"testing"

	"limageverif/cmp"
	"limageverif/gen"
	"limageverif/vt"
	"pgregory.net/rapid"
	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/ora"
)

// try decodes what may be anything; what is decoded has to be usable.
func try(b []byte) (limage.Image, error) {
	zr, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		return nil, err
	}

	if err := attempt(func() error { _, err := ora.DecodeConfig(zr); return err }); errors.Is(err, errPanic) {
		return nil, fmt.Errorf("configuration: %w", err)
	}

	var m limage.Image

	if err := attempt(func() error {
		var err error

		m, err = ora.Decode(zr)

		return err
	}); err != nil {
		return nil, err
	}

	if m == nil {
		return nil, fmt.Errorf("neither an image nor an error: %w", errPanic)
	}

	return m, attempt(func() error {
		use(m, 0)

		return nil
	})
}

// use looks at what was decoded.
func use(g limage.Image, depth int) {
	b := g.Bounds()

	g.ColorModel()

	look(g, b)

	if depth > 200 {
		return
	}

	for _, l := range g {
		look(l, l.LayerBounds)

		if sub, ok := cmp.AsGroup(l.Image); ok {
			use(sub, depth+1)
		} else {
			look(l.Image, l.Image.Bounds())
		}
	}
}

// look reads some pixels.
func look(m image.Image, b image.Rectangle) {
	m.ColorModel()

	if b.Empty() {
		return
	}

	nx, ny := max(b.Dx()/7, 1), max(b.Dy()/7, 1)

	for i := 0; i < 8; i++ {
		for j := 0; j < 8; j++ {
			m.At(b.Min.X+i*nx, b.Min.Y+j*ny).RGBA()
		}
	}

	m.At(b.Max.X-1, b.Max.Y-1).RGBA()
	m.At(b.Min.X-1, b.Max.Y).RGBA()
}

// small draws a small valid file.
func small(t *rapid.T) *foreign {
	return drawForeign(t, []gen.Kind{gen.NRGBA, gen.Gray, gen.RGB, gen.NRGBA64, gen.Paletted})
}

// pick draws one of the matches of the expression.
func pick(t *rapid.T, s, expr string) []int {
	all := regexp.MustCompile(expr).FindAllStringIndex(s, -1)
	if len(all) == 0 {
		return nil
	}

	return rapid.SampledFrom(all).Draw(t, "place")
}

func without(fs []file, name string) []file {
	var out []file

	for _, f := range fs {
		if f.name != name {
			out = append(out, f)
		}
	}

	return out
}

// TestC16_Documented: particular faults have errors of their own.
func TestC16_Documented(t *testing.T) {
	vt.Check(t, 4000, 80000, func(t *rapid.T, c *vt.Case) {
		f := small(t)
		fs := f.files(t)
		what := rapid.SampledFrom([]string{"no stack.xml", "mimetype", "not an image", "no width", "no height", "no element", "missing source", "no source", "misnamed source"}).Draw(t, "fault")

		set := func(name string, b string) {
			for i := range fs {
				if fs[i].name == name {
					fs[i].data = []byte(b)
				}
			}
		}

		want := ora.ErrInvalidStack
		config := true // DecodeConfig meets the fault too

		switch what {
		case "no stack.xml":
			fs = without(fs, "stack.xml")
			want = ora.ErrMissingStack
		case "mimetype":
			m := rapid.SampledFrom([]string{"", "image/openraste", "image/openraster\n", "image/openraster ", "Image/openraster", "image/openrastes", "jmage/openraster", "application/zip", "image/openraste\x00", "image/png", "xxxxxxxxxxxxxxxx", "image/openrasterimage/openraster"}).Draw(t, "type")
			if rapid.Bool().Draw(t, "one byte") {
				b := []byte("image/openraster")
				b[rapid.IntRange(0, len(b)-1).Draw(t, "at")] ^= byte(rapid.IntRange(1, 255).Draw(t, "bits"))
				m = string(b)
			}

			set("mimetype", m)

			want = ora.ErrInvalidMimeType
		case "not an image":
			root := rapid.SampledFrom([]string{"stack", "Image", "images", "svg", "layer", "img"}).Draw(t, "root")
			s := strings.Replace(f.stackXML, "<image", "<"+root, 1)
			s = strings.Replace(s, "</image>", "</"+root+">", 1)

			set("stack.xml", s)
		case "no width", "no height":
			re := regexp.MustCompile(`<image[^>]*>`)
			side := map[string]string{"no width": ` w="[0-9]+"`, "no height": ` h="[0-9]+"`}[what]

			set("stack.xml", re.ReplaceAllStringFunc(f.stackXML, func(s string) string {
				s = strings.NewReplacer("\t", " ", "\n", " ").Replace(s)

				return regexp.MustCompile(side).ReplaceAllString(s, "")
			}))
		case "no element":
			set("stack.xml", rapid.SampledFrom([]string{"", "<!-- nothing -->", "<?xml version=\"1.0\"?>", " \n", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<!-- <image w=\"1\" h=\"1\"><stack/></image> -->\n"}).Draw(t, "nothing"))
		default:
			var layers []*node

			var find func([]*node)

			find = func(ns []*node) {
				for _, n := range ns {
					if n.stack {
						find(n.kids)
					} else {
						layers = append(layers, n)
					}
				}
			}

			find(f.kids)

			if len(layers) == 0 {
				return
			}

			n := rapid.SampledFrom(layers).Draw(t, "layer")
			want = ora.ErrInvalidSource
			config = false

			switch what {
			case "missing source":
				fs = without(fs, f.names[n.src])
			case "no source":
				s := strings.Replace(f.stackXML, n.xml, regexp.MustCompile(`(^|\s)src ?= ?("[^"]*"|'[^']*')`).ReplaceAllString(n.xml, " "), 1)

				set("stack.xml", s)
			case "misnamed source":
				s := strings.Replace(f.stackXML, n.xml, regexp.MustCompile(`(^|\s)src ?= ?("[^"]*"|'[^']*')`).ReplaceAllString(n.xml, ` src="data/none.PNG"`), 1)

				set("stack.xml", s)
			}
		}

		b := archiveOf(t, fs)

		vt.Journal(b)

		zr := reader(t, b)

		var m limage.Image

		err := attempt(func() error {
			var err error

			m, err = ora.Decode(zr)

			return err
		})

		if !errors.Is(err, want) {
			t.Fatalf("%s: error %v, want %v; decoded %s\n%s", what, err, want, gen.Describe(m), f.stackXML)
		}

		if config {
			if _, err := ora.DecodeConfig(zr); !errors.Is(err, want) {
				t.Fatalf("%s: DecodeConfig: error %v, want %v", what, err, want)
			}
		}

		c.Label(what)
		c.NonTrivial(what, f.key())
		c.Sample("%s: %s", what, f.stackXML)
	})
}

var values = []string{"", "-1", "x", "1e999", "NaN", "-Inf", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "4611686018427387904", "2147483647", "-2147483649", "0x10", "1.5", " 1", "1 ", "+5", "hidden", "&#0;", "0", "-0", "1000000", "data/none.png", "stack.xml", "mimetype", "data/", "../../x"}

// mutateXML changes the stack file, maybe to something that is not XML.
func mutateXML(t *rapid.T, s string) string {
	for n := rapid.IntRange(1, 4).Draw(t, "mutations"); n > 0; n-- {
		switch rapid.IntRange(0, 8).Draw(t, "mutation") {
		case 0: // a value
			if p := pick(t, s, `("[^"<]*"|'[^'<]*')`); p != nil {
				s = s[:p[0]+1] + rapid.SampledFrom(values).Draw(t, "value") + s[p[1]-1:]
			}
		case 1: // cut
			s = s[:rapid.IntRange(0, len(s)).Draw(t, "length")]
		case 2: // a tag left out
			if p := pick(t, s, `<[^>]*>`); p != nil {
				s = s[:p[0]] + s[p[1]:]
			}
		case 3: // a tag twice
			if p := pick(t, s, `<[^>]*>`); p != nil {
				s = s[:p[1]] + s[p[0]:p[1]] + s[p[1]:]
			}
		case 4: // a byte
			if len(s) > 0 {
				i := rapid.IntRange(0, len(s)-1).Draw(t, "at")
				s = s[:i] + string([]byte{rapid.Byte().Draw(t, "byte")}) + s[i+1:]
			}
		case 5: // another name
			if p := pick(t, s, `</?[a-z]+`); p != nil {
				s = s[:p[0]] + rapid.SampledFrom([]string{"<stack", "</stack", "<layer", "</layer", "<image", "</image", "<", "<!--", "<![CDATA[", "<?x", "<!DOCTYPE x ["}).Draw(t, "name") + s[p[1]:]
			}
		case 6: // an attribute
			if p := pick(t, s, `<(stack|layer|image)`); p != nil {
				s = s[:p[1]] + " " + rapid.SampledFrom([]string{"x", "y", "w", "h", "opacity", "src", "name", "visibility", "composite-op"}).Draw(t, "attribute") + `="` + rapid.SampledFrom(values).Draw(t, "value") + `"` + s[p[1]:]
			}
		case 7: // many stacks
			k := rapid.SampledFrom([]int{1, 100, 3000, 9990, 20000}).Draw(t, "depth")
			tag := rapid.SampledFrom([]string{"<stack>", "<layer>", "<x>", `<stack x="1000000000000">`}).Draw(t, "nested")

			if p := pick(t, s, `<(stack|layer)`); p != nil {
				close := ""
				if rapid.Bool().Draw(t, "closed") {
					close = strings.Repeat("</"+strings.Fields(tag[1 : len(tag)-1])[0]+">", k)
				}

				s = s[:p[0]] + strings.Repeat(tag, k) + close + s[p[0]:]
			}
		case 8: // rearranged
			a, b := rapid.IntRange(0, len(s)).Draw(t, "from"), rapid.IntRange(0, len(s)).Draw(t, "to")
			s = s[:max(a, b)] + s[min(a, b):]
		}

		if len(s) > 1<<20 {
			break
		}
	}

	return s
}

func mutateBytes(t *rapid.T, b []byte) []byte {
	b = bytes.Clone(b)

	for n := rapid.IntRange(1, 4).Draw(t, "byte mutations"); n > 0 && len(b) > 0; n-- {
		i := rapid.IntRange(0, len(b)-1).Draw(t, "at")

		switch rapid.IntRange(0, 4).Draw(t, "byte mutation") {
		case 0:
			b[i] = rapid.Byte().Draw(t, "byte")
		case 1:
			b[i] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
		case 2:
			b = b[:i]
		case 3:
			j := min(len(b), i+rapid.IntRange(1, 16).Draw(t, "length"))
			b = append(b[:i:i], b[j:]...)
		case 4:
			j := min(len(b), i+rapid.IntRange(1, 16).Draw(t, "length"))
			b = append(b[:j:j], b[i:]...)
		}
	}

	return b
}

// TestC16_Stack: the stack file is damaged.
func TestC16_Stack(t *testing.T) {
	vt.Check(t, 4000, 80000, func(t *rapid.T, c *vt.Case) {
		f := small(t)
		fs := f.files(t)
		s := mutateXML(t, f.stackXML)

		for i := range fs {
			if fs[i].name == "stack.xml" {
				fs[i].data = []byte(s)
				fs[i].store = false
			}
		}

		b := archiveOf(t, fs)

		vt.Journal(b)

		_, err := try(b)
		if errors.Is(err, errPanic) {
			t.Fatalf("%v\n%.3000s", err, s)
		}

		c.LabelIf(err == nil, "decoded")
		c.LabelIf(err != nil, "rejected")
		c.NonTrivial(gen.Mix(f.key(), uint64(len(s))), len(b))
		c.Sample("%v for %s", err, s)
	})
}

// TestC16_Bytes: anything else is damaged.
func TestC16_Bytes(t *testing.T) {
	vt.Check(t, 4000, 80000, func(t *rapid.T, c *vt.Case) {
		f := small(t)
		fs := f.files(t)

		var what string

		switch rapid.IntRange(0, 3).Draw(t, "part") {
		case 0, 1:
			what = "PNG"
			n := rapid.SampledFrom(f.names).Draw(t, "source")

			for i := range fs {
				if fs[i].name == n {
					fs[i].data = mutateBytes(t, fs[i].data)
				}
			}
		case 2:
			what = "entries"
			i := rapid.IntRange(0, len(fs)-1).Draw(t, "entry")

			switch rapid.IntRange(0, 2).Draw(t, "change") {
			case 0:
				fs = append(fs, fs[i])
			case 1:
				fs[i].name = fs[rapid.IntRange(0, len(fs)-1).Draw(t, "other")].name
			case 2:
				fs[i].data = rapid.SliceOfN(rapid.Byte(), 0, 64).Draw(t, "data")
			}
		}

		b := archiveOf(t, fs)

		if what == "" {
			what = "archive"
			b = mutateBytes(t, b)
		}

		vt.Journal(b)

		_, err := try(b)
		if errors.Is(err, errPanic) {
			t.Fatalf("%s: %v\n%x", what, err, b)
		}

		c.LabelIf(err == nil, what+" decoded")
		c.LabelIf(err != nil, what+" rejected")

		h := uint64(len(b))
		for _, x := range b {
			h = gen.Mix(h, uint64(x))
		}

		c.NonTrivial(h)
		c.Sample("%s: %v for %d bytes with %s", what, err, len(b), f.stackXML)
	})
}

// TestC16_Truncated: a stack file that ends early is rejected, wherever it does.
func TestC16_Truncated(t *testing.T) {
	vt.Check(t, 400, 8000, func(t *rapid.T, c *vt.Case) {
		f := small(t)
		fs := f.files(t)
		end := strings.LastIndex(f.stackXML, "</stack>")

		for k := 0; k < 12; k++ {
			n := rapid.IntRange(0, end+len("</stack")).Draw(t, "length")

			for i := range fs {
				if fs[i].name == "stack.xml" {
					fs[i].data = []byte(f.stackXML[:n])
				}
			}

			b := archiveOf(t, fs)

			vt.Journal(b)

			if m, err := try(b); err == nil || errors.Is(err, errPanic) {
				t.Fatalf("cut to %d bytes: %v, decoded as %s\n%s", n, err, gen.Describe(m), f.stackXML[:n])
			}

			c.NonTrivial(f.key(), n)
		}

		c.Sample("%s", f.stackXML)
	})
}

// TestC16_Deep: many elements within each other are no reason to crash.
func TestC16_Deep(t *testing.T) {
	vt.Check(t, 6, 40, func(t *rapid.T, c *vt.Case) {
		n := rapid.SampledFrom([]int{100, 500, 2000, 9999, 10001, 100000, 3000000}).Draw(t, "depth")
		n -= rapid.IntRange(0, n/2).Draw(t, "less")
		name := rapid.SampledFrom([]string{"stack", "stack", "stack", "layer", "x"}).Draw(t, "name")
		closed := rapid.IntRange(0, 3).Draw(t, "closed") > 0
		attr := rapid.SampledFrom([]string{"", ` x="1"`, ` x="-1" y="1"`, ` name="n"`}).Draw(t, "attributes")

		if name == "layer" {
			attr += ` src="p.png"`
		}

		var sb strings.Builder

		sb.WriteString(`<image w="8" h="8"><stack>`)
		sb.WriteString(strings.Repeat("<"+name+attr+">", n))

		if closed {
			sb.WriteString(strings.Repeat("</"+name+">", n) + "</stack></image>")
		}

		b := archiveOf(t, []file{{"mimetype", []byte("image/openraster"), true}, {"stack.xml", []byte(sb.String()), false}, {"p.png", pngOf(t, image.NewGray(image.Rect(0, 0, 2, 2))), false}})

		vt.Journal(b)

		m, err := try(b)
		if errors.Is(err, errPanic) {
			t.Fatalf("%d times %s: %v", n, name, err)
		}

		if !closed && err == nil {
			t.Fatalf("%d times %s and no end: no error", n, name)
		}

		if closed && n <= 500 && (err != nil || name != "x" && len(m) != 1 || name == "x" && len(m) != 0) {
			t.Fatalf("%d times %s: error %v, %d layers", n, name, err, len(m))
		}

		c.Label(name)
		c.LabelIf(closed, "closed")
		c.LabelIf(n > 100000, "more than 100000")
		c.NonTrivial(name, n, closed, attr)
		c.Sample("%d times %s, closed %t: %v", n, name+attr, closed, err)
	})
}
