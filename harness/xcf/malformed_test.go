package xcf

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/fnv"
	"image"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
	"testing"
	"time"

	"limageverif/cmp"
	"limageverif/gen"
	"limageverif/vt"
	"limageverif/xcfgen"
	"limageverif/xcfref"
	"pgregory.net/rapid"
	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/xcf"
)

func fnvOf(b []byte) uint64 {
	h := fnv.New64a()

	h.Write(b)

	return h.Sum64()
}

// pixelCount gives how many pixels the layers have.
func pixelCount(g limage.Image) int {
	n := 0

	for _, l := range g {
		n += area(l.LayerBounds)

		if sub, ok := cmp.AsGroup(cmp.Base(l.Image)); ok {
			n += pixelCount(sub)
		}
	}

	return n
}

// area gives the number of pixels, or a large number.
func area(r image.Rectangle) int {
	if r.Empty() {
		return 0
	}

	if r.Dx() > 1<<24 || r.Dy() > 1<<24 {
		return 1 << 48
	}

	return r.Dx() * r.Dy()
}

var corpus = func() [][]byte {
	var out [][]byte

	files, _ := filepath.Glob(filepath.Join(os.Getenv("VERIF_CORPUS"), "xcf", "*.xcf"))

	for _, f := range files {
		if b, err := os.ReadFile(f); err == nil {
			out = append(out, b)
		}
	}

	return out
}()

// valid draws a valid file to be damaged, and says where its parts are.
func valid(t *rapid.T) ([]byte, []xcfref.Place, string) {
	switch k := rapid.IntRange(0, 9).Draw(t, "source"); {
	case k == 0 && len(corpus) > 0:
		n := rapid.IntRange(0, len(corpus)-1).Draw(t, "file")

		return corpus[n], []xcfref.Place{{Off: 0, Len: len(corpus[n]), Kind: "all"}}, fmt.Sprintf("file %d", n)
	case k <= 2:
		tr, _ := drawTree(t, 70, modes)

		b, err := encode(tr.Image)
		if err != nil {
			t.Fatalf("encoding: %v", err)
		}

		return b, []xcfref.Place{{Off: 0, Len: len(b), Kind: "all"}}, "encoded"
	}

	o := foreign
	o.Max, o.Large, o.Layers, o.Depth, o.Many = 8, 70, 3, 2, false
	d := xcfgen.Draw(t, o)

	if rapid.Bool().Draw(t, "extras") {
		d = xcfgen.WithExtras(t, d)
	}

	each(d.Layers, func(l *xcfref.Layer) {
		if l.HasText && !l.IsGroup && rapid.Bool().Draw(t, "mutate text") {
			l.Text = mutateText(t, l.Text)
		}
	})

	switch rapid.IntRange(0, 11).Draw(t, "wrong") {
	case 0:
		each(d.Layers, func(l *xcfref.Layer) {
			if l.Mask != nil && len(l.Mask.Pixels) > 0 {
				l.Mask.W = uint32(rapid.SampledFrom([]int{1, int(l.W) - 1, int(l.W) + 1, 2 * int(l.W), 0}).Draw(t, "mask width"))
				l.Mask.Pixels = make([]byte, l.Mask.W*l.Mask.H)
			}
		})

		return with(d, "mask size")
	case 1:
		each(d.Layers, func(l *xcfref.Layer) { l.IsGroup = rapid.Bool().Draw(t, "is group") })

		return with(d, "group flags")
	case 2:
		if len(d.Colormap) > 0 {
			d.Colormap = d.Colormap[:rapid.IntRange(0, len(d.Colormap)).Draw(t, "colours left")]
		}

		return with(d, "colours")
	case 3:
		d.Compression = uint8(rapid.SampledFrom([]int{0, 1, 2, 3, 255}).Draw(t, "other compression"))

		return with(d, "compression")
	case 4:
		d.Precision = uint32(rapid.SampledFrom([]int{0, 1, 100, 150, 200, 250, 300, 750, 1 << 30}).Draw(t, "other precision"))

		return with(d, "precision")
	}

	return with(d, "")
}

func with(d *xcfgen.Drawn, what string) ([]byte, []xcfref.Place, string) {
	b, places := d.BuildPlaces()

	return b, places, what
}

func each(ls []*xcfref.Layer, fn func(*xcfref.Layer)) {
	for _, l := range ls {
		fn(l)
		each(l.Items, fn)
	}
}

var textPieces = []string{
	"(", ")", "\"", "\\", "\\\"", "\\1", "\\777", "\\x", "\\n", "(text \"a\")", "(markup \"<b>x</b>\")", "(markup \"<b>\")", "(markup \"<span size=\\\"9\\\">x</span>\")",
	"(markup \"</b>\")", "(markup \"<\")", "(markup \"</markup></markup>x\")", "(font-size 99999999999999999999)", "(font-size -1)", "(font-size 1e9)", "(font-size \"x\")", "(color (color-rgb 1 2))",
	"(color (color-rgb 2 -2 nan))", "(color x)", "(color)", "(color (color-rgb \"a\" b (c)))", "-", ".", "1.", "-.5", "1.2.3", "\x00", "é", "\xff", " ", "\n", "\t", "\r", strings.Repeat("(a", 200), strings.Repeat("(a ", 5000), "(", "<", "&", "&#0;", "(a b c)",
	"(markup \"<span foreground=\\\"#zzzzzz\\\">x</span>\")", "(markup \"<span foreground=\\\"#12345678901234567890\\\">x</span>\")", "(markup \"<span size=\\\"99999999999999999999999\\\" rise=\\\"-5\\\">x</span>\")",
	"(markup \"" + strings.Repeat("<b>", 300) + "\")", "(text)", "(text \"a\" \"b\")", "(text 5)", "(a-b -)", "(a -5)", "(a --5)", "yes", "(text \"", "(text \"\\",
}

// drawTag adds a tag with any number of values of any kind.
func drawTag(t *rapid.T, b []byte, depth int) []byte {
	b = append(b, '(')
	b = append(b, rapid.SampledFrom([]string{
		"text", "markup", "font", "font-size", "font-size-unit", "antialias", "language", "base-direction", "color", "color-rgb", "color-rgb", "justify",
		"box-mode", "box-width", "box-height", "box-unit", "hinting", "unknown", "x",
	}).Draw(t, "tag")...)

	n := rapid.IntRange(0, 4).Draw(t, "values")
	if depth == 0 && n > 1 && rapid.Bool().Draw(t, "only one") {
		n = 1
	}

	for ; n > 0; n-- {
		b = append(b, ' ')

		switch k := rapid.IntRange(0, 4).Draw(t, "value"); {
		case k == 0:
			b = append(b, rapid.SampledFrom([]string{"yes", "no", "pixels", "nan", "inf", "-", "#t"}).Draw(t, "word")...)
		case k == 1:
			b = append(b, rapid.SampledFrom([]string{"0", "1", "0.5", "-1", "255", "1e9", "1.", "-.5", "4294967296", "99999999999999999999", "0.000000001", "1.000000"}).Draw(t, "number")...)
		case k == 2 || depth > 3:
			b = append(b, '"')
			b = append(b, rapid.SampledFrom([]string{"", "a", "Sans", "<markup>x</markup>", "<b>", "\\\"", "\\n", "\\101", "é"}).Draw(t, "string")...)
			b = append(b, '"')
		default:
			b = drawTag(t, b, depth+1)
		}
	}

	return append(b, ')')
}

// drawMarkup adds markup with elements and attributes of any kind.
func drawMarkup(t *rapid.T, b []byte, depth int) []byte {
	for n := rapid.IntRange(0, 3).Draw(t, "parts"); n > 0; n-- {
		if depth > 4 || rapid.Bool().Draw(t, "characters") {
			b = append(b, rapid.SampledFrom([]string{"", "a", "some text", "&lt;", "&amp;", "&", "&#10;", "&nosuch;", "<!-- c -->", "<?p i?>", "<![CDATA[d]]>", "é", "]]>"}).Draw(t, "data")...)

			continue
		}

		name := rapid.SampledFrom([]string{"markup", "span", "span", "span", "b", "i", "u", "s", "big", "x:span", "tt"}).Draw(t, "element")
		b = append(append(b, '<'), name...)

		for m := rapid.IntRange(0, 3).Draw(t, "attributes"); m > 0; m-- {
			b = append(b, ' ')
			b = append(b, rapid.SampledFrom([]string{"font", "foreground", "background", "size", "letter_spacing", "rise", "weight", "x"}).Draw(t, "attribute")...)
			b = append(b, "=\""...)
			b = append(b, rapid.SampledFrom([]string{
				"", "#", "#1", "#12", "#123", "#1234", "#12345", "#123456", "#1234567", "#zzz", "#zzzzzz", "#-12345", "red", "0", "1024", "-1", "1e3", "larger", "18446744073709551616", "9223372036854775807", "Sans", "é",
			}).Draw(t, "attribute value")...)
			b = append(b, '"')
		}

		if rapid.IntRange(0, 9).Draw(t, "empty element") == 0 {
			b = append(b, "/>"...)

			continue
		}

		b = append(b, '>')
		b = drawMarkup(t, b, depth+1)

		if rapid.IntRange(0, 19).Draw(t, "wrong end") == 0 {
			name = "b"
		}

		b = append(append(append(b, "</"...), name...), '>')
	}

	return b
}

func mutateText(t *rapid.T, s []byte) []byte {
	switch rapid.IntRange(0, 6).Draw(t, "text change") {
	case 4, 5:
		var b []byte

		for n := rapid.IntRange(1, 5).Draw(t, "tags"); n > 0; n-- {
			b = append(drawTag(t, b, 0), "\n"...)
		}

		return append(b, rapid.SampledFrom([]string{"", "\x00", "\x00\x00", ")"}).Draw(t, "tags end")...)
	case 6:
		return append([]byte("(markup \""), append(bytes.ReplaceAll(drawMarkup(t, nil, 0), []byte("\""), []byte("\\\"")), "\")\n\x00"...)...)
	case 0:
		return rapid.SliceOfN(rapid.SampledFrom([]byte("()\"\\ab-1 .\n\x00<>&#é\xff=/")), 0, 60).Draw(t, "text data")
	case 1:
		var b []byte

		for _, p := range rapid.SliceOfN(rapid.SampledFrom(textPieces), 0, 8).Draw(t, "pieces") {
			b = append(b, p...)
		}

		return b
	case 2:
		b := append([]byte{}, s...)

		for n := rapid.IntRange(1, 3).Draw(t, "insertions"); n > 0; n-- {
			p := rapid.IntRange(0, len(b)).Draw(t, "where")
			b = append(b[:p:p], append([]byte(rapid.SampledFrom(textPieces).Draw(t, "piece")), b[p:]...)...)
		}

		return b
	}

	return s[:rapid.IntRange(0, len(s)).Draw(t, "text length")]
}

var numbers = []uint32{0, 1, 2, 3, 4, 5, 6, 7, 8, 63, 64, 65, 127, 128, 255, 256, 4095, 4096, 4097, 0x7fff, 0x8000, 0xffff, 0x10000, 1 << 20, 1 << 24, 16<<20 + 1, 1 << 30, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff}

// malformed draws a file which is likely to be damaged.
func malformed(t *rapid.T, c *vt.Case) ([]byte, string) {
	orig, places, what := valid(t)
	b := append([]byte{}, orig...)

	if what != "" {
		c.Label("damage: " + what)
	}

	lo := 1
	if what != "" {
		lo = 0
	}

	n := rapid.IntRange(lo, 3).Draw(t, "changes")

	for ; n > 0 && len(b) > 0; n-- {
		// A place, by its kind first, for those that are rare.
		kinds := map[string]bool{}

		var names []string

		for _, p := range places {
			if !kinds[p.Kind] && p.Len > 0 {
				kinds[p.Kind] = true
				names = append(names, p.Kind)
			}
		}

		kind := rapid.SampledFrom(names).Draw(t, "kind of place")

		var of []xcfref.Place

		for _, p := range places {
			if p.Kind == kind && p.Len > 0 {
				of = append(of, p)
			}
		}

		p := rapid.SampledFrom(of).Draw(t, "place")
		at := min(p.Off+rapid.OneOf(rapid.IntRange(0, p.Len-1), rapid.IntRange(0, min(p.Len-1, 60))).Draw(t, "at"), len(b)-1)
		word := at - (at-p.Off)%4

		set := func(v uint32) {
			if word >= 0 && word+4 <= len(b) {
				binary.BigEndian.PutUint32(b[word:], v)
			}
		}

		how := rapid.SampledFrom([]string{"byte", "bit", "number", "number anywhere", "add", "pointer", "cut", "insert", "delete", "copy", "noise", "swap"}).Draw(t, "how")
		what += " " + kind + ":" + how

		switch how {
		case "byte":
			b[at] = rapid.SampledFrom([]byte{0, 1, 2, 5, 126, 127, 128, 129, 130, 254, 255}).Draw(t, "byte")
		case "bit":
			b[at] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
		case "number":
			set(rapid.SampledFrom(numbers).Draw(t, "number"))
		case "number anywhere":
			word = at

			set(rapid.SampledFrom(numbers).Draw(t, "number"))
		case "add":
			if word >= 0 && word+4 <= len(b) {
				set(binary.BigEndian.Uint32(b[word:]) + uint32(rapid.SampledFrom([]int{-64, -4, -3, -2, -1, 1, 2, 3, 4, 64, 1 << 16}).Draw(t, "plus")))
			}
		case "pointer":
			q := rapid.SampledFrom(places).Draw(t, "target")

			set(uint32(q.Off + rapid.SampledFrom([]int{0, 0, 0, 1, -1, 4, q.Len}).Draw(t, "beside")))
		case "cut":
			b = b[:at]
		case "insert":
			b = append(b[:at:at], append(rapid.SliceOfN(rapid.Byte(), 1, 12).Draw(t, "inserted"), b[at:]...)...)
		case "delete":
			b = append(b[:at:at], b[min(len(b), at+rapid.IntRange(1, 12).Draw(t, "deleted")):]...)
		case "copy":
			q := rapid.SampledFrom(places).Draw(t, "source")

			copy(b[at:], orig[q.Off:q.Off+q.Len])
		case "noise":
			seed := uint64(rapid.Uint32().Draw(t, "noise"))

			for i := at; i < min(len(b), at+64); i++ {
				b[i] = byte(gen.Mix(seed, uint64(i)))
			}
		case "swap":
			if q := rapid.SampledFrom(of).Draw(t, "other"); q.Off+8 <= len(b) && p.Off+8 <= len(b) {
				for i := 0; i < 8; i++ {
					b[p.Off+i], b[q.Off+i] = b[q.Off+i], b[p.Off+i]
				}
			}
		}

		c.Label("damage: " + how)
	}

	return b, what
}

func cpu() time.Duration {
	var r syscall.Rusage

	syscall.Getrusage(syscall.RUSAGE_SELF, &r)

	return time.Duration(r.Utime.Nano() + r.Stime.Nano())
}

func allocated() uint64 {
	var m runtime.MemStats

	runtime.ReadMemStats(&m)

	return m.TotalAlloc
}

// What one byte of a file may cost: a tile, of 4096 pixels of 4 bytes, is
// pointed to by 4 bytes.
const (
	perByte  = 20000
	baseline = 64 << 20
	maxTime  = 20 * time.Second
)

// try decodes in every way, and uses what comes out.
func try(b []byte) (bool, error) {
	var (
		m, comp, reg image.Image
		errs         [4]error
	)

	before, start := allocated(), cpu()

	errs[0] = attempt(func() error {
		im, err := xcf.Decode(bytes.NewReader(b))
		if err == nil {
			m = im

			if im == nil {
				err = fmt.Errorf("%w: neither an image nor an error", errPanic)
			}
		}

		return err
	})

	errs[1] = attempt(func() error {
		im, err := xcf.DecodeCompressed(bytes.NewReader(b))
		if err == nil {
			comp = im

			if im == nil {
				err = fmt.Errorf("%w: neither an image nor an error", errPanic)
			}
		}

		return err
	})

	errs[2] = attempt(func() error {
		_, err := xcf.DecodeConfig(bytes.NewReader(b))

		return err
	})

	errs[3] = attempt(func() error {
		im, _, err := image.Decode(bytes.NewReader(b))
		reg = im

		return err
	})

	if used := cpu() - start; used > maxTime {
		return false, fmt.Errorf("decoding %d bytes used %v", len(b), used)
	}

	if used := allocated() - before; used > baseline+4*uint64(len(b))*perByte {
		return false, fmt.Errorf("decoding %d bytes allocated %d bytes", len(b), used)
	}

	for i, err := range errs {
		if errors.Is(err, errPanic) {
			return false, fmt.Errorf("%s: %w", []string{"Decode", "DecodeCompressed", "DecodeConfig", "image.Decode"}[i], err)
		}
	}

	if (errs[0] == nil) != (errs[3] == nil) {
		return false, fmt.Errorf("Decode: %v, image.Decode: %v", errs[0], errs[3])
	}

	for _, im := range []image.Image{m, comp, reg} {
		if im == nil {
			continue
		}

		if err := attempt(func() error {
			use(im.(limage.Image), 0)

			return nil
		}); err != nil {
			return false, fmt.Errorf("reading the pixels: %w", err)
		}
	}

	return errs[0] == nil, nil
}

// use reads all of the pixels, or many of them.
func use(g limage.Image, depth int) {
	g.ColorModel()
	look(g, g.Bounds(), 500)

	for _, l := range g {
		look(l, l.LayerBounds, 100)
		look(l.Image, l.Image.Bounds(), 1<<16)

		if m, ok := cmp.Masked(l.Image); ok {
			look(m.Mask, m.Mask.Bounds(), 1<<10)
		}

		if sub, ok := cmp.AsGroup(cmp.Base(l.Image)); ok && depth < 200 {
			use(sub, depth+1)
		}
	}
}

func look(m image.Image, r image.Rectangle, most int) {
	m.ColorModel()

	if r.Empty() {
		return
	}

	if area(r) <= most {
		for y := r.Min.Y; y < r.Max.Y; y++ {
			for x := r.Min.X; x < r.Max.X; x++ {
				m.At(x, y).RGBA()
			}
		}
	} else {
		for i := 0; i < min(most, 2000); i++ {
			v := gen.Mix(uint64(most), uint64(i))

			m.At(r.Min.X+int(v%uint64(r.Dx())), r.Min.Y+int(v>>20%uint64(r.Dy()))).RGBA()
		}
	}

	for _, p := range []image.Point{r.Min, {r.Max.X - 1, r.Min.Y}, {r.Min.X, r.Max.Y - 1}, r.Max.Sub(image.Pt(1, 1)), r.Max, r.Min.Sub(image.Pt(1, 1))} {
		m.At(p.X, p.Y).RGBA()
	}
}

// TestC24_Damaged: valid files, damaged.
func TestC24_Damaged(t *testing.T) {
	vt.Check(t, 12000, 400000, func(t *rapid.T, c *vt.Case) {
		b, what := malformed(t, c)

		vt.Journal(b)

		ok, err := try(b)
		if err != nil {
			t.Fatalf("%s: %v\n%x", what, err, b[:min(len(b), 4000)])
		}

		c.LabelIf(ok, "decoded all the same")
		c.LabelIf(!ok, "refused")
		c.NonTrivial(fnvOf(b))
		c.Sample("%d bytes, %s: decoded %t", len(b), what, ok)
	})
}

// TestC24_Noise: arbitrary bytes after a valid beginning.
func TestC24_Noise(t *testing.T) {
	vt.Check(t, 4000, 100000, func(t *rapid.T, c *vt.Case) {
		v := rapid.SampledFrom([]string{"file", "v001", "v002", "v003", "v004", "v009", "v010", "v011", "v012", "v013", "v014", "v999", "abcd"}).Draw(t, "version")
		b := append([]byte("gimp xcf "+v), 0)

		for n := rapid.IntRange(0, 40).Draw(t, "numbers"); n > 0; n-- {
			switch rapid.IntRange(0, 4).Draw(t, "part") {
			case 0:
				b = append(b, rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "bytes")...)
			case 1:
				b = append(b, xcfref.U32(rapid.SampledFrom(numbers).Draw(t, "number"))...)
			default:
				b = append(b, xcfref.U32(uint32(rapid.IntRange(0, 200).Draw(t, "small number")))...)
			}
		}

		vt.Journal(b)

		ok, err := try(b)
		if err != nil {
			t.Fatalf("%v\n%x", err, b)
		}

		c.LabelIf(ok, "decoded all the same")
		c.NonTrivial(fnvOf(b))
		c.Sample("%x: decoded %t", b, ok)
	})
}

// TestC24_Claims: a single field is enormous, everywhere in a file.
func TestC24_Claims(t *testing.T) {
	vt.Check(t, 60, 2000, func(t *rapid.T, c *vt.Case) {
		o := foreign
		o.Max, o.Large, o.Layers, o.MinLayers, o.Depth, o.Many, o.NoText = 8, 0, 2, 1, 1, false, true
		d := xcfgen.WithExtras(t, xcfgen.Draw(t, o))
		b, places := d.BuildPlaces()
		v := rapid.SampledFrom([]uint32{1 << 20, 1 << 24, 1 << 28, 1 << 30, 0x7fffffff, 0x80000000, 0xffffffff}).Draw(t, "number")

		for _, p := range places {
			if p.Kind == "tile" {
				continue
			}

			for at := p.Off; at+4 <= p.Off+p.Len; at++ {
				if at > p.Off+400 && at%7 != 0 {
					continue
				}

				x := append([]byte{}, b...)
				binary.BigEndian.PutUint32(x[at:], v)
				vt.Journal(x)

				if _, err := try(x); err != nil {
					t.Fatalf("%d at %d, in %s: %v\nfile: %s", v, at, p.Kind, err, xcfgen.Describe(d.File))
				}

				c.NonTrivial(fnvOf(x))
			}
		}

		c.Sample("%d at each place of %s", v, xcfgen.Describe(d.File))
	})
}
