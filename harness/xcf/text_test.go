package xcf

import (
	"fmt"
	"image"
	"image/color"
	"reflect"
	"strings"
	"testing"

	"limageverif/cmp"
	"limageverif/gen"
	"limageverif/vt"
	"limageverif/xcfgen"
	"limageverif/xcfref"
	"pgregory.net/rapid"
	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
)

// style is that of one character.
type style struct {
	font                string
	size, spacing, rise uint32
	fore                lcolor.RGB
	back                lcolor.RGB
	hasBack             bool
	b, i, u, s          bool
}

type styled struct {
	r rune
	style
}

func (s styled) String() string {
	out := fmt.Sprintf("%q in %q size %d #%02x%02x%02x", s.r, s.font, s.size, s.fore.R, s.fore.G, s.fore.B)

	if s.hasBack {
		out += fmt.Sprintf(" on #%02x%02x%02x", s.back.R, s.back.G, s.back.B)
	}

	return out + fmt.Sprintf(" spacing %d rise %d b %t i %t u %t s %t", s.spacing, s.rise, s.b, s.i, s.u, s.s)
}

func rgbOf(c color.Color) (lcolor.RGB, bool) {
	if c == nil {
		return lcolor.RGB{}, false
	}

	r, g, b, a := c.RGBA()

	if a == 0 {
		return lcolor.RGB{}, false
	}

	return lcolor.RGB{R: uint8(r >> 8), G: uint8(g >> 8), B: uint8(b >> 8)}, true
}

// flatten gives every character with its style.
func flatten(td limage.TextData) []styled {
	var out []styled

	for _, d := range td {
		s := style{font: d.Font, size: d.Size, spacing: d.LetterSpacing, rise: d.Rise, b: d.Bold, i: d.Italic, u: d.Underline, s: d.Strikethrough}
		s.fore, _ = rgbOf(d.ForeColor)
		s.back, s.hasBack = rgbOf(d.BackColor)

		for _, r := range d.Data {
			out = append(out, styled{r, s})
		}
	}

	return out
}

func sameText(want, got []styled) error {
	for i := range want {
		if i >= len(got) {
			return fmt.Errorf("%d characters became %d; missing %v", len(want), len(got), want[i])
		}

		if want[i] != got[i] {
			return fmt.Errorf("character %d, %v, became %v", i, want[i], got[i])
		}
	}

	if len(got) > len(want) {
		return fmt.Errorf("%d characters became %d; more: %v", len(want), len(got), got[len(want)])
	}

	return nil
}

var textWords = []string{
	"text", " ", "\n", "\r\n", "\t", "\"", "\\", "\\\"", "\\n", "<b>", "</b>", "</markup>", "&amp;", "&", "<", ">", "'", "(", ")", "(text \"x\")", ";", "#", "é", "日本語", "🎨", "\u00a0", "\u2028", "]]>", "%s", "%d%%", "0", "-1.5", "\u0301", "\ufffd", "\u007f", "  two  ", "a\rb",
}

var plainWords = []string{"\x01", "\x1f", "\b", "\f", "\v", "\x7f", "\uffff", "\ufffe"}

func drawString(t *rapid.T, label string, words []string) string {
	var sb strings.Builder

	switch rapid.IntRange(0, 5).Draw(t, label+"kind") {
	case 0:
		return ""
	case 1:
		for _, r := range rapid.SliceOfN(rapid.Rune(), 0, 20).Draw(t, label+"runes") {
			if r >= ' ' && r != 0xfffe && r != 0xffff || r == '\n' || r == '\t' {
				sb.WriteRune(r)
			}
		}
	case 2:
		return strings.Repeat(rapid.SampledFrom(textWords).Draw(t, label+"word"), rapid.IntRange(1, 400).Draw(t, label+"times"))
	default:
		for _, w := range rapid.SliceOfN(rapid.SampledFrom(words), 1, 8).Draw(t, label+"words") {
			sb.WriteString(w)
		}
	}

	return sb.String()
}

var fonts = []string{"Sans", "Sans", "Serif", "DejaVu Sans Bold", "Font \"Q\"", "A & B <c>", "日本", "", "a\\b", "Sans 12", "it's", "tab\tbed"}

func drawColour(t *rapid.T, label string) color.Color {
	v := rapid.Uint32().Draw(t, label+"value")

	switch rapid.IntRange(0, 6).Draw(t, label+"type") {
	case 0:
		return color.Gray{Y: uint8(v)}
	case 1:
		return lcolor.RGB{R: uint8(v), G: uint8(v >> 8), B: uint8(v >> 16)}
	case 2:
		return color.RGBA{R: uint8(v), G: uint8(v >> 8), B: uint8(v >> 16), A: 255}
	case 3:
		return color.Black
	case 4:
		return lcolor.RGB{R: uint8(v) & 1, G: 0, B: uint8(v>>8) & 1}
	}

	return color.NRGBA{R: uint8(v), G: uint8(v >> 8), B: uint8(v >> 16), A: 255}
}

var sizes = []uint32{18, 18, 0, 1, 12, 20, 100, 65535, 1 << 20, 1<<24 + 1, 1<<32 - 1}

func drawText(t *rapid.T, c *vt.Case) limage.TextData {
	n := rapid.IntRange(1, 6).Draw(t, "parts")
	td := make(limage.TextData, n)
	words := textWords

	plain := n == 1 && rapid.Bool().Draw(t, "plain")
	if plain || rapid.IntRange(0, 7).Draw(t, "odd characters") == 0 {
		words = append(append([]string{}, textWords...), plainWords...)
	}

	bit := func(label string) bool { return !plain && rapid.IntRange(0, 2).Draw(t, label) == 0 }
	num := func(label string) uint32 {
		if plain || rapid.Bool().Draw(t, "no "+label) {
			return 0
		}

		return rapid.OneOf(rapid.SampledFrom(sizes), rapid.Uint32()).Draw(t, label)
	}

	for i := range td {
		td[i] = limage.TextDatum{
			Font:          rapid.SampledFrom(fonts).Draw(t, "font"),
			Size:          rapid.OneOf(rapid.SampledFrom(sizes), rapid.Uint32Range(0, 200)).Draw(t, "size"),
			Bold:          bit("bold"),
			Italic:        bit("italic"),
			Underline:     bit("underline"),
			Strikethrough: bit("strikethrough"),
			LetterSpacing: num("spacing"),
			Rise:          num("rise"),
			Data:          drawString(t, "data ", words),
		}

		if rapid.IntRange(0, 3).Draw(t, "black") != 0 {
			td[i].ForeColor = drawColour(t, "fore ")
		}

		switch k := rapid.IntRange(0, 3).Draw(t, "back"); {
		case k == 0:
			td[i].BackColor = color.Alpha{}
		case k == 1 && !plain:
			td[i].BackColor = drawColour(t, "back ")
		case k == 2:
			td[i].BackColor = color.Transparent
		}

		c.LabelIf(td[i].Bold || td[i].Italic || td[i].Underline || td[i].Strikethrough, "bold, italic, underlined or struck")
		c.LabelIf(td[i].Rise != 0 || td[i].LetterSpacing != 0, "rise or letter spacing")
		c.LabelIf(strings.ContainsAny(td[i].Data, "\"\\<>&"), "quotes or markup characters")
		c.LabelIf(strings.ContainsAny(td[i].Data, "\r\n"), "line breaks")
	}

	c.LabelIf(plain, "one style for all")
	c.LabelIf(n > 1, "several parts")

	return td
}

// inexpressible tells whether there are characters that no XML can have.
func inexpressible(td limage.TextData) bool {
	for _, d := range td {
		for _, r := range d.Data {
			if r < ' ' && r != '\n' && r != '\r' && r != '\t' || r == 0xfffe || r == 0xffff {
				return true
			}
		}
	}

	return false
}

// TestC27_RoundTrip: text which is encoded, and decoded.
func TestC27_RoundTrip(t *testing.T) {
	vt.Check(t, 8000, 160000, func(t *rapid.T, c *vt.Case) {
		td := drawText(t, c)
		w, h := gen.Dim(t, 20, "width"), gen.Dim(t, 20, "height")
		r := image.Rect(0, 0, w, h)
		px, _ := gen.OneImage(t, r, []gen.Kind{gen.NRGBA, gen.Gray, gen.RGB}, nil)

		orig := limage.Image{{Name: "text", LayerBounds: r.Add(image.Pt(rapid.IntRange(0, 9).Draw(t, "x"), 0))}, {Name: "below", LayerBounds: image.Rect(0, 0, w+9, h), Image: image.NewNRGBA(image.Rect(0, 0, w+9, h))}}
		before := fmt.Sprint(td)

		switch rapid.IntRange(0, 4).Draw(t, "wrapped") {
		case 0:
			orig[0].Image = &limage.Text{Image: px, TextData: td}
		case 1:
			orig[0].Image = limage.MaskedImage{Image: limage.Text{Image: px, TextData: td}, Mask: gen.Mask(t, r, "mask ")}

			c.Label("masked")
		case 2:
			orig[0].Image = limage.Image{{Name: "in a group", LayerBounds: r, Image: limage.Text{Image: px, TextData: td}}}

			c.Label("in a group")
		default:
			orig[0].Image = limage.Text{Image: px, TextData: td}
		}

		b, err := encode(orig)
		if err != nil && inexpressible(td) {
			// There is no way to have them in what GIMP uses for styled text:
			// this has to be said.
			c.Label("characters that cannot be written")
			c.NonTrivial(fmt.Sprintf("%#v", td), w, h)

			return
		}

		if err != nil {
			t.Fatalf("encoding %#v: %v", td, err)
		}

		vt.Journal(b)

		got, err := decode(b)
		if err != nil {
			t.Fatalf("decoding %#v: %v", td, err)
		}

		if err := cmp.Trees(expect(orig), got, cmp.Want{Mode: kept, Masks: true}); err != nil {
			t.Fatalf("%#v: %v", td, err)
		}

		all := texts(got)
		if len(all) != 1 {
			t.Fatalf("%d text layers, for %#v", len(all), td)
		}

		if err := sameText(flatten(td), flatten(all[0].(limage.TextData))); err != nil {
			t.Fatalf("%v\noriginal: %#v\ndecoded:  %#v", err, td, all[0])
		}

		if after := fmt.Sprint(td); after != before {
			t.Fatalf("encoding changed %s to %s", before, after)
		}

		// Another generation.
		b2, err := encode(got)
		if err != nil {
			t.Fatalf("encoding again: %v", err)
		}

		again, err := decode(b2)
		if err != nil {
			t.Fatalf("decoding again: %v", err)
		}

		if err := sameText(flatten(td), flatten(texts(again)[0].(limage.TextData))); err != nil {
			t.Fatalf("second generation: %v\noriginal: %#v", err, td)
		}

		// The compressed image has it, too.
		comp, err := decodeCompressed(b)
		if err != nil || !reflect.DeepEqual(texts(comp), all) {
			t.Fatalf("compressed: %v, %v", err, texts(comp))
		}

		if len(flatten(td)) > 0 {
			c.NonTrivial(fmt.Sprintf("%#v", td), w, h)
		}

		c.Sample("%.300s", fmt.Sprintf("%#v", td))
	})
}

// Text as GIMP writes it.

// quote writes a string as GIMP does.
func quote(t *rapid.T, s string) string {
	var sb strings.Builder

	octal := rapid.IntRange(0, 3).Draw(t, "octal") == 0

	sb.WriteByte('"')

	for i := 0; i < len(s); i++ {
		switch ch := s[i]; {
		case ch == '"' || ch == '\\':
			sb.WriteByte('\\')
			sb.WriteByte(ch)
		case ch == '\n' && !octal:
			if rapid.IntRange(0, 1).Draw(t, "raw newline") == 0 {
				sb.WriteByte(ch)
			} else {
				sb.WriteString(`\n`)
			}
		case ch == '\t' && !octal:
			sb.WriteString(`\t`)
		case ch == '\r' && !octal:
			sb.WriteString(`\r`)
		case ch == '\b' && !octal:
			sb.WriteString(`\b`)
		case ch == '\f' && !octal:
			sb.WriteString(`\f`)
		case ch < ' ' || ch == 0x7f || octal && ch >= 0x80:
			fmt.Fprintf(&sb, `\%03o`, ch)
		default:
			sb.WriteByte(ch)
		}
	}

	sb.WriteByte('"')

	return sb.String()
}

var entities = map[rune]string{'<': "&lt;", '>': "&gt;", '&': "&amp;", '"': "&quot;", '\'': "&apos;"}

// escape writes text in markup.
func escape(t *rapid.T, s string) string {
	var sb strings.Builder

	numeric := rapid.IntRange(0, 3).Draw(t, "numeric")

	for _, r := range s {
		e, ok := entities[r]

		switch {
		case ok && numeric == 1:
			fmt.Fprintf(&sb, "&#%d;", r)
		case ok && numeric == 2, r == '\r':
			fmt.Fprintf(&sb, "&#x%x;", r)
		case ok:
			sb.WriteString(e)
		case r > 127 && numeric == 3:
			fmt.Fprintf(&sb, "&#x%X;", r)
		default:
			sb.WriteRune(r)
		}
	}

	return sb.String()
}

// markup draws a part of a marked text, and the characters it has.
func markup(t *rapid.T, s style, depth int) (string, []styled) {
	var (
		sb  strings.Builder
		out []styled
	)

	for n := rapid.IntRange(1, 3).Draw(t, "pieces"); n > 0; n-- {
		k := rapid.IntRange(0, 8).Draw(t, "piece")
		if depth == 0 {
			k = 0
		}

		in := s

		var open, shut string

		switch k {
		case 0, 1:
			x := strings.ReplaceAll(drawString(t, "text ", textWords), "\r\n", "\n")
			x = strings.ReplaceAll(x, "]]>", "")

			sb.WriteString(escape(t, x))

			for _, r := range x {
				out = append(out, styled{r, s})
			}

			continue
		case 2:
			open, shut, in.b = "<b>", "</b>", true
		case 3:
			open, shut, in.i = "<i>", "</i>", true
		case 4:
			open, shut, in.u = "<u>", "</u>", true
		case 5:
			open, shut, in.s = "<s>", "</s>", true
		case 6: // which changes nothing
			tag := rapid.SampledFrom([]string{"tt", "sub", "sup", "big", "small", "markup", "bb", "B"}).Draw(t, "tag")
			open, shut = "<"+tag+">", "</"+tag+">"
		default:
			open, shut = "<span", "</span>"

			q := rapid.SampledFrom([]string{"\"", "'"}).Draw(t, "quotes")
			attrs := rapid.Permutation([]string{"font", "foreground", "background", "size", "letter_spacing", "rise", "underline_color"}).Draw(t, "attributes")

			for _, a := range attrs[:rapid.IntRange(0, 3).Draw(t, "number of attributes")] {
				var v string

				num := func(p *uint32) string {
					if rapid.IntRange(0, 7).Draw(t, "named") == 0 { // as it was
						return rapid.SampledFrom([]string{"small", "x-large", "larger", "", "medium"}).Draw(t, "name")
					}

					*p = rapid.OneOf(rapid.Uint32Range(0, 300), rapid.SampledFrom(sizes)).Draw(t, "value")

					return fmt.Sprint(uint64(*p) * 1024)
				}

				rgb := func(p *lcolor.RGB) string {
					if rapid.IntRange(0, 7).Draw(t, "named") == 0 { // as it was
						return rapid.SampledFrom([]string{"red", "blue", "DarkRed", "tan", "", "khaki", "crimson", "fade", "a0b1c2d"}).Draw(t, "name")
					}

					x := rapid.Uint32().Draw(t, "colour")
					*p = lcolor.RGB{R: uint8(x), G: uint8(x >> 8), B: uint8(x >> 16)}

					if rapid.IntRange(0, 3).Draw(t, "short") == 0 {
						*p = lcolor.RGB{R: uint8(x) % 16 * 17, G: uint8(x>>8) % 16 * 17, B: uint8(x>>16) % 16 * 17}

						return fmt.Sprintf("#%x%x%x", p.R/17, p.G/17, p.B/17)
					}

					if x>>31 == 0 {
						return fmt.Sprintf("#%02x%02x%02x", p.R, p.G, p.B)
					}

					return fmt.Sprintf("#%02X%02X%02X", p.R, p.G, p.B)
				}

				switch a {
				case "font":
					in.font = rapid.SampledFrom([]string{"Serif", "DejaVu Sans Bold", "日本", "A & B", "x"}).Draw(t, "font")
					v = escape(t, in.font)
				case "foreground":
					v = rgb(&in.fore)
				case "background":
					if v = rgb(&in.back); strings.HasPrefix(v, "#") {
						in.hasBack = true
					}
				case "size":
					v = num(&in.size)
				case "letter_spacing":
					v = num(&in.spacing)
				case "rise":
					v = num(&in.rise)
				default:
					v = "#123456"
				}

				open += " " + a + "=" + q + v + q
			}

			open += ">"
		}

		x, o := markup(t, in, depth-1)

		sb.WriteString(open + x + shut)

		out = append(out, o...)
	}

	return sb.String(), out
}

// gimpText draws text as GIMP writes it, and says what it is.
func gimpText(t *rapid.T, c *vt.Case) (string, []styled) {
	s := style{}

	var (
		tags []string
		want []styled
	)

	spaces := []string{" ", " ", " ", "  ", "\n", "\n ", " \n"}
	sp := func() string { return rapid.SampledFrom(spaces).Draw(t, "space") }

	if rapid.IntRange(0, 4).Draw(t, "has font") != 0 {
		s.font = rapid.SampledFrom(fonts).Draw(t, "font")
		tags = append(tags, "(font"+sp()+quote(t, s.font)+")")
	}

	if rapid.IntRange(0, 4).Draw(t, "has size") != 0 {
		s.size = rapid.OneOf(rapid.Uint32Range(1, 300), rapid.SampledFrom(sizes)).Draw(t, "size")
		tags = append(tags, fmt.Sprintf("(font-size%s%s)", sp(), fmt.Sprintf(rapid.SampledFrom([]string{"%d", "%d.0", "%d.000000"}).Draw(t, "notation"), s.size)))
	}

	if rapid.IntRange(0, 4).Draw(t, "has color") != 0 {
		x := rapid.Uint32().Draw(t, "colour")
		s.fore = lcolor.RGB{R: uint8(x), G: uint8(x >> 8), B: uint8(x >> 16)}
		tags = append(tags, fmt.Sprintf("(color%s(color-rgb%s%f %.17f %.4f))", sp(), sp(), float64(s.fore.R)/255, float64(s.fore.G)/255, float64(s.fore.B)/255))
	}

	for _, x := range []string{"(font-size-unit pixels)", "(antialias yes)", "(language \"en\")", "(base-direction ltr)", "(justify left)", "(box-mode fixed)", "(box-width 123.456000)", "(box-height 45)", "(box-unit pixels)", "(hinting yes)", "(hint-style full)", "(kerning no)", "(indent -3.5)", "(line-spacing 0)", "(letter-spacing -0.000000)", "(transform matrix 1.0 0.0 0.0 1.0)", "(outline-dash-info)", "(color-space (profile \"x\" (icc 3)))"} {
		if rapid.IntRange(0, 2).Draw(t, "more") == 0 {
			tags = append(tags, x)
		}
	}

	if rapid.Bool().Draw(t, "marked") {
		m, o := markup(t, s, 3)
		want = o
		tags = append(tags, "(markup"+sp()+quote(t, "<markup>"+m+"</markup>")+")")

		c.Label("marked")
		c.LabelIf(strings.Contains(m, "<span"), "spans")
		c.LabelIf(strings.Contains(m, "&"), "entities")
	} else {
		x := drawString(t, "text ", append(append([]string{}, textWords...), plainWords...))

		for _, r := range x {
			want = append(want, styled{r, s})
		}

		tags = append(tags, "(text"+sp()+quote(t, x)+")")

		c.Label("plain")
	}

	tags = rapid.Permutation(tags).Draw(t, "order")

	var text string

	for _, x := range tags {
		text += x + rapid.SampledFrom([]string{"\n", "\n", "", " ", "\n\n"}).Draw(t, "between")
	}

	if rapid.IntRange(0, 3).Draw(t, "end") != 0 {
		text += "\x00"
	}

	return text, want
}

// textFile is a file with a layer of the text.
func textFile(t *rapid.T, text string) *xcfref.File {
	return &xcfref.File{
		Version: rapid.SampledFrom([]int{0, 3, 6, 11, 13}).Draw(t, "version"), W: 2, H: 1, Compression: 1, Precision: 150, Seed: uint64(rapid.Uint32().Draw(t, "layout")), Shuffle: true,
		Layers: []*xcfref.Layer{{Name: "t", W: 2, H: 1, Alpha: true, Opacity: 255, Pixels: []byte{1, 2, 3, 4, 5, 6, 7, 255}, HasText: true, Text: []byte(text)}},
	}
}

// TestC27_Gimp: text as GIMP writes it.
func TestC27_Gimp(t *testing.T) {
	vt.Check(t, 8000, 160000, func(t *rapid.T, c *vt.Case) {
		text, want := gimpText(t, c)

		f := textFile(t, text)
		b := f.Build()

		vt.Journal(b)

		got, err := decode(b)
		if err != nil {
			t.Fatalf("%v for %q", err, text)
		}

		all := texts(got)
		if len(all) != 1 {
			t.Fatalf("%d text layers, for %q", len(all), text)
		}

		if err := sameText(want, flatten(all[0].(limage.TextData))); err != nil {
			t.Fatalf("%v\nfor %q\ndecoded: %#v", err, text, all[0])
		}

		plain := *f.Layers[0]
		plain.HasText = false

		if err := cmp.Trees(xcfgen.Shows(&xcfref.File{W: 2, H: 1, Layers: []*xcfref.Layer{&plain}}), got, cmp.Want{Mode: kept, Masks: true, Clipped: true}); err != nil {
			t.Fatalf("for %q: %v", text, err)
		}

		if len(want) > 0 {
			c.NonTrivial(text)
		}

		c.Sample("%.400q", text)
	})
}
