package xcf

import (
	"bytes"
	"errors"
	"fmt"
	"image"
	"math"
	"testing"

	"limageverif/vt"
	"limageverif/xcfgen"
	"limageverif/xcfref"
	"pgregory.net/rapid"
	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/xcf"
)

// wrong is a way in which a number of a file can be wrong.
type wrong struct {
	what string
	// value draws the number to be written.
	value func(t *rapid.T, d *xcfgen.Drawn, was uint64) uint64
	err   error // or nil for any
	// config is whether it is seen in the configuration, too.
	config bool
}

func oneOf(vs ...uint64) func(*rapid.T, *xcfgen.Drawn, uint64) uint64 {
	return func(t *rapid.T, _ *xcfgen.Drawn, _ uint64) uint64 {
		return rapid.SampledFrom(vs).Draw(t, "value")
	}
}

func from(lo, hi uint64) func(*rapid.T, *xcfgen.Drawn, uint64) uint64 {
	return func(t *rapid.T, _ *xcfgen.Drawn, _ uint64) uint64 {
		switch rapid.IntRange(0, 3).Draw(t, "kind of value") {
		case 0:
			return lo
		case 1:
			return hi
		case 2:
			return min(hi, lo+uint64(rapid.IntRange(0, 16).Draw(t, "value")))
		}

		return rapid.Uint64Range(lo, hi).Draw(t, "value")
	}
}

// other draws a number that is not the one there was.
func other(hi uint64) func(*rapid.T, *xcfgen.Drawn, uint64) uint64 {
	return func(t *rapid.T, _ *xcfgen.Drawn, was uint64) uint64 {
		switch rapid.IntRange(0, 3).Draw(t, "kind of value") {
		case 0:
			if was < hi {
				return was + 1
			}

			return was - 1
		case 1:
			if was > 0 {
				return was - 1
			}

			return 1
		case 2:
			v := was ^ 1<<rapid.IntRange(0, 31).Draw(t, "bit")
			if v <= hi {
				return v
			}
		}

		v := rapid.Uint64Range(0, hi-1).Draw(t, "value")
		if v >= was {
			v++
		}

		return v
	}
}

func version(t *rapid.T, _ *xcfgen.Drawn, was uint64) uint64 {
	switch rapid.IntRange(0, 3).Draw(t, "kind of version") {
	case 0: // a number that there may be one day, or never was
		n := rapid.SampledFrom([]int{0, 29, 30, 99, 100, 131, 132, 999}).Draw(t, "version number")
		s := fmt.Sprintf("v%03d", n)

		return uint64(s[0])<<24 | uint64(s[1])<<16 | uint64(s[2])<<8 | uint64(s[3])
	case 1: // another letter
		s := rapid.SampledFrom([]string{"V001", "w003", "v0 1", "v01a", "File", "filE", "fil\x00", "\x00\x00\x00\x00", "v01\x00", "0011"}).Draw(t, "version text")

		return uint64(s[0])<<24 | uint64(s[1])<<16 | uint64(s[2])<<8 | uint64(s[3])
	}

	v := rapid.Uint64Range(0, math.MaxUint32).Draw(t, "version")
	if v>>24 == 'v' && v>>16&255 == '0' || v>>24 == 'f' {
		v ^= 1 << 31
	}

	return v
}

// far draws where there is nothing.
func far(t *rapid.T, d *xcfgen.Drawn, _ uint64) uint64 {
	const most = math.MaxUint32

	n := uint64(len(d.Build()))

	if d.Version >= 11 && rapid.Bool().Draw(t, "beyond 32 bits") {
		return rapid.SampledFrom([]uint64{1 << 32, 1<<32 + 64, 1 << 40, 1 << 62, math.MaxInt64 - 1, math.MaxInt64}).Draw(t, "position")
	}

	return rapid.SampledFrom([]uint64{n, n + 1, n + 4, 2 * n, 1 << 31, 1<<31 - 1, most}).Draw(t, "position")
}

func nan(t *rapid.T, _ *xcfgen.Drawn, _ uint64) uint64 {
	return uint64(math.Float32bits(rapid.SampledFrom([]float32{
		float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1)), -1, -0.001, 1.001, 2, 255, -math.MaxFloat32, math.SmallestNonzeroFloat32 * -1, math.Nextafter32(1, 2),
	}).Draw(t, "float")))
}

const most32 = math.MaxUint32

// pictures are the parts of files which hold pixels, and are used.
var wrongs = func() []wrong {
	ws := []wrong{
		{"magic", other(255), xcf.ErrInvalidFileTypeID, true},
		{"version", version, xcf.ErrUnsupportedVersion, true},
		{"header end", other(255), xcf.ErrInvalidHeader, true},
		{"base", from(3, most32), xcf.ErrInvalidBaseType, true},
		{"colors", from(257, most32), xcf.ErrInvalidPalette, true},
		{"compression", from(2, 255), xcf.ErrUnknownCompression, false},
		{"image properties end", from(1, most32), xcf.ErrInvalidProperties, false},
		{"layer properties end", from(1, most32), xcf.ErrInvalidProperties, false},
		{"mask properties end", from(1, most32), xcf.ErrInvalidProperties, false},
		{"opacity", from(256, most32), xcf.ErrInvalidOpacity, false},
		{"float opacity", nan, xcf.ErrInvalidOpacity, false},
		{"boolean", from(2, most32), xcf.ErrInvalidBoolean, false},
		{"path excess", oneOf(1, 2, 3), xcf.ErrInvalidItemPathLength, false},
		{"path", from(64, most32), xcf.ErrInvalidGroup, false},
		{"name terminator", from(1, 255), xcf.ErrInvalidString, false},
		{"name byte", oneOf(0xff, 0xfe, 0xc0, 0xc1, 0xf5, 0xf8), xcf.ErrInvalidString, false},
		{"name length", from(16<<20+1, most32), xcf.ErrStringTooLong, false},
		{"parasite length", from(1<<20, most32), xcf.ErrInvalidParasites, false},
		{"layer pointer", far, nil, false},
		{"layer pointer", from(1<<63, math.MaxUint64), xcf.ErrInvalidSeek, false},
		{"layer type", func(t *rapid.T, d *xcfgen.Drawn, _ uint64) uint64 {
			v := other(most32)(t, d, uint64(d.Base))
			if v>>1 == uint64(d.Base) {
				v += 2
			}

			return v & most32
		}, xcf.ErrInvalidLayerType, false},
	}

	for _, p := range []string{"picture", "mask"} {
		ws = append(ws, []wrong{
			{p + " size", other(most32), xcf.ErrInconsistantData, false},
			{p + " bytes per pixel", other(most32), xcf.ErrInconsistantData, false},
			{p + " end", from(1, most32), xcf.ErrInconsistantData, false},
			{p + " pointer", far, nil, false},
			{p + " pointer", from(1<<63, math.MaxUint64), xcf.ErrInvalidSeek, false},
			{p + " excess", from(1, 2000), xcf.ErrInvalidRLE, false},
		}...)
	}

	return ws
}()

// others are the ways in which a whole file can contradict itself.
var others = []struct {
	what   string
	damage func(t *rapid.T, d *xcfgen.Drawn) bool
	err    error
	config bool
}{
	{"color not in the palette", func(t *rapid.T, d *xcfgen.Drawn) bool {
		if d.Base != xcfref.Indexed || len(d.Colormap) == 256 {
			return false
		}

		l := pick(t, d, func(l *xcfref.Layer) bool { return !l.IsGroup && len(l.Pixels) > 0 })
		if l == nil {
			return false
		}

		bpp := xcfref.BPP(d.Base, l.Alpha)
		i := rapid.IntRange(0, len(l.Pixels)/bpp-1).Draw(t, "pixel")
		l.Pixels[i*bpp] = uint8(rapid.SampledFrom([]int{len(d.Colormap), 255, rapid.IntRange(len(d.Colormap), 255).Draw(t, "color")}).Draw(t, "which color"))

		return true
	}, xcf.ErrInvalidPalette, false},
	{"no palette", func(t *rapid.T, d *xcfgen.Drawn) bool {
		d.NoColormap = true

		return d.Base == xcfref.Indexed
	}, xcf.ErrInvalidPalette, true},
	{"empty palette", func(t *rapid.T, d *xcfgen.Drawn) bool {
		d.Colormap = nil

		return d.Base == xcfref.Indexed
	}, xcf.ErrInvalidPalette, true},
	{"too many colors", func(t *rapid.T, d *xcfgen.Drawn) bool {
		for n := rapid.IntRange(257, 300).Draw(t, "colors"); len(d.Colormap) < n; {
			d.Colormap = append(d.Colormap, [3]uint8{1, 2, 3})
		}

		return d.Base == xcfref.Indexed
	}, xcf.ErrInvalidPalette, true},
	{"mask of another size", func(t *rapid.T, d *xcfgen.Drawn) bool {
		l := pick(t, d, func(l *xcfref.Layer) bool { return l.Mask != nil && l.ApplyMask != 2 })
		if l == nil {
			return false
		}

		m := *l.Mask
		l.Mask = &m

		if rapid.Bool().Draw(t, "turned") && m.W != m.H {
			m.W, m.H = m.H, m.W
		} else if by := uint32(rapid.IntRange(1, 70).Draw(t, "size by")); rapid.Bool().Draw(t, "wider") {
			m.W += by
		} else {
			m.H += by
		}

		for m.Pixels = m.Pixels[:len(m.Pixels):len(m.Pixels)]; len(m.Pixels) < int(m.W*m.H); {
			m.Pixels = append(m.Pixels, 9)
		}

		l.Mask.W, l.Mask.H, l.Mask.Pixels = m.W, m.H, m.Pixels[:m.W*m.H]

		return true
	}, xcf.ErrInconsistantData, false},
	{"layers in one that is not a group", func(t *rapid.T, d *xcfgen.Drawn) bool {
		l := pick(t, d, func(l *xcfref.Layer) bool { return l.IsGroup && len(l.Items) > 0 })
		if l == nil {
			return false
		}

		l.IsGroup = false

		return true
	}, xcf.ErrInvalidGroup, false},
	{"layer without alpha above another", func(t *rapid.T, d *xcfgen.Drawn) bool {
		var last *xcfref.Layer

		pick(t, d, func(l *xcfref.Layer) bool {
			last = l

			return false
		})

		l := pick(t, d, func(l *xcfref.Layer) bool { return l != last && l.Alpha })
		if l == nil {
			return false
		}

		bpp := xcfref.BPP(d.Base, true)

		var px []byte

		for i := 0; i < len(l.Pixels); i += bpp {
			px = append(px, l.Pixels[i:i+bpp-1]...)
		}

		l.Alpha, l.Pixels = false, px

		return true
	}, xcf.ErrMissingAlpha, false},
	{"opacity of a mask", func(t *rapid.T, d *xcfgen.Drawn) bool {
		l := pick(t, d, func(l *xcfref.Layer) bool { return l.Mask != nil && l.ApplyMask != 2 })
		if l == nil {
			return false
		}

		m := *l.Mask
		o := xcfref.U32(uint32(from(256, most32)(t, d, 0)))
		n := rapid.IntRange(0, len(m.Extra)).Draw(t, "position")
		m.Extra = append(append(append([]xcfref.Prop{}, m.Extra[:n]...), xcfref.Prop{ID: xcfref.PropOpacity, Data: o}), m.Extra[n:]...)
		l.Mask = &m

		return true
	}, xcf.ErrInvalidOpacity, false},
	{"the same color in all pixels, and not in the palette", func(t *rapid.T, d *xcfgen.Drawn) bool {
		l := pick(t, d, func(l *xcfref.Layer) bool { return !l.IsGroup && len(l.Pixels) > 0 })
		if d.Base != xcfref.Indexed || len(d.Colormap) == 256 || l == nil {
			return false
		}

		for i := 0; i < len(l.Pixels); i += xcfref.BPP(d.Base, l.Alpha) {
			l.Pixels[i] = uint8(len(d.Colormap))
		}

		return true
	}, xcf.ErrInvalidPalette, false},
}

// pick draws one of the layers.
func pick(t *rapid.T, d *xcfgen.Drawn, ok func(*xcfref.Layer) bool) *xcfref.Layer {
	var (
		ls   []*xcfref.Layer
		walk func([]*xcfref.Layer)
	)

	walk = func(in []*xcfref.Layer) {
		for _, l := range in {
			if ok(l) {
				ls = append(ls, l)
			}

			walk(l.Items)
		}
	}

	walk(d.Layers)

	if len(ls) == 0 {
		return nil
	}

	return ls[rapid.IntRange(0, len(ls)-1).Draw(t, "which layer")]
}

// TestC33_Invalid: a file that is wrong in one place is rejected, with the
// error there is for that.
func TestC33_Invalid(t *testing.T) {
	vt.Check(t, 6000, 200000, func(t *rapid.T, c *vt.Case) {
		o := foreign
		o.Large = 150
		o.MinLayers = 1
		d := xcfgen.Draw(t, o)

		// How often is each number there?
		count := map[string]int{}

		d.Tamper = func(what string, v uint64) uint64 {
			count[what]++

			return v
		}

		good := d.Build()
		if _, err := decode(good); err != nil {
			t.Fatalf("VERIF-HARNESS not valid before: %v\nfile: %s", err, xcfgen.Describe(d.File))
		}

		d.Tamper = nil

		var possible []int

		for i, w := range wrongs {
			// Before version 11 there is no pointer which is too large.
			if count[w.what] > 0 && (w.err != xcf.ErrInvalidSeek || d.Version >= 11) {
				possible = append(possible, i)
			}
		}

		what, want, config := "", error(nil), false

		if i := rapid.IntRange(-1, len(others)-1).Draw(t, "contradiction"); i >= 0 && rapid.IntRange(0, 2).Draw(t, "kind of damage") == 0 && others[i].damage(t, d) {
			what, want, config = others[i].what, others[i].err, others[i].config
		} else {
			w := wrongs[possible[rapid.IntRange(0, len(possible)-1).Draw(t, "what")]]
			n := rapid.IntRange(0, count[w.what]-1).Draw(t, "which")
			at := fmt.Sprintf("%s (number %d of %d)", w.what, n+1, count[w.what])
			plain := *d
			file := *d.File
			file.NoColormap = false
			plain.File = &file
			what, want, config = at, w.err, w.config

			d.Tamper = func(k string, v uint64) uint64 {
				if k != w.what {
					return v
				}

				if n--; n != -1 {
					return v
				}

				to := w.value(t, &plain, v)
				what = fmt.Sprintf("%s, %d became %d", at, v, to)

				return to
			}
		}

		b := d.Build()

		vt.Journal(b)

		for name, fn := range map[string]func([]byte) (limage.Image, error){"Decode": decode, "DecodeCompressed": decodeCompressed, "image.Decode": func(b []byte) (limage.Image, error) {
			if want == xcf.ErrInvalidFileTypeID { // of no format
				return nil, want
			}

			m, _, err := image.Decode(bytes.NewReader(b))
			if li, ok := m.(limage.Image); ok {
				return li, err
			}

			return nil, err
		}} {
			m, err := fn(b)
			if errors.Is(err, errPanic) {
				t.Fatalf("%s: %v\nwrong: %s\nfile: %s", name, err, what, xcfgen.Describe(d.File))
			}

			if err == nil {
				t.Fatalf("%s: no error, but an image of %v\nwrong: %s\nfile: %s", name, m.Bounds(), what, xcfgen.Describe(d.File))
			}

			if m != nil {
				t.Fatalf("%s: an image and the error %v\nwrong: %s\nfile: %s", name, err, what, xcfgen.Describe(d.File))
			}

			if want != nil && !errors.Is(err, want) {
				t.Fatalf("%s: error %q instead of %q\nwrong: %s\nfile: %s", name, err, want, what, xcfgen.Describe(d.File))
			}
		}

		if config {
			if _, err := xcf.DecodeConfig(bytes.NewReader(b)); !errors.Is(err, want) {
				t.Fatalf("DecodeConfig: error %v instead of %q\nwrong: %s\nfile: %s", err, want, what, xcfgen.Describe(d.File))
			}
		}

		c.Label(want2label(want))
		c.NonTrivial(what, d.Key())
		c.Sample("%s: %s", what, xcfgen.Describe(d.File))
	})
}

func want2label(err error) string {
	if err == nil {
		return "any error"
	}

	return err.Error()
}
